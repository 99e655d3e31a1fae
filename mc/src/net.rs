//! The controlled three-party network.  Every send and every receive of the code under test goes
//! through [`McNetwork`], which implements the repository's own `NetworkTrait`.  The checker owns
//! the links: their capacity, what is on them, what a corrupted party does to its messages, and
//! (in controlled mode) which party performs its next network operation.
use bytes::{Bytes, BytesMut};
use iris_mpc::prelude::NetworkTrait;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// Operations complete as soon as they are possible.
    Fast,
    /// Every operation waits until the explorer grants it.
    Controlled,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Send(usize, usize),
    Recv(usize, usize),
}

/// What is done to one message on its way (the misbehaviour of its sender).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Action {
    FlipBit(usize),
    AddByte(usize, u8),
    Zero,
    Ones,
    Truncate(usize),
    Extend(usize),
    Empty,
    Drop,
    Duplicate,
    Replace(Vec<u8>),
    /// Bits to flip.
    Mask(Vec<u8>),
}

impl Action {
    /// The list of messages delivered instead of `m`.
    pub fn apply(&self, m: &Bytes) -> Vec<Bytes> {
        let mut v = m.to_vec();
        match self {
            Action::FlipBit(i) => {
                if v.is_empty() {
                    v.push(1)
                } else {
                    let n = v.len() * 8;
                    let i = i % n;
                    v[i / 8] ^= 1 << (i % 8);
                }
            }
            Action::AddByte(i, d) => {
                if v.is_empty() {
                    v.push(*d)
                } else {
                    let n = v.len();
                    v[i % n] = v[i % n].wrapping_add(*d);
                }
            }
            Action::Zero => v.iter_mut().for_each(|x| *x = 0),
            Action::Ones => v.iter_mut().for_each(|x| *x = 0xff),
            Action::Truncate(n) => {
                let k = v.len().saturating_sub(*n);
                v.truncate(k)
            }
            Action::Extend(n) => v.extend(std::iter::repeat(0u8).take(*n)),
            Action::Empty => v.clear(),
            Action::Drop => return vec![],
            Action::Duplicate => return vec![m.clone(), m.clone()],
            Action::Replace(r) => v = r.clone(),
            Action::Mask(r) => v.iter_mut().zip(r).for_each(|(a, b)| *a ^= b),
        }
        vec![Bytes::from(v)]
    }
}

thread_local! {
    /// Messages altered so far in this thread (see `exec::entropy_changing_after`).
    pub static TAMPERED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

#[derive(Default)]
pub struct Link {
    pub q: VecDeque<Bytes>,
    pub sent: usize,
    pub tx_closed: bool,
    pub rx_closed: bool,
}

pub struct Inner {
    pub mode: Mode,
    pub cap: usize,
    pub links: [[Link; 3]; 3],
    pub granted: Option<usize>,
    pub pending: [Option<Op>; 3],
    /// Rolling 128-bit history of each party: everything it sent and received, in its own order.
    pub hist: [u128; 3],
    pub ops: [usize; 3],
    pub progress: u64,
    /// (from, to, index on that link) -> what happens to the message.
    pub tamper: BTreeMap<(usize, usize, usize), Action>,
    pub tampered: usize,
    /// Party -> number of network operations after which it is gone.
    pub crash: [Option<usize>; 3],
    pub crashed: [bool; 3],
    /// When true, sending to a party that is gone fails; otherwise it is swallowed.
    pub send_to_closed_fails: bool,
    pub record: bool,
    /// All messages put on the links, in order: (from, to, index, bytes).
    pub log: Vec<(usize, usize, usize, Bytes)>,
    pub bytes: u64,
    pub max_queue: usize,
    /// Set when the world is declared stuck: receives on empty links fail.
    pub drained: bool,
}

fn mix(h: &mut u128, x: u128) {
    *h ^= x.wrapping_add(0x9E3779B97F4A7C15F39CC0605CEDC835);
    *h = h.wrapping_mul(0x2360ED051FC65DA44385DF649FCCF645);
    *h ^= *h >> 67;
}
pub fn hash_bytes(h: &mut u128, b: &[u8]) {
    mix(h, b.len() as u128);
    for c in b.chunks(16) {
        let mut a = [0u8; 16];
        a[..c.len()].copy_from_slice(c);
        mix(h, u128::from_le_bytes(a));
    }
}

impl Inner {
    pub fn enabled(&self, op: Op) -> bool {
        match op {
            Op::Send(f, t) => {
                let l = &self.links[f][t];
                l.rx_closed || l.q.len() < self.cap
            }
            Op::Recv(t, f) => {
                let l = &self.links[f][t];
                !l.q.is_empty() || l.tx_closed || self.drained
            }
        }
    }
    fn count_op(&mut self, me: usize) -> bool {
        if let Some(n) = self.crash[me] {
            if self.ops[me] >= n {
                self.crashed[me] = true;
                return false;
            }
        }
        self.ops[me] += 1;
        self.progress += 1;
        true
    }
    fn do_send(&mut self, f: usize, t: usize, data: Bytes) -> io::Result<()> {
        let idx = self.links[f][t].sent;
        self.links[f][t].sent += 1;
        mix(&mut self.hist[f], 1 + t as u128);
        hash_bytes(&mut self.hist[f], &data);
        if self.record {
            self.log.push((f, t, idx, data.clone()));
        }
        self.bytes += data.len() as u64;
        if self.links[f][t].rx_closed {
            if self.send_to_closed_fails {
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "peer is gone"));
            }
            return Ok(());
        }
        match self.tamper.get(&(f, t, idx)) {
            Some(a) => {
                let out = a.apply(&data);
                if out.len() != 1 || out[0] != data {
                    self.tampered += 1;
                    TAMPERED.with(|c| c.set(c.get() + 1));
                }
                self.links[f][t].q.extend(out);
            }
            None => self.links[f][t].q.push_back(data),
        }
        self.max_queue = self.max_queue.max(self.links[f][t].q.len());
        Ok(())
    }
    fn do_recv(&mut self, me: usize, f: usize) -> io::Result<BytesMut> {
        match self.links[f][me].q.pop_front() {
            Some(m) => {
                mix(&mut self.hist[me], 11 + f as u128);
                hash_bytes(&mut self.hist[me], &m);
                Ok(BytesMut::from(m.as_ref()))
            }
            None => {
                mix(&mut self.hist[me], 17 + f as u128);
                Err(io::Error::new(io::ErrorKind::BrokenPipe, "closed pipe"))
            }
        }
    }
    pub fn close_party(&mut self, me: usize) {
        for o in 0..3 {
            if o != me {
                self.links[me][o].tx_closed = true;
                self.links[o][me].rx_closed = true;
            }
        }
        self.progress += 1;
    }
    pub fn state_key(&self) -> u128 {
        let mut h = 0u128;
        for i in 0..3 {
            mix(&mut h, self.hist[i]);
            mix(&mut h, self.ops[i] as u128);
        }
        for f in 0..3 {
            for t in 0..3 {
                if f != t {
                    mix(&mut h, self.links[f][t].q.len() as u128);
                    mix(&mut h, self.links[f][t].tx_closed as u128 * 2 + self.links[f][t].rx_closed as u128);
                }
            }
        }
        h
    }
}

#[derive(Clone)]
pub struct World(pub Rc<RefCell<Inner>>);

impl World {
    pub fn new(mode: Mode, cap: usize) -> Self {
        World(Rc::new(RefCell::new(Inner {
            mode,
            cap,
            links: Default::default(),
            granted: None,
            pending: [None; 3],
            hist: [1, 2, 3],
            ops: [0; 3],
            progress: 0,
            tamper: BTreeMap::new(),
            tampered: 0,
            crash: [None; 3],
            crashed: [false; 3],
            send_to_closed_fails: false,
            record: false,
            log: Vec::new(),
            bytes: 0,
            max_queue: 0,
            drained: false,
        })))
    }
    pub fn net(&self, id: usize) -> McNetwork {
        McNetwork { id, w: self.clone() }
    }
}

pub struct McNetwork {
    id: usize,
    w: World,
}

impl Drop for McNetwork {
    fn drop(&mut self) {
        if let Ok(mut i) = self.w.0.try_borrow_mut() {
            i.close_party(self.id);
        }
    }
}

struct OpFut {
    w: World,
    me: usize,
    op: Op,
    data: Option<Bytes>,
}

enum OpOut {
    Sent,
    Got(BytesMut),
}

impl Future for OpFut {
    type Output = io::Result<OpOut>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        let w = self.w.clone();
        let mut i = w.0.borrow_mut();
        let me = self.me;
        if i.crashed[me] {
            return Poll::Pending;
        }
        let go = match i.mode {
            Mode::Fast => i.enabled(self.op),
            Mode::Controlled => {
                if i.granted == Some(me) {
                    i.granted = None;
                    true
                } else {
                    false
                }
            }
        };
        if !go {
            i.pending[me] = Some(self.op);
            return Poll::Pending;
        }
        i.pending[me] = None;
        if !i.count_op(me) {
            return Poll::Pending;
        }
        match self.op {
            Op::Send(f, t) => {
                let d = self.data.take().expect("data present");
                Poll::Ready(i.do_send(f, t, d).map(|_| OpOut::Sent))
            }
            Op::Recv(t, f) => Poll::Ready(i.do_recv(t, f).map(OpOut::Got)),
        }
    }
}

impl McNetwork {
    fn next(&self) -> usize {
        (self.id + 1) % 3
    }
    fn prev(&self) -> usize {
        (self.id + 2) % 3
    }
    async fn op_send(&self, to: usize, data: Bytes) -> io::Result<()> {
        OpFut { w: self.w.clone(), me: self.id, op: Op::Send(self.id, to), data: Some(data) }.await.map(|_| ())
    }
    async fn op_recv(&self, from: usize) -> io::Result<BytesMut> {
        match (OpFut { w: self.w.clone(), me: self.id, op: Op::Recv(self.id, from), data: None }).await? {
            OpOut::Got(b) => Ok(b),
            OpOut::Sent => unreachable!(),
        }
    }
}

impl NetworkTrait for McNetwork {
    fn get_id(&self) -> usize {
        self.id
    }
    fn get_num_parties(&self) -> usize {
        3
    }
    fn print_connection_stats(&self, _out: &mut impl io::Write) -> io::Result<()> {
        Ok(())
    }
    async fn shutdown(self) -> io::Result<()> {
        Ok(())
    }
    async fn send(&mut self, id: usize, data: Bytes) -> io::Result<()> {
        if id == self.id || id > 2 {
            return Err(io::Error::new(io::ErrorKind::Other, "Invalid ID"));
        }
        self.op_send(id, data).await
    }
    async fn send_next_id(&mut self, data: Bytes) -> io::Result<()> {
        self.op_send(self.next(), data).await
    }
    async fn send_prev_id(&mut self, data: Bytes) -> io::Result<()> {
        self.op_send(self.prev(), data).await
    }
    async fn receive(&mut self, id: usize) -> io::Result<BytesMut> {
        if id == self.id || id > 2 {
            return Err(io::Error::new(io::ErrorKind::Other, "Invalid ID"));
        }
        self.op_recv(id).await
    }
    async fn receive_prev_id(&mut self) -> io::Result<BytesMut> {
        self.op_recv(self.prev()).await
    }
    async fn receive_next_id(&mut self) -> io::Result<BytesMut> {
        self.op_recv(self.next()).await
    }
    async fn broadcast(&mut self, data: Bytes) -> io::Result<Vec<BytesMut>> {
        let mut result = Vec::with_capacity(3);
        for id in 0..3 {
            if id != self.id {
                self.op_send(id, data.clone()).await?;
            }
        }
        for id in 0..3 {
            if id == self.id {
                result.push(BytesMut::from(data.as_ref()));
            } else {
                result.push(self.op_recv(id).await?);
            }
        }
        Ok(result)
    }
}
