//! P15: a managed channel under every order of queued jobs, dropped results, I/O progress and closing.
use bytes::{Bytes, BytesMut};
use mc::report::*;
use mpc_net::channel::{BytesChannel, Channel, ChannelHandle};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::runtime::Runtime;
use tokio::sync::oneshot;
use tokio_util::codec::LengthDelimitedCodec;

/// One direction: bytes get through up to `allowed`; `cut` ends it at once for both ends.
#[derive(Default)]
struct Link {
    bytes: Vec<u8>,
    allowed: usize,
    taken: usize,
    ended: bool,
    cut: bool,
    events: u64,
    wakers: Vec<Waker>,
}
type L = Arc<Mutex<Link>>;
fn wake(l: &L) {
    let w = std::mem::take(&mut l.lock().unwrap().wakers);
    w.into_iter().for_each(|w| w.wake());
}
struct R(L);
struct W(L);
impl AsyncRead for R {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut l = self.0.lock().unwrap();
        if l.taken == l.bytes.len() {
            if l.cut || l.ended {
                l.events += 1;
                return Poll::Ready(Ok(()));
            }
            l.wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.remaining().min(l.bytes.len() - l.taken);
        let t = l.taken;
        buf.put_slice(&l.bytes[t..t + n]);
        l.taken += n;
        l.events += 1;
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for W {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let n;
        {
            let mut l = self.0.lock().unwrap();
            if l.cut {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            n = buf.len().min(l.allowed - l.bytes.len());
            if n == 0 && !buf.is_empty() {
                l.wakers.push(cx.waker().clone());
                return Poll::Pending;
            }
            l.bytes.extend_from_slice(&buf[..n]);
            l.events += 1;
        }
        wake(&self.0);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.lock().unwrap().ended = true;
        wake(&self.0);
        Poll::Ready(Ok(()))
    }
}
impl Drop for W {
    fn drop(&mut self) {
        self.0.lock().unwrap().ended = true;
        wake(&self.0);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    /// queue a send, queue a receive
    S,
    R,
    /// let half a frame of the own sends through
    W,
    /// drop the result of the oldest unfinished send, receive
    Ds,
    Dr,
    /// drop the handle
    X,
    /// cut the own outgoing direction
    K,
}
const ALL: [A; 7] = [A::S, A::R, A::W, A::Ds, A::Dr, A::X, A::K];
type Act = (usize, A);

fn msg(side: usize, i: usize) -> Vec<u8> {
    let mut v = vec![0u8; [0, 2, 1][i % 3]];
    if i % 3 != 0 {
        let n = v.len();
        v[n - 1] = (side * 128 + i) as u8;
    }
    v
}
fn end(side: usize, i: usize) -> usize {
    (0..=i).map(|j| 4 + msg(side, j).len()).sum()
}

type Handle = ChannelHandle<Bytes, BytesMut>;
enum Res<T> {
    Open(oneshot::Receiver<io::Result<T>>),
    Dropped,
    Ok(T),
    Err,
}
impl<T> Res<T> {
    fn look(&mut self) -> Result<(), String> {
        if let Res::Open(r) = self {
            match r.try_recv() {
                Ok(Ok(x)) => *self = Res::Ok(x),
                Ok(Err(_)) => *self = Res::Err,
                Err(oneshot::error::TryRecvError::Empty) => {}
                Err(oneshot::error::TryRecvError::Closed) => return Err("a job vanished without a result".into()),
            }
        }
        Ok(())
    }
}
struct Side {
    h: Option<Handle>,
    sends: Vec<Res<()>>,
    recvs: Vec<Res<BytesMut>>,
}
struct World {
    rt: Runtime,
    links: [L; 2],
    sides: [Side; 2],
    blocking: bool,
    /// let the tasks run only when something is cut, and at the end
    lazy: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Async,
    Blocking,
    Lazy,
}
impl World {
    fn new(mode: Mode) -> World {
        let (blocking, lazy) = (mode == Mode::Blocking, mode == Mode::Lazy);
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let links: [L; 2] = [Default::default(), Default::default()];
        let sides = [0, 1].map(|s| {
            let c: BytesChannel<R, W> = Channel::new::<Bytes>(R(links[1 - s].clone()), W(links[s].clone()), LengthDelimitedCodec::new());
            let _g = rt.enter();
            Side { h: Some(ChannelHandle::manage(c)), sends: vec![], recvs: vec![] }
        });
        World { rt, links, sides, blocking, lazy }
    }
    fn events(&self) -> u64 {
        self.links.iter().map(|l| l.lock().unwrap().events).sum()
    }
    fn settle(&self) {
        self.rt.block_on(async {
            loop {
                let e = self.events();
                for _ in 0..8 {
                    tokio::task::yield_now().await;
                }
                if self.events() == e {
                    return;
                }
            }
        });
    }
    fn enabled(&self, s: usize, a: A) -> bool {
        let d = &self.sides[s];
        let l = self.links[s].lock().unwrap();
        match a {
            A::S => d.h.is_some() && d.sends.len() < 8,
            A::R => d.h.is_some() && d.recvs.len() < 8,
            A::W => !l.cut && !d.sends.is_empty() && l.allowed < end(s, d.sends.len() - 1),
            A::Ds => d.sends.iter().any(|x| matches!(x, Res::Open(_))),
            A::Dr => d.recvs.iter().any(|x| matches!(x, Res::Open(_))),
            A::X => d.h.is_some(),
            A::K => !l.cut,
        }
    }
    fn act(&mut self, (s, a): Act) {
        let link = self.links[s].clone();
        if self.lazy && a == A::K {
            self.settle();
        }
        let d = &mut self.sides[s];
        match a {
            A::S => {
                let m = Bytes::from(msg(s, d.sends.len()));
                let h = d.h.as_mut().unwrap();
                d.sends.push(Res::Open(if self.blocking { h.blocking_send(m) } else { self.rt.block_on(h.send(m)) }));
            }
            A::R => {
                let h = d.h.as_mut().unwrap();
                d.recvs.push(Res::Open(if self.blocking { h.blocking_recv() } else { self.rt.block_on(h.recv()) }));
            }
            A::W => {
                let mut l = link.lock().unwrap();
                let i = (0..).find(|i| end(s, *i) > l.allowed).unwrap();
                let e = end(s, i);
                let half = e - (4 + msg(s, i).len()) + if s == 0 { 2 } else { 4 };
                l.allowed = if l.allowed < half { half } else { e };
                drop(l);
                wake(&link);
            }
            A::Ds => *d.sends.iter_mut().find(|x| matches!(x, Res::Open(_))).unwrap() = Res::Dropped,
            A::Dr => *d.recvs.iter_mut().find(|x| matches!(x, Res::Open(_))).unwrap() = Res::Dropped,
            A::X => d.h = None,
            A::K => {
                link.lock().unwrap().cut = true;
                wake(&link);
            }
        }
        if !self.lazy || a == A::K {
            self.settle();
        }
    }
    /// What every job must look like now.
    fn judge(&mut self) -> Result<(), String> {
        for s in 0..2 {
            let (allowed, cut) = { let l = self.links[s].lock().unwrap(); (l.allowed, l.cut) };
            for i in 0..self.sides[s].sends.len() {
                let x = &mut self.sides[s].sends[i];
                x.look().map_err(|e| format!("send {i} of end {s}: {e}"))?;
                let through = end(s, i) <= allowed;
                match x {
                    Res::Dropped => {}
                    Res::Ok(()) if through => {}
                    Res::Err if !through && cut => {}
                    Res::Open(_) if !through && !cut => {}
                    Res::Ok(()) => return Err(format!("send {i} of end {s} is reported done, but its bytes are not through")),
                    Res::Err => return Err(format!("send {i} of end {s} fails, though {}", if through { "it is through" } else { "the peer is there" })),
                    Res::Open(_) => return Err(format!("send {i} of end {s} gets no result, though {}", if through { "its bytes are through" } else { "the connection is gone" })),
                }
            }
            // what end 1-s receives
            let queued = self.sides[s].sends.len();
            let complete = (0..queued).filter(|i| end(s, *i) <= allowed).count();
            let over = cut || (self.sides[s].h.is_none() && complete == queued);
            for j in 0..self.sides[1 - s].recvs.len() {
                let x = &mut self.sides[1 - s].recvs[j];
                x.look().map_err(|e| format!("receive {j} of end {}: {e}", 1 - s))?;
                let t = 1 - s;
                match x {
                    Res::Dropped => {}
                    Res::Ok(b) if j < complete && b[..] == msg(s, j)[..] => {}
                    Res::Err if j >= complete && over => {}
                    Res::Open(_) if j >= complete && !over => {}
                    Res::Ok(b) => return Err(format!("receive {j} of end {t} gets {:?}; {complete} messages have arrived in full and message {j} is {:?}", &b[..], msg(s, j))),
                    Res::Err => return Err(format!("receive {j} of end {t} fails, though {}", if j < complete { "its message has arrived" } else { "the peer is still there" })),
                    Res::Open(_) => return Err(format!("receive {j} of end {t} waits, though {}", if j < complete { "its message has arrived" } else { "the peer has closed" })),
                }
            }
        }
        Ok(())
    }
    /// Everything that can still go through does; then one end closes, then the other.
    fn finish(&mut self, first: usize) -> Result<(), String> {
        self.settle();
        self.lazy = false;
        self.judge()?;
        for s in 0..2 {
            self.links[s].lock().unwrap().allowed += if self.links_cut(s) { 0 } else { 1000 };
            let l = self.links[s].clone();
            wake(&l);
        }
        self.settle();
        self.judge().map_err(|e| format!("with everything let through: {e}"))?;
        for s in [first, 1 - first] {
            if self.sides[s].h.is_some() {
                self.act((s, A::X));
                self.judge().map_err(|e| format!("with end {s} closed: {e}"))?;
            }
            if self.sides[1 - s].h.is_some() {
                for _ in 0..2 {
                    self.act((1 - s, A::R));
                    self.judge().map_err(|e| format!("with end {s} closed and one more receive: {e}"))?;
                }
            }
        }
        for (s, d) in self.sides.iter().enumerate() {
            if d.recvs.iter().any(|x| matches!(x, Res::Open(_))) || d.sends.iter().any(|x| matches!(x, Res::Open(_))) {
                return Err(format!("end {s} has jobs without a result after everything is closed"));
            }
        }
        Ok(())
    }
    fn links_cut(&self, s: usize) -> bool {
        // the lock is not held by the caller at this point
        self.links[s].try_lock().map(|l| l.cut).unwrap_or(false)
    }
}
fn run(rep: &Report, hist: &[Act], mode: Mode, last: usize) -> Result<Vec<Act>, String> {
    beat();
    rep.add("schedules", 1);
    let mut w = World::new(mode);
    for (i, a) in hist.iter().enumerate() {
        w.act(*a);
        rep.add("transitions", 1);
        if i + 1 == hist.len() && mode != Mode::Lazy {
            w.judge().map_err(|e| format!("after {hist:?} ({mode:?}): {e}"))?;
        }
    }
    let next = (0..2).flat_map(|s| ALL.map(|a| (s, a))).filter(|(s, a)| w.enabled(*s, *a)).collect();
    w.finish(last).map_err(|e| format!("after {hist:?} ({mode:?}), {e}"))?;
    Ok(next)
}
fn explore(rep: &Report, hist: &mut Vec<Act>, depth: usize, mode: Mode) -> Result<(), String> {
    let next = run(rep, hist, mode, hist.len() % 2)?;
    if hist.len() == depth {
        return Ok(());
    }
    for a in next {
        // the two ends are alike: the first action is end 0's
        if hist.is_empty() && a.0 == 1 {
            continue;
        }
        hist.push(a);
        explore(rep, hist, depth, mode)?;
        hist.pop();
    }
    Ok(())
}
/// Longer than the job queues: the callers have to wait in send and recv themselves.
fn burst(rep: &Report, sends: usize, recvs: usize, pace: usize, drops: usize, back: bool) -> Result<(), String> {
    rep.add("schedules", 1);
    let mut w = World::new(Mode::Async);
    let l = w.links[0].clone();
    let back_l = w.links[1].clone();
    if pace == 0 {
        l.lock().unwrap().allowed = 1 << 20;
    }
    back_l.lock().unwrap().allowed = 1 << 20;
    let (mut a, mut b) = (w.sides[0].h.take().unwrap(), w.sides[1].h.take().unwrap());
    let keep = |i: usize| match drops { 0 => true, 1 => false, _ => i % drops == 0 };
    let out = w.rt.block_on(async {
        let sender = async {
            let mut v = vec![];
            for i in 0..sends {
                let r = a.send(Bytes::from(msg(0, i))).await;
                v.push(keep(i).then_some(r));
                if back && i % 5 == 4 {
                    // a message the other way in between
                    let r = a.recv().await;
                    match r.await {
                        Ok(Ok(b)) if b[..] == [i as u8][..] => {}
                        x => return Err(format!("the message back for {i} arrives as {x:?}")),
                    }
                }
            }
            Ok(v)
        };
        let receiver = async {
            let mut v = vec![];
            for i in 0..recvs {
                let r = b.recv().await;
                v.push(keep(i).then_some(r));
                if back && i % 5 == 4 {
                    drop(b.send(Bytes::from(vec![i as u8])).await);
                }
            }
            v
        };
        let release = async {
            for k in 1..20_000usize {
                if pace > 0 {
                    if k % pace == 0 {
                        l.lock().unwrap().allowed += 3;
                    }
                    wake(&l);
                }
                tokio::task::yield_now().await;
                if pace == 0 && k > 4000 {
                    break;
                }
            }
            l.lock().unwrap().allowed = 1 << 20;
            wake(&l);
        };
        let both = async { tokio::join!(sender, receiver, release) };
        let limit = async {
            for _ in 0..60_000 {
                tokio::task::yield_now().await;
            }
        };
        let ended = tokio::select! {
            x = both => Ok(x),
            _ = limit => Err(()),
        };
        match ended {
            Ok((s, r, ())) => {
                let s = s?;
                for (i, x) in s.into_iter().enumerate() {
                    if let Some(x) = x {
                        match x.await {
                            Ok(Ok(())) => {}
                            e => return Err(format!("send {i} ends with {e:?}")),
                        }
                    }
                }
                for (j, x) in r.into_iter().enumerate() {
                    if let Some(x) = x {
                        if j >= sends {
                            continue;
                        }
                        match x.await {
                            Ok(Ok(b)) if b[..] == msg(0, j)[..] => {}
                            e => return Err(format!("receive {j} ends with {e:?} instead of {:?}", msg(0, j))),
                        }
                    }
                }
                Ok(())
            }
            Err(_) => Err("the callers wait forever".to_string()),
        }
    });
    out.map_err(|e| format!("{sends} sends and {recvs} receives in a burst, pace {pace}, results kept {drops}, messages back {back}: {e}"))
}

fn main() {
    let rep = Report::new("P15", "model_checking");
    let mut v: Vec<Job> = vec![];
    let depth = rep.pick(6, 8);
    // one job per pair of first actions
    for mode in [Mode::Async, Mode::Blocking, Mode::Lazy] {
        let depth = if mode == Mode::Async { depth } else { depth - 1 };
        for a in ALL {
            for s in 0..2 {
                for b in ALL {
                    let h = vec![(0, a), (s, b)];
                    v.push((format!("{}/{a:?}/{s}{b:?}", format!("{mode:?}").to_lowercase()), Box::new(move |r| {
                        let mut w = World::new(mode);
                        for x in &h {
                            if !w.enabled(x.0, x.1) {
                                return Ok(());
                            }
                            w.act(*x);
                        }
                        drop(w);
                        explore(r, &mut h.clone(), depth, mode)
                    })));
                }
            }
        }
        v.push((format!("{}/start", format!("{mode:?}").to_lowercase()), Box::new(move |r| {
            for l in 0..2 {
                run(r, &[], mode, l)?;
                for a in [A::S, A::R, A::X, A::K] {
                    run(r, &[(0, a)], mode, l)?;
                }
            }
            Ok(())
        })));
    }
    // deeper with the actions of plain use only: one direction
    let deep = rep.pick(11, 14);
    for k in 0..16usize {
        v.push((format!("deep/{k}"), Box::new(move |r| {
            let acts = [(0, A::S), (0, A::W), (1, A::R), (1, A::Dr)];
            fn go(r: &Report, acts: &[Act; 4], h: &mut Vec<Act>, deep: usize) -> Result<(), String> {
                let next = run(r, h, Mode::Async, 0)?;
                if h.len() == deep {
                    return Ok(());
                }
                for a in acts {
                    if next.contains(a) {
                        h.push(*a);
                        go(r, acts, h, deep)?;
                        h.pop();
                    }
                }
                Ok(())
            }
            let mut h = vec![];
            for a in [acts[k / 4], acts[k % 4]] {
                let mut w = World::new(Mode::Async);
                h.iter().for_each(|x| w.act(*x));
                if !w.enabled(a.0, a.1) {
                    return Ok(());
                }
                h.push(a);
            }
            go(r, &acts, &mut h, deep)
        })));
    }
    let bursts: &[usize] = if rep.thorough() { &[7, 8, 9, 10, 16, 17, 18, 25, 40, 100] } else { &[8, 9, 10, 17, 40] };
    for &n in bursts {
        v.push((format!("burst/{n}"), Box::new(move |r| {
            for recvs in [n, n / 2] {
                for pace in [0, 1, 3, 40] {
                    for drops in [0, 1, 2, 3] {
                        for back in [false, true] {
                            if back && recvs != n {
                                continue;
                            }
                            burst(r, n, recvs, pace, drops, back)?;
                        }
                    }
                }
            }
            Ok(())
        })));
    }
    run_jobs(rep, v);
    rep.note("rule", "one schedule = one order of queueing sends and receives, dropping results, letting half a frame through, dropping a handle and cutting a direction, at both ends of two managed channels joined by two gated byte streams; after each action the tasks run until they rest, and every job's result is compared with that of a list of messages");
    rep.finish_and_exit();
}
