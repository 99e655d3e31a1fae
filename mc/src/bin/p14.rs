//! P14: a channel over every way to cut its byte stream into reads and writes.
use bytes::{Bytes, BytesMut};
use futures::{Sink, SinkExt, Stream, StreamExt};
use mc::report::*;
use mpc_net::channel::{BytesChannel, Channel};
use mpc_net::codecs::BincodeCodec;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio_util::codec::LengthDelimitedCodec;

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
/// Runs a future that only waits for scripted I/O: each time it waits it must have been woken.
fn drive<F: Future>(f: F) -> Result<F::Output, String> {
    let c = Arc::new(Count(AtomicUsize::new(0)));
    let w = Waker::from(c.clone());
    let mut cx = Context::from_waker(&w);
    let mut f = std::pin::pin!(f);
    for _ in 0..10_000_000 {
        let before = c.0.load(Ordering::SeqCst);
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Ok(x);
        }
        if c.0.load(Ordering::SeqCst) == before {
            return Err("the channel waits although nobody will wake it".into());
        }
    }
    Err("the channel never comes to an end".into())
}

#[derive(Clone, Debug)]
enum Pend {
    None,
    All,
    Even,
    Odd,
    One(usize),
    Mask(u64),
}
impl Pend {
    fn at(&self, i: usize) -> bool {
        match self {
            Pend::None => false,
            Pend::All => true,
            Pend::Even => i % 2 == 0,
            Pend::Odd => i % 2 == 1,
            Pend::One(k) => i == *k,
            Pend::Mask(m) => i < 64 && m >> i & 1 == 1,
        }
    }
}

/// Reads stop at the cuts (sorted positions); before read i the reader waits once if `pend` says so.
struct Src {
    data: Arc<Vec<u8>>,
    end: usize,
    pos: usize,
    cuts: Vec<usize>,
    pend: Pend,
    calls: usize,
    waited: bool,
    fail: Option<io::ErrorKind>,
}
impl AsyncRead for Src {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let s = &mut *self;
        if s.pend.at(s.calls) && !s.waited {
            s.waited = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        s.waited = false;
        s.calls += 1;
        if s.pos == s.end {
            return match s.fail {
                Some(k) => Poll::Ready(Err(k.into())),
                None => Poll::Ready(Ok(())),
            };
        }
        let stop = s.cuts.iter().copied().find(|c| *c > s.pos).unwrap_or(s.end).min(s.end);
        let n = (stop - s.pos).min(buf.remaining());
        buf.put_slice(&s.data[s.pos..s.pos + n]);
        s.pos += n;
        Poll::Ready(Ok(()))
    }
}
#[derive(Clone, Debug, Default)]
struct Out {
    bytes: Vec<u8>,
    flushed: usize,
    closed: bool,
}
struct Dst {
    out: Arc<Mutex<Out>>,
    cuts: Vec<usize>,
    pend: Pend,
    calls: [usize; 3],
    waited: [bool; 3],
    /// after this many bytes writing fails (None: a write of nothing)
    fail: Option<(usize, Option<io::ErrorKind>)>,
}
impl Dst {
    /// Operation k (write, flush, shutdown): the i-th of its kind waits once if the pattern says so.
    fn wait(&mut self, k: usize, cx: &mut Context<'_>) -> bool {
        if self.pend.at(self.calls[k]) && !self.waited[k] {
            self.waited[k] = true;
            cx.waker().wake_by_ref();
            return true;
        }
        // a flush or shutdown that got through once does not wait again
        if k == 0 {
            self.waited[k] = false;
            self.calls[k] += 1;
        }
        false
    }
}
impl AsyncWrite for Dst {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.wait(0, cx) {
            return Poll::Pending;
        }
        let mut o = self.out.lock().unwrap();
        let pos = o.bytes.len();
        let mut n = buf.len();
        if let Some(c) = self.cuts.iter().copied().find(|c| *c > pos) {
            n = n.min(c - pos);
        }
        if let Some((at, kind)) = self.fail {
            if pos >= at {
                return match kind {
                    Some(k) => Poll::Ready(Err(k.into())),
                    None => Poll::Ready(Ok(0)),
                };
            }
            n = n.min(at - pos);
        }
        o.bytes.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.wait(1, cx) {
            return Poll::Pending;
        }
        let mut o = self.out.lock().unwrap();
        o.flushed = o.bytes.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.wait(2, cx) {
            return Poll::Pending;
        }
        self.out.lock().unwrap().closed = true;
        Poll::Ready(Ok(()))
    }
}
type Ch<C> = Channel<Src, Dst, C>;
fn src(data: &Arc<Vec<u8>>, end: usize, cuts: &[usize], pend: &Pend) -> Src {
    Src { data: data.clone(), end, pos: 0, cuts: cuts.to_vec(), pend: pend.clone(), calls: 0, waited: false, fail: None }
}
fn dst(cuts: &[usize], pend: &Pend) -> (Dst, Arc<Mutex<Out>>) {
    let out = Arc::new(Mutex::new(Out::default()));
    (Dst { out: out.clone(), cuts: cuts.to_vec(), pend: pend.clone(), calls: [0, 1, 2], waited: [false; 3], fail: None }, out)
}
fn bytes_chan(r: Src, w: Dst) -> BytesChannel<Src, Dst> {
    Channel::new::<Bytes>(r, w, LengthDelimitedCodec::new())
}

/// One kind of channel with its messages, to check raw and typed channels alike.
trait Kind {
    type M: Clone + PartialEq + std::fmt::Debug;
    type C;
    fn chan(r: Src, w: Dst) -> Ch<Self::C>;
    fn send<'a>(c: &'a mut Ch<Self::C>, m: &Self::M) -> impl Future<Output = io::Result<()>> + 'a;
    fn feed<'a>(c: &'a mut Ch<Self::C>, m: &Self::M) -> impl Future<Output = io::Result<()>> + 'a;
    fn flush(c: &mut Ch<Self::C>) -> impl Future<Output = io::Result<()>>;
    fn next(c: &mut Ch<Self::C>) -> impl Future<Output = Option<io::Result<Self::M>>>;
    fn close(c: Ch<Self::C>) -> impl Future<Output = io::Result<()>>;
    fn sclose(c: &mut Ch<Self::C>) -> impl Future<Output = io::Result<()>>;
}
struct Raw;
impl Kind for Raw {
    type M = Vec<u8>;
    type C = LengthDelimitedCodec;
    fn chan(r: Src, w: Dst) -> Ch<Self::C> {
        bytes_chan(r, w)
    }
    fn send<'a>(c: &'a mut Ch<Self::C>, m: &Vec<u8>) -> impl Future<Output = io::Result<()>> + 'a {
        SinkExt::<Bytes>::send(c, Bytes::from(m.clone()))
    }
    fn feed<'a>(c: &'a mut Ch<Self::C>, m: &Vec<u8>) -> impl Future<Output = io::Result<()>> + 'a {
        SinkExt::<Bytes>::feed(c, Bytes::from(m.clone()))
    }
    fn flush(c: &mut Ch<Self::C>) -> impl Future<Output = io::Result<()>> {
        SinkExt::<Bytes>::flush(c)
    }
    fn next(c: &mut Ch<Self::C>) -> impl Future<Output = Option<io::Result<Vec<u8>>>> {
        async { c.next().await.map(|x| x.map(|b: BytesMut| b.to_vec())) }
    }
    fn close(c: Ch<Self::C>) -> impl Future<Output = io::Result<()>> {
        c.close::<Bytes>()
    }
    fn sclose(c: &mut Ch<Self::C>) -> impl Future<Output = io::Result<()>> {
        SinkExt::<Bytes>::close(c)
    }
}
struct Typed<T>(std::marker::PhantomData<T>);
impl<T: Serialize + DeserializeOwned + Clone + PartialEq + std::fmt::Debug + Unpin + 'static> Kind for Typed<T> {
    type M = T;
    type C = BincodeCodec<T>;
    fn chan(r: Src, w: Dst) -> Ch<Self::C> {
        Channel::new::<T>(r, w, BincodeCodec::new())
    }
    fn send<'a>(c: &'a mut Ch<Self::C>, m: &T) -> impl Future<Output = io::Result<()>> + 'a {
        SinkExt::<T>::send(c, m.clone())
    }
    fn feed<'a>(c: &'a mut Ch<Self::C>, m: &T) -> impl Future<Output = io::Result<()>> + 'a {
        SinkExt::<T>::feed(c, m.clone())
    }
    fn flush(c: &mut Ch<Self::C>) -> impl Future<Output = io::Result<()>> {
        SinkExt::<T>::flush(c)
    }
    fn next(c: &mut Ch<Self::C>) -> impl Future<Output = Option<io::Result<T>>> {
        c.next()
    }
    fn close(c: Ch<Self::C>) -> impl Future<Output = io::Result<()>> {
        c.close::<T>()
    }
    fn sclose(c: &mut Ch<Self::C>) -> impl Future<Output = io::Result<()>> {
        SinkExt::<T>::close(c)
    }
}

/// The byte stream the messages give, and where each one ends in it.
fn stream<K: Kind>(ms: &[K::M]) -> Result<(Arc<Vec<u8>>, Vec<usize>), String> {
    let (d, out) = dst(&[], &Pend::None);
    let mut c = K::chan(src(&Arc::new(vec![]), 0, &[], &Pend::None), d);
    let mut ends = vec![];
    for m in ms {
        match drive(K::send(&mut c, m))? {
            Ok(()) => {}
            Err(e) => return Err(format!("sending a message of {} fails: {e}", short(m))),
        }
        let o = out.lock().unwrap();
        ends.push(o.bytes.len());
        if o.flushed != o.bytes.len() {
            return Err(format!("send of {} returns before the bytes are flushed", short(m)));
        }
    }
    let b = out.lock().unwrap().bytes.clone();
    Ok((Arc::new(b), ends))
}
fn short<M: std::fmt::Debug>(m: &M) -> String {
    let mut s = format!("{m:?}");
    if s.len() > 60 {
        s.truncate(60);
        s.push_str("..");
    }
    s
}
/// Reads a stream cut and ended like this; everything complete must come, then the end or an error.
fn read<K: Kind>(rep: &Report, ms: &[K::M], data: &Arc<Vec<u8>>, ends: &[usize], end: usize, cuts: &[usize], pend: &Pend, fail: Option<io::ErrorKind>, split: bool) -> Result<(), String> {
    rep.add("states", 1);
    let mut s = src(data, end, cuts, pend);
    s.fail = fail;
    let (d, _) = dst(&[], &Pend::None);
    let mut c = K::chan(s, d);
    let full = ends.iter().filter(|e| **e <= end).count();
    let whole = end == 0 || ends.contains(&end);
    let at = || format!("{} messages, stream ends after {end} of {} bytes ({}), reads cut at {cuts:?}, waiting {pend:?}", ms.len(), data.len(), match fail { Some(k) => format!("{k:?}"), None => "closed".into() });
    let _ = split;
    for (i, m) in ms[..full].iter().enumerate() {
        match drive(K::next(&mut c))? {
            Some(Ok(x)) if x == *m => {}
            Some(Ok(x)) => return Err(format!("{}: message {i} arrives as {} and was {}", at(), short(&x), short(m))),
            Some(Err(e)) => return Err(format!("{}: message {i} is lost, error {e}", at())),
            None => return Err(format!("{}: message {i} is lost, the end is reported", at())),
        }
        rep.add("transitions", 1);
    }
    match drive(K::next(&mut c))? {
        None if whole && fail.is_none() => {}
        Some(Err(_)) if !whole || fail.is_some() => {}
        Some(Ok(x)) => return Err(format!("{}: a message {} arrives that was never sent in full", at(), short(&x))),
        Some(Err(e)) => return Err(format!("{}: the end is reported as the error {e}", at())),
        None if fail.is_none() && ends.iter().zip([0].iter().chain(ends)).any(|(e, start)| start + 4 == end && *e > end) => {
            // the one place known: right behind the length of a message that is not empty
            rep.fail(&at(), "cut-right-behind-the-length", &format!("{}: a stream cut short is reported as a regular end", at()), "");
        }
        None => return Err(format!("{}: a stream cut short is reported as a regular end", at())),
    }
    for _ in 0..2 {
        if let Some(Ok(x)) = drive(K::next(&mut c))? {
            return Err(format!("{}: after the end a message {} arrives", at(), short(&x)));
        }
    }
    Ok(())
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Each,
    FeedThenFlush,
    FeedThenClose,
}
/// Writes the messages through a writer that takes the bytes in these pieces.
fn write<K: Kind>(rep: &Report, ms: &[K::M], data: &[u8], ends: &[usize], cuts: &[usize], pend: &Pend, how: How) -> Result<(), String> {
    rep.add("states", 1);
    let (d, out) = dst(cuts, pend);
    let mut c = K::chan(src(&Arc::new(vec![]), 0, &[], &Pend::None), d);
    let at = |i: usize| format!("message {i} of {}, writes cut at {cuts:?}, waiting {pend:?}, {how:?}", ms.len());
    for (i, m) in ms.iter().enumerate() {
        let r = if how == How::Each { drive(K::send(&mut c, m))? } else { drive(K::feed(&mut c, m))? };
        if let Err(e) = r {
            return Err(format!("{}: sending fails: {e}", at(i)));
        }
        let o = out.lock().unwrap();
        if how == How::Each && (o.bytes.len() != ends[i] || o.flushed != ends[i]) {
            return Err(format!("{}: send returns with {} bytes written and {} flushed of {}", at(i), o.bytes.len(), o.flushed, ends[i]));
        }
        rep.add("transitions", 1);
    }
    let r = match how {
        How::FeedThenFlush => drive(K::flush(&mut c))?,
        How::FeedThenClose => drive(K::sclose(&mut c))?,
        How::Each => Ok(()),
    };
    if let Err(e) = r {
        return Err(format!("{}: {e}", at(ms.len())));
    }
    let o = out.lock().unwrap();
    if o.bytes != data {
        return Err(format!("{}: the bytes written differ from those of an uncut writer", at(ms.len())));
    }
    if how == How::FeedThenClose && !o.closed {
        return Err(format!("{}: closing does not close the stream", at(ms.len())));
    }
    Ok(())
}
/// A writer that fails after `n` bytes: no send whose bytes are not out may succeed.
fn write_fails<K: Kind>(rep: &Report, ms: &[K::M], ends: &[usize], n: usize, kind: Option<io::ErrorKind>) -> Result<(), String> {
    rep.add("states", 1);
    let (mut d, _) = dst(&[], &Pend::None);
    d.fail = Some((n, kind));
    let mut c = K::chan(src(&Arc::new(vec![]), 0, &[], &Pend::None), d);
    for (i, m) in ms.iter().enumerate() {
        match drive(K::send(&mut c, m))? {
            Ok(()) if ends[i] <= n => {}
            Ok(()) => return Err(format!("message {i} is reported as sent although writing failed after {n} bytes")),
            Err(_) if ends[i] > n => return Ok(()),
            Err(e) => return Err(format!("message {i}: {e}, although its bytes were written")),
        }
    }
    Ok(())
}
/// Closing a channel: fine if the peer closes without further data, an error otherwise.
fn close<K: Kind>(rep: &Report, unread: &[K::M], mine: &[K::M], data: &Arc<Vec<u8>>, end: usize, cuts: &[usize], pend: &Pend) -> Result<(), String> {
    rep.add("states", 1);
    let (want, _) = stream::<K>(mine)?;
    let (d, out) = dst(cuts, pend);
    let mut c = K::chan(src(data, end, cuts, pend), d);
    for m in mine {
        if let Err(e) = drive(K::feed(&mut c, m))? {
            return Err(format!("feeding fails: {e}"));
        }
    }
    let r = drive(K::close(c))?;
    let o = out.lock().unwrap();
    if o.bytes != **want || !o.closed {
        return Err(format!("close with {} messages not flushed, writes cut at {cuts:?}, waiting {pend:?}: {} of {} bytes written, closed: {}", mine.len(), o.bytes.len(), want.len(), o.closed));
    }
    match (r, end) {
        (Ok(()), 0) | (Err(_), 1..) => Ok(()),
        (Ok(()), 4) if data[..4] != [0; 4] => {
            rep.fail("close", "cut-right-behind-the-length", "close finds a stream that ends right behind the length of a message and reports no error", "");
            Ok(())
        }
        (Ok(()), _) => Err(format!("close does not report the data that was never read ({} messages, {end} bytes)", unread.len())),
        (Err(e), _) => Err(format!("close of a channel without unread data fails: {e}")),
    }
}

fn pends(n: usize, all: bool) -> Vec<Pend> {
    if all && n <= 6 {
        return (0..1u64 << n).map(Pend::Mask).collect();
    }
    let mut v = vec![Pend::None, Pend::All, Pend::Even, Pend::Odd];
    v.extend((0..n.min(8)).map(Pend::One));
    v
}
/// All sets of cuts (all subsets up to `full` bytes, otherwise up to `k` cuts).
fn cuts(len: usize, full: usize, k: usize) -> Vec<Vec<usize>> {
    if len == 0 {
        return vec![vec![]];
    }
    if len <= full {
        return (0..1u64 << (len - 1)).map(|m| (1..len).filter(|i| m >> (i - 1) & 1 == 1).collect()).collect();
    }
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for c in &last {
            for i in c.last().map_or(1, |x| x + 1)..len {
                let mut d = c.clone();
                d.push(i);
                next.push(d);
            }
        }
        v.extend(next.iter().cloned());
        last = next;
    }
    v.push((1..len).collect());
    v
}
fn explore<K: Kind>(rep: &Report, ms: &[K::M], full: usize, k: usize) -> Result<(), String> {
    let (data, ends) = stream::<K>(ms)?;
    let n = data.len();
    for c in cuts(n, full, k) {
        for p in pends(c.len() + 2, c.len() < 4) {
            read::<K>(rep, ms, &data, &ends, n, &c, &p, None, false)?;
            for h in [How::Each, How::FeedThenFlush, How::FeedThenClose] {
                write::<K>(rep, ms, &data, &ends, &c, &p, h)?;
            }
        }
    }
    for end in 0..=n {
        for c in cuts(end, 8, 2) {
            for p in [Pend::None, Pend::All, Pend::Even] {
                read::<K>(rep, ms, &data, &ends, end, &c, &p, None, false)?;
            }
            read::<K>(rep, ms, &data, &ends, end, &c, &Pend::None, Some(io::ErrorKind::ConnectionReset), false)?;
        }
        for kind in [None, Some(io::ErrorKind::BrokenPipe)] {
            write_fails::<K>(rep, ms, &ends, end, kind)?;
        }
        for mine in [&ms[..0], &ms[..ms.len().min(2)]] {
            for p in pends(4, true) {
                for c in [vec![], vec![1], (1..n + 9).collect()] {
                    close::<K>(rep, ms, mine, &data, end, &c, &p)?;
                }
            }
        }
    }
    Ok(())
}
fn payload(len: usize, salt: usize) -> Vec<u8> {
    // contents that look like length headers, too
    (0..len).map(|i| if salt == 0 { 0 } else { (i * 37 + salt * 101 + i / 256) as u8 }).collect()
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
enum Tree {
    Leaf,
    Num(u64),
    Text(String),
    Pair(Box<Tree>, Option<Vec<u8>>),
}

fn typed<T: Serialize + DeserializeOwned + Clone + PartialEq + std::fmt::Debug + Unpin + Send + Sync + 'static>(rep: &Report, v: &mut Vec<Job>, name: &str, vals: Vec<T>) {
    let n = vals.len();
    let max = rep.pick(2, 3);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = seqs.len();
        for i in from..to {
            for k in 0..n {
                let mut s = seqs[i].clone();
                s.push(k);
                seqs.push(s);
            }
        }
        from = to;
    }
    let cutk = rep.pick(2, 3);
    for s in seqs {
        let ms: Vec<T> = s.iter().map(|i| vals[*i].clone()).collect();
        v.push((format!("typed/{name}/{s:?}").replace(' ', ""), Box::new(move |r| explore::<Typed<T>>(r, &ms, 10, cutk))));
    }
}
/// Frames whose contents encode no value: an error, never a panic, and the channel does not invent messages.
fn garbage<T: Serialize + DeserializeOwned + Clone + PartialEq + std::fmt::Debug + Unpin + 'static>(rep: &Report, alphabet: &[u8], max: usize) -> Result<(), String> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for a in alphabet {
                let mut x = all[i].clone();
                x.push(*a);
                all.push(x);
            }
        }
        from = to;
    }
    for f in all {
        rep.add("states", 1);
        let (data, _) = stream::<Raw>(&[f.clone()])?;
        let (d, _) = dst(&[], &Pend::None);
        let mut c = Typed::<T>::chan(src(&data, data.len(), &[], &Pend::None), d);
        let want: Result<T, _> = bincode::deserialize_from(&f[..]);
        match (drive(Typed::<T>::next(&mut c))?, want) {
            (Some(Ok(x)), Ok(y)) if x == y => {}
            (Some(Err(_)), Err(_)) => {}
            (x, y) => return Err(format!("a frame with contents {f:?} gives {x:?}, the contents mean {y:?}")),
        }
    }
    Ok(())
}
/// The two directions of one channel in every order of sends and receives.
fn duplex(rep: &Report, order: u32, n: usize) -> Result<(), String> {
    rep.add("states", 1);
    let theirs: Vec<Vec<u8>> = (0..n).map(|i| payload(i * 3, i + 1)).collect();
    let (data, _) = stream::<Raw>(&theirs)?;
    for pend in [Pend::None, Pend::All, Pend::Odd] {
        let cut: Vec<usize> = (1..data.len()).filter(|i| i % 5 == 2).collect();
        let (d, out) = dst(&cut, &pend);
        let mut c = bytes_chan(src(&data, data.len(), &cut, &pend), d);
        let (mut s, mut r) = (vec![], 0);
        for i in 0..2 * n {
            if order >> i & 1 == 1 && s.len() < n {
                let m = payload(s.len() + 1, s.len() + 7);
                drive(Raw::send(&mut c, &m))?.map_err(|e| e.to_string())?;
                s.push(m);
            } else if r < n {
                match drive(Raw::next(&mut c))? {
                    Some(Ok(x)) if x == theirs[r] => {}
                    x => return Err(format!("order {order:b}: message {r} arrives as {}", short(&x))),
                }
                r += 1;
            }
        }
        let (want, _) = stream::<Raw>(&s)?;
        if out.lock().unwrap().bytes != **want {
            return Err(format!("order {order:b}: the bytes sent depend on what is received"));
        }
        // the halves go on where the channel was
        let (mut w, mut rd) = c.split();
        while r < n {
            match drive(rd.next())? {
                Some(Ok(x)) if x == theirs[r] => {}
                x => return Err(format!("order {order:b}: after splitting, message {r} arrives as {}", short(&x))),
            }
            r += 1;
        }
        if drive(rd.next())?.is_some() {
            return Err(format!("order {order:b}: a further message arrives"));
        }
        drive(w.send(Bytes::from_static(b"last")))?.map_err(|e| e.to_string())?;
        s.push(b"last".to_vec());
        let (want, _) = stream::<Raw>(&s)?;
        if out.lock().unwrap().bytes != **want {
            return Err(format!("order {order:b}: what is sent after splitting is lost"));
        }
    }
    Ok(())
}
/// Lengths around a buffer or frame limit, as one of several messages.
fn long(rep: &Report, len: usize, limit: usize) -> Result<(), String> {
    let ms = [payload(3, 1), payload(len, 2), vec![], payload(9000, 3)];
    if len > limit {
        // refused at the sender; the messages around it are not harmed
        let (d, out) = dst(&[], &Pend::None);
        let mut c = bytes_chan(src(&Arc::new(vec![]), 0, &[], &Pend::None), d);
        let mut sent = vec![];
        for m in &ms {
            rep.add("states", 1);
            match (drive(Raw::send(&mut c, m))?, m.len() > limit) {
                (Ok(()), false) => sent.push(m.clone()),
                (Err(_), true) => {}
                (Ok(()), true) => return Err(format!("a message of {} bytes is accepted, above the frame limit", m.len())),
                (Err(e), false) => return Err(format!("a message of {} bytes is refused: {e}", m.len())),
            }
        }
        let (want, _) = stream::<Raw>(&sent)?;
        if out.lock().unwrap().bytes != **want {
            return Err(format!("the refused message of {len} bytes leaves traces in the stream"));
        }
        return Ok(());
    }
    let (data, ends) = stream::<Raw>(&ms)?;
    let n = data.len();
    let interesting: Vec<usize> = ends.iter().flat_map(|e| [e.saturating_sub(1), *e, e + 1, e + 3, e + 4, e + 5]).chain([1, 4, 8192, 8193, 16384]).filter(|x| *x > 0 && *x < n).collect();
    for (i, a) in interesting.iter().enumerate() {
        for b in interesting[i..].iter().step_by(if len > 1 << 20 { 7 } else { 1 }) {
            let mut c = vec![*a, *b];
            c.sort_unstable();
            read::<Raw>(rep, &ms, &data, &ends, n, &c, &Pend::Even, None, false)?;
            for h in [How::Each, How::FeedThenFlush, How::FeedThenClose] {
                write::<Raw>(rep, &ms, &data, &ends, &c, &Pend::Odd, h)?;
            }
        }
        read::<Raw>(rep, &ms, &data, &ends, *a, &[], &Pend::None, None, false)?;
        write_fails::<Raw>(rep, &ms, &ends, *a, None)?;
    }
    Ok(())
}
/// Long typed messages between short ones.
fn long_typed(rep: &Report, len: usize) -> Result<(), String> {
    type K = Typed<(u8, Vec<u8>, String)>;
    let one = |n: usize, s: usize| (s as u8, payload(n, s), "z".repeat(n / 3));
    let ms = [one(3, 1), one(len, 2), one(0, 3), one(9000, 4)];
    let (data, ends) = stream::<K>(&ms)?;
    let n = data.len();
    let interesting: Vec<usize> = ends.iter().flat_map(|e| [e.saturating_sub(1), *e, e + 1, e + 4, e + 5]).chain([1, 4, 8192, 8193]).filter(|x| *x > 0 && *x < n).collect();
    for a in interesting {
        for p in [Pend::None, Pend::All, Pend::Odd] {
            read::<K>(rep, &ms, &data, &ends, n, &[a], &p, None, false)?;
            for h in [How::Each, How::FeedThenFlush, How::FeedThenClose] {
                write::<K>(rep, &ms, &data, &ends, &[a], &p, h)?;
            }
        }
        read::<K>(rep, &ms, &data, &ends, a, &[], &Pend::None, None, false)?;
        write_fails::<K>(rep, &ms, &ends, a, None)?;
    }
    Ok(())
}
/// Typed messages whose encoding comes to the frame limit or goes above it.
fn typed_limit(rep: &Report, size: usize, limit: usize) -> Result<(), String> {
    type K = Typed<(u8, Vec<u8>)>;
    // one byte, the length as eight bytes, the bytes
    let one = |n: usize, s: usize| (s as u8, payload(n - 9, s));
    let ms = [one(12, 1), one(size, 2), one(9, 3), one(9000, 4)];
    let fits = size <= limit;
    let (d, out) = dst(&[], &Pend::None);
    let mut c = K::chan(src(&Arc::new(vec![]), 0, &[], &Pend::None), d);
    let mut sent = vec![];
    for (i, m) in ms.iter().enumerate() {
        rep.add("states", 1);
        match (drive(K::send(&mut c, m))?, fits || i != 1) {
            (Ok(()), true) => sent.push(m.clone()),
            (Err(_), false) => {}
            (Ok(()), false) => return Err(format!("a typed message of {size} encoded bytes is accepted, above the frame limit")),
            (Err(e), true) => return Err(format!("a typed message of {} bytes, of at most the frame limit, is refused: {e}", m.1.len())),
        }
    }
    let (data, ends) = stream::<K>(&sent)?;
    if out.lock().unwrap().bytes != **data {
        return Err(format!("the refused typed message of {size} encoded bytes leaves traces in the stream"));
    }
    let n = data.len();
    for p in [Pend::None, Pend::Odd] {
        for cut in [vec![], vec![ends[0] + 4], vec![ends[1] - 1], vec![ends[1]]] {
            read::<K>(rep, &sent, &data, &ends, n, &cut, &p, None, false)?;
        }
    }
    read::<K>(rep, &sent, &data, &ends, ends[1] - 1, &[], &Pend::None, None, false)
}
/// Many small messages, fed without flushing, past the size at which the writer pushes back.
fn many(rep: &Report, count: usize, len: usize, step: usize) -> Result<(), String> {
    let ms: Vec<Vec<u8>> = (0..count).map(|i| payload(len + i % 3, i)).collect();
    let (data, ends) = stream::<Raw>(&ms)?;
    let cut: Vec<usize> = (1..data.len()).step_by(step).collect();
    for p in [Pend::None, Pend::All, Pend::Even, Pend::Odd] {
        for h in [How::Each, How::FeedThenFlush, How::FeedThenClose] {
            write::<Raw>(rep, &ms, &data, &ends, &cut, &p, h)?;
        }
        read::<Raw>(rep, &ms, &data, &ends, data.len(), &cut, &p, None, false)?;
    }
    Ok(())
}

fn main() {
    let rep = Report::new("P14", "model_checking");
    let th = rep.thorough();
    let mut v: Vec<Job> = vec![];
    let lens: &[usize] = if th { &[0, 1, 2, 3, 4, 5, 8] } else { &[0, 1, 2, 5] };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..3 {
        let to = seqs.len();
        for i in from..to {
            for l in lens {
                let mut s = seqs[i].clone();
                s.push(*l);
                seqs.push(s);
            }
        }
        from = to;
    }
    let (full, k) = rep.pick((12, 2), (15, 3));
    for s in seqs {
        for zero in [false, true] {
            let ms: Vec<Vec<u8>> = s.iter().enumerate().map(|(i, l)| payload(*l, if zero { 0 } else { i + 1 })).collect();
            v.push((format!("raw/{s:?}/{}", if zero { "zeros" } else { "pattern" }).replace(' ', ""), Box::new(move |r| explore::<Raw>(r, &ms, full, k))));
        }
    }
    typed::<u8>(rep, &mut v, "u8", vec![0, 1, 255]);
    typed::<u32>(rep, &mut v, "u32", vec![0, 0x0102_0304]);
    typed::<()>(rep, &mut v, "unit", vec![()]);
    typed::<String>(rep, &mut v, "string", vec![String::new(), "a".into(), "\u{fc}\u{2713}".into()]);
    typed::<Vec<u8>>(rep, &mut v, "bytes", vec![vec![], vec![0], vec![1, 2, 3]]);
    typed::<Option<Vec<u16>>>(rep, &mut v, "option", vec![None, Some(vec![]), Some(vec![7, 0xffff])]);
    typed::<Tree>(rep, &mut v, "enum", vec![Tree::Leaf, Tree::Num(1 << 40), Tree::Pair(Box::new(Tree::Text("x".into())), Some(vec![9]))]);
    v.push(("garbage/bool".into(), Box::new(|r| garbage::<bool>(r, &(0..=255).collect::<Vec<u8>>(), 2))));
    v.push(("garbage/option".into(), Box::new(|r| garbage::<Option<u16>>(r, &[0, 1, 2, 255], 4))));
    v.push(("garbage/string".into(), Box::new(|r| garbage::<String>(r, &[0, 1, 2, 0x80, 255], rep.pick(6, 9).min(9)))));
    v.push(("garbage/u32".into(), Box::new(|r| garbage::<u32>(r, &[0, 1, 255], 6))));
    for n in [2, 3] {
        v.push((format!("duplex/{n}"), Box::new(move |r| (0..1 << (2 * n)).try_for_each(|o| duplex(r, o, n)))));
    }
    let limit = 8 << 20;
    for len in [100, 255, 256, 8183, 8184, 8185, 8187, 8188, 8189, 8191, 8192, 8193, 16379, 16380, 16384, 65535, 65536, 65537] {
        v.push((format!("long/{len}"), Box::new(move |r| long(r, len, limit))));
    }
    for len in [limit - 1, limit, limit + 1, limit + 100] {
        if th || len + 1 != limit {
            v.push((format!("long/{len}"), Box::new(move |r| long(r, len, limit))));
        }
    }
    for len in [10, 100, 200, 255, 256, 4000, 8170, 8192, 16384, 65535, 65536, 70_000] {
        v.push((format!("typed/long/{len}"), Box::new(move |r| long_typed(r, len))));
    }
    for size in [1 << 20, 1 << 22, (1 << 22) + 1, limit - 1, limit, limit + 1, limit + 100] {
        v.push((format!("typed/limit/{size}"), Box::new(move |r| typed_limit(r, size, limit))));
    }
    for (c, l) in [(300, 25), (2100, 0), (70, 300), (3, 8190), (1000, 7)] {
        for step in [1, 13, 1000, 100_000] {
            v.push((format!("many/{c}x{l}/{step}"), Box::new(move |r| many(r, c, l, step))));
        }
    }
    run_jobs(rep, v);
    rep.note("rule", "one state = one run of a channel over a stream cut into reads or writes at one set of positions with one pattern of waiting; transitions = messages compared");
    rep.assume("messages of more than 8 MiB are outside the transport's frame limit and must be refused by the sender");
    rep.finish_and_exit();
}
#[allow(unused)]
fn unused<S: Sink<Bytes> + Stream>(_: S) {}
