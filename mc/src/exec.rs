//! Deterministic execution of the three parties on one thread, and the exhaustive schedule
//! explorer built on it.
use crate::net::{Action, Mode, Op, World};
use futures::task::noop_waker;
use rand_chacha::control;
use std::cell::Cell;
use std::cell::RefCell;
use std::collections::HashSet;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub type Fut<'a, O> = Pin<Box<dyn Future<Output = O> + 'a>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End<O> {
    Done(O),
    Panic(String),
    /// Never finished: waiting for a message nobody will send (or room nobody will make).
    Blocked(String),
    /// Stopped by the fault plan.
    Crashed,
}

impl<O> End<O> {
    pub fn done(&self) -> Option<&O> {
        match self {
            End::Done(o) => Some(o),
            _ => None,
        }
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<usize> = const { Cell::new(9) };
    static ENT: RefCell<(u64, [u64; 4])> = const { RefCell::new((0, [0; 4])) };
}

/// Panics inside the code under test are caught, recorded and not printed.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            default(info);
        }
    }));
}

/// Runs `f` with panics caught quietly.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

/// All entropy of the code under test on this thread now comes from `seed`: the n-th request of
/// party p gets a value that depends on (seed, p, n) only, whatever the schedule.
pub fn own_entropy(seed: u64) {
    ENT.with(|e| *e.borrow_mut() = (seed, [0; 4]));
    control::set_entropy(Some(Box::new(|| next_entropy(0))));
}

fn next_entropy(salt: u64) -> [u8; 32] {
    ENT.with(|e| {
        let mut e = e.borrow_mut();
        let p = CUR.with(|c| c.get()).min(3);
        e.1[p] += 1;
        let mut out = [0u8; 32];
        out[..8].copy_from_slice(&e.0.to_le_bytes());
        out[8] = p as u8 + 1;
        out[16..24].copy_from_slice(&e.1[p].to_le_bytes());
        out[24..].copy_from_slice(&salt.to_le_bytes());
        // spread
        let mut h = 0u128;
        crate::net::hash_bytes(&mut h, &out);
        out[..16].copy_from_slice(&h.to_le_bytes());
        out
    })
}

/// As [`own_entropy`], except that parties other than `bad` get other values, depending on `salt`,
/// once `n` messages of the run have been altered: what honest parties draw after a corrupted party
/// has committed itself is nothing it could know.
pub fn entropy_changing_after(seed: u64, salt: u64, bad: usize, n: usize) {
    let base = crate::net::TAMPERED.with(|c| c.get());
    entropy_salted_when(seed, move |p, _| if p != bad && crate::net::TAMPERED.with(|c| c.get()) >= base + n { salt } else { 0 });
}
/// As [`own_entropy`], with a salt that depends on the party and on how often it has asked before.
pub fn entropy_salted_when(seed: u64, salt: impl Fn(usize, u64) -> u64 + 'static) {
    own_entropy(seed);
    control::set_entropy(Some(Box::new(move || {
        let p = current_party();
        let n = ENT.with(|e| e.borrow().1[p]);
        next_entropy(salt(p, n))
    })));
}
/// How often each party has asked for entropy since the last reset.
pub fn entropy_requests() -> [u64; 4] {
    ENT.with(|e| e.borrow().1)
}

/// The party whose code is running (3 outside of all).
pub fn current_party() -> usize {
    CUR.with(|c| c.get()).min(3)
}

fn poll_one<O>(p: usize, f: &mut Option<Fut<O>>, out: &mut Option<End<O>>, w: &World) {
    let Some(fut) = f.as_mut() else { return };
    let waker = noop_waker();
    let mut cx = Context::from_waker(&waker);
    CUR.with(|c| c.set(p));
    let r = guard(|| fut.as_mut().poll(&mut cx));
    CUR.with(|c| c.set(9));
    match r {
        Ok(Poll::Pending) => {}
        Ok(Poll::Ready(o)) => {
            *out = Some(End::Done(o));
            drop_fut(f, p, w);
        }
        Err(m) => {
            *out = Some(End::Panic(m));
            drop_fut(f, p, w);
        }
    }
}

fn drop_fut<O>(f: &mut Option<Fut<O>>, p: usize, w: &World) {
    let old = f.take();
    let _ = guard(move || drop(old));
    w.0.borrow_mut().close_party(p);
}

#[derive(Clone, Debug, Default)]
pub struct RunInfo {
    pub ops: [usize; 3],
    pub bytes: u64,
    pub max_queue: usize,
    pub stuck: bool,
    pub tampered: usize,
}

/// Fast run: operations complete as soon as they can.  When nobody can move, the blocked receives
/// are failed (`drained`), so that every party comes to an end; `stuck` records that it happened.
pub fn run_fast<'a, O>(w: &World, mut futs: [Option<Fut<'a, O>>; 3]) -> ([End<O>; 3], RunInfo) {
    crate::report::beat();
    let mut out: [Option<End<O>>; 3] = [None, None, None];
    for p in 0..3 {
        if futs[p].is_none() {
            out[p] = Some(End::Crashed);
            w.0.borrow_mut().close_party(p);
        }
    }
    let mut stuck = false;
    loop {
        let before = w.0.borrow().progress;
        for p in 0..3 {
            if out[p].is_none() {
                poll_one(p, &mut futs[p], &mut out[p], w);
                if out[p].is_none() && w.0.borrow().crashed[p] {
                    out[p] = Some(End::Crashed);
                    drop_fut(&mut futs[p], p, w);
                }
            }
        }
        if out.iter().all(|o| o.is_some()) {
            break;
        }
        if w.0.borrow().progress == before {
            if stuck {
                for p in 0..3 {
                    if out[p].is_none() {
                        let op = w.0.borrow().pending[p];
                        out[p] = Some(End::Blocked(format!("{op:?}")));
                        drop_fut(&mut futs[p], p, w);
                    }
                }
                break;
            }
            stuck = true;
            let mut i = w.0.borrow_mut();
            i.drained = true;
            i.progress += 1;
        }
    }
    let i = w.0.borrow();
    let info = RunInfo { ops: i.ops, bytes: i.bytes, max_queue: i.max_queue, stuck, tampered: i.tampered };
    drop(i);
    (out.map(|o| o.unwrap()), info)
}

#[derive(Clone, Debug, Default)]
pub struct ExploreStats {
    pub states: u64,
    pub transitions: u64,
    pub executions: u64,
    pub terminals: u64,
    pub pruned: u64,
    pub max_depth: usize,
    pub complete: bool,
}

#[derive(Clone, Debug)]
pub struct ScheduleViolation {
    pub schedule: Vec<u8>,
    pub what: String,
}

/// Explores every schedule of the three parties over links of capacity `cap`; with a bound
/// `(d, order)`, those that depart at most `d` times from letting the first enabled party in
/// `order` move.
///
/// States are merged on the three parties' own histories plus the link contents, which determine
/// the rest of the execution; alternatives are reached by replaying the schedule prefix on fresh
/// parties.  `make` builds the parties, `judge` inspects the ends of a complete execution.
pub fn explore<'a, O, M, J>(cap: usize, bound: Option<(usize, [u8; 3])>, max_states: u64, plan: &[((usize, usize, usize), Action)], crash: [Option<usize>; 3], make: M, judge: J) -> (ExploreStats, Option<ScheduleViolation>)
where
    M: Fn(&World) -> [Option<Fut<'a, O>>; 3],
    J: Fn(&[End<O>; 3]) -> Option<String>,
{
    let mut st = ExploreStats { complete: true, ..Default::default() };
    let mut visited: HashSet<u128> = HashSet::new();
    let mut stack: Vec<(Vec<u8>, usize)> = vec![(vec![], 0)];
    while let Some((prefix, devs)) = stack.pop() {
        st.executions += 1;
        crate::report::beat();
        let w = World::new(Mode::Controlled, cap);
        {
            let mut i = w.0.borrow_mut();
            for (k, a) in plan {
                i.tamper.insert(*k, a.clone());
            }
            i.crash = crash;
        }
        let mut futs = make(&w);
        let mut out: [Option<End<O>>; 3] = [None, None, None];
        for p in 0..3 {
            if futs[p].is_none() {
                out[p] = Some(End::Crashed);
                w.0.borrow_mut().close_party(p);
            }
            poll_one(p, &mut futs[p], &mut out[p], &w);
        }
        let mut depth = 0;
        let mut sched: Vec<u8> = vec![];
        loop {
            let mut enabled: Vec<u8> = vec![];
            {
                let i = w.0.borrow();
                for p in 0..3 {
                    if out[p].is_none() {
                        if let Some(op) = i.pending[p] {
                            if i.enabled(op) {
                                enabled.push(p as u8);
                            }
                        }
                    }
                }
            }
            if let Some((_, order)) = bound {
                enabled.sort_by_key(|p| order.iter().position(|q| q == p));
            }
            if depth >= prefix.len() {
                let key = {
                    let mut k = w.0.borrow().state_key();
                    for p in 0..3 {
                        crate::net::hash_bytes(&mut k, &[out[p].is_some() as u8]);
                    }
                    if bound.is_some() {
                        // the remaining deviations are part of the state
                        crate::net::hash_bytes(&mut k, &[devs as u8]);
                    }
                    k
                };
                if !visited.insert(key) {
                    st.pruned += 1;
                    break;
                }
                st.states += 1;
                if st.states > max_states {
                    st.complete = false;
                    return (st, None);
                }
            }
            if enabled.is_empty() {
                if depth >= prefix.len() {
                    st.terminals += 1;
                }
                for p in 0..3 {
                    if out[p].is_none() {
                        let op = w.0.borrow().pending[p];
                        out[p] = Some(End::Blocked(format!("{op:?}")));
                        drop_fut(&mut futs[p], p, &w);
                    }
                }
                let ends = out.map(|o| o.unwrap());
                if let Some(what) = judge(&ends) {
                    return (st, Some(ScheduleViolation { schedule: sched, what }));
                }
                break;
            }
            let choice = if depth < prefix.len() {
                prefix[depth]
            } else {
                if bound.map_or(true, |(b, _)| devs < b) {
                    for &alt in &enabled[1..] {
                        let mut p = sched.clone();
                        p.push(alt);
                        stack.push((p, devs + 1));
                    }
                }
                st.transitions += enabled.len() as u64;
                enabled[0]
            };
            sched.push(choice);
            depth += 1;
            st.max_depth = st.max_depth.max(depth);
            let p = choice as usize;
            w.0.borrow_mut().granted = Some(p);
            poll_one(p, &mut futs[p], &mut out[p], &w);
            if out[p].is_none() && w.0.borrow().crashed[p] {
                out[p] = Some(End::Crashed);
                drop_fut(&mut futs[p], p, &w);
            }
        }
    }
    (st, None)
}

/// Drives a future that never really waits.
pub fn block_on_ready<O>(f: impl Future<Output = O>) -> O {
    let waker = noop_waker();
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    for _ in 0..10_000_000 {
        if let Poll::Ready(o) = f.as_mut().poll(&mut cx) {
            return o;
        }
    }
    panic!("future did not finish");
}

pub fn shared<T>(t: T) -> Rc<RefCell<T>> {
    Rc::new(RefCell::new(t))
}

pub fn op_str(o: Op) -> String {
    match o {
        Op::Send(f, t) => format!("P{f} sends to P{t}"),
        Op::Recv(t, f) => format!("P{t} receives from P{f}"),
    }
}

/// Work-stealing over `n` jobs on `threads` threads; results come back in job order.
pub fn parallel<R: Send, F: Fn(usize) -> R + Sync>(n: usize, threads: usize, f: F) -> Vec<R> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res: std::sync::Mutex<Vec<(usize, R)>> = std::sync::Mutex::new(Vec::with_capacity(n));
    std::thread::scope(|s| {
        for _ in 0..threads.min(n.max(1)) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let r = f(i);
                    res.lock().unwrap().push((i, r));
                })
                .unwrap();
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
