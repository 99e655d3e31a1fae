//! A party that deviates *consistently*: one of the random words it draws is another one than the
//! protocol says, and it goes on honestly with that.  Its messages then fit together, so that only the
//! protocols' own proofs and checks can tell.  Generators are ideal functions of (seed, position).
use crate::exec::current_party;
use crate::net::hash_bytes;
use rand_chacha::control;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type Draw = ([u8; 32], u64);

pub fn ideal(seed: &[u8; 32], pos: u64) -> u64 {
    let mut h = 0x5EED_0000_u128;
    hash_bytes(&mut h, seed);
    hash_bytes(&mut h, &pos.to_le_bytes());
    (h ^ (h >> 64)) as u64
}

#[derive(Clone, Copy, Debug)]
pub enum Delta {
    Xor(u64),
    Add(u64),
}
impl Delta {
    pub fn on(self, v: u64) -> u64 {
        match self {
            Delta::Xor(d) => v ^ d,
            Delta::Add(d) => v.wrapping_add(d),
        }
    }
}

/// Runs `f` with every draw answered by the ideal function, changed at (party, draw) where told.
pub fn with_deviation<R>(party: usize, at: &[(Draw, Delta)], f: impl FnOnce() -> R) -> R {
    let map: HashMap<Draw, Delta> = at.iter().cloned().collect();
    control::set_oracle(Some(Box::new(move |s, p, _| {
        let v = ideal(s, p);
        if current_party() == party {
            if let Some(d) = map.get(&(*s, p)) {
                return d.on(v);
            }
        }
        v
    })));
    let r = f();
    control::set_oracle(None);
    r
}

/// What a corrupted party cannot know of a run beforehand: everything honest parties draw, after the
/// setup, from their entropy and from generators this party does not share.
#[derive(Clone)]
pub struct Unknown {
    pub bad: usize,
    /// Generators this party knows.
    known: Rc<HashSet<[u8; 32]>>,
    /// Draws that belong to the setup.
    setup: Rc<HashSet<Draw>>,
    requests: [u64; 4],
    entropy: u64,
}
impl Unknown {
    /// `list`: the draws of a run; `setup`: a run of nothing but the setup, with the same entropy.
    pub fn new<R>(bad: usize, entropy: u64, list: &[(Draw, u8, u8)], setup: impl FnOnce() -> R) -> Self {
        crate::exec::own_entropy(entropy);
        let (_, first) = draws(setup);
        let requests = crate::exec::entropy_requests();
        Unknown {
            bad,
            known: Rc::new(list.iter().filter(|d| d.1 >> bad & 1 == 1).map(|d| d.0 .0).collect()),
            setup: Rc::new(first.into_iter().map(|d| d.0).collect()),
            requests,
            entropy,
        }
    }
    /// The value of a draw when the unknown is as `salt` says (0: as in the known run).
    pub fn value(&self, d: &Draw, salt: u64) -> u64 {
        if salt != 0 && !self.known.contains(&d.0) && !self.setup.contains(d) {
            let mut h = salt as u128;
            hash_bytes(&mut h, &d.0);
            hash_bytes(&mut h, &d.1.to_le_bytes());
            return (h ^ (h >> 64)) as u64;
        }
        ideal(&d.0, d.1)
    }
    pub fn in_setup(&self, d: &Draw) -> bool {
        self.setup.contains(d)
    }
    /// Resets the entropy for a run with this salt.
    pub fn begin(&self, salt: u64) {
        let (bad, n) = (self.bad, self.requests);
        crate::exec::entropy_salted_when(self.entropy, move |p, i| if p != bad && i >= n[p] { salt } else { 0 });
    }
    /// As [`with_deviation`], with the unknown as `salt` says.  Returns also how many of the changes
    /// were made.
    pub fn deviation<R>(&self, at: &[(Draw, Delta)], salt: u64, f: impl FnOnce() -> R) -> (R, usize) {
        let map: HashMap<Draw, Delta> = at.iter().cloned().collect();
        let left: Rc<RefCell<HashSet<Draw>>> = Rc::new(RefCell::new(map.keys().cloned().collect()));
        let (l2, me) = (left.clone(), self.clone());
        self.begin(salt);
        control::set_oracle(Some(Box::new(move |s, p, _| {
            let d = (*s, p);
            let v = me.value(&d, salt);
            if current_party() == me.bad {
                if let Some(x) = map.get(&d) {
                    l2.borrow_mut().remove(&d);
                    return x.on(v);
                }
            }
            v
        })));
        let r = f();
        control::set_oracle(None);
        let n = at.len() - left.borrow().len();
        (r, n)
    }
}

/// The draws made during `f`: for each, the set of parties that make it, in order of first use.
pub fn draws<R>(f: impl FnOnce() -> R) -> (R, Vec<(Draw, u8, u8)>) {
    draws_changed(|d, _| ideal(&d.0, d.1), f)
}

/// The same, with the values given by `val` (told the draw and the party).
pub fn draws_changed<R>(val: impl Fn(&Draw, usize) -> u64 + 'static, f: impl FnOnce() -> R) -> (R, Vec<(Draw, u8, u8)>) {
    let seen: Rc<RefCell<(BTreeMap<Draw, usize>, Vec<(Draw, u8, u8)>)>> = Default::default();
    let s2 = seen.clone();
    control::set_oracle(Some(Box::new(move |s, p, b| {
        let c = current_party();
        let mut g = s2.borrow_mut();
        let n = g.1.len();
        let i = *g.0.entry((*s, p)).or_insert(n);
        if i == n {
            g.1.push(((*s, p), 0, b));
        }
        g.1[i].1 |= 1 << c;
        drop(g);
        val(&(*s, p), c)
    })));
    let r = f();
    control::set_oracle(None);
    let v = std::mem::take(&mut seen.borrow_mut().1);
    (r, v)
}

/// The changes tried on a draw of `bytes` bytes, of which a `k`-bit element may use the low bits and
/// a boolean the top bit.
pub fn deltas(bytes: u8, k: usize, all: bool) -> Vec<Delta> {
    let mut v = vec![Delta::Xor(1 << 31), Delta::Add(1)];
    if bytes == 8 {
        v.push(Delta::Xor(1 << 63));
        v.push(Delta::Xor(1 << 40));
    }
    if k < 64 {
        v.push(Delta::Xor(1 << (k - 1)));
    }
    if all {
        v.extend([Delta::Xor(u64::MAX), Delta::Xor(2), Delta::Add(0x0101_0101_0101_0101)]);
    }
    v
}
