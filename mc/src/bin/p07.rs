//! P07: what one party sees.  Generators are ideal functions.  (a) Couplings: for every pair of
//! secret inputs that agree on what the party is meant to learn, random words unknown to the party are
//! found under which the run with the other inputs looks exactly the same to it.  (b) Exact
//! distributions of views over all values of the unknown words in small rings.
use mc::exec::*;
use mc::net::*;
use mc::protos::*;
use mc::report::*;
use mc::scen::*;
use iris_mpc::prelude::Error;
use mc::session::*;
use rand_chacha::control;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

type Seed = [u8; 32];
type Draw = (Seed, u64);

fn ideal(base: u64, seed: &Seed, pos: u64) -> u64 {
    let mut h = 0x5EED_2222_u128 ^ (base as u128) << 64;
    hash_bytes(&mut h, seed);
    hash_bytes(&mut h, &pos.to_le_bytes());
    (h ^ (h >> 64)) as u64
}

struct Seen {
    /// (from, place in the log of all messages, content) of what the observer got.
    msgs: Vec<(usize, usize, Vec<u8>)>,
    /// Words the observer does not know: (draw, messages sent before it, value) in order.
    hidden: Vec<(Draw, usize, u64)>,
    out: Result<Out, String>,
    /// Seeds of all generators made.
    made: Vec<Seed>,
}

struct Case<'a, P: Proto<T>, T: Num> {
    k: Kind,
    obs: usize,
    base: u64,
    verify: bool,
    m: &'a Material<P, T>,
    /// The messages in the order in which they are compared (a list of some of them, or empty: all).
    order: &'a [usize],
}

impl<P: Proto<T>, T: Num> Case<'_, P, T> {
    fn run(&self, ov: &HashMap<Draw, u64>) -> Seen {
        beat();
        let w = World::new(Mode::Fast, 64);
        w.0.borrow_mut().record = true;
        own_entropy(61 + self.base);
        let known: Rc<RefCell<(HashSet<Seed>, Vec<Seed>)>> = Default::default();
        let draws: Rc<RefCell<(HashMap<Draw, ()>, Vec<(Draw, usize, u64)>)>> = Default::default();
        let (k2, obs) = (known.clone(), self.obs);
        control::set_watch(Some(Box::new(move |s| {
            let mut k = k2.borrow_mut();
            if current_party() == obs {
                k.0.insert(*s);
            }
            k.1.push(*s);
        })));
        let (d2, w2, ov2, base) = (draws.clone(), w.clone(), ov.clone(), self.base);
        control::set_oracle(Some(Box::new(move |s, p, _| {
            let d = (*s, p);
            let v = ov2.get(&d).copied().unwrap_or_else(|| ideal(base, s, p));
            let mut g = d2.borrow_mut();
            if g.0.insert(d, ()).is_none() {
                let n = w2.0.borrow().log.len();
                g.1.push((d, n, v));
            }
            v
        })));
        let (ends, _) = match self.k {
            INPUTS => run_fast(&w, parties::<P, T, Out, _, _>(&w, &self.m.key, |s| inputs::<P, T>(self.m, s, self.verify))),
            k => run_fast(&w, build::<P, T>(k, self.m, self.verify, &w)),
        };
        control::set_oracle(None);
        control::set_watch(None);
        let (known, made) = std::mem::take(&mut *known.borrow_mut());
        let hidden = draws.borrow().1.iter().filter(|d| !known.contains(&d.0 .0)).cloned().collect();
        let msgs: Vec<(usize, usize, Vec<u8>)> = w.0.borrow().log.iter().enumerate().filter(|(_, l)| l.1 == self.obs).map(|(i, l)| (l.0, i, l.3.to_vec())).collect();
        let msgs = if self.order.is_empty() { msgs } else { self.order.iter().filter_map(|i| msgs.get(*i).cloned()).collect() };
        let mut out = match &ends[self.obs] {
            End::Done(Ok(o)) => Ok(o.clone()),
            e => Err(format!("{e:?}")),
        };
        if let Some(e) = ends.iter().find(|e| !matches!(e, End::Done(Ok(_)))) {
            out = Err(format!("{e:?}"));
        }
        Seen { msgs, hidden, out, made }
    }
}

/// First place where two views differ: (message, byte).
fn differ(a: &Seen, b: &Seen) -> Option<(usize, usize)> {
    for (i, (x, y)) in a.msgs.iter().zip(&b.msgs).enumerate() {
        if x.2 != y.2 {
            return Some((i, x.2.iter().zip(&y.2).take_while(|(p, q)| p == q).count()));
        }
    }
    None
}

/// What changing one hidden word changes in the view: first places and all bytes.
struct Influence {
    first: (usize, usize),
    bytes: HashSet<(usize, usize)>,
}

fn influences<P: Proto<T>, T: Num>(r: &Report, case: &Case<'_, P, T>) -> HashMap<Draw, Influence> {
    let base = case.run(&HashMap::new());
    let mut o = HashMap::new();
    for (d, _, v) in &base.hidden {
        let s = case.run(&HashMap::from([(*d, !*v)]));
        r.add("influences", 1);
        // words that make up seeds and joint coins stay as they are
        if s.made != base.made || s.msgs.len() != base.msgs.len() {
            continue;
        }
        let mut bytes = HashSet::new();
        for (i, (x, y)) in s.msgs.iter().zip(&base.msgs).enumerate() {
            for (j, (p, q)) in x.2.iter().zip(&y.2).enumerate() {
                if p != q {
                    bytes.insert((i, j));
                }
            }
        }
        if let Some(first) = bytes.iter().min().cloned() {
            o.insert(*d, Influence { first, bytes });
        }
    }
    o
}

/// Messages of which every influence changes nearly everything: digests.  They follow from what they
/// digest and are compared last.
fn digests(seen: &Seen, infl: &HashMap<Draw, Influence>) -> Vec<usize> {
    (0..seen.msgs.len())
        .filter(|m| {
            let n: Vec<usize> = infl.values().map(|i| i.bytes.iter().filter(|b| b.0 == *m).count()).filter(|n| *n > 0).collect();
            seen.msgs[*m].2.len() >= 16 && !n.is_empty() && n.iter().all(|n| n * 8 > seen.msgs[*m].2.len() * 7)
        })
        .collect()
}

fn in_order(infl: &HashMap<Draw, Influence>, order: &[usize]) -> HashMap<Draw, Influence> {
    let mut o = HashMap::new();
    for (d, i) in infl {
        let bytes: HashSet<(usize, usize)> = i.bytes.iter().filter_map(|b| order.iter().position(|o| *o == b.0).map(|m| (m, b.1))).collect();
        if let Some(first) = bytes.iter().min().cloned() {
            o.insert(*d, Influence { first, bytes });
        }
    }
    o
}

/// A solution of sum_j cols[j] x_j = rhs modulo a power of two; where it has none, of its first rows.
fn solve_linear(cols: &[Vec<u64>], rhs: Vec<u64>, mask: u64) -> Vec<u64> {
    let (n, m) = (rhs.len(), cols.len());
    let mut rows: Vec<Vec<u64>> = (0..n).map(|i| cols.iter().map(|c| c[i]).chain([rhs[i]]).collect()).collect();
    let inv = |a: u64| (0..6).fold(a, |x, _| x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x))));
    let mut piv: Vec<(usize, usize)> = vec![];
    let mut done = 0;
    while done < n {
        // the entry with the fewest factors of two
        let Some((_, i, j)) = (done..n).flat_map(|i| (0..m).map(move |j| (i, j))).filter(|(i, j)| rows[*i][*j] != 0).map(|(i, j)| (rows[i][j].trailing_zeros(), i, j)).min() else { break };
        rows[done..=i].rotate_right(1);
        let t = rows[done][j].trailing_zeros();
        let u = inv(rows[done][j] >> t);
        for i in done + 1..n {
            let q = (rows[i][j] >> t).wrapping_mul(u) & mask;
            if q != 0 {
                for k in 0..=m {
                    rows[i][k] = rows[i][k].wrapping_sub(q.wrapping_mul(rows[done][k])) & mask;
                }
            }
        }
        piv.push((done, j));
        done += 1;
    }
    let mut x = vec![0u64; m];
    for (i, j) in piv.into_iter().rev() {
        let s = (0..m).filter(|k| *k != j).fold(rows[i][m], |a, k| a.wrapping_sub(rows[i][k].wrapping_mul(x[k]))) & mask;
        let t = rows[i][j].trailing_zeros();
        x[j] = (s >> t).wrapping_mul(inv(rows[i][j] >> t)) & mask;
    }
    x
}

/// Columns whose sum over GF(2) is `rhs`; where there are none, agrees with it in its first rows.
fn solve_bits(cols: &[Vec<u64>], mut rhs: Vec<u64>) -> Vec<usize> {
    let low = |v: &[u64]| v.iter().position(|x| *x != 0).map(|i| i * 64 + v[i].trailing_zeros() as usize);
    let add = |a: &mut Vec<u64>, b: &[u64]| a.iter_mut().zip(b).for_each(|(x, y)| *x ^= y);
    let mut basis: HashMap<usize, (Vec<u64>, Vec<u64>)> = HashMap::new();
    for (i, c) in cols.iter().enumerate() {
        let (mut v, mut of) = (c.clone(), vec![0u64; cols.len().div_ceil(64)]);
        of[i / 64] |= 1 << (i % 64);
        while let Some(l) = low(&v) {
            match basis.get(&l) {
                Some((b, o)) => {
                    add(&mut v, b);
                    add(&mut of, o);
                }
                None => {
                    basis.insert(l, (v, of));
                    break;
                }
            }
        }
    }
    let mut of = vec![0u64; cols.len().div_ceil(64)];
    for row in 0..rhs.len() * 64 {
        if rhs[row / 64] >> (row % 64) & 1 == 1 {
            if let Some((b, o)) = basis.get(&row) {
                add(&mut rhs, b);
                add(&mut of, o);
            }
        }
    }
    (0..cols.len()).filter(|i| of[i / 64] >> (i % 64) & 1 == 1).collect()
}

struct Search<'a, P: Proto<T>, T: Num> {
    case: &'a Case<'a, P, T>,
    want: &'a Seen,
    infl: &'a HashMap<Draw, Influence>,
    bits_first: bool,
    linear: bool,
    /// linear over GF(2) instead of the ring
    bitwise: bool,
    runs: u64,
    budget: u64,
}

fn word(b: &[u8], at: usize, w: usize) -> u128 {
    b[at..at + w].iter().fold(0, |a, c| a << 8 | *c as u128)
}

impl<P: Proto<T>, T: Num> Search<'_, P, T> {
    fn go(&mut self, ov: &HashMap<Draw, u64>) -> Seen {
        self.runs += 1;
        self.case.run(ov)
    }
    /// The changed values of hidden word `d` that may turn `is` into `to` in a word of `w` bytes.
    fn variants(vals: &HashMap<Draw, u64>, d: Draw, is: u128, to: u128, w: usize) -> Vec<Vec<(Draw, u64)>> {
        let m: u128 = if w == 16 { u128::MAX } else { (1 << (8 * w)) - 1 };
        let v = vals[&d];
        let mut o = vec![];
        if w == 1 && is <= 1 && to <= 1 {
            o.push(vec![(d, v ^ 1 << 31)]);
        }
        let nx = (d.0, d.1 + 1);
        let full = if w == 16 {
            match vals.get(&nx) {
                Some(h) => v as u128 | (*h as u128) << 64,
                None => return o,
            }
        } else {
            v as u128
        };
        for f in [full ^ is ^ to, full.wrapping_add(to.wrapping_sub(is) & m), full.wrapping_sub(to.wrapping_sub(is) & m)] {
            if w == 16 {
                o.push(vec![(d, f as u64), (nx, (f >> 64) as u64)]);
            } else {
                let f = full & !m | f & m;
                o.push(vec![(d, f as u64)]);
            }
        }
        o
    }

    /// Where messages depend nearly linearly (over the ring) on hidden words: all words of this message,
    /// and of the earlier ones that the same hidden words change, at once.
    fn solve(&mut self, ov: &HashMap<Draw, u64>, cur: &Seen, vals: &HashMap<Draw, u64>, locked: &HashSet<Draw>, mi: usize) -> Option<(HashMap<Draw, u64>, Seen)> {
        let w = T::K / 8;
        if w > 8 {
            return None;
        }
        let mask = u64::MAX >> (64 - T::K);
        // numbers in proofs are in little-endian order, others in big-endian order
        let words = |s: &Seen| -> Vec<u64> {
            let mut v = vec![];
            for m in &s.msgs[..=mi] {
                for c in m.2.chunks(w) {
                    v.push(if m.2.len() > 200 { c.iter().rev().fold(0, |a, x| a << 8 | *x as u64) } else { c.iter().fold(0, |a, x| a << 8 | *x as u64) });
                }
            }
            v
        };
        let shape = |s: &Seen| s.msgs.iter().map(|m| m.2.len()).collect::<Vec<_>>();
        let want = shape(self.want);
        let (is, to) = (words(cur), words(self.want));
        let mut cols: Vec<(Draw, Vec<u64>)> = vec![];
        let usable: Vec<Draw> = self.infl.iter().filter(|(d, i)| i.first.0 <= mi && !locked.contains(d) && vals.contains_key(d)).map(|(d, _)| *d).collect();
        for d in usable {
            let mut o = ov.clone();
            o.insert(d, vals[&d].wrapping_add(1));
            let s = self.go(&o);
            if shape(&s) != want || s.made != self.want.made {
                continue;
            }
            let v: Vec<u64> = words(&s).iter().zip(&is).map(|(a, b)| a.wrapping_sub(*b) & mask).collect();
            if v.iter().any(|x| *x != 0) {
                cols.push((d, v));
            }
        }
        // those that change least are used first
        cols.sort_by_key(|c| (c.1.iter().filter(|x| **x != 0).count(), c.0));
        let m: Vec<Vec<u64>> = cols.iter().map(|c| c.1.clone()).collect();
        let (mut o, mut at) = (ov.clone(), is);
        // where it is not quite linear, a few rounds with the same matrix
        for _ in 0..6 {
            let diff: Vec<u64> = to.iter().zip(&at).map(|(a, b)| a.wrapping_sub(*b) & mask).collect();
            let x = solve_linear(&m, diff, mask);
            for ((d, _), x) in cols.iter().zip(x) {
                let v = o.get(d).copied().unwrap_or(vals[d]);
                o.insert(*d, v & !mask | v.wrapping_add(x) & mask);
            }
            let s = self.go(&o);
            if shape(&s) != want || s.made != self.want.made {
                return None;
            }
            match differ(&s, self.want) {
                Some(p) if p.0 <= mi => at = words(&s),
                _ => return Some((o, s)),
            }
        }
        None
    }

    /// The same where messages depend linearly on the bits of hidden words (the proofs for bit operations,
    /// over a field of characteristic two), measured anew in every round.
    fn solve2(&mut self, ov: &HashMap<Draw, u64>, cur: &Seen, vals: &HashMap<Draw, u64>, locked: &HashSet<Draw>, mi: usize) -> Option<(HashMap<Draw, u64>, Seen)> {
        let rows = |s: &Seen, t: &Seen| -> Vec<u64> {
            let mut v: Vec<u8> = vec![];
            for (a, b) in s.msgs[..=mi].iter().zip(&t.msgs) {
                v.extend(a.2.iter().zip(&b.2).map(|(x, y)| x ^ y));
            }
            v.chunks(8).map(|c| c.iter().rev().fold(0, |a, x| a << 8 | *x as u64)).collect()
        };
        let shape = |s: &Seen| s.msgs.iter().map(|m| m.2.len()).collect::<Vec<_>>();
        let want = shape(self.want);
        let usable: Vec<Draw> = self.infl.iter().filter(|(d, i)| i.first.0 <= mi && !locked.contains(d) && vals.contains_key(d)).map(|(d, _)| *d).collect();
        let mut o = ov.clone();
        let mut at: Option<Seen> = None;
        for _ in 0..3 {
            let here = at.as_ref().unwrap_or(cur);
            let need = rows(here, self.want);
            let mut cols: Vec<(Draw, u64, Vec<u64>)> = vec![];
            for d in &usable {
                let v = o.get(d).copied().unwrap_or(vals[d]);
                for bit in 0..64 {
                    let mut p = o.clone();
                    p.insert(*d, v ^ 1 << bit);
                    let s = self.go(&p);
                    if shape(&s) != want || s.made != self.want.made {
                        continue;
                    }
                    let c = rows(&s, at.as_ref().unwrap_or(cur));
                    if c.iter().any(|x| *x != 0) {
                        cols.push((*d, 1 << bit, c));
                    }
                }
            }
            // those that change least are used first
            cols.sort_by_key(|c| (c.2.iter().map(|x| x.count_ones()).sum::<u32>(), c.0, c.1));
            let m: Vec<Vec<u64>> = cols.iter().map(|c| c.2.clone()).collect();
            for i in solve_bits(&m, need) {
                let (d, bit, _) = &cols[i];
                let v = o.get(d).copied().unwrap_or(vals[d]);
                o.insert(*d, v ^ bit);
            }
            let s = self.go(&o);
            if shape(&s) != want || s.made != self.want.made {
                return None;
            }
            match differ(&s, self.want) {
                Some(p) if p.0 <= mi => at = Some(s),
                _ => return Some((o, s)),
            }
        }
        None
    }

    /// Makes the view equal to the wanted one up to (not including) place `end`.
    fn settle(&mut self, mut ov: HashMap<Draw, u64>, mut cur: Seen, locked: &HashSet<Draw>, end: (usize, usize), depth: usize) -> Option<(HashMap<Draw, u64>, Seen)> {
        'next: loop {
            let Some((mi, bi)) = differ(&cur, self.want) else { return Some((ov, cur)) };
            if (mi, bi) >= end {
                return Some((ov, cur));
            }
            let len = cur.msgs[mi].2.len();
            let vals: HashMap<Draw, u64> = cur.hidden.iter().map(|d| (d.0, d.2)).collect();
            let mut cands: Vec<(Draw, &Influence)> = self.infl.iter().filter(|(d, i)| i.bytes.contains(&(mi, bi)) && !locked.contains(d) && vals.contains_key(d)).map(|(d, i)| (*d, i)).collect();
            // those that leave earlier places alone come first, those that touch least of them next
            let cost = |i: &Influence| i.bytes.iter().filter(|b| **b < (mi, bi)).count();
            cands.sort_by_key(|(d, i)| (if i.first.0 == mi { 0 } else { cost(i) }, i.bytes.len(), *d));
            if self.linear && depth > 1 {
                if let Some((o, s)) = if self.bitwise { self.solve2(&ov, &cur, &vals, locked, mi) } else { self.solve(&ov, &cur, &vals, locked, mi) } {
                    ov = o;
                    cur = s;
                    continue 'next;
                }
            }
            for stage in if self.bits_first { [1, 0] } else { [0, 1] } {
                if stage == 0 {
                    for (d, inf) in cands.iter().cloned() {
                        let mut widths: Vec<usize> = vec![];
                        let run = (bi..len).take_while(|j| inf.bytes.contains(&(mi, *j))).count();
                        let back = (0..bi).rev().take_while(|j| inf.bytes.contains(&(mi, *j))).count();
                        for w in [1, 2, 4, 8, 16] {
                            if len % w == 0 && run + back <= w {
                                widths.push(w);
                            }
                        }
                        for w in [T::K / 8, 8, 16, 1, 2, 4] {
                            if len % w == 0 && !widths.contains(&w) {
                                widths.push(w);
                            }
                        }
                        for w in widths {
                            let a = bi / w * w;
                            let (is, to) = (word(&cur.msgs[mi].2, a, w), word(&self.want.msgs[mi].2, a, w));
                            for ch in Self::variants(&vals, d, is, to, w) {
                                if ch.iter().any(|c| locked.contains(&c.0)) {
                                    continue;
                                }
                                if self.runs > self.budget {
                                    return None;
                                }
                                let mut o = ov.clone();
                                o.extend(ch.iter().cloned());
                                let s = self.go(&o);
                                if s.msgs.len() != cur.msgs.len() || s.made != self.want.made || s.msgs[mi].2.len() != len {
                                    continue;
                                }
                                let p = differ(&s, self.want);
                                if p.is_none() || p.unwrap() >= (mi, a + w) {
                                    ov = o;
                                    cur = s;
                                    continue 'next;
                                }
                                // this place is right, an earlier one is disturbed, which other words may repair
                                if depth > 0 && word(&s.msgs[mi].2, a, w) == to && p.unwrap() < (mi, bi) {
                                    let mut l = locked.clone();
                                    l.extend(ch.iter().map(|c| c.0));
                                    if let Some((o, s)) = self.settle(o, s, &l, (mi, a + w), depth - 1) {
                                        ov = o;
                                        cur = s;
                                        continue 'next;
                                    }
                                }
                            }
                        }
                    }
                    continue;
                }
                // packed bits may have a random word each
                let off = |s: &Seen| (s.msgs[mi].2[bi] ^ self.want.msgs[mi].2[bi]).count_ones();
                let now = off(&cur);
                for (d, _) in cands.iter().cloned() {
                    for ch in [1u64 << 31, 1] {
                        if self.runs > self.budget {
                            return None;
                        }
                        let mut o = ov.clone();
                        o.insert(d, vals[&d] ^ ch);
                        let s = self.go(&o);
                        if s.msgs.len() != cur.msgs.len() || s.made != self.want.made || s.msgs[mi].2.len() != len || off(&s) >= now {
                            continue;
                        }
                        let p = differ(&s, self.want);
                        if p.is_none() || p.unwrap() >= (mi, bi) {
                            ov = o;
                            cur = s;
                            continue 'next;
                        }
                        if depth > 0 {
                            let mut l = locked.clone();
                            l.insert(d);
                            if let Some((o, s)) = self.settle(o, s, &l, (mi, bi), depth - 1) {
                                if off(&s) < now {
                                    ov = o;
                                    cur = s;
                                    continue 'next;
                                }
                            }
                        }
                    }
                }
            }
            return None;
        }
    }
}

/// Sharings of the values of a scenario that look the same to `obs`.
fn material<P: Proto<T>, T: Num>(obs: usize, vals: &[u128], bits: &[bool], codes: &[plain_reference::IrisCode]) -> Material<P, T> {
    let mut m = Material::<P, T>::new(Kind::Setup, 13);
    let f = |i: usize, j: u128| (i as u128 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835).wrapping_mul(2 * j + 1);
    let g = |i: usize| [0, 1, 2].map(|j| (i * 5 + j * 3 + i * j) % 7 < 3);
    m.vals = vals.iter().map(|v| T::of(*v)).collect();
    m.sh = m.vals.iter().enumerate().map(|(i, v)| P::deal_obs(*v, obs, [f(i, 0), f(i, 1), f(i, 2), f(i, 3)], KEY)).collect();
    m.bits = bits.to_vec();
    m.bsh = bits.iter().enumerate().map(|(i, b)| P::deal_bit_obs(*b, obs, g(i))).collect();
    m.codes = codes.to_vec();
    m.code_sh = codes
        .iter()
        .enumerate()
        .map(|(n, c)| {
            let per: Vec<Vec<P::A>> = c.code.bits().enumerate().map(|(i, b)| P::deal_obs(T::of(b as u128), obs, [f(n * 20000 + i, 0), f(n * 20000 + i, 1), f(i, 2 + n as u128), f(i, 9)], KEY)).collect();
            (0..3).map(|i| mc::session::vec_share::<P::A>(per.iter().map(|s| s[i].clone()).collect())).collect()
        })
        .collect();
    m
}

#[derive(Clone, PartialEq)]
struct Secret {
    vals: Vec<u128>,
    bits: Vec<bool>,
    /// Which of the prepared databases.
    db: usize,
}
impl std::fmt::Debug for Secret {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "values {:x?} bits {:?} database {}", self.vals, self.bits, self.db)
    }
}

fn dbs(i: usize) -> Vec<plain_reference::IrisCode> {
    use plain_reference::*;
    let base = pattern_code(77);
    // query, near, far / query, far, near / another query with its own / two near
    let far = |c: &IrisCodeArray, s: usize| {
        let mut c = *c;
        (0..4352).for_each(|j| c.flip_bit((j * 2 + s) % 12800));
        c
    };
    let near = |c: &IrisCodeArray, s: usize| {
        let mut c = *c;
        (0..4351).for_each(|j| c.flip_bit((j * 2 + s) % 12800));
        c
    };
    let q = if i == 2 { pattern_code(78) } else { base };
    let l = match i {
        0 => vec![q, near(&q, 0), far(&q, 1)],
        1 => vec![q, far(&q, 0), near(&q, 1)],
        2 => vec![q, q, far(&q, 2)],
        _ => vec![q, near(&q, 4), near(&q, 7)],
    };
    l.into_iter().map(|code| IrisCode { code, mask: IrisCodeArray::ONES }).collect()
}

/// The positions of the inputs a scenario uses.
fn used(k: Kind, obs: usize) -> (Vec<usize>, usize) {
    match k {
        INPUTS => ((0..3).filter(|i| *i != obs).collect(), 0),
        Kind::Mul => (vec![0, 1], 0),
        Kind::MulTwice => (vec![0, 1, 2], 0),
        Kind::Dot | Kind::DotMany => ((0..6).collect(), 0),
        Kind::Mixed => ((0..5).collect(), 0),
        Kind::Msb => (vec![2], 0),
        Kind::MsbMany(n) | Kind::Query(n, _) => ((0..n).collect(), 0),
        Kind::Or => (vec![], 2),
        Kind::OrReduce(n, _) => (vec![], n),
        _ => (vec![], 0),
    }
}

fn result<P: Proto<T>, T: Num>(k: Kind, s: &Secret) -> Out {
    if k == INPUTS {
        return Out { ints: vec![wrap::<T>(s.vals[0].wrapping_add(s.vals[1]).wrapping_add(s.vals[2]))], bits: vec![] };
    }
    expect(k, &material::<P, T>(0, &s.vals, &s.bits, &[]))
}

/// The arithmetic results as the parties see them: in the authenticated protocol, elements of the wider
/// ring are opened.
fn seen_ints<P: Proto<T>, T: Num>(k: Kind, s: &Secret) -> Vec<u128> {
    let w = match T::K {
        _ if P::NAME != "SpdzWise" => T::K,
        64.. => 128,
        _ => 64,
    };
    let m = |x: u128| if w == 128 { x } else { x & ((1 << w) - 1) };
    let v = |i: usize| s.vals[i];
    let mul = |a: u128, b: u128| m(a.wrapping_mul(b));
    let add = |a: u128, b: u128| m(a.wrapping_add(b));
    match k {
        INPUTS => vec![add(add(v(0), v(1)), v(2))],
        Kind::Mul => vec![mul(v(0), v(1))],
        Kind::MulTwice => vec![mul(mul(v(0), v(1)), v(2))],
        Kind::Dot => vec![add(add(mul(v(0), v(1)), mul(v(2), v(3))), mul(v(4), v(5)))],
        Kind::DotMany => vec![add(mul(v(0), v(1)), mul(v(2), v(3))), add(mul(v(4), v(5)), mul(v(1), v(1)))],
        Kind::Mixed => vec![add(mul(add(mul(v(0), v(1)), mul(v(2), v(3))), v(4)), 3u128.wrapping_neg())],
        _ => vec![],
    }
}

/// Secrets that differ from the first one and give the same results.
fn secrets<P: Proto<T>, T: Num>(k: Kind, obs: usize, cap: usize) -> Vec<Secret> {
    let h = 1u128 << (T::K - 1);
    let al = [0u128, 1, 2, 3, 4, 6, 12, h - 1, h, h + 1, (h - 1) + h];
    let (pos, nb) = used(k, obs);
    let n = pos.iter().max().map(|m| m + 1).unwrap_or(0).max(6);
    let base = Secret { vals: [2u128, 6, 3, 4, 12, 1].iter().cycle().take(n).cloned().collect(), bits: (0..nb.max(3)).map(|i| i == nb / 2).collect(), db: 0 };
    if let Kind::FullQuery(..) = k {
        return (0..4).map(|db| Secret { db, ..base.clone() }).take(cap + 1).collect();
    }
    let want = result::<P, T>(k, &base);
    let ints = seen_ints::<P, T>(k, &base);
    let mut v = vec![base.clone()];
    let mut add = |s: Secret| {
        if result::<P, T>(k, &s) == want && seen_ints::<P, T>(k, &s) == ints && !v.contains(&s) {
            v.push(s);
        }
    };
    for x in 0..1u32 << nb.min(6) {
        let mut s = base.clone();
        for i in 0..nb {
            s.bits[i] = x >> (i % 6) & 1 == 1;
        }
        add(s);
    }
    for (n, &i) in pos.iter().enumerate() {
        for a in al {
            let mut s = base.clone();
            s.vals[i] = a;
            add(s.clone());
            for &j in &pos[n + 1..] {
                for b in al {
                    let mut t = s.clone();
                    t.vals[j] = b;
                    add(t);
                }
            }
        }
    }
    if v.len() > cap + 1 {
        let rest = v.split_off(1);
        let m = rest.len();
        for i in 0..cap {
            v.push(rest[i * m / cap].clone());
        }
    }
    v
}

const INPUTS: Kind = Kind::Input(9);

async fn inputs<P: Proto<T>, T: Num>(m: &Material<P, T>, mut s: Sess<P, T>, verify: bool) -> Result<Out, Error> {
    s.preprocess().await?;
    let mut acc = None;
    for d in 0..3 {
        let x = s.input(if s.id == d { Some(m.vals[d]) } else { None }, d).await?;
        acc = Some(match acc {
            None => x,
            Some(a) => s.add(a, x),
        });
    }
    if verify {
        s.verify().await?;
    }
    let o = s.open(acc.unwrap()).await?;
    s.finish().await?;
    Ok(Out { ints: vec![o.bits()], bits: vec![] })
}

#[derive(Clone, Copy, PartialEq)]
enum Extent {
    /// The whole view.
    Joint,
    /// Each message of it by itself.
    Single,
}

/// Scenarios with bit operations.
fn on_bits(k: Kind) -> bool {
    !matches!(k, INPUTS | Kind::Mul | Kind::MulTwice | Kind::Dot | Kind::DotMany)
}

fn couple<P: Proto<T>, T: Num>(r: &Report, k: Kind, obs: usize, base: u64, verify: bool, cap: usize, extent: Extent) -> Result<(), String> {
    let list = secrets::<P, T>(k, obs, cap);
    let codes = |d: usize| if let Kind::FullQuery(..) = k { dbs(d) } else { vec![] };
    let mk = |s: &Secret| material::<P, T>(obs, &s.vals, &s.bits, &codes(s.db));
    let m0 = mk(&list[0]);
    let nat = Case { k, obs, base, verify, m: &m0, order: &[] };
    let want = nat.run(&HashMap::new());
    let res = if let Kind::FullQuery(..) = k { Out { ints: vec![], bits: vec![true] } } else { result::<P, T>(k, &list[0]) };
    if want.out != Ok(res.clone()) {
        return Err(format!("the run with {:?} ends with {:?} instead of {res:?}", list[0], want.out));
    }
    let all = influences(r, &nat);
    let dig = digests(&want, &all);
    let data: Vec<usize> = (0..want.msgs.len()).filter(|m| !dig.contains(m)).collect();
    let mut orders: Vec<Vec<usize>> = vec![];
    match extent {
        Extent::Joint => orders.push(data.iter().chain(&dig).cloned().collect()),
        Extent::Single => orders.extend(data.iter().map(|m| vec![*m])),
    }
    r.max("messages_in_a_view", want.msgs.len() as u64);
    let views: Vec<(Vec<usize>, Seen, HashMap<Draw, Influence>)> = orders.into_iter().map(|o| (o.clone(), Case { order: &o, ..nat }.run(&HashMap::new()), in_order(&all, &o))).collect();
    for s in &list[1..] {
        let m = mk(s);
        let ctx = |t: String| format!("{k:?}{} seen by party {obs}: inputs {:?} and {s:?}, which have the same result, {t}", if verify { " with verification" } else { "" }, list[0]);
        let nat = Case { k, obs, base, verify, m: &m, order: &[] };
        let cur = nat.run(&HashMap::new());
        if cur.out != Ok(res.clone()) {
            return Err(ctx(format!("end with {:?}", cur.out)));
        }
        let shape = |s: &Seen| s.msgs.iter().map(|m| (m.0, m.2.len())).collect::<Vec<_>>();
        if shape(&cur) != shape(&want) {
            return Err(ctx(format!("give messages of different number or length: {:?} / {:?}", shape(&want), shape(&cur))));
        }
        if cur.hidden.iter().map(|d| d.0).ne(want.hidden.iter().map(|d| d.0)) {
            r.add("different_use_of_random_words", 1);
        }
        r.add("pairs", 1);
        r.add("distinct_nontrivial", differ(&cur, &want).is_some() as u64);
        let hidden = cur.hidden.len();
        let all0 = cur.msgs;
        for (order, want, infl) in &views {
            let case = Case { order, ..nat };
            let cur = Seen { msgs: order.iter().map(|i| all0[*i].clone()).collect(), hidden: cur.hidden.clone(), out: cur.out.clone(), made: cur.made.clone() };
            let Some((mi, bi)) = differ(&cur, want) else {
                r.add("couplings", 1);
                continue;
            };
            let at0 = cur.msgs.iter().zip(&want.msgs).filter(|(a, b)| a.2 != b.2).count();
            let mut sr = Search { case: &case, want, infl, bits_first: extent == Extent::Single, linear: P::NAME == "Swift3" && verify, bitwise: on_bits(k), runs: 0, budget: 40_000 };
            let got = sr.settle(HashMap::new(), cur, &HashSet::new(), (usize::MAX, 0), 3);
            r.add("runs", sr.runs);
            r.add("evaluations", sr.runs + 1);
            match got {
                Some((ov, s)) => {
                    if s.out != Ok(res.clone()) {
                        return Err(ctx(format!("with other hidden words end with {:?}", s.out)));
                    }
                    r.add("couplings", 1);
                    r.add("words_matched", ov.len() as u64);
                }
                None => {
                    let of = if extent == Extent::Single { format!(" of message {order:?}") } else { String::new() };
                    return Err(ctx(format!("can be told apart: for the view{of} of the first there is no choice of the {hidden} hidden random words that gives it for the second ({} runs; {at0} messages differ at first, the first one is number {} at byte {bi})", sr.runs, order[mi])));
                }
            }
        }
    }
    Ok(())
}

/// In the 8-bit ring: a byte that the observer gets and that hidden words influence takes every value
/// exactly once over the values of one of these words, everything else being as it is.  (Messages of ring
/// elements: seeds and commitments are longer.)
fn uniform<P: Proto<T>, T: Num>(r: &Report, k: Kind, obs: usize, cap: usize) -> Result<(), String> {
    for s in secrets::<P, T>(k, obs, cap) {
        let m = material::<P, T>(obs, &s.vals, &s.bits, &[]);
        let case = Case { k, obs, base: 5, verify: false, m: &m, order: &[] };
        let want = case.run(&HashMap::new());
        let infl = influences(r, &case);
        let dig = digests(&want, &infl);
        let vals: HashMap<Draw, u64> = want.hidden.iter().map(|d| (d.0, d.2)).collect();
        let mut left: Vec<(usize, usize)> = infl.values().flat_map(|i| i.bytes.iter().cloned()).filter(|b| !dig.contains(&b.0) && want.msgs[b.0].2.len() <= 8).collect();
        left.sort();
        left.dedup();
        r.max("bytes_with_exact_distribution", left.len() as u64);
        let mut ds: Vec<(&Draw, &Influence)> = infl.iter().collect();
        ds.sort_by_key(|d| (d.1.bytes.len(), *d.0));
        for (d, i) in ds {
            if !left.iter().any(|b| i.bytes.contains(b)) {
                continue;
            }
            let mut seen: HashMap<(usize, usize), HashSet<u8>> = HashMap::new();
            for x in 0..256 {
                let v = case.run(&HashMap::from([(*d, vals[d] & !255 | x)]));
                for b in &i.bytes {
                    if let Some(y) = v.msgs.get(b.0).and_then(|m| m.2.get(b.1)) {
                        seen.entry(*b).or_default().insert(*y);
                    }
                }
            }
            r.add("evaluations", 256);
            left.retain(|b| seen.get(b).map_or(true, |s| s.len() < 256));
        }
        if let Some(b) = left.first() {
            return Err(format!("{k:?} with {s:?} seen by party {obs}: byte {} of message {} (and {} more) does not take every value for any of the {} hidden words", b.1, b.0, left.len() - 1, infl.len()));
        }
        r.add("distinct_nontrivial", 1);
    }
    Ok(())
}

/// A session with two rounds of bit operations and verification, nothing is opened.
async fn rounds<P: Proto<T>, T: Num>(m: &Material<P, T>, mut s: Sess<P, T>, n: usize) -> Result<Out, Error> {
    s.preprocess().await?;
    for _ in 0..2 {
        s.triples(n).await?;
        let b = of_party(&m.bsh, s.id);
        s.or_reduce(vec_share::<P::B>(b), 1000).await?;
        s.verify().await?;
    }
    s.finish().await?;
    Ok(Out { ints: vec![], bits: vec![] })
}

/// Which hidden words of a long run are drawn anew.
#[derive(Clone, Default)]
struct Redraw {
    /// every word of these streams,
    streams: HashSet<Seed>,
    /// except for these,
    fixed: HashSet<Draw>,
    /// or only these.
    only: HashSet<Draw>,
    number: u64,
}
struct Long {
    msgs: Vec<Vec<u8>>,
    made: Vec<Seed>,
    /// Per stream that the observer does not know: how many messages had been sent when each word was drawn first.
    drawn: Vec<(Seed, Vec<usize>)>,
    out: Result<(), String>,
}
/// A run with millions of draws.
fn long<P: Proto<T>, T: Num>(m: &Material<P, T>, obs: usize, re: &Redraw) -> Long {
    beat();
    let w = World::new(Mode::Fast, 64);
    w.0.borrow_mut().record = true;
    own_entropy(64);
    let known: Rc<RefCell<(HashSet<Seed>, Vec<Seed>)>> = Default::default();
    let streams: Rc<RefCell<Vec<(Seed, Vec<usize>)>>> = Default::default();
    let k2 = known.clone();
    control::set_watch(Some(Box::new(move |s| {
        let mut k = k2.borrow_mut();
        if current_party() == obs {
            k.0.insert(*s);
        }
        k.1.push(*s);
    })));
    let (k3, s3, w3, re) = (known.clone(), streams.clone(), w.clone(), re.clone());
    // (stream, its number in the list or none if the observer knows it, whether it is drawn anew)
    let mut last: ([u8; 32], Option<usize>, bool) = ([0; 32], None, false);
    let mut fresh = true;
    control::set_oracle(Some(Box::new(move |s, p, _| {
        if fresh || last.0 != *s {
            fresh = false;
            let i = if k3.borrow().0.contains(s) {
                None
            } else {
                let mut l = s3.borrow_mut();
                Some(l.iter().position(|x| x.0 == *s).unwrap_or_else(|| {
                    l.push((*s, vec![]));
                    l.len() - 1
                }))
            };
            last = (*s, i, re.streams.contains(s));
        }
        if let Some(i) = last.1 {
            let mut l = s3.borrow_mut();
            if l[i].1.len() as u64 == p {
                let n = w3.0.borrow().log.len();
                l[i].1.push(n);
            }
        }
        let anew = last.2 && !re.fixed.contains(&(*s, p)) || !re.only.is_empty() && re.only.contains(&(*s, p));
        let mut x = s.chunks(8).enumerate().fold(p.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ if anew { re.number << 40 ^ 1 << 63 } else { 0 }, |a, (i, c)| a.rotate_left(i as u32 * 7 + 1) ^ u64::from_le_bytes(c.try_into().unwrap()));
        for _ in 0..2 {
            x = (x ^ x >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ x >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^= x >> 31;
        }
        x
    })));
    let (ends, _) = run_fast(&w, parties::<P, T, Out, _, _>(&w, &m.key, |s| rounds::<P, T>(m, s, m.bsh.len())));
    control::set_oracle(None);
    control::set_watch(None);
    let (known, made) = std::mem::take(&mut *known.borrow_mut());
    let msgs = w.0.borrow().log.iter().filter(|l| l.1 == obs).map(|l| l.3.to_vec()).collect();
    let drawn = std::mem::take(&mut *streams.borrow_mut()).into_iter().filter(|s| !known.contains(&s.0)).collect();
    let out = match ends.iter().find(|e| !matches!(e, End::Done(Ok(_)))) {
        None => Ok(()),
        Some(e) => Err(format!("{e:?}")),
    };
    Long { msgs, made, drawn, out }
}

/// No two bits that a party receives in such a session have the same mask: over many choices of the
/// hidden random words, no two of them are always equal or always different.
fn own_masks<P: Proto<T>, T: Num>(r: &Report, obs: usize, n: usize) -> Result<(), String> {
    const RUNS: u64 = 48;
    // both peers send the same one, and what it digests is in other messages
    const DIGEST: usize = 64;
    let m = material::<P, T>(obs, &[1; 6], &vec![false; n], &[]);
    let base = long(&m, obs, &Redraw::default());
    if let Err(e) = base.out {
        return Err(format!("two rounds of OR and verification end with {e}"));
    }
    if std::env::var("VERIF_TRACE").is_ok() { eprintln!("{:?} fixed {:?}", base.msgs.iter().map(|m| m.len()).collect::<Vec<_>>(), base.drawn.iter().map(|d| d.1.len()).collect::<Vec<_>>()); }
    let mut re = Redraw { streams: base.drawn.iter().map(|d| d.0).collect(), ..Default::default() };
    // few words drawn between the same two messages may make up a seed or a joint coin: these stay as they are
    for (s, at) in &base.drawn {
        let mut i = 0;
        while i < at.len() {
            let j = i + at[i..].iter().take_while(|n| **n == at[i]).count();
            if j - i <= 64 {
                let g: HashSet<Draw> = (i..j).map(|p| (*s, p as u64)).collect();
                if long(&m, obs, &Redraw { only: g.clone(), number: 1, ..Default::default() }).made != base.made {
                    re.fixed.extend(g);
                }
            }
            i = j;
        }
    }
    let data: Vec<usize> = (0..base.msgs.len()).filter(|i| (1..=8192).contains(&base.msgs[*i].len()) && base.msgs[*i].len() != DIGEST).collect();
    let mut rows: Vec<u64> = vec![0; data.iter().map(|i| base.msgs[*i].len() * 8).sum()];
    for k in 0..RUNS {
        re.number = 10 + k;
        let s = long(&m, obs, &re);
        if s.made != base.made || s.out.is_err() {
            return Err(format!("with other hidden words the run ends with {:?}", s.out));
        }
        let bits = data.iter().flat_map(|i| s.msgs[*i].iter().flat_map(|b| (0..8).map(move |j| b >> j & 1)));
        rows.iter_mut().zip(bits).for_each(|(x, b)| *x |= (b as u64) << k);
    }
    r.add("evaluations", RUNS + 1);
    let mut seen: HashMap<u64, (usize, usize)> = HashMap::new();
    let mut rows = rows.into_iter();
    let all = u64::MAX >> (64 - RUNS);
    for i in &data {
        for b in 0..base.msgs[*i].len() * 8 {
            let x = rows.next().unwrap();
            let x = if x & 1 == 1 { !x & all } else { x };
            // what does not depend on them at all: seeds, commitments, coins
            if x == 0 {
                continue;
            }
            r.add("masked_bits", 1);
            if let Some(o) = seen.insert(x, (*i, b)) {
                return Err(format!("{} seen by party {obs}: two rounds of OR of {n} bits with verification: bit {b} of message {i} has the same mask as bit {} of message {}", P::NAME, o.1, o.0));
            }
        }
    }
    r.add("distinct_nontrivial", 1);
    Ok(())
}

fn uniform_jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>) {
    if P::NAME != "Aby3" && P::NAME != "Swift3" {
        return;
    }
    let cap = rep.pick(3, 40);
    for k in [INPUTS, Kind::Mul, Kind::MulTwice, Kind::Dot, Kind::DotMany] {
        for obs in 0..3 {
            v.push((format!("{}/{}/{k:?} exactly/{obs}", P::NAME, T::TY), Box::new(move |r| uniform::<P, T>(r, k, obs, cap))));
        }
    }
}

fn jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>, kinds: &[Kind], verify: bool) {
    if !multiplies::<P, T>() || verify && !P::MALICIOUS {
        return;
    }
    let bases = rep.pick(1, 3);
    for &k in kinds {
        // the malicious protocol makes and checks a triple for each gate: message by message there
        let extent = if P::NAME == "MalAby3" && on_bits(k) { Extent::Single } else { Extent::Joint };
        let skip = match P::NAME {
            "MalAby3" => verify || matches!(k, Kind::FullQuery(..)) || extent == Extent::Single && (T::K > rep.pick(8, 16) || matches!(k, Kind::Mixed | Kind::Query(..)) && !rep.thorough()),
            "SpdzWise" => T::K == 64 && !on_bits(k) || matches!(k, Kind::FullQuery(..)),
            _ => false,
        };
        if skip {
            continue;
        }
        let cap = if extent == Extent::Single || P::NAME == "Swift3" && verify { rep.pick(2, 20) } else { rep.pick(6, 40) };
        for obs in 0..3 {
            for b in 0..bases {
                v.push((format!("{}/{}/{k:?}{}/{obs}/{b}", P::NAME, T::TY, if verify { "+verify" } else { "" }), Box::new(move |r| couple::<P, T>(r, k, obs, b, verify, cap, extent))));
            }
        }
    }
}

fn main() {
    let rep = Report::new("P07", "model_checking");
    let mut v: Vec<Job> = vec![];
    // the longest ones first
    for obs in 0..3 {
        for n in if rep.thorough() { vec![9, 300, 5000, 20000] } else { vec![5000] } {
            v.push((format!("SpdzWise/u16/own masks/{obs}/{n}"), Box::new(move |r| own_masks::<PSpdz, u16>(r, obs, n))));
        }
    }
    jobs::<PSwift, u16>(rep, &mut v, if rep.thorough() { &[Kind::Or, Kind::OrReduce(3, 2)] } else { &[Kind::Or] }, true);
    let ks = [INPUTS, Kind::Mul, Kind::MulTwice, Kind::Dot, Kind::DotMany, Kind::Msb, Kind::MsbMany(2), Kind::Or, Kind::OrReduce(5, 2), Kind::OrReduce(9, 4), Kind::Mixed, Kind::Query(2, 1)];
    mc::each_proto!(jobs, [u8, u16, u32, u64], (rep, &mut v, &ks, false));
    mc::each_proto!(jobs, [u16], (rep, &mut v, &[INPUTS, Kind::Mul, Kind::MulTwice, Kind::Dot, Kind::DotMany], true));
    mc::each_proto!(jobs, [u16], (rep, &mut v, &[Kind::FullQuery(2, 2)], false));
    mc::each_proto!(uniform_jobs, [u8], (rep, &mut v));
    run_jobs(rep, v);
    rep.finish_and_exit();
}
