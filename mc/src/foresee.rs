//! A corrupted party that knows, before it commits itself, the challenges its errors are checked
//! with.  Swift3 checks the messages of a party by random combinations: theta-combinations of the
//! gates in a column, beta-combinations of the columns, and one evaluation point.  Whoever foresees
//! the thetas picks errors that cancel in the combination; whoever foresees the betas and the point
//! picks a proof that fits.  Both attacks are mounted here with what the corrupted party can know:
//! everything up to the moment it commits itself.  What honest parties draw afterwards differs from
//! what it saw in its head, so the attacks work only on challenges fixed beforehand.
use crate::dev;
use crate::exec::*;
use crate::net::*;
use crate::protos::*;
use crate::report::*;
use crate::scen::*;
use std::collections::{HashMap, HashSet};

pub type Ends = [End<Result<Out, String>>; 3];

/// What both honest parties did with the run: wrong values accepted, panic or hang.
pub fn judge(ends: &Ends, bad: usize, want: &Out) -> Option<String> {
    for p in 0..3 {
        if p == bad {
            continue;
        }
        match &ends[p] {
            End::Done(Ok(o)) if o == want => {}
            End::Done(Ok(o)) => {
                let n = o.ints.iter().zip(&want.ints).filter(|(a, b)| a != b).count() + o.bits.iter().zip(&want.bits).filter(|(a, b)| a != b).count();
                return Some(format!("honest party {p} accepts {n} wrong results of {}", want.ints.len() + want.bits.len()));
            }
            End::Done(Err(_)) => {}
            End::Panic(m) => return Some(format!("honest party {p} panics instead of reporting an error: {m}")),
            End::Blocked(m) => return Some(format!("honest party {p} hangs in {m}")),
            End::Crashed => return Some(format!("honest party {p} stopped")),
        }
    }
    None
}

/// Subset of the rows (bit vectors) whose sum is zero, if there is one.
pub fn dependency(rows: &[u64]) -> Option<Vec<usize>> {
    let mut basis: Vec<(u64, u128, usize)> = vec![];
    for (i, r) in rows.iter().enumerate().take(128) {
        let (mut v, mut who) = (*r, 1u128 << i);
        for (b, w, bit) in &basis {
            if v >> bit & 1 == 1 {
                v ^= b;
                who ^= w;
            }
        }
        if v == 0 {
            return Some((0..128).filter(|j| who >> j & 1 == 1).collect());
        }
        basis.push((v, who, 63 - v.leading_zeros() as usize));
        basis.sort_by(|a, b| b.2.cmp(&a.2));
    }
    None
}

fn ideal(d: &dev::Draw) -> u64 {
    dev::ideal(&d.0, d.1)
}

type Run = (Ends, Vec<(dev::Draw, u8, u8)>, Vec<(usize, usize, usize, bytes::Bytes)>, usize);

/// One run under ideal generators, party 0 corrupted.  `salt`: after the alterations of the plan, what
/// a single honest party draws for itself (entropy, and its own generators `own`) changes with it.
fn go<P: Proto<T>, T: Num>(k: Kind, m: &Material<P, T>, plan: &[((usize, usize, usize), Action)], salt: u64, own: &HashSet<[u8; 32]>) -> Run {
    let w = World::new(Mode::Fast, 1 << 20);
    {
        let mut i = w.0.borrow_mut();
        i.record = true;
        for (key, a) in plan {
            i.tamper.insert(*key, a.clone());
        }
    }
    let own = own.clone();
    let base = TAMPERED.with(|c| c.get()) + plan.len();
    entropy_changing_after(31, salt, 0, plan.len());
    let ((ends, _), list) = dev::draws_changed(
        move |d, party| {
            let late = salt != 0 && party != 0 && TAMPERED.with(|c| c.get()) >= base && own.contains(&d.0);
            if late {
                // another function of the generator and the position
                let mut h = salt as u128;
                hash_bytes(&mut h, &d.0);
                hash_bytes(&mut h, &d.1.to_le_bytes());
                (h ^ (h >> 64)) as u64
            } else {
                ideal(d)
            }
        },
        || run_fast(&w, build::<P, T>(k, m, true, &w)),
    );
    let i = w.0.borrow();
    let log = i.log.clone();
    let t = i.tampered;
    (ends, list, log, t)
}

fn unknown_of<P: Proto<T>, T: Num>(bad: usize, list: &[(dev::Draw, u8, u8)]) -> dev::Unknown {
    let m = Material::<P, T>::new(Kind::Setup, 13);
    let w = World::new(Mode::Fast, 1 << 20);
    dev::Unknown::new(bad, 31, list, || run_fast(&w, build::<P, T>(Kind::Setup, &m, false, &w)))
}

/// The same with everything unknown to the corrupted party changed by `salt` from the setup on.
fn go_unknown<P: Proto<T>, T: Num>(k: Kind, m: &Material<P, T>, plan: &[((usize, usize, usize), Action)], salt: u64, u: &dev::Unknown) -> Run {
    let w = World::new(Mode::Fast, 1 << 20);
    for (key, a) in plan {
        w.0.borrow_mut().tamper.insert(*key, a.clone());
    }
    u.begin(salt);
    let u2 = u.clone();
    let ((ends, _), list) = dev::draws_changed(move |d, _| u2.value(d, salt), || run_fast(&w, build::<P, T>(k, m, true, &w)));
    let t = w.0.borrow().tampered;
    (ends, list, vec![], t)
}

/// Generators used by one honest party only.
pub fn singles(list: &[(dev::Draw, u8, u8)]) -> HashSet<[u8; 32]> {
    let mut m: HashMap<[u8; 32], u8> = HashMap::new();
    for (d, who, _) in list {
        *m.entry(d.0).or_default() |= who;
    }
    m.into_iter().filter(|(_, w)| *w == 2 || *w == 4).map(|(s, _)| s).collect()
}

/// The values drawn from each generator that all three parties use.
pub fn common(list: &[(dev::Draw, u8, u8)]) -> Vec<Vec<u64>> {
    let mut order: Vec<[u8; 32]> = vec![];
    let mut m: HashMap<[u8; 32], Vec<u64>> = HashMap::new();
    for (d, who, _) in list {
        if *who == 7 {
            if !m.contains_key(&d.0) {
                order.push(d.0);
            }
            m.entry(d.0).or_default().push(ideal(d));
        }
    }
    order.into_iter().map(|s| m.remove(&s).unwrap()).collect()
}

/// All bits of the material false.
fn none_set<P: Proto<T>, T: Num>(m: &mut Material<P, T>) {
    use rand::SeedableRng;
    let mut rng = rand_chacha::ChaCha12Rng::from_seed([14; 32]);
    m.bits.iter_mut().for_each(|b| *b = false);
    m.bsh = m.bits.iter().map(|b| P::deal_bit(*b, &mut rng)).collect();
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gate {
    And,
    Mul,
    Dot,
}

/// Sizes at which there are more rows than a combination has bits.
const AND_WORDS: usize = 64;
const MULS: usize = 50 * 50;
const DOTS: usize = 6 * 53 * 53;

/// Errors that cancel under foreseen thetas.
pub fn thetas<T: Num>(rep: &Report, gate: Gate) -> Result<(), String>
where
    PSwift: Proto<T>,
{
    let k = match gate {
        Gate::And => Kind::OrReduce(128 * AND_WORDS, AND_WORDS),
        Gate::Mul => Kind::MulWide(MULS),
        Gate::Dot => Kind::DotWide(DOTS),
    };
    let mut m = Material::<PSwift, T>::new(k, 13);
    if gate == Gate::And {
        none_set(&mut m);
    }
    let want = expect(k, &m);
    let (ends, list, log, _) = go(k, &m, &[], 0, &HashSet::new());
    rep.add("evaluations", 1);
    for e in &ends {
        if e.done() != Some(&Ok(want.clone())) {
            return Err(format!("{k:?}: an undisturbed run does not end with the right results"));
        }
    }
    let bytes = T::K / 8;
    // messages of party 0 of a given size, in order
    let sized = |to: usize, len: usize| log.iter().filter(|l| l.0 == 0 && l.1 == to && l.3.len() == len).map(|l| l.2).collect::<Vec<_>>();
    // gates checked together, and in how many rows and columns
    let (n, cols) = match gate {
        Gate::And => (128 * AND_WORDS - 1, ((128 * AND_WORDS - 1) as f64).sqrt().ceil() as usize),
        Gate::Mul => (MULS, (MULS as f64).sqrt().ceil() as usize),
        Gate::Dot => (DOTS, ((6 * DOTS) as f64).sqrt().ceil() as usize),
    };
    let cols = if gate == Gate::Dot { cols } else { n.div_ceil(cols) };
    let total = n.div_ceil(cols);
    // errors go into the first two levels of an or-tree, and anywhere else
    let rows = if gate == Gate::And { AND_WORDS * 3 / 4 * 128 / cols } else { total };
    rep.max("rows", rows as u64);
    let unknown = unknown_of::<PSwift, T>(0, &list);
    for v in common(&list) {
        // thetas of the three provers, one after the other: `total` field elements each
        if v.len() % (3 * total) != 0 || v.len() / (3 * total) == 0 {
            continue;
        }
        let per = v.len() / (3 * total);
        let vecs: Vec<u64> = match gate {
            Gate::And if per == 1 => v[..rows].to_vec(),
            Gate::And => continue,
            // coefficients modulo two
            _ if per < 64 => (0..rows).map(|l| (0..per).map(|c| (v[l * per + c] & 1) << c).sum()).collect(),
            _ => continue,
        };
        rep.add("combinations_examined", 1);
        rep.max("unknowns_in_a_combination", if gate == Gate::And { 64 } else { per as u64 });
        let Some(dep) = dependency(&vecs) else { continue };
        rep.max("errors_placed", dep.len() as u64);
        let mut plan: Vec<((usize, usize, usize), Action)> = vec![];
        match gate {
            Gate::And => {
                let (l1, l2) = (AND_WORDS / 2 * 16, AND_WORDS / 4 * 16);
                for to in [1, 2] {
                    let (Some(i1), Some(i2)) = (sized(to, l1).first().cloned(), sized(to, l2).first().cloned()) else {
                        rep.add("attack_does_not_fit_the_messages", 1);
                        return Ok(());
                    };
                    let (mut b1, mut b2) = (vec![0u8; l1], vec![0u8; l2]);
                    for row in &dep {
                        let g = row * cols;
                        let (wd, bit) = (g / 128, g % 128);
                        let (b, wd) = if wd < AND_WORDS / 2 { (&mut b1, wd) } else { (&mut b2, wd - AND_WORDS / 2) };
                        b[wd * 16 + 15 - bit / 8] ^= 1 << (bit % 8);
                    }
                    for (i, b) in [(i1, b1), (i2, b2)] {
                        if b.iter().any(|x| *x != 0) {
                            plan.push(((0, to, i), Action::Mask(b)));
                        }
                    }
                }
            }
            Gate::Dot => {
                for to in [1, 2] {
                    let Some(idx) = sized(to, n * bytes).first().cloned() else {
                        rep.add("attack_does_not_fit_the_messages", 1);
                        return Ok(());
                    };
                    let mut b = vec![0u8; n * bytes];
                    for row in &dep {
                        b[row * cols * bytes] = 0x80;
                    }
                    plan.push(((0, to, idx), Action::Mask(b)));
                }
            }
            Gate::Mul => {
                let (one, two) = (sized(1, bytes), sized(2, bytes));
                if one.len() < 2 * n || two.len() < n {
                    rep.add("attack_does_not_fit_the_messages", 1);
                    return Ok(());
                }
                for row in &dep {
                    let g = row * cols;
                    plan.push(((0, 1, one[2 * g]), Action::FlipBit(7)));
                    plan.push(((0, 2, two[g]), Action::FlipBit(7)));
                }
            }
        }
        if rep.thorough() {
            // without new entropy the errors do cancel: the attack is a real one
            let (ends, _, _, _) = go_unknown(k, &m, &plan, 0, &unknown);
            rep.add("evaluations", 1);
            if judge(&ends, 0, &want).is_some() {
                rep.add("combinations_that_cancel_when_known", 1);
            }
        }
        // with it they must be found
        let (ends, _, _, t) = go_unknown(k, &m, &plan, 0x5a17, &unknown);
        rep.add("evaluations", 1);
        if t != plan.len() {
            rep.add("attack_does_not_fit_the_messages", 1);
            continue;
        }
        if let Some(s) = judge(&ends, 0, &want) {
            return Err(format!("Swift3, {k:?}, party 0 corrupted: {} errors chosen before the run so that they cancel in the random combination of the check, which party 0 can compute beforehand: {s}", dep.len()));
        }
        rep.add("detected_by_an_honest_party", 1);
    }
    Ok(())
}

/// Multiplication in GF(2)[x] modulo a polynomial of degree d (`low`: it without its top term).
#[derive(Clone, Copy)]
struct Field {
    d: usize,
    low: u64,
}
impl Field {
    fn mul(&self, a: u64, b: u64) -> u64 {
        let (mut a, mut r) = (a, 0u64);
        for i in 0..self.d {
            if b >> i & 1 == 1 {
                r ^= a;
            }
            let top = a >> (self.d - 1) & 1 == 1;
            a = if self.d == 64 { a << 1 } else { a << 1 & ((1 << self.d) - 1) };
            if top {
                a ^= self.low;
            }
        }
        r
    }
    fn inv(&self, a: u64) -> u64 {
        // a^(2^d - 2)
        let (mut r, mut x) = (1, a);
        for _ in 1..self.d {
            x = self.mul(x, x);
            r = self.mul(r, x);
        }
        r
    }
}

/// A field of 2^d elements: the repository's modulus of that degree, modulo two.
fn field(d: usize) -> Option<Field> {
    const LOW: [u64; 24] = [
        1099522486571, 2199023255561, 4399239010919, 8796093022297, 17592203542555, 35184373323841, 70368755859457, 140737488355361, 281475018792329, 562949953422687, 1125900847118165, 2251799813788225, 4503600141354131,
        9007199254741063, 18014423912784023, 36028797018967697, 72057603773459229, 144115188078554495, 288230378958036459, 576460752303423611, 1152981527954067773, 2305843009213693991, 4611686024857219139, 9223372036884368159,
    ];
    match d {
        64 => Some(Field { d, low: 0x1b }),
        40..=63 => Some(Field { d, low: LOW[d - 40] & ((1 << d) - 1) }),
        _ => None,
    }
}

/// A wrong gate, and a proof that fits it at a foreseen point.
pub fn betas<T: Num>(rep: &Report, gate: Gate, several: bool) -> Result<(), String>
where
    PSwift: Proto<T>,
{
    let (k, n) = match (gate, several) {
        (Gate::And, false) => (Kind::Or, 1),
        (Gate::And, true) => return Ok(()),
        (Gate::Mul, false) => (Kind::Mul, 1),
        (Gate::Mul, true) => (Kind::MulWide(7), 7),
        (Gate::Dot, false) => (Kind::DotWide(1), 1),
        (Gate::Dot, true) => (Kind::DotWide(20), 20),
    };
    let m = Material::<PSwift, T>::new(k, 13);
    let want = expect(k, &m);
    let (ends, _, log, _) = go(k, &m, &[], 0, &HashSet::new());
    rep.add("evaluations", 1);
    for e in &ends {
        if e.done() != Some(&Ok(want.clone())) {
            return Err(format!("{k:?}: an undisturbed run does not end with the right results"));
        }
    }
    let bytes = if gate == Gate::And { 1 } else { T::K / 8 };
    let misfit = || {
        rep.add("attack_does_not_fit_the_messages", 1);
        Ok(())
    };
    let sized = |log: &[(usize, usize, usize, bytes::Bytes)], to: usize, len: usize| log.iter().filter(|l| l.0 == 0 && l.1 == to && l.3.len() == len).map(|l| l.2).collect::<Vec<_>>();
    let len = if gate == Gate::Dot { n * bytes } else { bytes };
    let (Some(one), Some(two)) = (sized(&log, 1, len).first().cloned(), sized(&log, 2, len).first().cloned()) else { return misfit() };
    // the first gate is wrong
    let flip = Action::FlipBit(if gate == Gate::And { 0 } else { 7 });
    let mut plan = vec![((0, 1, one), flip.clone()), ((0, 2, two), flip)];
    let (_, list, log, t) = go(k, &m, &plan, 0, &HashSet::new());
    rep.add("evaluations", 1);
    if t != 2 {
        return misfit();
    }
    let own = singles(&list);
    let (rows, cols) = if gate == Gate::Dot {
        let c = ((6 * n) as f64).sqrt().ceil() as usize;
        (n.div_ceil(c), c)
    } else {
        let l = (n as f64).sqrt().ceil() as usize;
        (l, n.div_ceil(l))
    };
    let circuit = 6 * rows;
    let all = common(&list);
    for (x, th) in all.iter().enumerate() {
        for (y, be) in all.iter().enumerate() {
            if x == y || th.len() % (3 * rows) != 0 || th.is_empty() {
                continue;
            }
            let per = th.len() / (3 * rows);
            if be.len() != 3 * per * (cols + 1) {
                continue;
            }
            let Some(f) = (if gate == Gate::And { field(64) } else { field(per) }) else { continue };
            let elem = |v: &[u64], i: usize| -> u64 {
                if gate == Gate::And {
                    v[i]
                } else {
                    (0..per).map(|c| (v[i * per + c] & 1) << c).sum()
                }
            };
            if gate == Gate::And && per != 1 {
                continue;
            }
            rep.add("combinations_examined", 1);
            let theta = elem(th, 0);
            let beta: Vec<u64> = (0..cols).map(|c| elem(be, c)).collect();
            let r = elem(be, 3 * cols);
            // the wrong gate is at point 1: its Lagrange polynomial there
            let mut lag = 1u64;
            for i in 0..=cols as u64 {
                if i != 1 {
                    lag = f.mul(lag, f.mul(r ^ i, f.inv(1 ^ i)));
                }
            }
            let target = f.mul(theta, lag);
            // what coefficient k does at the columns
            let at = |kk: usize| {
                let mut s = 0;
                for (c, b) in beta.iter().enumerate() {
                    let mut p = 1u64;
                    for _ in 0..kk {
                        p = f.mul(p, c as u64 + 1);
                    }
                    s ^= f.mul(*b, p);
                }
                s
            };
            let pw = |kk: usize| (0..kk).fold(1u64, |p, _| f.mul(p, r));
            // d0 + d1 r = target, d0 B0 + d1 B1 = 0
            let (b0, b1, r0, r1) = (at(0), at(1), pw(0), pw(1));
            let det = f.mul(r0, b1) ^ f.mul(r1, b0);
            if det == 0 {
                continue;
            }
            let di = f.inv(det);
            let d0 = f.mul(f.mul(target, b1), di);
            let d1 = f.mul(f.mul(target, b0), di);
            // where the two coefficients are in the proof message
            let esz = if gate == Gate::And { 8 } else { 8 + per * bytes };
            let size = 16 + circuit * esz + (2 * cols + 1) * esz;
            let Some((idx, msg)) = log.iter().find(|l| l.0 == 0 && l.1 == 1 && l.3.len() == size).map(|l| (l.2, l.3.clone())) else {
                misfit()?;
                continue;
            };
            let mut mask = vec![0u8; msg.len()];
            let start = 16 + circuit * esz;
            for (kk, d) in [d0, d1].iter().enumerate() {
                let o = start + kk * esz;
                if gate == Gate::And {
                    mask[o..o + 8].copy_from_slice(&d.to_le_bytes());
                } else {
                    for c in 0..per {
                        if d >> c & 1 == 1 {
                            mask[o + 8 + c * bytes + bytes - 1] = 0x80;
                        }
                    }
                }
            }
            plan.truncate(2);
            plan.push(((0, 1, idx), Action::Mask(mask)));
            let (ends, _, _, _) = go(k, &m, &plan, 0, &own);
            rep.add("evaluations", 1);
            if judge(&ends, 0, &want).is_some() {
                rep.add("forged_proofs_that_pass_when_known", 1);
            }
            let (ends, _, _, _) = go(k, &m, &plan, 0x5a17, &own);
            rep.add("evaluations", 1);
            if let Some(s) = judge(&ends, 0, &want) {
                return Err(format!("Swift3, {k:?}, party 0 corrupted: one wrong gate, and a proof made to fit it at the challenges of the check, which party 0 can compute before it sends the proof: {s}"));
            }
            rep.add("detected_by_an_honest_party", 1);
        }
    }
    Ok(())
}

/// Two wrong words in the ratio of a challenge foreseen, or of a constant.
pub fn ratios<P: Proto<T>, T: Num>(rep: &Report, k: Kind, bad: usize) -> Result<(), String> {
    let m = Material::<P, T>::new(k, 13);
    let want = expect(k, &m);
    let fresh = || World::new(Mode::Fast, 64);
    let w = fresh();
    own_entropy(31);
    let ((ends, _), list) = dev::draws(|| run_fast(&w, build::<P, T>(k, &m, true, &w)));
    for e in &ends {
        if e.done() != Some(&Ok(want.clone())) {
            return Err(format!("{k:?}: an undisturbed run does not end with the right results"));
        }
    }
    let unknown = unknown_of::<P, T>(bad, &list);
    let mut mine: Vec<_> = list.iter().filter(|d| d.1 >> bad & 1 == 1 && d.1.count_ones() == 2 && !unknown.in_setup(&d.0)).cloned().collect();
    if mine.iter().any(|d| d.2 == 8) {
        // ring elements, not bytes of seeds
        mine.retain(|d| d.2 == 8);
    }
    let mut mine: Vec<_> = mine.into_iter().map(|d| d.0).collect();
    let cap = rep.pick(32, 64) as usize;
    if mine.len() > cap {
        mine = mine.split_off(mine.len() - cap);
    }
    // challenges are single words or a few; what expands to thousands of words is no ratio
    let words: Vec<u64> = common(&list).into_iter().filter(|v| v.len() <= 8).flatten().collect();
    rep.max("foreseen_words", words.len() as u64);
    for x in 0..mine.len() {
        for y in x + 1..mine.len() {
            for &r in &words {
                for (a, b) in [(1, r), (1, r.wrapping_neg()), (r, 1), (r.wrapping_neg(), 1)] {
                    let at = [(mine[x], dev::Delta::Add(a)), (mine[y], dev::Delta::Add(b))];
                    let w = fresh();
                    let ((ends, _), n) = unknown.deviation(&at, 0x5a17, || run_fast(&w, build::<P, T>(k, &m, true, &w)));
                    rep.add("evaluations", 1);
                    rep.add("deviations_in_the_ratio_of_a_foreseen_word", 1);
                    if n < 2 {
                        continue;
                    }
                    if let Some(s) = judge(&ends, bad, &want) {
                        return Err(format!("{}, {k:?}, party {bad} corrupted: it takes two other random words, the changes in the ratio of a public challenge it can compute beforehand: {s}", P::NAME));
                    }
                    if rep.thorough() || (x == 0 && y < 4) {
                        let w = fresh();
                        let ((ends, _), _) = unknown.deviation(&at, 0, || run_fast(&w, build::<P, T>(k, &m, true, &w)));
                        if judge(&ends, bad, &want).is_some() {
                            rep.add("ratios_that_pass_when_known", 1);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Wrong triples put where a foreseen permutation pairs them.
pub fn buckets<T: Num>(rep: &Report, bad: usize) -> Result<(), String>
where
    PSpdz: Proto<T>,
{
    use rand::{Rng, SeedableRng};
    let k = Kind::OrReduce(1 << 15, 1);
    let mut m = Material::<PSpdz, T>::new(k, 13);
    none_set(&mut m);
    let want = expect(k, &m);
    let w = World::new(Mode::Fast, 64);
    own_entropy(31);
    let ((ends, _), list) = dev::draws(|| run_fast(&w, build::<PSpdz, T>(k, &m, true, &w)));
    rep.add("evaluations", 1);
    for e in &ends {
        if e.done() != Some(&Ok(want.clone())) {
            return Err(format!("{k:?}: an undisturbed run does not end with the right results"));
        }
    }
    let unknown = unknown_of::<PSpdz, T>(bad, &list);
    let n = 1usize << 13;
    let words = 2 * n + 1;
    // this party's generator, shared with one other, that masks the products
    let mut gens: Vec<([u8; 32], Vec<u64>)> = vec![];
    let mut publics: Vec<[u8; 32]> = vec![];
    let mut at: HashMap<[u8; 32], usize> = HashMap::new();
    for (d, who, b) in &list {
        if unknown.in_setup(d) {
            continue;
        }
        if *who == 7 && !publics.contains(&d.0) {
            publics.push(d.0);
        }
        if who >> bad & 1 == 1 && who.count_ones() == 2 && *b == 8 {
            let i = *at.entry(d.0).or_insert_with(|| {
                gens.push((d.0, vec![]));
                gens.len() - 1
            });
            gens[i].1.push(d.1);
        }
    }
    gens.retain(|g| g.1.len() >= 6 * words + 2);
    gens.truncate(1);
    let Some(gen) = gens.pop() else {
        rep.add("attack_does_not_fit_the_messages", 1);
        return Ok(());
    };
    // the two permutations: of the second bucket before the triples are checked against it, and of the
    // checked triples before the gates are checked against them; as public generators give them, or none
    let perm = |seed: Option<[u8; 32]>, bits: usize| {
        let mut p: Vec<u32> = (0..bits as u32).collect();
        if let Some(s) = seed {
            dev::draws_changed(
                |d, _| ideal(d),
                || {
                    let mut rng = rand_chacha::ChaCha12Rng::from_seed(s);
                    for j in 0..bits {
                        let i = rng.gen_range(j..bits);
                        p.swap(i, j);
                    }
                },
            );
        }
        p
    };
    let mut seeds: Vec<Option<[u8; 32]>> = vec![None];
    seeds.extend(publics.into_iter().map(Some));
    let first: Vec<Vec<u32>> = seeds.iter().map(|s| perm(*s, (n + 1) * 128)).collect();
    let second: Vec<Vec<u32>> = seeds.iter().map(|s| perm(*s, n * 128)).collect();
    let mut cases: Vec<(&Vec<u32>, &Vec<u32>, usize)> = first.iter().flat_map(|a| second.iter().map(move |b| (a, b, 77))).collect();
    // gates elsewhere in the batch, where a permutation may leave everything in its place
    for gate in [0, 127, 128, 8191, 8192, 8192 + 77, 16383] {
        cases.push((&first[0], &second[0], gate));
    }
    for (p1, p2, gate) in cases {
        // one gate of the first level is wrong, the triple it is checked with, and the triple that is
        // checked with
        let mut flips: HashMap<u64, u64> = HashMap::new();
        let mut flip = |word: usize, bit: usize| *flips.entry(gen.1[4 * words + 2 * word + bit / 64]).or_default() ^= 1 << (bit % 64);
        flip(words, gate);
        let t = p2[gate] as usize;
        flip(t / 128, t % 128);
        let o = p1[t] as usize;
        flip(n + o / 128, o % 128);
        let plan: Vec<_> = flips.into_iter().filter(|f| f.1 != 0).map(|(pos, x)| ((gen.0, pos), dev::Delta::Xor(x))).collect();
        for salt in [0x5a17, 0] {
            if salt == 0 && !rep.thorough() {
                continue;
            }
            let w = World::new(Mode::Fast, 64);
            let ((ends, _), made) = unknown.deviation(&plan, salt, || run_fast(&w, build::<PSpdz, T>(k, &m, true, &w)));
            rep.add("evaluations", 1);
            rep.add("wrong_gates_with_wrong_triples", 1);
            if made < plan.len() {
                rep.add("attack_does_not_fit_the_messages", 1);
            }
            let j = judge(&ends, bad, &want);
            if salt == 0 {
                if j.is_some() {
                    rep.add("permutations_whose_knowledge_helps", 1);
                }
            } else if let Some(s) = j {
                return Err(format!("SpdzWise, {k:?}, party {bad} corrupted: a wrong gate, and wrong triples placed so that permutations it can compute beforehand pair them in the checks: {s}"));
            }
        }
    }
    Ok(())
}
