//! P18: shared streams, the setup that agrees on them, commitments and joint coins.
use mc::exec::*;
use mc::net::*;
use mc::protos::*;
use mc::report::*;
use mc::scen::*;
use mc::session::*;
use iris_mpc::prelude::*;
use rand_chacha::control;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Seed = [u8; 32];

fn ideal(seed: &Seed, pos: u64) -> u64 {
    let mut h = 0x5EED_1111_u128;
    hash_bytes(&mut h, seed);
    hash_bytes(&mut h, &pos.to_le_bytes());
    (h ^ (h >> 64)) as u64
}

/// What a session did with its generators.
#[derive(Default)]
struct Trace {
    /// (party, seed) of every generator made, in order.
    made: Vec<(usize, Seed)>,
    /// (party, seed) -> (position, bytes) of every draw, in order.
    draws: BTreeMap<(usize, Seed), Vec<(u64, u8)>>,
    /// All draws in order.
    order: Vec<(usize, Seed, u64)>,
    entropy: BTreeSet<Seed>,
    /// Length of `made` / `order` when the parties left the setup.
    setup_made: [usize; 3],
    setup_order: [usize; 3],
}

/// Runs `f` with every draw answered by an ideal function, one bit of one draw inverted where told
/// (for everybody who makes that draw).
fn traced<R>(flip: Option<(Seed, u64, u64)>, f: impl FnOnce(&Rc<RefCell<Trace>>) -> R) -> (R, Trace) {
    traced_until(flip, false, f)
}

/// With `brief`, only the generators are listed, and each party is stopped when it has made its
/// first generator after the setup from something else than its own entropy.
fn traced_until<R>(flip: Option<(Seed, u64, u64)>, brief: bool, f: impl FnOnce(&Rc<RefCell<Trace>>) -> R) -> (R, Trace) {
    let t: Rc<RefCell<Trace>> = Default::default();
    own_entropy(47);
    let (a, b) = (t.clone(), t.clone());
    control::set_watch(Some(Box::new(move |s| {
        let c = current_party();
        let mut t = a.borrow_mut();
        let n = t.made.len();
        t.made.push((c, *s));
        let cut = brief && c < 3 && t.setup_made[c] > 0 && n >= t.setup_made[c] && !own(s);
        drop(t);
        if cut {
            panic!("far enough");
        }
    })));
    control::set_oracle(Some(Box::new(move |s, p, n| {
        let c = current_party();
        if !brief {
            let mut t = b.borrow_mut();
            t.draws.entry((c, *s)).or_default().push((p, n));
            t.order.push((c, *s, p));
        }
        let v = ideal(s, p);
        match flip {
            Some((fs, fp, m)) if fs == *s && fp == p => v ^ m,
            _ => v,
        }
    })));
    let r = f(&t);
    control::set_oracle(None);
    control::set_watch(None);
    let mut t = std::mem::take(&mut *t.borrow_mut());
    // a generator made from entropy carries the mark of `own_entropy`
    t.entropy = t.made.iter().map(|m| m.1).filter(own).collect();
    (r, t)
}

fn own(s: &Seed) -> bool {
    s[24..] == [0u8; 8] && s[19..24] == [0u8; 5]
}

fn hex(s: &Seed) -> String {
    s[..6].iter().map(|b| format!("{b:02x}")).collect()
}

impl Trace {
    fn owners(&self, upto: [usize; 3]) -> BTreeMap<Seed, u8> {
        let mut m = BTreeMap::new();
        for (i, (p, s)) in self.made.iter().enumerate() {
            if *p < 3 && i < upto[*p] {
                *m.entry(*s).or_insert(0) |= 1u8 << p;
            }
        }
        m
    }
    /// The streams that the setup left to be shared.
    fn shared(&self) -> BTreeMap<Seed, u8> {
        self.owners(self.setup_made).into_iter().filter(|(_, o)| o.count_ones() > 1).collect()
    }
    fn agreed(&self, common: bool) -> Result<u64, String> {
        let sh = self.shared();
        let all = self.owners([usize::MAX; 3]);
        for want in [0b011u8, 0b110, 0b101] {
            if !sh.values().any(|o| *o == want) {
                return Err(format!("no stream is shared by exactly the parties {want:#05b} after the setup (streams: {:?})", sh.values().collect::<Vec<_>>()));
            }
        }
        if common && !sh.values().any(|o| *o == 7) {
            return Err("no stream is shared by all three parties after the setup".into());
        }
        let mut n = 0;
        for (s, o) in &sh {
            if all[s] != *o {
                return Err(format!("a stream of the parties {o:#05b} is known to {:#05b} later", all[s]));
            }
            let owners: Vec<usize> = (0..3).filter(|p| o >> p & 1 == 1).collect();
            let d: Vec<Vec<(u64, u8)>> = owners.iter().map(|p| self.draws.get(&(*p, *s)).cloned().unwrap_or_default()).collect();
            for (i, x) in d.iter().enumerate() {
                for w in x.windows(2) {
                    if w[1].0 <= w[0].0 {
                        return Err(format!("party {} takes position {} of the stream {} after position {}: not fresh", owners[i], w[1].0, hex(s), w[0].0));
                    }
                }
                if x != &d[0] {
                    let at = x.iter().zip(&d[0]).take_while(|(a, b)| a == b).count();
                    return Err(format!("parties {} and {} draw differently from the stream they share: {} and {} draws, the first difference is number {at} ({:?} / {:?})", owners[0], owners[i], d[0].len(), x.len(), d[0].get(at), x.get(at)));
                }
            }
            n += d[0].len() as u64;
        }
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    In(usize),
    Mul,
    Dot,
    DotMany,
    Msb,
    MsbMany,
    Or,
    OrReduce,
    Open,
    OpenMany,
    OpenBit,
    Key,
    Verify,
    Again,
    Masked,
}

async fn program<P: Proto<T>, T: Num>(ops: &[St], m: &Material<P, T>, mut s: Sess<P, T>, t: Rc<RefCell<Trace>>) -> Result<(), Error> {
    let id = s.id;
    s.preprocess().await?;
    let left = |t: &Rc<RefCell<Trace>>| {
        let mut t = t.borrow_mut();
        t.setup_made[id] = t.made.len();
        t.setup_order[id] = t.order.len();
    };
    left(&t);
    let mut acc: P::A = m.sh[0][id].clone();
    let mut bit: P::B = m.bsh[0][id].clone();
    let mut triples = false;
    let v = |a: &P::A, i: usize| vec_share::<P::A>(vec![a.clone(), m.sh[i][id].clone(), m.sh[i + 1][id].clone()]);
    for o in ops {
        match o {
            St::In(d) => acc = s.input(if *d == id { Some(m.vals[1]) } else { None }, *d).await?,
            St::Mul => acc = s.mul(acc, m.sh[1][id].clone()).await?,
            St::Dot => acc = s.dot(v(&acc, 1), v(&acc, 2)).await?,
            St::DotMany => acc = s.dot_many(&[v(&acc, 1), v(&acc, 3)], &[v(&acc, 2), v(&acc, 4)]).await?.pop().unwrap(),
            St::Msb => bit = s.msb(acc.clone()).await?,
            St::MsbMany => bit = s.msb_many(vec![acc.clone(), m.sh[2][id].clone(), m.sh[3][id].clone()]).await?.pop().unwrap(),
            St::Or => bit = s.or(bit, m.bsh[1][id].clone()).await?,
            St::OrReduce => bit = s.or_reduce(vec![bit, m.bsh[1][id].clone(), m.bsh[2][id].clone()], 2).await?,
            St::Open => {
                s.open(acc.clone()).await?;
            }
            St::OpenMany => {
                s.open_many(v(&acc, 1)).await?;
            }
            St::OpenBit => {
                s.open_bit(bit.clone()).await?;
            }
            St::Key => {
                s.set_new_mac_key();
                acc = s.input(if id == 0 { Some(m.vals[1]) } else { None }, 0).await?;
            }
            St::Verify => {
                if !triples && ops.iter().any(|o| matches!(o, St::Msb | St::MsbMany | St::Or | St::OrReduce)) {
                    s.triples(1 << 13).await?;
                    triples = true;
                }
                s.verify().await?
            }
            St::Again => {
                s.preprocess().await?;
                left(&t);
            }
            St::Masked => {
                let a = &m.code_sh[0][id];
                acc = s.masked_dot_many(a, &[m.code_sh[1][id].clone()], &[m.codes[1].mask]).await?.pop().unwrap();
            }
        }
    }
    Ok(())
}

fn run_prog<P: Proto<T>, T: Num>(ops: &[St], m: &Material<P, T>, flip: Option<(Seed, u64, u64)>) -> (Result<(), String>, Trace) {
    traced(flip, |t| {
        run_ok::<P, T, (), _, _>(&m.key, |s| program::<P, T>(ops, m, s, t.clone())).map(|_| ())
    })
}

fn material<P: Proto<T>, T: Num>(ops: &[St]) -> Material<P, T> {
    Material::<P, T>::new(if ops.contains(&St::Masked) { Kind::FullQuery(1, 1) } else { Kind::Mul }, 5)
}

/// Every sequence of operations up to a depth: the owners of a stream are at the same place in it.
fn histories<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>, wide: bool) {
    if P::NAME == "MalAby3" && !verifies::<P, T>() {
        return;
    }
    let mut al = vec![St::In(0), St::In(1), St::In(2), St::Mul, St::Dot, St::DotMany, St::Msb, St::MsbMany, St::Or, St::OrReduce, St::Open, St::OpenMany, St::OpenBit, St::Again];
    if P::NAME == "SpdzWise" {
        // the key may be changed as long as nothing is authenticated under the old one
        v.push((format!("{}/{}/history/key", P::NAME, T::TY), Box::new(move |r| {
            for p in [vec![St::Key], vec![St::In(1), St::Verify, St::Key, St::Verify], vec![St::Key, St::Key], vec![St::Key, St::In(2), St::Open, St::Verify]] {
                let (res, t) = run_prog::<P, T>(&p, &material::<P, T>(&[]), None);
                res.map_err(|e| format!("{p:?}: {e}"))?;
                let n = t.agreed(false).map_err(|e| format!("{p:?}: {e}"))?;
                r.add("programs", 1);
                r.add("shared_draws_compared", n);
            }
            Ok(())
        })));
    }
    if verifies::<P, T>() {
        al.push(St::Verify);
    }
    let th = rep.thorough();
    let depth = match (wide, th) { (false, false) => 3, (true, false) => 2, (false, true) => 4, (true, true) => 3 };
    for a in al.clone() {
        for b in al.clone() {
            let al = al.clone();
            v.push((format!("{}/{}/history/{a:?}-{b:?}", P::NAME, T::TY), Box::new(move |r| {
                let mut progs = vec![vec![a], vec![a, b]];
                let mut last = vec![vec![a, b]];
                for d in 2..depth {
                    let mut n = vec![];
                    for p in &last {
                        for o in &al {
                            // proofs about bits are slow: the deepest level leaves them to the end
                            if d == 3 && (p.contains(&St::Verify) || *o == St::Verify) {
                                continue;
                            }
                            let mut q: Vec<St> = p.clone();
                            q.push(*o);
                            n.push(q);
                        }
                    }
                    progs.extend(n.iter().cloned());
                    last = n;
                }
                let m = material::<P, T>(&[]);
                for p in progs {
                    let bitp = p.iter().any(|o| matches!(o, St::Msb | St::MsbMany | St::Or | St::OrReduce)) && p.contains(&St::Verify);
                    if bitp && p.len() > 2 && (P::NAME == "Swift3" || P::NAME == "SpdzWise") && p[0] != St::In(0) && p.last() != Some(&St::Verify) {
                        continue;
                    }
                    let (res, t) = run_prog::<P, T>(&p, &m, None);
                    res.map_err(|e| format!("{p:?}: {e}"))?;
                    let n = t.agreed(P::NAME == "Swift3").map_err(|e| format!("{p:?}: {e}"))?;
                    r.add("programs", 1);
                    r.add("evaluations", 1);
                    r.add("distinct_nontrivial", (n > 0) as u64);
                    r.add("shared_draws_compared", n);
                }
                Ok(())
            })));
        }
    }
    v.push((format!("{}/{}/history/masked", P::NAME, T::TY), Box::new(move |r| {
        if T::K < 16 {
            return Ok(());
        }
        let ops = [St::In(1), St::Masked, St::Mul];
        let m = material::<P, T>(&ops);
        let (res, t) = run_prog::<P, T>(&ops, &m, None);
        res.map_err(|e| format!("{ops:?}: {e}"))?;
        let n = t.agreed(P::NAME == "Swift3").map_err(|e| format!("{ops:?}: {e}"))?;
        r.add("programs", 1);
        r.add("shared_draws_compared", n);
        Ok(())
    })));
}

fn bits_changed(a: &Seed, b: &Seed, into: &mut Seed) {
    for i in 0..32 {
        into[i] |= a[i] ^ b[i];
    }
}
fn full(a: &Seed) -> bool {
    a.iter().all(|b| *b == 0xff)
}

/// Every bit of every private draw before the setup is over, inverted: which shared seeds follow?
fn setup_influence<P: Proto<T>, T: Num>(_rep: &'static Report, v: &mut Vec<Job>) {
    v.push((format!("{}/{}/setup/contributions", P::NAME, T::TY), Box::new(move |r| {
        let m = material::<P, T>(&[]);
        let (res, base) = run_prog::<P, T>(&[], &m, None);
        res?;
        base.agreed(P::NAME == "Swift3")?;
        let by_owner = |t: &Trace| -> Result<BTreeMap<u8, Seed>, String> {
            let mut o = BTreeMap::new();
            for (s, w) in t.shared() {
                if o.insert(w, s).is_some() {
                    return Err(format!("several streams belong to the parties {w:#05b}"));
                }
            }
            Ok(o)
        };
        let seeds = by_owner(&base)?;
        // (stream, contributing party) -> bits it can change
        let mut infl: BTreeMap<(u8, usize), Seed> = BTreeMap::new();
        for (p, s, pos) in base.order.iter().enumerate().filter(|(i, d)| d.0 < 3 && *i < base.setup_order[d.0]).map(|(_, d)| *d) {
            let bytes = base.draws[&(p, s)].iter().find(|d| d.0 == pos).unwrap().1;
            for bit in 0..bytes as u32 * 8 {
                if bytes == 4 && bit % 8 != 0 && bit >= 8 && !r.thorough() {
                    continue;
                }
                let (res, t) = run_prog::<P, T>(&[], &m, Some((s, pos, 1 << bit)));
                res.map_err(|e| format!("with one bit of an own random word of party {p} inverted: {e}"))?;
                t.agreed(P::NAME == "Swift3").map_err(|e| format!("with one bit of an own random word of party {p} inverted: {e}"))?;
                r.add("evaluations", 1);
                r.add("contribution_bits_inverted", 1);
                let now = by_owner(&t)?;
                for (o, s0) in &seeds {
                    let s1 = now.get(o).ok_or("a shared stream is gone")?;
                    bits_changed(s0, s1, infl.entry((*o, p)).or_insert([0; 32]));
                    r.add("distinct_nontrivial", (s0 != s1) as u64);
                }
            }
        }
        let commits = matches!(P::NAME, "MalAby3" | "Swift3");
        for (o, _) in &seeds {
            let owners: Vec<usize> = (0..3).filter(|p| o >> p & 1 == 1).collect();
            let ok: Vec<bool> = owners.iter().map(|p| infl.get(&(*o, *p)).is_some_and(full)).collect();
            if commits && !ok.iter().all(|x| *x) || !ok.iter().any(|x| *x) {
                return Err(format!("the seed shared by {o:#05b} does not depend in every bit on what its owners contribute: {:?}", owners.iter().map(|p| infl.get(&(*o, *p)).map(|s| s.iter().map(|b| b.count_ones()).sum::<u32>()).unwrap_or(0)).collect::<Vec<_>>()));
            }
            r.add("agreed_seeds", 1);
        }
        let all: BTreeSet<&Seed> = seeds.values().collect();
        if all.len() != seeds.len() {
            return Err("two pairs of parties share the same stream".into());
        }
        Ok(())
    })));
    // different entropy, different streams; and no seed travels past the third party
    v.push((format!("{}/{}/setup/secrecy", P::NAME, T::TY), Box::new(move |r| {
        let m = material::<P, T>(&[]);
        let mut log = vec![];
        let (res, t) = traced(None, |t| {
            let w = World::new(Mode::Fast, 64);
            w.0.borrow_mut().record = true;
            let (ends, _) = run_fast(&w, parties::<P, T, (), _, _>(&w, &m.key, |s| program::<P, T>(&[], &m, s, t.clone())));
            log = w.0.borrow().log.clone();
            ends.iter().all(|e| e.done() == Some(&Ok(())))
        });
        if !res {
            return Err("the setup fails".into());
        }
        for (s, o) in t.shared() {
            for (f, to, _, b) in &log {
                r.add("evaluations", 1);
                if o >> to & 1 == 0 && b.windows(32).any(|w| w == s) {
                    return Err(format!("the seed of the parties {o:#05b} is sent to party {to} by party {f}"));
                }
            }
        }
        Ok(())
    })));
}

/// Every changed message of a setup with commitments is noticed by the party that gets it.
fn setup_tamper<P: Proto<T>, T: Num>(_rep: &'static Report, v: &mut Vec<Job>) {
    if !matches!(P::NAME, "MalAby3" | "Swift3") {
        return;
    }
    let probe = || {
        let m = material::<P, T>(&[]);
        let w = World::new(Mode::Fast, 64);
        w.0.borrow_mut().record = true;
        own_entropy(47);
        let (ends, _) = run_fast(&w, parties::<P, T, (), _, _>(&w, &m.key, |mut s| async move { s.preprocess().await }));
        let l = w.0.borrow().log.clone();
        (ends.iter().all(|e| e.done() == Some(&Ok(()))), l)
    };
    let (ok, log) = probe();
    if !ok {
        v.push((format!("{}/setup/undisturbed", P::NAME), Box::new(|_| Err("the setup fails".into()))));
        return;
    }
    for (f, t, i, b) in log.clone() {
        let log = log.clone();
        v.push((format!("{}/setup/changed/{f}-{t}-{i}", P::NAME), Box::new(move |r| {
            let m = material::<P, T>(&[]);
            let mut acts: Vec<Action> = (0..b.len() * 8).map(Action::FlipBit).collect();
            acts.extend((0..b.len()).map(|x| Action::AddByte(x, 0x80)));
            acts.extend([Action::Zero, Action::Ones]);
            for n in 0..=b.len() + 40 {
                if n != b.len() {
                    let mut x = b.to_vec();
                    x.resize(n, 0x5a);
                    acts.push(Action::Replace(x));
                }
            }
            for (_, _, _, o) in &log {
                if o != &b {
                    acts.push(Action::Replace(o.to_vec()));
                }
            }
            // halves and blocks exchanged
            for blk in [16, 32, 64] {
                for x in (0..b.len()).step_by(blk) {
                    for y in (x + blk..b.len()).step_by(blk) {
                        let mut c = b.to_vec();
                        for z in 0..blk {
                            c.swap(x + z, y + z);
                        }
                        if c[..] != b[..] {
                            acts.push(Action::Replace(c));
                        }
                    }
                }
            }
            for a in acts {
                let w = World::new(Mode::Fast, 64);
                w.0.borrow_mut().tamper.insert((f, t, i), a.clone());
                own_entropy(47);
                let (ends, info) = run_fast(&w, parties::<P, T, (), _, _>(&w, &m.key, |mut s| async move { s.preprocess().await }));
                r.add("evaluations", 1);
                if info.tampered == 0 {
                    continue;
                }
                r.add("distinct_nontrivial", 1);
                r.add("changed_setup_messages", 1);
                match &ends[t] {
                    End::Done(Err(_)) => {}
                    e => return Err(format!("setup message {i} from party {f} to party {t} ({} bytes) altered by {a:?}: party {t} ends with {e:?} instead of an error", b.len())),
                }
            }
            Ok(())
        })));
    }
}

/// Joint random values: the same at all, and every bit follows every party's contribution.
fn coins<P: Proto<T>, T: Num>(_rep: &'static Report, v: &mut Vec<Job>, ops: &'static [St]) {
    // the tag checks of one protocol take their random factors from the shared streams
    if !verifies::<P, T>() || !P::MALICIOUS || P::NAME == "SpdzWise" && ops[0] == St::Mul {
        return;
    }
    v.push((format!("{}/{}/coin/{ops:?}", P::NAME, T::TY), Box::new(move |r| {
        let m = material::<P, T>(ops);
        let joint = |t: &Trace| -> Vec<Seed> {
            let mut seen = BTreeMap::new();
            let mut o = vec![];
            for (i, (p, s)) in t.made.iter().enumerate() {
                if *p > 2 || i < t.setup_made[*p] || t.entropy.contains(s) {
                    continue;
                }
                let e = seen.entry(*s).or_insert(0u8);
                if *e != 7 && *e | 1 << p == 7 {
                    o.push(*s);
                }
                *e |= 1 << p;
            }
            o
        };
        let (res, base) = run_prog::<P, T>(ops, &m, None);
        res?;
        let j = joint(&base);
        r.max("joint_values_in_a_run", j.len() as u64);
        let Some(first) = j.first().cloned() else {
            return Err("the three parties make no common generator from a joint random value".into());
        };
        let owners = base.owners([usize::MAX; 3]);
        // the draws before the joint value is there, latest first
        let mut lists: [Vec<(Seed, u64)>; 3] = Default::default();
        for p in 0..3 {
            let mine: Vec<_> = base.order.iter().filter(|d| d.0 == p).collect();
            let upto = mine.iter().position(|d| d.1 == first).unwrap_or(mine.len());
            lists[p] = mine[..upto].iter().rev().take(600).map(|d| (d.1, d.2)).collect();
        }
        let mut cand: Vec<(Seed, u64)> = vec![];
        let mut seen = BTreeSet::new();
        for i in 0..600 {
            for l in &lists {
                if let Some(d) = l.get(i) {
                    if seen.insert(*d) {
                        cand.push(*d);
                    }
                }
            }
        }
        let mut known = [[0u8; 32]; 3];
        let mut unknown = [[0u8; 32]; 3];
        for (s, pos) in cand {
            let mut any = false;
            for mask in [0xffu64, 0x0f] {
                let (_, t) = traced_until(Some((s, pos, mask)), true, |t| run_ok::<P, T, (), _, _>(&m.key, |s| program::<P, T>(ops, &m, s, t.clone())));
                beat();
                r.add("evaluations", 1);
                r.add("contributions_changed", 1);
                let now = joint(&t);
                if now.is_empty() {
                    return Err("with some bits of a random word inverted for all who draw it, the three parties no longer agree on the joint random value".into());
                }
                if now[0] != first {
                    any = true;
                    r.add("distinct_nontrivial", 1);
                    for p in 0..3 {
                        let w = if owners[&s] >> p & 1 == 1 { &mut known[p] } else { &mut unknown[p] };
                        bits_changed(&first, &now[0], w);
                    }
                }
                if !any {
                    break;
                }
            }
            if (0..3).all(|p| full(&known[p]) && full(&unknown[p])) {
                break;
            }
        }
        for p in 0..3 {
            let n = |s: &Seed| s.iter().map(|b| b.count_ones()).sum::<u32>();
            if !full(&known[p]) {
                return Err(format!("party {p} contributes to {} of the 256 bits of the joint random value", n(&known[p])));
            }
            if !full(&unknown[p]) {
                return Err(format!("the others contribute to {} of the 256 bits of the joint random value that party {p} could otherwise fix", n(&unknown[p])));
            }
        }
        r.add("joint_values", 1);
        Ok(())
    })));
}

/// A joint coin made by commitments: whatever message of it is changed, the party that gets it never
/// goes on with another value.
fn coin_tamper<P: Proto<T>, T: Num>(_rep: &'static Report, v: &mut Vec<Job>, ops: &'static [St]) {
    if P::NAME != "Swift3" {
        return;
    }
    let go = |m: &Material<P, T>, plan: Option<((usize, usize, usize), Action)>| {
        let w = World::new(Mode::Fast, 64);
        w.0.borrow_mut().record = true;
        if let Some((k, a)) = plan {
            w.0.borrow_mut().tamper.insert(k, a);
        }
        let ((ends, info), t) = traced_until(None, true, |t| run_fast(&w, parties::<P, T, (), _, _>(&w, &m.key, |s| program::<P, T>(ops, m, s, t.clone()))));
        let first: Vec<Option<Seed>> = (0..3).map(|p| t.made.iter().enumerate().find(|(i, g)| g.0 == p && t.setup_made[p] > 0 && *i >= t.setup_made[p] && !own(&g.1)).map(|g| g.1 .1)).collect();
        let log = w.0.borrow().log.clone();
        (ends, info.tampered, first, log)
    };
    let m0 = material::<P, T>(ops);
    let (_, _, first, log) = go(&m0, None);
    if first.iter().any(|f| f.is_none() || *f != first[0]) {
        v.push((format!("{}/{}/coin-changed", P::NAME, T::TY), Box::new(|_| Err("the parties make no common generator from a joint random value".into()))));
        return;
    }
    for (f, t, i, b) in log {
        let first = first.clone();
        v.push((format!("{}/{}/coin-changed/{ops:?}/{f}-{t}-{i}", P::NAME, T::TY), Box::new(move |r| {
            let m = material::<P, T>(ops);
            let mut acts: Vec<Action> = (0..b.len() * 8).map(Action::FlipBit).collect();
            acts.extend([Action::Zero, Action::Ones]);
            for a in acts {
                let (_, hit, now, _) = go(&m, Some(((f, t, i), a.clone())));
                r.add("evaluations", 1);
                if hit == 0 {
                    continue;
                }
                r.add("distinct_nontrivial", 1);
                r.add("changed_coin_messages", 1);
                for p in (0..3).filter(|p| *p != f) {
                    if now[p].is_some() && now[p] != first[p] {
                        return Err(format!("message {i} from party {f} to party {t} altered by {a:?}: party {p} goes on with another joint random value"));
                    }
                }
            }
            Ok(())
        })));
    }
}

/// Products of all-zero shares: what the parties send is then the zero sharing itself.  All values
/// of some bits of the three streams' words: the three parts cancel, and any two are free of each other.
fn zeros<P: Proto<T>, T: Num>(_rep: &'static Report, v: &mut Vec<Job>) {
    if P::NAME != "Aby3" {
        return;
    }
    for place in 0..3u32 {
        v.push((format!("{}/{}/zero/{place}", P::NAME, T::TY), Box::new(move |r| {
            let m = material::<P, T>(&[]);
            let z = P::deal_raw(T::of(0), [0, 0, 0], KEY);
            let run = |val: Option<&dyn Fn(usize, u8) -> u64>| -> Result<(Vec<Vec<u8>>, Vec<u8>), String> {
                let w = World::new(Mode::Fast, 64);
                w.0.borrow_mut().record = true;
                own_entropy(47);
                let at: Rc<RefCell<(BTreeMap<(Seed, u64), usize>, Vec<u8>)>> = Default::default();
                let on = Rc::new(RefCell::new([false; 3]));
                let (a2, o2) = (at.clone(), on.clone());
                let vals: Option<Vec<u64>> = val.map(|f| (0..16).map(|i| f(i, 8)).collect());
                control::set_oracle(Some(Box::new(move |s, p, n| {
                    let c = current_party();
                    if c > 2 || !o2.borrow()[c] {
                        return ideal(s, p);
                    }
                    let mut a = a2.borrow_mut();
                    let k = a.0.len();
                    let i = *a.0.entry((*s, p)).or_insert(k);
                    if i == k {
                        a.1.push(n);
                    }
                    match &vals {
                        Some(v) => v[i % 16],
                        None => ideal(s, p),
                    }
                })));
                let mark = Rc::new(RefCell::new([0usize; 3]));
                let (ends, _) = run_fast(&w, parties::<P, T, (), _, _>(&w, &m.key, |mut s| {
                    let (z, on, mark, w) = (&z, on.clone(), mark.clone(), w.clone());
                    async move {
                        s.preprocess().await?;
                        let id = s.id;
                        on.borrow_mut()[id] = true;
                        mark.borrow_mut()[id] = w.0.borrow().links[id].iter().map(|l| l.sent).sum();
                        s.mul(z[id].clone(), z[id].clone()).await.map(|_| ())
                    }
                }));
                control::set_oracle(None);
                if ends.iter().any(|e| e.done() != Some(&Ok(()))) {
                    return Err(format!("a product of zeros ends with {ends:?}"));
                }
                let i = w.0.borrow();
                let mut sent = [0usize; 3];
                let mut msgs = vec![vec![]; 3];
                for (f, _, _, b) in &i.log {
                    sent[*f] += 1;
                    if sent[*f] == mark.borrow()[*f] + 1 {
                        msgs[*f] = b.to_vec();
                    }
                }
                let widths = at.borrow().1.clone();
                Ok((msgs, widths))
            };
            let (probe, widths) = run(None)?;
            let n = widths.len();
            if n < 3 || n > 6 || probe.iter().any(|b| b.len() != T::K / 8) {
                return Err(format!("a product of zeros takes {n} random words and sends {probe:?}"));
            }
            let bits = 12 / n as u32;
            let narrow = T::K.min(64) as u32;
            let shift = (narrow - bits) * place / 2;
            let mut pairs: [BTreeMap<(u128, u128), u64>; 3] = Default::default();
            for st in 0..1u64 << (bits * n as u32) {
                let (b, _) = run(Some(&|i, _| (st >> (bits * (i as u32 % n as u32)) & ((1 << bits) - 1)) << shift))?;
                let x: Vec<u128> = b.iter().map(|b| b.iter().fold(0, |a, c| a << 8 | *c as u128)).collect();
                let sum = x.iter().fold(0u128, |a, c| a.wrapping_add(*c));
                if wrap::<T>(sum) != 0 {
                    return Err(format!("the parts {x:x?} of a sharing of zero do not cancel (draws {st:#x}, {bits} bits each at {shift})"));
                }
                for i in 0..3 {
                    *pairs[i].entry((x[i], x[(i + 1) % 3])).or_insert(0) += 1;
                }
                r.add("evaluations", 1);
                r.add("zero_sharings", 1);
            }
            for (i, p) in pairs.iter().enumerate() {
                let c: BTreeSet<u64> = p.values().cloned().collect();
                let want = 1u64 << (2 * bits * (n as u32 / 3));
                // differences of b-bit numbers are not uniform; but two parts are as free as three words allow
                if (p.len() as u64) < want {
                    return Err(format!("parts {i} and {} of a sharing of zero take only {} values over {} draws (counts {c:?})", (i + 1) % 3, p.len(), 1u64 << (bits * n as u32)));
                }
            }
            Ok(())
        })));
    }
}

mod comm {
    use super::*;
    use iris_mpc::mc_hooks::commit as c;
    use rand::SeedableRng;
    use rand_chacha::ChaCha12Rng;

    fn one<T: Num>(r: &Report, vals: &[u128], rand: [u8; 32]) -> Result<(), String>
    where
        T::Share: RingImpl,
    {
        let mk = |v: &[u128]| v.iter().map(|x| T::of(*x).to_sharetype()).collect::<Vec<T::Share>>();
        let com = c::commit_with::<T::Share>(mk(vals), rand);
        let ctx = |s: &str| format!("{} values {vals:x?} with randomness {:02x?}..: {s}", T::TY, &rand[..4]);
        if !c::verify::<T::Share>(mk(vals), rand, com.clone()) {
            return Err(ctx("the right opening is rejected"));
        }
        let no = |v: Vec<T::Share>, rnd: [u8; 32], cm: Vec<u8>, what: String| {
            r.add("evaluations", 1);
            r.add("distinct_nontrivial", 1);
            r.add("changed_openings", 1);
            if c::verify::<T::Share>(v, rnd, cm) {
                return Err(ctx(&format!("{what} is accepted")));
            }
            Ok(())
        };
        for i in 0..vals.len() {
            for b in 0..T::K {
                let mut w = vals.to_vec();
                w[i] ^= 1 << b;
                no(mk(&w), rand, com.clone(), format!("value {i} with bit {b} inverted"))?;
            }
            let mut w = vals.to_vec();
            w.remove(i);
            no(mk(&w), rand, com.clone(), format!("the opening without value {i}"))?;
            let mut w = vals.to_vec();
            w.insert(i, 0);
            no(mk(&w), rand, com.clone(), format!("the opening with a zero before value {i}"))?;
            for k in i + 1..vals.len() {
                if vals[i] != vals[k] {
                    let mut w = vals.to_vec();
                    w.swap(i, k);
                    no(mk(&w), rand, com.clone(), format!("the opening with values {i} and {k} exchanged"))?;
                }
            }
        }
        let mut w = vals.to_vec();
        w.push(0);
        no(mk(&w), rand, com.clone(), "the opening with a zero appended".into())?;
        for b in 0..256 {
            let mut x = rand;
            x[b / 8] ^= 1 << (b % 8);
            no(mk(vals), x, com.clone(), format!("randomness with bit {b} inverted"))?;
        }
        for b in 0..com.len() * 8 {
            let mut x = com.clone();
            x[b / 8] ^= 1 << (b % 8);
            no(mk(vals), rand, x, format!("a commitment with bit {b} inverted"))?;
        }
        for n in 0..com.len() + 3 {
            if n != com.len() {
                let mut x = com.clone();
                x.resize(n, 0);
                no(mk(vals), rand, x, format!("a commitment of {n} bytes"))?;
            }
        }
        Ok(())
    }

    fn width<T: Num>(v: &mut Vec<Job>)
    where
        T::Share: RingImpl,
    {
        v.push((format!("commitment/{}", T::TY), Box::new(move |r| {
            let bd = boundary(T::K);
            let mut lists: Vec<Vec<u128>> = vec![vec![]];
            for a in &bd {
                lists.push(vec![*a]);
                for b in &bd {
                    lists.push(vec![*a, *b]);
                }
            }
            lists.push((0..32).map(|i| bd[i % bd.len()]).collect());
            lists.push((0..33).map(|i| i as u128 * 7 & (bd[7])).collect());
            for l in lists {
                for rand in [[0u8; 32], [0xff; 32], std::array::from_fn(|i| (i * 29 + 7) as u8)] {
                    one::<T>(r, &l, rand)?;
                }
            }
            // made with fresh randomness, and opened
            let mut g = ChaCha12Rng::from_seed([3; 32]);
            let mut last = None;
            for l in [vec![], vec![T::of(5).to_sharetype()], vec![T::of(5).to_sharetype()]] {
                let (cm, rnd) = c::commit::<T::Share, _>(l.clone(), &mut g);
                if !c::verify::<T::Share>(l.clone(), rnd, cm.clone()) {
                    return Err("a fresh commitment does not open".into());
                }
                if last == Some(rnd) {
                    return Err("two commitments use the same randomness".into());
                }
                last = Some(rnd);
                let (o, ok) = c::open_own::<T::Share, _>(l.clone(), &mut g);
                if o != l || !ok {
                    return Err("an own commitment opens to other values".into());
                }
            }
            Ok(())
        })));
    }
    pub fn jobs(v: &mut Vec<Job>) {
        width::<u8>(v);
        width::<u16>(v);
        width::<u32>(v);
        width::<u64>(v);
        width::<u128>(v);
        v.push(("commitment/hiding".into(), Box::new(|r| {
            // every bit of the randomness reaches the commitment: all 256 single inversions and all
            // values of one byte give different commitments
            let mut seen = BTreeSet::new();
            for i in 0..32 {
                for x in 0..=255u8 {
                    let mut rnd = [0u8; 32];
                    rnd[i] = x;
                    if x == 0 && i > 0 {
                        continue;
                    }
                    r.add("evaluations", 1);
                    if !seen.insert(c::commit_with::<RingElement<u8>>(vec![RingElement(1); 32], rnd)) {
                        return Err(format!("two randomnesses give the same commitment (byte {i} = {x})"));
                    }
                }
            }
            Ok(())
        })));
    }
}

fn main() {
    let rep = Report::new("P18", "model_checking");
    let mut v: Vec<Job> = vec![];
    comm::jobs(&mut v);
    mc::each_proto!(setup_tamper, [u16], (rep, &mut v));
    mc::each_proto!(setup_influence, [u16], (rep, &mut v));
    mc::each_proto!(coins, [u16], (rep, &mut v, &[St::Mul, St::Verify]));
    mc::each_proto!(coins, [u16], (rep, &mut v, &[St::Or, St::Verify]));
    mc::each_proto!(zeros, [u8, u16, u32, u64, u128], (rep, &mut v));
    mc::each_proto!(coin_tamper, [u16], (rep, &mut v, &[St::Mul, St::Verify]));
    mc::each_proto!(histories, [u16], (rep, &mut v, false));
    mc::each_proto!(histories, [u8, u32, u64, u128], (rep, &mut v, true));
    run_jobs(rep, v);
    rep.note("rule", "one evaluation = one program of operations at three real parties (draws of all shared streams compared), one changed setup message, one inverted bit of a contribution, or one changed opening");
    rep.finish_and_exit();
}
