//! P01: the membership query against the plaintext decision.
use iris_mpc::prelude::{Error, IrisProtocol};
use mc::exec::*;
use mc::net::*;
use mc::protos::*;
use mc::report::*;
use mc::scen::{deal_code, pattern_code, KEY};
use mc::session::*;
use plain_reference::{IrisCode, IrisCodeArray};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use std::rc::Rc;

const N: usize = 12800;

/// The decision as the property states it, with integers only.
fn decision(q: &IrisCode, e: &IrisCode) -> Result<bool, ()> {
    let (mut m, mut d) = (0usize, 0usize);
    for i in 0..N {
        if q.mask.get_bit(i) && e.mask.get_bit(i) {
            m += 1;
            d += (q.code.get_bit(i) != e.code.get_bit(i)) as usize;
        }
    }
    if m * 10 < N * 7 {
        return Err(());
    }
    Ok(d < 34 * m / 100)
}

/// How the positions of a mask, and of the differing bits, are laid out.
#[derive(Clone, Copy, Debug)]
enum Lay {
    Front,
    Back,
    Spread,
}
fn place(n: usize, lay: Lay) -> Vec<usize> {
    match lay {
        Lay::Front => (0..n).collect(),
        Lay::Back => (N - n..N).collect(),
        // 12800 and 5003 are coprime: every position once
        Lay::Spread => (0..n).map(|i| (i * 5003 + 11) % N).collect(),
    }
}

/// A query and an entry with exactly `m` common mask positions and `d` differences on them; every
/// position outside the common mask differs too.
fn pair(m: usize, d: usize, lay: Lay, seed: u64) -> (IrisCode, IrisCode) {
    let code = pattern_code(seed);
    let mut q = IrisCode { code, mask: IrisCodeArray::ZERO };
    let mut e = IrisCode { code, mask: IrisCodeArray::ZERO };
    let p = place(N, lay);
    for (n, i) in p.iter().enumerate() {
        if n < m {
            q.mask.set_bit(*i, true);
            e.mask.set_bit(*i, true);
            if n < d {
                e.code.flip_bit(*i);
            }
        } else {
            // at most one of the two masks allows it
            match n % 3 {
                0 => q.mask.set_bit(*i, true),
                1 => e.mask.set_bit(*i, true),
                _ => {}
            }
            e.code.flip_bit(*i);
        }
    }
    (q, e)
}

struct Dealt<P: Proto<T>, T: Num> {
    key: Vec<P::A>,
    plain: Vec<IrisCode>,
    sh: Vec<Rc<Vec<Va<P, T>>>>,
}
impl<P: Proto<T>, T: Num> Dealt<P, T> {
    fn new(codes: Vec<IrisCode>) -> Self {
        let mut rng = ChaCha12Rng::from_seed([3; 32]);
        let key = P::key_shares(KEY, &mut rng);
        let mut v: Vec<Vec<Va<P, T>>> = vec![vec![], vec![], vec![]];
        for c in &codes {
            for (i, s) in deal_code::<P, T>(&c.code, KEY, &mut rng).into_iter().enumerate() {
                v[i].push(s);
            }
        }
        Dealt { key, plain: codes, sh: v.into_iter().map(Rc::new).collect() }
    }
}

/// Several queries in one session of each party: entry list, chunk size.  Code 0 is the query.
fn queries<P: Proto<T>, T: Num>(rep: &Report, d: &Dealt<P, T>, qs: &[(usize, Vec<usize>, usize)], fresh: bool) -> Result<(), String>
where
    Va<P, T>: Clone,
{
    for group in if fresh { qs.chunks(1) } else { qs.chunks(qs.len().max(1)) } {
        let w = World::new(Mode::Fast, 64);
        let ends = {
            let futs = parties::<P, T, Vec<Result<bool, String>>, _, _>(&w, &d.key, |s| {
                let id = s.id;
                let sh = d.sh[id].clone();
                let plain = &d.plain;
                async move {
                    let mut iris = IrisProtocol::<T, P::A, P::B, NoVerify<P, T>>::new(NoVerify::new(s, P::NAME == "Swift3"))?;
                    iris.preprocessing().await?;
                    let mut out = vec![];
                    for (q, entries, chunk) in group {
                        let db: Vec<Va<P, T>> = entries.iter().map(|i| sh[*i].clone()).collect();
                        let masks: Vec<IrisCodeArray> = entries.iter().map(|i| plain[*i].mask).collect();
                        let r = iris.iris_in_db(&sh[*q], &db, &plain[*q].mask, &masks, *chunk).await;
                        out.push(r.map_err(|e| format!("{e:?}")));
                    }
                    iris.finish().await?;
                    Ok::<_, Error>(out)
                }
            });
            run_fast(&w, futs).0
        };
        for (n, (q, entries, chunk)) in group.iter().enumerate() {
            let each: Result<Vec<bool>, ()> = entries.iter().map(|e| decision(&d.plain[*q], &d.plain[*e])).collect();
            let want = each.clone().map(|v| v.iter().any(|b| *b));
            rep.add("states", 1);
            rep.add(match want { Ok(true) => "answer_match", Ok(false) => "answer_no_match", Err(_) => "answer_rejected" }, 1);
            for p in 0..3 {
                let desc = || {
                    let (m, h) = entries.first().map(|e| ((d.plain[*q].mask & d.plain[*e].mask).count_ones(), ((d.plain[*q].code ^ d.plain[*e].code) & d.plain[*q].mask & d.plain[*e].mask).count_ones())).unwrap_or((0, 0));
                    format!("query {q} against entries {:?}{} ({} in all), chunk size {chunk} (first entry: {m} common positions, {h} differ), party {p}", &entries[..entries.len().min(6)], if entries.len() > 6 { ", ..." } else { "" }, entries.len())
                };
                let got = match &ends[p] {
                    End::Done(Ok(v)) => v[n].clone(),
                    End::Done(Err(e)) => return Err(format!("{}: the session failed: {e}", desc())),
                    o => return Err(format!("{}: {o:?}", desc())),
                };
                match (&got, &want) {
                    (Ok(g), Ok(w)) if g == w => {}
                    (Err(_), Err(())) => {}
                    _ => return Err(format!("{}: answer {got:?}, the plaintext decision is {want:?} (per entry {each:?})", desc())),
                }
            }
        }
    }
    Ok(())
}

fn jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>)
where
    Va<P, T>: Clone,
{
    let th = rep.thorough();
    let name = |s: String| format!("{}/{}/{s}", P::NAME, T::TY);
    let main = T::TY == "u16";
    // distance and mask weight around their limits, one entry
    let weights: Vec<usize> = if main && th {
        (8955..9100).chain((9100..12700).step_by(37)).chain(12700..=12800).collect()
    } else if main {
        vec![8958, 8959, 8960, 8961, 9000, 9001, 9049, 9050, 10237, 11111, 12767, 12799, 12800]
    } else {
        vec![8959, 8960, 10050, 12800]
    };
    for ws in weights.chunks(4) {
        let ws = ws.to_vec();
        v.push((name(format!("limits/{}", ws[0])), Box::new(move |r| {
            for m in &ws {
                for lay in [Lay::Spread, Lay::Front, Lay::Back] {
                    if !main && !matches!(lay, Lay::Spread) {
                        continue;
                    }
                    let t = 34 * m / 100;
                    let ds: Vec<usize> = match lay {
                        Lay::Spread => vec![0, t - 1, t, t + 1, *m],
                        _ => vec![t - 1, t],
                    };
                    let mut codes = vec![];
                    let mut qs = vec![];
                    for d in ds {
                        let (q, e) = pair(*m, d, lay, *m as u64);
                        qs.push((codes.len(), vec![codes.len() + 1], 1));
                        codes.push(q);
                        codes.push(e);
                    }
                    queries::<P, T>(r, &Dealt::new(codes), &qs, true)?;
                }
            }
            Ok(())
        })));
    }
    // every remainder of the mask weight: the limit is a fraction of it rounded down
    if main {
        let ws: Vec<usize> = if th { (8960..9060).chain(10_000..10_050).chain(12_751..=12_800).collect() } else { (8962..8979).chain([9003, 9100, 10_003, 10_100, 11_053, 12_003, 12_753, 12_797, 12_798]).collect() };
        for ws in ws.chunks(5) {
            let ws = ws.to_vec();
            v.push((name(format!("remainders/{}", ws[0])), Box::new(move |r| {
                for m in &ws {
                    let t = 34 * m / 100;
                    let mut codes = vec![];
                    let mut qs = vec![];
                    for d in [t - 1, t] {
                        let (q, e) = pair(*m, d, Lay::Spread, *m as u64);
                        qs.push((codes.len(), vec![codes.len() + 1], 1));
                        codes.push(q);
                        codes.push(e);
                    }
                    queries::<P, T>(r, &Dealt::new(codes), &qs, true)?;
                }
                Ok(())
            })));
        }
    }
    // databases: every size, chunk size, and set of matching positions; a bad mask at each position
    let max = if main { rep.pick(if P::NAME == "SpdzWise" { 5 } else { 6 }, 9) } else { 3 };
    for n in 1..=max {
        v.push((name(format!("database/{n}")), Box::new(move |r| {
            // 0 query; 1..: far entries (just not close); then close entries; then bad masks
            let (q, far) = pair(11000, 3740, Lay::Spread, 5);
            let (_, close) = pair(11000, 3739, Lay::Spread, 5);
            let mut bad = close.clone();
            let mut k = (q.mask & bad.mask).count_ones() - 8959;
            for i in 0..N {
                if k > 0 && q.mask.get_bit(i) && bad.mask.get_bit(i) {
                    bad.mask.set_bit(i, false);
                    k -= 1;
                }
            }
            // a far entry of another shape (all positions allowed by it)
            let mut far2 = far.clone();
            for i in 0..N {
                if !q.mask.get_bit(i) {
                    far2.mask.set_bit(i, true);
                }
            }
            let d = Dealt::<P, T>::new(vec![q, far, close, bad, far2]);
            let mut qs = vec![];
            for set in 0..1u32 << n {
                if set.count_ones() > 2 && set != (1 << n) - 1 {
                    continue;
                }
                let entries: Vec<usize> = (0..n).map(|i| if set >> i & 1 == 1 { 2 } else if i % 2 == 0 { 1 } else { 4 }).collect();
                let chunks: Vec<usize> = if set.count_ones() <= 1 { (1..=n + 1).collect() } else { vec![2] };
                for c in chunks {
                    qs.push((0, entries.clone(), c));
                }
            }
            queries::<P, T>(r, &d, &qs, P::NAME != "SpdzWise")?;
            let mut qs = vec![];
            for pos in 0..n {
                for c in [1, 2, n] {
                    let entries: Vec<usize> = (0..n).map(|i| if i == pos { 3 } else if i == 0 { 2 } else { 1 }).collect();
                    qs.push((0, entries, c));
                }
            }
            queries::<P, T>(r, &d, &qs, true)?;
            Ok(())
        })));
    }
    // larger databases, crossing the 64 and 128 lane boundaries
    if main {
        let sizes: Vec<usize> = if P::NAME == "SpdzWise" { rep.pick(vec![129, 290], vec![127, 128, 129, 257, 290, 400]) } else { rep.pick(vec![65, 129, 257], vec![63, 64, 65, 127, 128, 129, 130, 256, 257, 300]) };
        for n in sizes {
            v.push((name(format!("large/{n}")), Box::new(move |r| {
                let (q, far) = pair(12000, 4080, Lay::Spread, 8);
                let (_, close) = pair(12000, 4079, Lay::Spread, 8);
                let d = Dealt::<P, T>::new(vec![q, far, close]);
                let mut qs = vec![];
                for pos in [usize::MAX, 0, n - 1, n / 2, 63, 64, 127, 128] {
                    if pos != usize::MAX && pos >= n {
                        continue;
                    }
                    let entries: Vec<usize> = (0..n).map(|i| if i == pos { 2 } else { 1 }).collect();
                    let chunks: Vec<usize> = if pos == usize::MAX { vec![1, 128, n] } else if pos == n - 1 { vec![1, 127, 128, n - 1] } else { vec![100] };
                    for c in chunks {
                        if P::NAME == "SpdzWise" && !r.thorough() && !(pos == n - 1 || pos == 0) {
                            continue;
                        }
                        qs.push((0, entries.clone(), c));
                    }
                }
                queries::<P, T>(r, &d, &qs, true)
            })));
        }
    }
}

macro_rules! go { ($rep:ident, $v:ident; $($p:ty, $t:ty);*) => { $( jobs::<$p, $t>($rep, &mut $v); )* } }

fn main() {
    let rep = Report::new("P01", "model_checking");
    let mut v: Vec<Job> = vec![];
    // large first, they take longest
    go!(rep, v; PSpdz, u16; PSwift, u16; PMal, u16; PAby3, u16; PAby3, u32; PAby3, i16; PAby3, u64; PAby3, u128; PAby3, i32; PMal, u64; PMal, i16; PSwift, u32; PSwift, i16; PSpdz, u32; PSpdz, i16; PSpdz, u64);
    v.sort_by_key(|j| !j.0.contains("large") as u8);
    run_jobs(rep, v);
    rep.note("rule", "one state = one membership query run by the three parties on the real code and compared with the integer decision; the three answer counts show that all outcomes occur");
    rep.assume("Swift3's verification step is left out of these runs (it takes minutes at full code length); P10 decides it on short batches");
    rep.finish_and_exit();
}
