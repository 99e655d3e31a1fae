//! P10: batches of every size and mixture verify; a batch wrong in any one place does not.
use iris_mpc::prelude::Error;
use mc::dev;
use mc::each_proto;
use mc::exec::*;
use mc::net::*;
use mc::protos::*;
use mc::report::*;
use mc::scen::KEY;
use mc::session::*;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;

#[derive(Clone, Debug, PartialEq)]
enum Step {
    Mul(usize),
    /// how many products at once, of which length
    Dots(usize, usize),
    Dot(usize),
    Or(usize),
    OrReduce(usize, usize),
    Msb(usize),
    Verify,
}
use Step::*;

fn gates(s: &[Step]) -> bool {
    s.iter().any(|x| matches!(x, Or(_) | OrReduce(..) | Msb(_)))
}

struct Mat<P: Proto<T>, T: Num> {
    key: Vec<P::A>,
    vals: Vec<T>,
    sh: Vec<Vec<P::A>>,
    bits: Vec<bool>,
    bsh: Vec<Vec<P::B>>,
}
impl<P: Proto<T>, T: Num> Mat<P, T> {
    fn new() -> Self {
        let mut rng = ChaCha12Rng::from_seed([17; 32]);
        let key = P::key_shares(KEY, &mut rng);
        let h = 1u128 << (T::K - 1);
        let m = if T::K == 128 { u128::MAX } else { (1 << T::K) - 1 };
        let pat = [5u128, 3, h | 1, m, h - 1, 7, 2, h | 0x2d, 1, 0, h, 0x1234_5678_9abc_def1];
        let vals: Vec<T> = (0..24u128).map(|i| T::of(pat[i as usize % 12].wrapping_mul(1 + i / 12 * 2))).collect();
        let sh = vals.iter().map(|v| P::deal(*v, KEY, &mut rng)).collect();
        let bits: Vec<bool> = (0..7).map(|i| i % 3 == 1).collect();
        let bsh = bits.iter().map(|b| P::deal_bit(*b, &mut rng)).collect();
        Mat { key, vals, sh, bits, bsh }
    }
    fn v(&self, i: usize) -> u128 {
        self.vals[i % self.vals.len()].bits()
    }
    fn s(&self, i: usize, id: usize) -> P::A {
        self.sh[i % self.sh.len()][id].clone()
    }
    fn b(&self, i: usize) -> bool {
        self.bits[i % self.bits.len()]
    }
    fn bs(&self, i: usize, id: usize) -> P::B {
        self.bsh[i % self.bsh.len()][id].clone()
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Res {
    ints: Vec<u128>,
    bits: Vec<bool>,
}
fn expect<P: Proto<T>, T: Num>(m: &Mat<P, T>, steps: &[Step]) -> Res {
    let mut r = Res::default();
    let w = |x: u128| T::of(x).bits();
    let mut at = 0;
    for s in steps {
        match s {
            Mul(n) => (0..*n).for_each(|i| r.ints.push(w(m.v(at + i).wrapping_mul(m.v(at + 2 * i + 1))))),
            Dots(n, l) => (0..*n).for_each(|i| r.ints.push(w((0..*l).fold(0u128, |s, j| s.wrapping_add(m.v(at + i + j).wrapping_mul(m.v(at + i + 2 * j + 1))))))),
            Dot(l) => r.ints.push(w((0..*l).fold(0u128, |s, j| s.wrapping_add(m.v(at + j).wrapping_mul(m.v(at + 2 * j + 1)))))),
            Or(n) => (0..*n).for_each(|i| r.bits.push(m.b(at + i) | m.b(at + i + 3))),
            OrReduce(n, _) => r.bits.push((0..*n).any(|i| m.b(at + i))),
            Msb(n) => (0..*n).for_each(|i| r.bits.push(m.v(at + i) >> (T::K - 1) & 1 == 1)),
            Verify => {}
        }
        at += 1;
    }
    r
}
/// Up to where a run goes: only the setup, the operations, or everything.
#[derive(Clone, Copy, PartialEq)]
enum Until {
    Setup,
    Ops,
    End,
}
async fn body<P: Proto<T>, T: Num>(m: &Mat<P, T>, steps: &[Step], until: Until, mut s: Sess<P, T>) -> Result<Res, Error> {
    let id = s.id;
    s.preprocess().await?;
    let triples = gates(steps);
    if triples {
        s.triples(1 << 13).await?;
    }
    let mut r = Res::default();
    if until == Until::Setup {
        return Ok(r);
    }
    let (mut ints, mut bits): (Vec<P::A>, Vec<P::B>) = (vec![], vec![]);
    let mut at = 0;
    for st in steps {
        match *st {
            Mul(n) => {
                for i in 0..n {
                    ints.push(s.mul(m.s(at + i, id), m.s(at + 2 * i + 1, id)).await?);
                }
            }
            Dots(n, l) => {
                let a: Vec<_> = (0..n).map(|i| vec_share::<P::A>((0..l).map(|j| m.s(at + i + j, id)).collect())).collect();
                let b: Vec<_> = (0..n).map(|i| vec_share::<P::A>((0..l).map(|j| m.s(at + i + 2 * j + 1, id)).collect())).collect();
                ints.extend(s.dot_many(&a, &b).await?);
            }
            Dot(l) => {
                let a = vec_share::<P::A>((0..l).map(|j| m.s(at + j, id)).collect());
                let b = vec_share::<P::A>((0..l).map(|j| m.s(at + 2 * j + 1, id)).collect());
                ints.push(s.dot(a, b).await?);
            }
            Or(n) => {
                for i in 0..n {
                    bits.push(s.or(m.bs(at + i, id), m.bs(at + i + 3, id)).await?);
                }
            }
            OrReduce(n, c) => bits.push(s.or_reduce((0..n).map(|i| m.bs(at + i, id)).collect(), c).await?),
            Msb(n) => bits.extend(s.msb_many((0..n).map(|i| m.s(at + i, id)).collect()).await?),
            Verify => {
                if until == Until::Ops {
                    return Ok(r);
                }
                s.verify().await?;
                if triples {
                    s.triples(1 << 13).await?;
                }
            }
        }
        at += 1;
    }
    if until == Until::Ops {
        return Ok(r);
    }
    s.verify().await?;
    if !ints.is_empty() {
        r.ints.extend(s.open_many(vec_share::<P::A>(ints)).await?.iter().map(|x| x.bits()));
    }
    if !bits.is_empty() {
        r.bits.extend(s.open_bit_many(bits).await?);
    }
    s.finish().await?;
    Ok(r)
}
fn build<'a, P: Proto<T>, T: Num>(m: &'a Mat<P, T>, steps: &'a [Step], until: Until, w: &World) -> [Option<Fut<'a, Result<Res, String>>>; 3] {
    parties::<P, T, Res, _, _>(w, &m.key, |s| body::<P, T>(m, steps, until, s))
}

fn honest<P: Proto<T>, T: Num>(rep: &Report, m: &Mat<P, T>, steps: &[Step], tape: u64) -> Result<(), String> {
    let want = expect(m, steps);
    let w = World::new(Mode::Fast, 64);
    own_entropy(tape);
    let (ends, info) = run_fast(&w, build::<P, T>(m, steps, Until::End, &w));
    rep.add("states", 1);
    rep.add("transitions", info.ops.iter().sum::<usize>() as u64);
    for (p, e) in ends.iter().enumerate() {
        match e {
            End::Done(Ok(o)) if *o == want => {}
            End::Done(Ok(o)) => return Err(format!("{steps:?}: party {p} ends with {o:x?}, the right results are {want:x?}")),
            _ => return Err(format!("{steps:?} among honest parties: party {p} does not finish: {ends:?}")),
        }
    }
    if info.stuck {
        return Err(format!("{steps:?}: the parties wait for each other"));
    }
    Ok(())
}

/// The batch with one party deviating in one of the words it draws, or in one place of one message,
/// while the products are made.
fn wrong<P: Proto<T>, T: Num>(rep: &Report, m: &Mat<P, T>, steps: &[Step], bad: usize, most: usize) -> Result<(), String> {
    let want = expect(m, steps);
    let run = |until: Until, tamper: Option<((usize, usize, usize), Action)>| {
        let w = World::new(Mode::Fast, 64);
        w.0.borrow_mut().record = tamper.is_none();
        if let Some((k, a)) = tamper {
            w.0.borrow_mut().tamper.insert(k, a);
        }
        own_entropy(47);
        let (ends, info) = run_fast(&w, build::<P, T>(m, steps, until, &w));
        let log: Vec<(usize, usize, usize, usize)> = w.0.borrow().log.iter().map(|l| (l.0, l.1, l.2, l.3.len())).collect();
        (ends, info, log)
    };
    let (before, _) = { let (r, d) = dev::draws(|| run(Until::Setup, None)); (d.into_iter().map(|x| x.0).collect::<std::collections::HashSet<_>>(), r) };
    let (_, ops) = dev::draws(|| run(Until::Ops, None));
    let thin = |v: Vec<(dev::Draw, u8, u8)>| -> Vec<(dev::Draw, u8, u8)> {
        let n = v.len();
        if n <= most { v } else { (0..most).map(|i| v[i * n / most]).collect() }
    };
    let mine = thin(ops.into_iter().filter(|d| !before.contains(&d.0) && d.1 >> bad & 1 == 1 && d.1 != 1 << bad).collect());
    rep.max("words_a_party_draws_in_a_batch", mine.len() as u64);
    let judge = |ends: &[End<Result<Res, String>>; 3], how: &str| -> Result<(), String> {
        let mut told = false;
        for p in 0..3 {
            if p == bad {
                continue;
            }
            match &ends[p] {
                End::Done(Ok(o)) if *o == want => {}
                End::Done(Err(_)) => told = true,
                End::Done(Ok(o)) => return Err(format!("{steps:?} with party {bad} deviating, {how}: honest party {p} verifies and ends with {o:x?} instead of {want:x?}")),
                e => return Err(format!("{steps:?} with party {bad} deviating, {how}: honest party {p} ends with {e:?}")),
            }
        }
        rep.add("wrong_batches", 1);
        rep.add(if told { "rejected" } else { "without_effect_on_the_results" }, 1);
        Ok(())
    };
    for (d, _, bytes) in &mine {
        for de in dev::deltas(*bytes, T::K, false).into_iter().take(3) {
            let (ends, _, _) = dev::with_deviation(bad, &[(*d, de)], || run(Until::End, Some(((9, 9, 9), Action::Zero))));
            judge(&ends, &format!("word {} of a common stream changed by {de:?}", d.1))?;
        }
    }
    let (_, _, l0) = run(Until::Setup, None);
    let (_, _, l1) = run(Until::Ops, None);
    let msgs: Vec<_> = l1.into_iter().filter(|x| !l0.contains(x) && x.0 == bad).collect();
    let e = (T::K / 8).max(1);
    let mut points: Vec<((usize, usize, usize), usize, usize)> = vec![];
    for (f, t, i, len) in msgs {
        let at: Vec<usize> = (0..len).step_by(e).collect();
        let n = at.len();
        let few = n.min(most.max(2));
        points.extend((0..few).map(|k| ((f, t, i), at[k * n / few], len)));
    }
    // over all messages together at most 12 * `most` places
    let (n, few) = (points.len(), points.len().min(12 * most));
    for k in 0..few {
        let (key, b, len) = points[k * n / few];
        for a in [Action::FlipBit(b * 8), Action::AddByte((b + e - 1).min(len - 1), 1)] {
            let (ends, info, _) = run(Until::End, Some((key, a.clone())));
            if info.tampered > 0 {
                judge(&ends, &format!("message {} to party {} altered by {a:?}", key.2, key.1))?;
            }
        }
    }
    Ok(())
}

fn jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>) {
    if !P::MALICIOUS || !verifies::<P, T>() {
        return;
    }
    let th = rep.thorough();
    let main = T::TY == "u16";
    let swift = P::NAME == "Swift3";
    let mut sets: Vec<Vec<Step>> = vec![vec![]];
    // sizes: one kind at a time
    let top = if main { rep.pick(37, 130) } else { rep.pick(10, 40) };
    for n in 1..=top {
        sets.push(vec![Mul(n)]);
    }
    for n in 1..=if main { rep.pick(18, 70) } else { rep.pick(5, 20) } {
        for l in [1, 2, 3, 5] {
            sets.push(vec![Dots(n, l)]);
        }
    }
    for l in (1..=if main { rep.pick(20, 70) } else { 8 }).chain([100, 129]) {
        sets.push(vec![Dot(l)]);
        sets.push(vec![Dots(2, l)]);
    }
    let some: &[usize] = if th { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 24, 25, 26, 31, 32, 33, 36, 37, 48, 49, 50, 63, 64, 65] } else { &[1, 2, 3, 4, 5, 9, 10, 16, 17] };
    for &n in some {
        sets.push(vec![Or(n)]);
        if main {
            sets.push(vec![Msb(n)]);
            sets.push(vec![OrReduce(n, 2)]);
            sets.push(vec![OrReduce(n, 64)]);
        }
    }
    if main {
        for n in [127, 128, 129, 130, 255, 256, 257] {
            if th || n == 129 || (n < 130 && !swift) {
                sets.push(vec![Msb(n)]);
                sets.push(vec![OrReduce(n, 64)]);
            }
        }
    }
    // mixtures: all orders of up to three kinds, with a verification anywhere in between
    let kinds = [Mul(1), Dot(3), Dots(2, 2), Or(1), Msb(2), Verify];
    let depth = if main { rep.pick(3, 4) } else { 2 };
    let mut seqs: Vec<Vec<Step>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = seqs.len();
        for i in from..to {
            for k in &kinds {
                let mut s = seqs[i].clone();
                s.push(k.clone());
                seqs.push(s);
            }
        }
        from = to;
    }
    sets.extend(seqs.into_iter().filter(|s| s.len() > 1));
    // dot products of different lengths in one batch, in every order
    for a in 1..=4 {
        for b in 1..=4 {
            sets.push(vec![Dot(a), Dots(2, b)]);
            for c in 1..=if main { 4 } else { 1 } {
                sets.push(vec![Dots(1, a), Dot(b), Dots(3, c)]);
                sets.push(vec![Dot(a), Dot(b), Verify, Dot(c), Mul(2)]);
            }
        }
    }
    for (i, c) in sets.chunks(if swift { 6 } else { 12 }).enumerate() {
        let c = c.to_vec();
        v.push((format!("{}/{}/honest/{i}", P::NAME, T::TY), Box::new(move |r| {
            let m = Mat::<P, T>::new();
            c.iter().try_for_each(|s| honest::<P, T>(r, &m, s, 47))
        })));
    }
    // many choices of everything that is random: rare values in a proof must not stop an honest run
    let tapes = if T::TY == "u8" { rep.pick(512, 8192) } else if main { rep.pick(64, 65536) } else { rep.pick(8, 512) };
    for s in [vec![Mul(1)], vec![Dot(1)], vec![Dots(2, 2)], vec![Or(1)], vec![Mul(3), Dot(2)], vec![Mul(1), Verify, Dot(1)]] {
        for part in 0..8 {
            let s = s.clone();
            v.push((format!("{}/{}/tapes/{s:?}/{part}", P::NAME, T::TY), Box::new(move |r| {
                let m = Mat::<P, T>::new();
                (0..tapes / 8).try_for_each(|t| {
                    r.add("tapes", 1);
                    honest::<P, T>(r, &m, &s, 1000 + 8 * t + part).map_err(|e| format!("with the random tape {}: {e}", 1000 + 8 * t + part))
                })
            })));
        }
    }
    // wrong batches
    let mut bad_sets: Vec<(Vec<Step>, usize)> = vec![];
    for n in if main { rep.pick(vec![1, 2, 3, 5, 9], (1..=17).collect()) } else { vec![1, 4] } {
        bad_sets.push((vec![Mul(n)], 1000));
        bad_sets.push((vec![Dots(n, 2)], 1000));
    }
    for (n, l) in [(1, 1), (1, 7), (3, 5), (4, 1)] {
        bad_sets.push((vec![Dots(n, l)], 1000));
    }
    bad_sets.push((vec![Dot(4), Mul(2), Dot(2)], 1000));
    bad_sets.push((vec![Mul(2), Verify, Mul(1), Dots(2, 3)], 1000));
    if main {
        let most = rep.pick(3, 60);
        for n in rep.pick(vec![1, 3], vec![1, 2, 3, 4, 5, 9]) {
            bad_sets.push((vec![Or(n)], most));
            bad_sets.push((vec![OrReduce(2 * n + 1, 2)], most));
        }
        bad_sets.push((vec![Msb(1)], most));
        if th {
            bad_sets.push((vec![Msb(5)], most));
        }
        bad_sets.push((vec![Mul(1), Or(1), Dot(2)], most * 2));
    }
    for (s, most) in bad_sets {
        for bad in 0..3 {
            let s = s.clone();
            v.push((format!("{}/{}/wrong/{s:?}/{bad}", P::NAME, T::TY).replace(' ', ""), Box::new(move |r| {
                let m = Mat::<P, T>::new();
                wrong::<P, T>(r, &m, &s, bad, most)
            })));
        }
    }
}

fn main() {
    let rep = Report::new("P10", "model_checking");
    let mut v: Vec<Job> = vec![];
    each_proto!(jobs, [u16, u8, u32, u64, i16], (rep, &mut v));
    run_jobs(rep, v);
    rep.note("rule", "one state = one honest three-party run of a batch with verification and opening, all results compared with plain arithmetic; one wrong batch = the same run with one party changing one word of a common random stream (and going on consistently) or one place of one message while the products are made: an honest party must fail unless the results are right");
    rep.assume("soundness errors (at most 2^-40) do not occur in the runs made; they are deterministic, so the verdict on unchanged code does not vary");
    rep.finish_and_exit();
}
