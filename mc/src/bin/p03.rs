//! P03: sign extraction and OR reduction.
use iris_mpc::prelude::*;
use mc::each_proto;
use mc::exec::*;
use mc::protos::*;
use mc::report::*;
use mc::session::*;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;

const KEY: u128 = 0x0123_4567_89ab_cdef_1122_3344_5566_7789;

fn msb_of<T: Num>(x: T) -> bool {
    (x.bits() >> (T::K - 1)) & 1 == 1
}
fn open_all<P: Proto<T>, T: Num>(outs: &[Vec<P::B>; 3]) -> Result<Vec<bool>, String> {
    let n = outs[0].len();
    if outs[1].len() != n || outs[2].len() != n {
        return Err(format!("the parties hold {} / {} / {} bits", n, outs[1].len(), outs[2].len()));
    }
    (0..n).map(|i| P::rec_bit([&outs[0][i], &outs[1][i], &outs[2][i]]).map_err(|e| format!("bit {i}: {e}"))).collect()
}

/// The sign of each value on its own; also opened through the protocol.
fn single<P: Proto<T>, T: Num>(rep: &Report, case: &str, xs: &[(T, [u128; 3])], key: &[P::A]) -> Result<(), String> {
    rep.add("states", xs.len() as u64);
    for (x, comp) in xs {
        let sh = P::deal_raw(*x, *comp, KEY);
        let (o, info) = run_ok::<P, T, _, _, _>(key, |mut s| {
            let a = sh[s.id].clone();
            async move {
                s.preprocess().await?;
                let b = s.msb(a).await?;
                let o = s.open_bit(b.clone()).await?;
                Ok((b, o))
            }
        })
        .map_err(|e| format!("value {x} shared with components {comp:?}: {e}"))?;
        rep.add("transitions", info.ops.iter().sum::<usize>() as u64);
        let want = msb_of(*x);
        let got = P::rec_bit([&o[0].0, &o[1].0, &o[2].0]).map_err(|e| format!("value {x}: {e}"))?;
        if got != want || o.iter().any(|r| r.1 != want) {
            return Err(format!("sign of {x} (shared with components {comp:?}): shares hold {got}, opened {:?}, should be {want}", o.iter().map(|r| r.1).collect::<Vec<_>>()));
        }
    }
    let _ = case;
    Ok(())
}

/// A batch: results in order, one per element, and the same through opening.
fn batch<P: Proto<T>, T: Num>(rep: &Report, xs: &[T], key: &[P::A], seed: u8) -> Result<(), String> {
    let mut rng = ChaCha12Rng::from_seed([seed; 32]);
    let sh: Vec<Vec<P::A>> = xs.iter().map(|x| P::deal(*x, KEY, &mut rng)).collect();
    let (o, info) = run_ok::<P, T, _, _, _>(key, |mut s| {
        let a = of_party(&sh, s.id);
        async move {
            s.preprocess().await?;
            let b = s.msb_many(a).await?;
            let o = s.open_bit_many(b.clone()).await?;
            Ok((b, o))
        }
    })?;
    rep.add("states", 1);
    rep.add("transitions", info.ops.iter().sum::<usize>() as u64);
    let want: Vec<bool> = xs.iter().map(|x| msb_of(*x)).collect();
    let got = open_all::<P, T>(&[o[0].0.clone(), o[1].0.clone(), o[2].0.clone()])?;
    if got != want {
        let i = (0..want.len()).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
        return Err(format!("batch of {}: {} signs came back, first wrong at element {i} (value {})", xs.len(), got.len(), xs.get(i).map(|x| x.bits()).unwrap_or(0)));
    }
    for r in &o {
        if r.1 != want {
            return Err(format!("batch of {}: opened signs differ from the values' signs", xs.len()));
        }
    }
    Ok(())
}

fn or_tree<P: Proto<T>, T: Num>(rep: &Report, bits: &[bool], chunk: usize, key: &[P::A], seed: u8) -> Result<(), String> {
    let mut rng = ChaCha12Rng::from_seed([seed; 32]);
    let sh: Vec<Vec<P::B>> = bits.iter().map(|x| P::deal_bit(*x, &mut rng)).collect();
    let (o, info) = run_ok::<P, T, _, _, _>(key, |mut s| {
        let a = of_party(&sh, s.id);
        async move {
            s.preprocess().await?;
            let b = s.or_reduce(a, chunk).await?;
            let o = s.open_bit(b.clone()).await?;
            Ok((b, o))
        }
    })?;
    rep.add("states", 1);
    rep.add("transitions", info.ops.iter().sum::<usize>() as u64);
    let want = bits.iter().any(|b| *b);
    let got = P::rec_bit([&o[0].0, &o[1].0, &o[2].0])?;
    if got != want || o.iter().any(|r| r.1 != want) {
        return Err(format!("OR of {} bits (set: {:?}) with chunk size {chunk}: shares hold {got}, opened {:?}, should be {want}", bits.len(), bits.iter().enumerate().filter(|b| *b.1).map(|b| b.0).take(4).collect::<Vec<_>>(), o.iter().map(|r| r.1).collect::<Vec<_>>()));
    }
    Ok(())
}


fn jobs<P: Proto<T>, T: Num>(th: bool, jobs: &mut Vec<Job>) {
    let mk = || P::key_shares(KEY, &mut ChaCha12Rng::from_seed([9; 32]));
    let name = |s: &str| format!("{}/{}/{s}", P::NAME, T::TY);
    // single values: every value of the 8-bit rings, boundary values elsewhere, boundary components
    let bnd = boundary(T::K);
    let vals: Vec<u128> = if T::K == 8 { (0..256).collect() } else { bnd.clone() };
    let mut one = vec![];
    for v in &vals {
        let comps: Vec<u128> = if T::K == 8 && !th { vec![0, 0x7f, 0xff] } else if th { bnd.clone() } else { vec![0, bnd[3], *bnd.iter().max().unwrap(), bnd[8]] };
        for c0 in &comps {
            for c1 in &comps {
                if P::COMPS == 3 {
                    for c2 in [0u128, *c0] {
                        one.push((T::of(*v), [*c0, *c1, c2]));
                    }
                } else {
                    one.push((T::of(*v), [*c0, *c1, 0]));
                }
            }
        }
    }
    for (n, part) in one.chunks(600).enumerate() {
        let part = part.to_vec();
        jobs.push((name(&format!("single{n}")), Box::new(move |r| { own_entropy(3); single::<P, T>(r, "", &part, &mk()) })));
    }
    // every single carry position
    let carry: Vec<(T, [u128; 3])> = (0..T::K).flat_map(|i| {
        let p = 1u128 << i;
        // components chosen so that a carry runs from position i to the top, or stops below it
        let m = if T::K == 128 { u128::MAX } else { (1u128 << T::K) - 1 };
        [(T::of(0), [p, m - p + 1, 0]), (T::of(m), [p, m - p, 0]), (T::of(p), [m, p, 0]), (T::of(m ^ p), [m ^ p, 0, p]), (T::of(p), [p, p, p])]
    }).collect();
    jobs.push((name("carry"), Box::new(move |r| { own_entropy(4); single::<P, T>(r, "", &carry, &mk()) })));
    // batches: for each length, patterns that give every position its own sign history
    let mut lens: Vec<usize> = if T::K <= 16 || th { (1..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257]).collect() } else { vec![1, 2, 3, 7, 64, 127, 128, 129, 257] };
    if th {
        lens = (1..=140).chain([191, 192, 193, 255, 256, 257, 383, 384, 385, 512, 513]).collect();
    }
    if T::TY == "u16" {
        lens.extend(if th { vec![1000, 1024, 1025, 4095, 4096, 4097, 10001] } else { vec![1000, 4097] });
    }
    for n in lens {
        jobs.push((name(&format!("batch{n}")), Box::new(move |r| {
            own_entropy(5);
            let key = mk();
            let bnd = boundary(T::K);
            let h = 1u128 << (T::K - 1);
            let w = (usize::BITS - n.leading_zeros()) as usize;
            for pat in 0..w + 2 {
                let xs: Vec<T> = (0..n).map(|i| {
                    let top = match pat {
                        p if p < w => (i >> p) & 1 == 1,
                        p if p == w => true,
                        _ => false,
                    };
                    let low = bnd[(i * 7 + pat) % bnd.len()] & (h - 1);
                    T::of(low | if top { h } else { 0 })
                }).collect();
                batch::<P, T>(r, &xs, &key, pat as u8)?;
            }
            Ok(())
        })));
    }
}

fn bit_jobs<P: Proto<T>, T: Num>(th: bool, jobs: &mut Vec<Job>) {
    let mk = || P::key_shares(KEY, &mut ChaCha12Rng::from_seed([9; 32]));
    let name = |s: &str| format!("{}/{}/{s}", P::NAME, T::TY);
    // binary OR: all sharings of all pairs
    jobs.push((name("or2"), Box::new(move |r| {
        own_entropy(6);
        let key = mk();
        let m = 1 << P::COMPS;
        let c = |v: usize| [v & 1 == 1, v & 2 == 2, v & 4 == 4];
        for x in [false, true] {
            for y in [false, true] {
                for cx in 0..m {
                    for cy in 0..m {
                        let (a, b) = (P::deal_bit_raw(x, c(cx)), P::deal_bit_raw(y, c(cy)));
                        let (o, info) = run_ok::<P, T, _, _, _>(&key, |mut s| {
                            let (a, b) = (a[s.id].clone(), b[s.id].clone());
                            async move {
                                s.preprocess().await?;
                                let z = s.or(a, b).await?;
                                let o = s.open_bit(z.clone()).await?;
                                Ok((z, o))
                            }
                        })?;
                        r.add("states", 1);
                        r.add("transitions", info.ops.iter().sum::<usize>() as u64);
                        let got = P::rec_bit([&o[0].0, &o[1].0, &o[2].0])?;
                        if got != (x | y) || o.iter().any(|q| q.1 != (x | y)) {
                            return Err(format!("{x} OR {y} (sharings {cx}, {cy}) gives {got}, opened {:?}", o.iter().map(|q| q.1).collect::<Vec<_>>()));
                        }
                    }
                }
            }
        }
        Ok(())
    })));
    // all bit vectors of small lengths, several chunk sizes
    let max = if th { 10 } else { 7 };
    for n in 1..=max {
        for chunk in [1usize, 2, 3, 5, 8, 128] {
            jobs.push((name(&format!("ortree{n}c{chunk}")), Box::new(move |r| {
                own_entropy(7);
                let key = mk();
                for v in 0..1u32 << n {
                    let bits: Vec<bool> = (0..n).map(|i| v >> i & 1 == 1).collect();
                    or_tree::<P, T>(r, &bits, chunk, &key, v as u8)?;
                }
                Ok(())
            })));
        }
    }
    // longer vectors: nothing set, and each single bit set
    let lens: Vec<usize> = if th { (9..=40).chain([63, 64, 65, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 383, 385, 513]).collect() } else { vec![8, 9, 11, 13, 16, 17, 23, 31, 32, 33, 64, 65, 127, 128, 129, 130, 256, 257, 259] };
    for n in lens.into_iter().chain([1000, 4097]) {
        for chunk in [1usize, 2, 3, 7, 64, 100, 127, 128, 129, 256, 1000, 5000] {
            if n > 70 && chunk == 2 || n > 600 && chunk < 100 {
                continue;
            }
            jobs.push((name(&format!("orlong{n}c{chunk}")), Box::new(move |r| {
                own_entropy(8);
                let key = mk();
                or_tree::<P, T>(r, &vec![false; n], chunk, &key, 1)?;
                or_tree::<P, T>(r, &vec![true; n], chunk, &key, 2)?;
                let pos: Vec<usize> = if n > 600 { (0..n).filter(|i| *i < 1 || i + 2 > n || i % 1000 == 999 || i % 517 == 0).collect() } else if n <= 40 || th { (0..n).collect() } else { (0..n).filter(|i| *i < 3 || i + 4 > n || i % 64 < 2 || i % 64 > 61 || i % chunk == 0 && chunk > 50 || i % 13 == 0).collect() };
                for i in pos {
                    let mut b = vec![false; n];
                    b[i] = true;
                    or_tree::<P, T>(r, &b, chunk, &key, i as u8)?;
                }
                Ok(())
            })));
        }
    }
}

fn main() {
    let rep = Report::new("P03", "model_checking");
    let th = rep.thorough();
    let mut v: Vec<Job> = vec![];
    each_proto!(jobs, [u8, u16, u32, u64, i8, i16, i32, i64], (th, &mut v));
    each_proto!(bit_jobs, [u16], (th, &mut v));
    run_jobs(rep, v);
    rep.add("traces_validated_against_impl", 1);
    rep.note("rule", "one state = one (protocol, ring, input, sharing, chunk size) execution of the real three-party code, judged on the parties' shares and on the opened bits");
    rep.flag("exhaustive", true);
    rep.assume("the three parties exchange messages over reliable FIFO links; randomness is the deterministic stream of one seed per job");
    rep.finish_and_exit();
}
