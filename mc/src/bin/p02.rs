//! P02: programs of arithmetic operations, judged on the shares after every step.
use iris_mpc::prelude::Error;
use mc::each_proto;
use mc::protos::*;
use mc::report::*;
use mc::scen::{wrap, KEY};
use mc::session::*;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Add,
    AddSelf,
    SubFrom,
    Sub,
    AddC(usize),
    SubC(usize),
    MulC(usize),
    Mul,
    Square,
    Dot(usize),
    DotMany(usize),
    Input(usize),
    Open,
    OpenMany,
}
use Op::*;
const FULL: [Op; 21] = [Add, AddSelf, Sub, SubFrom, AddC(0), AddC(1), SubC(0), SubC(1), MulC(0), MulC(1), Mul, Square, Dot(1), Dot(3), DotMany(1), DotMany(3), Input(0), Input(1), Input(2), Open, OpenMany];

fn alphabet(mult: bool) -> Vec<Op> {
    FULL.into_iter().filter(|o| mult || !matches!(o, Mul | Square | Dot(_) | DotMany(_))).collect()
}

/// The registers: r[0], r[1] dealt, then one per step.  Operations work on the last register and r[1] (or r[0]).
struct Plain<T> {
    r: Vec<T>,
    opened: Vec<T>,
}
fn consts<T: Num>() -> [u128; 2] {
    let m = if T::K == 128 { u128::MAX } else { (1u128 << T::K) - 1 };
    [m - 2, (1u128 << (T::K - 1)) | 5]
}
fn step_plain<T: Num>(op: Op, p: &mut Plain<T>) {
    let t = |x: u128| T::of(wrap::<T>(x));
    let n = p.r.len();
    let (l, a, b) = (p.r[n - 1].bits(), p.r[0].bits(), p.r[1].bits());
    let c = consts::<T>();
    let dot = |k: usize| (0..k).fold(0u128, |s, i| s.wrapping_add(p.r[(n - 1 + n - i % n) % n].bits().wrapping_mul(p.r[i % n].bits())));
    let v = match op {
        Add => t(l.wrapping_add(b)),
        AddSelf => t(l.wrapping_add(l)),
        SubFrom => t(a.wrapping_sub(l)),
        Sub => t(l.wrapping_sub(b)),
        AddC(i) => t(l.wrapping_add(c[i])),
        SubC(i) => t(l.wrapping_sub(c[i])),
        MulC(i) => t(l.wrapping_mul(c[i])),
        Mul => t(l.wrapping_mul(b)),
        Square => t(l.wrapping_mul(l)),
        Dot(k) => t(dot(k)),
        DotMany(k) => {
            let first = t(dot(2));
            p.r.extend(vec![first; k]);
            return;
        }
        Input(d) => t(c[d % 2].wrapping_add(d as u128)),
        Open => {
            p.opened.push(p.r[n - 1]);
            return;
        }
        OpenMany => {
            p.opened.extend([p.r[n - 1], p.r[0], p.r[1]]);
            return;
        }
    };
    p.r.push(v);
}

async fn step<P: Proto<T>, T: Num>(op: Op, s: &mut Sess<P, T>, r: &mut Vec<P::A>, opened: &mut Vec<T>) -> Result<(), Error> {
    let n = r.len();
    let (l, a, b) = (r[n - 1].clone(), r[0].clone(), r[1].clone());
    let c = consts::<T>().map(|x| T::of(x));
    let vecs = |k: usize| {
        let x = (0..k).map(|i| r[(n - 1 + n - i % n) % n].clone()).collect::<Vec<_>>();
        let y = (0..k).map(|i| r[i % n].clone()).collect::<Vec<_>>();
        (vec_share::<P::A>(x), vec_share::<P::A>(y))
    };
    let v = match op {
        Add => s.add(l, b),
        AddSelf => s.add(l.clone(), l),
        SubFrom => s.sub(a, l),
        Sub => s.sub(l, b),
        AddC(i) => s.add_const(l, c[i]),
        SubC(i) => s.sub_const(l, c[i]),
        MulC(i) => s.mul_const(l, c[i]),
        Mul => s.mul(l, b).await?,
        Square => s.mul(l.clone(), l).await?,
        Dot(k) => {
            let (x, y) = vecs(k);
            s.dot(x, y).await?
        }
        DotMany(k) => {
            let (x, y) = vecs(2);
            let o = s.dot_many(&vec![x; k], &vec![y; k]).await?;
            if o.len() != k {
                return Err(Error::Other(format!("dot_many of {k} vectors returned {} values", o.len())));
            }
            r.extend(o);
            return Ok(());
        }
        Input(d) => {
            let x = wrap::<T>(consts::<T>()[d % 2].wrapping_add(d as u128));
            s.input(if s.id == d { Some(T::of(x)) } else { None }, d).await?
        }
        Open => {
            opened.push(s.open(l).await?);
            return Ok(());
        }
        OpenMany => {
            opened.extend(s.open_many(vec_share::<P::A>(vec![l, a, b])).await?);
            return Ok(());
        }
    };
    r.push(v);
    Ok(())
}

/// One program on one pair of values.
fn program<P: Proto<T>, T: Num>(rep: &Report, prog: &[Op], x: u128, y: u128, key: &[P::A]) -> Result<(), String> {
    let mut rng = ChaCha12Rng::from_seed([5; 32]);
    let sh = [P::deal(T::of(x), KEY, &mut rng), P::deal(T::of(y), KEY, &mut rng)];
    let (o, info) = run_ok::<P, T, _, _, _>(key, |mut s| {
        let mut r = vec![sh[0][s.id].clone(), sh[1][s.id].clone()];
        let prog = prog.to_vec();
        async move {
            s.preprocess().await?;
            let mut opened = vec![];
            for op in prog {
                step::<P, T>(op, &mut s, &mut r, &mut opened).await?;
            }
            Ok((r, opened))
        }
    })
    .map_err(|e| format!("program {prog:?} on {x}, {y}: {e}"))?;
    rep.add("states", prog.len() as u64);
    rep.add("transitions", info.ops.iter().sum::<usize>() as u64);
    rep.add("programs", 1);
    let mut p = Plain { r: vec![T::of(x), T::of(y)], opened: vec![] };
    for op in prog {
        step_plain(*op, &mut p);
    }
    for (i, want) in p.r.iter().enumerate() {
        let got = P::rec([&o[0].0[i], &o[1].0[i], &o[2].0[i]], KEY).map_err(|e| format!("program {prog:?} on {x}, {y}: register {i}: {e}"))?;
        if got != *want {
            return Err(format!("program {prog:?} on {x}, {y}: register {i} holds {got}, should be {want}"));
        }
    }
    for (id, r) in o.iter().enumerate() {
        if r.1 != p.opened {
            return Err(format!("program {prog:?} on {x}, {y}: party {id} opened {:?}, should be {:?}", r.1, p.opened));
        }
    }
    Ok(())
}

/// All pairs (x, y), y running over `ys`, in one session: every binary operation.
fn pairs<P: Proto<T>, T: Num>(rep: &Report, x: u128, ys: &[u128], key: &[P::A], comp: [u128; 3]) -> Result<(), String> {
    let mult = multiplies::<P, T>();
    let mut rng = ChaCha12Rng::from_seed([x as u8 ^ 0x31; 32]);
    let t = |v: u128| T::of(wrap::<T>(v));
    let shx = P::deal_raw(T::of(x), comp, KEY);
    let shy: Vec<Vec<P::A>> = ys.iter().map(|y| P::deal(T::of(*y), KEY, &mut rng)).collect();
    let (o, info) = run_ok::<P, T, _, _, _>(key, |mut s| {
        let a = shx[s.id].clone();
        let b = of_party(&shy, s.id);
        let ys: Vec<T> = ys.iter().map(|y| T::of(*y)).collect();
        async move {
            s.preprocess().await?;
            let mut out = vec![];
            for (b, y) in b.iter().zip(ys) {
                out.push(s.add(a.clone(), b.clone()));
                out.push(s.sub(a.clone(), b.clone()));
                out.push(s.add_const(a.clone(), y));
                out.push(s.sub_const(a.clone(), y));
                out.push(s.mul_const(a.clone(), y));
                out.push(if mult { s.mul(a.clone(), b.clone()).await? } else { s.mul_const(a.clone(), y) });
            }
            let va = vec_share::<P::A>(vec![a.clone(); b.len()]);
            let vb = vec_share::<P::A>(b.clone());
            let d = if mult { Some(s.dot(va.clone(), vb.clone()).await?) } else { None };
            let one: Vec<_> = b.iter().map(|b| vec_share::<P::A>(vec![b.clone()])).collect();
            let other: Vec<_> = b.iter().map(|_| vec_share::<P::A>(vec![a.clone()])).collect();
            let dm = if mult { Some(s.dot_many(&one, &other).await?) } else { None };
            let op = s.open_many(vec_share::<P::A>(out.clone())).await?;
            let single = s.open(a).await?;
            Ok((out, d, dm, op, single))
        }
    })
    .map_err(|e| format!("value {x} against {} values: {e}", ys.len()))?;
    rep.add("states", ys.len() as u64 * 7);
    rep.add("transitions", info.ops.iter().sum::<usize>() as u64);
    let mut want = vec![];
    let mut sum = 0u128;
    for y in ys {
        want.extend([t(x.wrapping_add(*y)), t(x.wrapping_sub(*y)), t(x.wrapping_add(*y)), t(x.wrapping_sub(*y)), t(x.wrapping_mul(*y)), t(x.wrapping_mul(*y))]);
        sum = sum.wrapping_add(x.wrapping_mul(*y));
    }
    let name = ["+", "-", "+ (public)", "- (public)", "* (public)", "*"];
    for (i, w) in want.iter().enumerate() {
        let g = P::rec([&o[0].0[i], &o[1].0[i], &o[2].0[i]], KEY).map_err(|e| format!("{x} {} {}: {e}", name[i % 6], ys[i / 6]))?;
        if g != *w {
            return Err(format!("{x} {} {} gives {g}, should be {w}", name[i % 6], ys[i / 6]));
        }
        for p in 0..3 {
            if o[p].3.get(i) != Some(w) {
                return Err(format!("{x} {} {} opens to {:?} at party {p}, should be {w}", name[i % 6], ys[i / 6], o[p].3.get(i)));
            }
        }
    }
    if mult {
        let g = P::rec([o[0].1.as_ref().unwrap(), o[1].1.as_ref().unwrap(), o[2].1.as_ref().unwrap()], KEY).map_err(|e| format!("dot of length {}: {e}", ys.len()))?;
        if g != t(sum) {
            return Err(format!("dot product of {} values with {x} gives {g}, should be {}", ys.len(), t(sum)));
        }
        if o.iter().any(|r| r.2.as_ref().unwrap().len() != ys.len()) {
            return Err("dot_many returns a different number of values".into());
        }
        for (i, y) in ys.iter().enumerate() {
            let g = P::rec([&o[0].2.as_ref().unwrap()[i], &o[1].2.as_ref().unwrap()[i], &o[2].2.as_ref().unwrap()[i]], KEY).map_err(|e| format!("dot_many element {i}: {e}"))?;
            if g != t(x.wrapping_mul(*y)) {
                return Err(format!("dot_many element {i}: {x} times {y} gives {g}"));
            }
        }
    }
    if o.iter().any(|r| r.4 != T::of(x)) {
        return Err(format!("opening {x} alone gives {:?}", o.iter().map(|r| r.4).collect::<Vec<_>>()));
    }
    Ok(())
}

/// Dot products of every length, and batches of every size with vectors of different lengths.
fn dots<P: Proto<T>, T: Num>(rep: &Report, len: usize, key: &[P::A]) -> Result<(), String> {
    let mut rng = ChaCha12Rng::from_seed([len as u8; 32]);
    let bnd = boundary(T::K);
    let xs: Vec<u128> = (0..len).map(|i| bnd[(i * 3 + 1) % bnd.len()].wrapping_add(i as u128)).collect();
    let ys: Vec<u128> = (0..len).map(|i| bnd[(i * 7 + 4) % bnd.len()].wrapping_sub(i as u128)).collect();
    let sx: Vec<_> = xs.iter().map(|x| P::deal(T::of(*x), KEY, &mut rng)).collect();
    let sy: Vec<_> = ys.iter().map(|x| P::deal(T::of(*x), KEY, &mut rng)).collect();
    let (o, info) = run_ok::<P, T, _, _, _>(key, |mut s| {
        let (a, b) = (of_party(&sx, s.id), of_party(&sy, s.id));
        async move {
            s.preprocess().await?;
            let d = s.dot(vec_share::<P::A>(a.clone()), vec_share::<P::A>(b.clone())).await?;
            // prefixes of lengths len, len-1, ..., 1
            let va: Vec<_> = (0..a.len()).map(|i| vec_share::<P::A>(a[..a.len() - i].to_vec())).collect();
            let vb: Vec<_> = (0..a.len()).map(|i| vec_share::<P::A>(b[..a.len() - i].to_vec())).collect();
            let m = s.dot_many(&va, &vb).await?;
            let om = s.open_many(vec_share::<P::A>(m.clone())).await?;
            Ok((d, m, om))
        }
    })
    .map_err(|e| format!("dot products of length {len}: {e}"))?;
    rep.add("states", 1 + len as u64);
    rep.add("transitions", info.ops.iter().sum::<usize>() as u64);
    let sum = |n: usize| T::of(wrap::<T>((0..n).fold(0u128, |s, i| s.wrapping_add(T::of(xs[i]).bits().wrapping_mul(T::of(ys[i]).bits())))));
    let g = P::rec([&o[0].0, &o[1].0, &o[2].0], KEY).map_err(|e| format!("dot of length {len}: {e}"))?;
    if g != sum(len) {
        return Err(format!("dot product of length {len} gives {g}, should be {}", sum(len)));
    }
    for i in 0..len {
        let w = sum(len - i);
        if o.iter().any(|r| r.1.len() != len) {
            return Err(format!("dot_many of {len} vectors returns another number of values"));
        }
        let g = P::rec([&o[0].1[i], &o[1].1[i], &o[2].1[i]], KEY).map_err(|e| format!("dot_many of {len} vectors, element {i}: {e}"))?;
        if g != w || o.iter().any(|r| r.2[i] != w) {
            return Err(format!("dot_many of {len} vectors, element {i} (length {}) gives {g}, should be {w}", len - i));
        }
    }
    Ok(())
}

fn all_programs(alpha: &[Op], depth: usize, f: &mut dyn FnMut(&[Op])) {
    let mut idx = vec![0usize; depth];
    loop {
        let p: Vec<Op> = idx.iter().map(|i| alpha[*i]).collect();
        f(&p);
        let mut k = 0;
        while k < depth {
            idx[k] += 1;
            if idx[k] < alpha.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == depth {
            return;
        }
    }
}

/// Long vectors and large batches: one dot product, many short ones at once, and opening as many values.
fn large<P: Proto<T>, T: Num>(rep: &Report, len: usize, key: &[P::A]) -> Result<(), String> {
    let mut rng = ChaCha12Rng::from_seed([len as u8 ^ 0x5a; 32]);
    let bnd = boundary(T::K);
    let val = |i: usize, c: usize| bnd[(i * c + 1) % bnd.len()].wrapping_add((i / bnd.len()) as u128);
    let sx: Vec<_> = (0..len).map(|i| P::deal(T::of(wrap::<T>(val(i, 3))), KEY, &mut rng)).collect();
    let sy: Vec<_> = (0..len).map(|i| P::deal(T::of(wrap::<T>(val(i, 7))), KEY, &mut rng)).collect();
    let (o, info) = run_ok::<P, T, _, _, _>(key, |mut s| {
        let (a, b) = (of_party(&sx, s.id), of_party(&sy, s.id));
        async move {
            s.preprocess().await?;
            let d = s.dot(vec_share::<P::A>(a.clone()), vec_share::<P::A>(b.clone())).await?;
            let va: Vec<_> = a.iter().map(|x| vec_share::<P::A>(vec![x.clone()])).collect();
            let vb: Vec<_> = b.iter().map(|x| vec_share::<P::A>(vec![x.clone()])).collect();
            let m = s.dot_many(&va, &vb).await?;
            let mut all = vec![d];
            all.extend(m);
            let om = s.open_many(vec_share::<P::A>(all.clone())).await?;
            Ok((all, om))
        }
    })
    .map_err(|e| format!("vectors of length {len}: {e}"))?;
    rep.add("states", len as u64 + 1);
    rep.add("transitions", info.ops.iter().sum::<usize>() as u64);
    let prods: Vec<u128> = (0..len).map(|i| wrap::<T>(val(i, 3)).wrapping_mul(wrap::<T>(val(i, 7)))).collect();
    let mut want = vec![T::of(wrap::<T>(prods.iter().fold(0u128, |a, b| a.wrapping_add(*b))))];
    want.extend(prods.iter().map(|p| T::of(wrap::<T>(*p))));
    for p in 0..3 {
        if o[p].1 != want {
            let i = (0..=len).find(|i| o[p].1.get(*i) != want.get(*i));
            return Err(format!("vectors of length {len}: party {p} opens {} values, the first wrong one at {i:?} (0 is the dot product, then the products one by one)", o[p].1.len()));
        }
    }
    for i in 0..=len {
        P::rec([&o[0].0[i], &o[1].0[i], &o[2].0[i]], KEY).map_err(|e| format!("vectors of length {len}, value {i}: {e}"))?;
    }
    Ok(())
}

fn jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>) {
    let th = rep.thorough();
    let mk = || P::key_shares(KEY, &mut ChaCha12Rng::from_seed([9; 32]));
    let name = |s: String| format!("{}/{}/{s}", P::NAME, T::TY);
    let bnd = boundary(T::K);
    // programs
    let depth = 3;
    let values: Vec<(u128, u128)> = vec![(bnd[6], bnd[5]), (bnd[4], bnd[7]), (3, bnd[3])];
    let mult = multiplies::<P, T>();
    for (i, first) in alphabet(mult).iter().enumerate() {
        let (first, values) = (*first, values.clone());
        v.push((name(format!("programs/{first:?}")), Box::new(move |r| {
            let key = mk();
            let mut res = Ok(());
            let mut each = |p: &[Op]| {
                for (x, y) in &values {
                    if res.is_ok() {
                        let mut q = vec![first];
                        q.extend(p);
                        res = program::<P, T>(r, &q, *x, *y, &key);
                    }
                }
            };
            for d in 0..depth {
                if d == 0 {
                    each(&[]);
                } else {
                    all_programs(&alphabet(mult), d, &mut each);
                }
            }
            let _ = i;
            res
        })));
    }
    if th || matches!(T::TY, "u16" | "i32" | "u64") {
        // four steps on one value pair
        let x = boundary(T::K)[6];
        let alpha = alphabet(mult);
        for first in alpha.clone() {
            for second in alpha.clone() {
                v.push((name(format!("programs4/{first:?}-{second:?}")), Box::new(move |r| {
                    let key = mk();
                    let mut res = Ok(());
                    all_programs(&alphabet(mult), 2, &mut |p| {
                        if res.is_ok() {
                            res = program::<P, T>(r, &[first, second, p[0], p[1]], x, (1 << (T::K - 1)) | 1, &key);
                        }
                    });
                    res
                })));
            }
        }
    }
    // all pairs of 8-bit values; boundary pairs elsewhere
    let xs: Vec<u128> = if T::K == 8 { (0..256).collect() } else { bnd.clone() };
    let groups: Vec<Vec<u128>> = xs.chunks(16).map(|c| c.to_vec()).collect();
    for g in groups {
        let (xs, bnd) = (xs.clone(), bnd.clone());
        v.push((name(format!("pairs/{}", g[0])), Box::new(move |r| {
            let key = mk();
            for x in &g {
                let comps: Vec<[u128; 3]> = if T::K == 8 { vec![[0x80, 0xff, 0x7f]] } else { vec![[0, 0, 0], [bnd[4], bnd[7], bnd[3]], [bnd[7], bnd[7], bnd[8]]] };
                for c in comps {
                    pairs::<P, T>(r, *x, &xs, &key, c)?;
                }
            }
            Ok(())
        })));
    }
    // dot products by length
    if !mult {
        return;
    }
    if T::TY == "u16" || T::TY == "u32" && rep.thorough() {
        for n in rep.pick(vec![1000, 4097, 12800], vec![511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 12800, 16385, 65537]) {
            v.insert(0, (name(format!("large/{n}")), Box::new(move |r| large::<P, T>(r, n, &mk()))));
        }
    }
    let max = rep.pick(130, 300);
    for lo in (1..=max).step_by(8) {
        v.push((name(format!("dots/{lo}")), Box::new(move |r| {
            let key = mk();
            for n in lo..(lo + 8).min(max + 1) {
                dots::<P, T>(r, n, &key)?;
            }
            Ok(())
        })));
    }
}

fn main() {
    let rep = Report::new("P02", "model_checking");
    let mut v: Vec<Job> = vec![];
    each_proto!(jobs, [u8, u16, u32, u64, u128, i8, i16, i32, i64], (rep, &mut v));
    run_jobs(rep, v);
    rep.note("alphabet", "add, add to itself, subtract in both directions, public constants (two values) added, subtracted, multiplied, multiply, square, dot of length 1 and 3, dot_many of 1 and 3, input by each party, open, open_many");
    rep.note("rule", "one state = one program step whose result shares of the three parties were reconstructed, compared for consistency (and tags) and against integer arithmetic modulo 2^k");
    rep.note("explored_completely", "yes, within the bounds named by the cases");
    rep.finish_and_exit();
}
