//! P17: bit arrays against a plain list of bools, and the comparison against a count over that list.
use mc::exec::guard;
use mc::report::*;
use plain_reference::{IrisCode, IrisCodeArray, MASK_THRESHOLD, MATCH_THRESHOLD_RATIO};
use rand::SeedableRng;
use rand_chacha::{control, ChaCha12Rng};

const N: usize = 12800;

/// What a bit array must look like from every side, given the bits it should hold.
fn agrees(a: &IrisCodeArray, m: &[bool]) -> Result<(), String> {
    for (i, &b) in m.iter().enumerate() {
        if a.get_bit(i) != b {
            return Err(format!("bit {i} reads {} and should be {b}", !b));
        }
    }
    let ones = m.iter().filter(|b| **b).count();
    if a.count_ones() != ones {
        return Err(format!("{} ones counted, there are {ones}", a.count_ones()));
    }
    let mut it = a.bits();
    for (i, &b) in m.iter().enumerate() {
        if it.len() != N - i {
            return Err(format!("the iterator announces {} bits at position {i}", it.len()));
        }
        if it.next() != Some(b) {
            return Err(format!("the iterator gives a wrong bit at position {i}"));
        }
    }
    if it.len() != 0 || it.next().is_some() || it.next().is_some() {
        return Err("the iterator goes on after the last bit".into());
    }
    Ok(())
}
/// The same by the raw bytes only (bit i is bit i%8 of byte i/8), for the large sweeps.
fn agrees_fast(a: &IrisCodeArray, m: &[u8], ones: usize) -> Result<(), String> {
    if a.as_raw_slice() != m {
        return Err("the bytes differ from the bits set".into());
    }
    if a.count_ones() != ones {
        return Err(format!("{} ones counted, there are {ones}", a.count_ones()));
    }
    Ok(())
}
fn bytes(m: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; N / 8];
    for (i, b) in m.iter().enumerate() {
        v[i / 8] |= (*b as u8) << (i % 8);
    }
    v
}
fn of(m: &[bool]) -> IrisCodeArray {
    let mut a = IrisCodeArray::ZERO;
    a.as_raw_mut_slice().copy_from_slice(&bytes(m));
    a
}
/// A cheap pattern generator: bit i of pattern p.
fn pat(p: usize, i: usize) -> bool {
    match p {
        0 => false,
        1 => true,
        2 => i % 2 == 0,
        3 => i % 3 == 0,
        4 => (i / 64) % 2 == 0,
        5 => i < 6400,
        6 => (i.wrapping_mul(2654435761) >> 7) & 1 == 1,
        _ => (i.wrapping_mul(0x9E3779B97F4A7C15) >> 40) & 1 == 1,
    }
}
fn pattern(p: usize) -> Vec<bool> {
    (0..N).map(|i| pat(p, i)).collect()
}

/// Every position, every operation, on several backgrounds.
fn positions(rep: &Report, p: usize) -> Result<(), String> {
    let base = pattern(p);
    let a0 = of(&base);
    agrees(&a0, &base)?;
    let raw = bytes(&base);
    let ones = base.iter().filter(|b| **b).count();
    for i in 0..N {
        for op in 0..4 {
            let mut a = a0;
            let new = match op {
                0 => { a.set_bit(i, true); true }
                1 => { a.set_bit(i, false); false }
                2 => { a.flip_bit(i); !base[i] }
                _ => { a.flip_bit(i); a.flip_bit(i); base[i] }
            };
            let mut r = raw.clone();
            r[i / 8] = r[i / 8] & !(1 << (i % 8)) | (new as u8) << (i % 8);
            let e = |x: String| format!("pattern {p}, position {i}, operation {op}: {x}");
            agrees_fast(&a, &r, ones - base[i] as usize + new as usize).map_err(e)?;
            if a.get_bit(i) != new {
                return Err(e("the bit reads back wrong".into()));
            }
            if a.bits().nth(i) != Some(new) {
                return Err(e("the iterator gives the old bit".into()));
            }
            rep.add("states", 1);
            rep.add("transitions", 1);
        }
    }
    Ok(())
}

/// All sequences of operations on positions around the word boundaries.
fn sequences(rep: &Report, start: usize, first: usize, depth: usize) -> Result<(), String> {
    const P: [usize; 7] = [0, 1, 63, 64, 127, 6400, 12799];
    let n = P.len() * 3;
    let mut stack: Vec<(IrisCodeArray, Vec<bool>, Vec<usize>)> = vec![(of(&pattern(start)), pattern(start), vec![])];
    let mut todo = vec![first];
    // depth-first over the operation tree; the first operation is this job's
    fn go(rep: &Report, a: &IrisCodeArray, m: &mut Vec<bool>, hist: &mut Vec<usize>, n: usize, depth: usize, only: Option<usize>) -> Result<(), String> {
        if hist.len() == depth {
            return agrees(a, m).map_err(|e| format!("after operations {hist:?} (position index, set/clear/flip): {e}"));
        }
        for op in 0..n {
            if only.is_some_and(|o| o != op) {
                continue;
            }
            let i = P[op / 3];
            let mut b = *a;
            let old = m[i];
            match op % 3 {
                0 => { b.set_bit(i, true); m[i] = true; }
                1 => { b.set_bit(i, false); m[i] = false; }
                _ => { b.flip_bit(i); m[i] = !m[i]; }
            }
            rep.add("states", 1);
            rep.add("transitions", 1);
            hist.push(op);
            go(rep, &b, m, hist, n, depth, None)?;
            hist.pop();
            m[i] = old;
        }
        Ok(())
    }
    let (a, mut m, mut h) = stack.pop().unwrap();
    go(rep, &a, &mut m, &mut h, n, depth, todo.pop())
}

fn operators(rep: &Report, p: usize, q: usize) -> Result<(), String> {
    let (x, y) = (pattern(p), pattern(q));
    let (a, b) = (of(&x), of(&y));
    let and: Vec<bool> = (0..N).map(|i| x[i] && y[i]).collect();
    let xor: Vec<bool> = (0..N).map(|i| x[i] != y[i]).collect();
    let mut c = a;
    c &= b;
    let mut d = a;
    d ^= b;
    for (got, want, what) in [(a & b, &and, "a & b"), (c, &and, "a &= b"), (a ^ b, &xor, "a ^ b"), (d, &xor, "a ^= b")] {
        agrees(&got, want).map_err(|e| format!("{what} of patterns {p}, {q}: {e}"))?;
        rep.add("states", 1);
        rep.add("transitions", 1);
    }
    if (a == b) != (x == y) || a != a.clone() {
        return Err(format!("equality of patterns {p} and {q}"));
    }
    Ok(())
}

/// The decision as the statement gives it.
fn reference(a: (&[bool], &[bool]), b: (&[bool], &[bool])) -> bool {
    let (mut m, mut d) = (0usize, 0usize);
    for i in 0..N {
        if a.1[i] && b.1[i] {
            m += 1;
            d += (a.0[i] != b.0[i]) as usize;
        }
    }
    d < m * 34 / 100
}
fn compare(rep: &Report, ca: &[bool], ma: &[bool], cb: &[bool], mb: &[bool], what: impl Fn() -> String) -> Result<(), String> {
    let want = reference((ca, ma), (cb, mb));
    let x = IrisCode { code: of(ca), mask: of(ma) };
    let y = IrisCode { code: of(cb), mask: of(mb) };
    for (p, q, dir) in [(&x, &y, "a, b"), (&y, &x, "b, a")] {
        match guard(|| p.is_close(q)) {
            Ok(g) if g == want => {}
            Ok(g) => return Err(format!("{}: close({dir}) is {g}, should be {want}", what())),
            Err(e) => return Err(format!("{}: close({dir}) panicked: {e}", what())),
        }
        rep.add("states", 1);
        rep.add("transitions", 1);
    }
    Ok(())
}

/// Every mask weight from the limit upward with distances around the threshold; the mask is split
/// between the two irises, differing bits outside of it are to be ignored.
fn thresholds(rep: &Report, block: usize, blocks: usize, styles: &[usize]) -> Result<(), String> {
    for m in (MASK_THRESHOLD..=N).filter(|m| m % blocks == block) {
        let t = m * 34 / 100;
        for &style in styles {
            // which positions are masked out: the first ones, the last ones, spread out
            let out = N - m;
            let order = |i: usize| match style {
                0 => i,
                1 => N - 1 - i,
                // 9901 is coprime to 12800: a walk over all positions
                _ => (i * 9901 + 17) % N,
            };
            let mut ma = vec![true; N];
            let mut mb = vec![true; N];
            for i in 0..out {
                match i % 3 {
                    0 => ma[order(i)] = false,
                    1 => mb[order(i)] = false,
                    _ => { ma[order(i)] = false; mb[order(i)] = false; }
                }
            }
            for d in [0, 1, t - 1, t, t + 1, m - 1, m] {
                let ca = pattern(if style == 2 { 6 } else { 2 });
                let mut cb = ca.clone();
                for i in out..out + d {
                    cb[order(i)] ^= true;
                }
                for outside in 0..2 {
                    if outside == 1 {
                        // and everything outside the mask differs
                        for i in 0..out {
                            cb[order(i)] ^= true;
                        }
                    }
                    compare(rep, &ca, &ma, &cb, &mb, || format!("mask weight {m}, style {style}, distance {d}, outside differing: {outside}"))?;
                }
            }
        }
    }
    Ok(())
}

/// Each single position decides at the threshold: inside the mask and outside of it.
fn deciding(rep: &Report, block: usize, blocks: usize) -> Result<(), String> {
    let m = 12800;
    let t = m * 34 / 100;
    for i in (0..N).filter(|i| i % blocks == block) {
        // t-1 other positions differ; position i differs or not
        let ca = vec![false; N];
        let mut cb = vec![false; N];
        let ones = vec![true; N];
        let mut k = 0;
        let mut j = (i + 1) % N;
        while k < t - 1 {
            cb[j] = true;
            k += 1;
            j = (j + 3) % N;
            if j == i || cb[j] {
                j = (j + 1) % N;
            }
        }
        if cb.iter().filter(|b| **b).count() != t - 1 || cb[i] {
            continue;
        }
        compare(rep, &ca, &ones, &cb, &ones, || format!("{} positions differ, not {i}", t - 1))?;
        cb[i] = true;
        compare(rep, &ca, &ones, &cb, &ones, || format!("{t} positions differ, {i} among them"))?;
        let mut mb = ones.clone();
        mb[i] = false;
        compare(rep, &ca, &ones, &cb, &mb, || format!("{t} positions differ, {i} masked out"))?;
        compare(rep, &ca, &mb, &cb, &ones, || format!("{t} positions differ, {i} masked out by the other mask"))?;
    }
    Ok(())
}

fn refused(rep: &Report) -> Result<(), String> {
    if MASK_THRESHOLD != 8960 || MATCH_THRESHOLD_RATIO != 0.34 {
        return Err(format!("limits are {MASK_THRESHOLD} and {MATCH_THRESHOLD_RATIO}"));
    }
    for w in [0, 1, 8958, 8959, 8960, 8961] {
        for split in 0..3 {
            let ma: Vec<bool> = (0..N).map(|i| i < w || split == 1 || (split == 2 && i % 2 == 0)).collect();
            let mb: Vec<bool> = (0..N).map(|i| i < w || split == 0 || (split == 2 && i % 2 == 1)).collect();
            let a = IrisCode { code: of(&pattern(6)), mask: of(&ma) };
            let b = IrisCode { code: of(&pattern(6)), mask: of(&mb) };
            let r = guard(|| a.is_close(&b));
            rep.add("states", 1);
            rep.add("transitions", 1);
            if r.is_ok() != (w >= 8960) {
                return Err(format!("combined mask of weight {w}: {r:?}"));
            }
        }
    }
    Ok(())
}

/// Generated irises: the bits come from the generator as they are, the similar one differs where
/// the generator says so.
fn generated(rep: &Report) -> Result<(), String> {
    for (p, f) in [(0u64, 0u8), (u64::MAX, 255)] {
        control::set_oracle(Some(Box::new(move |_, _, _| p)));
        let mut rng = ChaCha12Rng::from_seed([3; 32]);
        let a = IrisCodeArray::random_rng(&mut rng);
        control::set_oracle(None);
        if a.as_raw_slice().iter().any(|b| *b != f) {
            return Err(format!("random bits all {f}, but the code is not"));
        }
        rep.add("states", 1);
    }
    // a generator that flips exactly the k-th draw: exactly that position of the mask or the code
    let d = IrisCode::default();
    if d.code != IrisCodeArray::ZERO || d.mask != IrisCodeArray::ONES || IrisCodeArray::default() != IrisCodeArray::ZERO {
        return Err("the default iris is not the empty code with a full mask".into());
    }
    for k in [0usize, 1, 126, 127, 128, 129, 25598, 25599] {
        let n = std::rc::Rc::new(std::cell::Cell::new(0usize));
        let c = n.clone();
        control::set_oracle(Some(Box::new(move |_, _, _| {
            let i = c.get();
            c.set(i + 1);
            if i == k { 0 } else { u64::MAX }
        })));
        let mut rng = ChaCha12Rng::from_seed([3; 32]);
        let s = d.get_similar_iris(&mut rng);
        control::set_oracle(None);
        rep.add("states", 1);
        rep.add("transitions", n.get() as u64);
        let code = (0..N).filter(|i| s.code.get_bit(*i) != d.code.get_bit(*i)).collect::<Vec<_>>();
        let mask = (0..N).filter(|i| s.mask.get_bit(*i) != d.mask.get_bit(*i)).collect::<Vec<_>>();
        if code.len() + mask.len() != 1 {
            return Err(format!("one of the random draws says flip, {} code bits and {} mask bits flipped", code.len(), mask.len()));
        }
    }
    Ok(())
}

fn main() {
    let rep = Report::new("P17", "model_checking");
    let mut v: Vec<Job> = vec![];
    for p in 0..8 {
        v.push((format!("positions/{p}"), Box::new(move |r| positions(r, p))));
    }
    let depth = rep.pick(3, 5);
    for s in [0, 1, 6] {
        for f in 0..21 {
            v.push((format!("sequences/{s}/{f}"), Box::new(move |r| sequences(r, s, f, depth))));
        }
    }
    for p in 0..8 {
        for q in 0..8 {
            v.push((format!("operators/{p}/{q}"), Box::new(move |r| operators(r, p, q))));
        }
    }
    for b in 0..16 {
        v.push((format!("thresholds/{b}"), Box::new(move |r| thresholds(r, b, 16, &[0, 1, 2]))));
    }
    for b in 0..16 {
        v.push((format!("deciding/{b}"), Box::new(move |r| deciding(r, b, 16))));
    }
    v.push(("refused".into(), Box::new(refused)));
    v.push(("generated".into(), Box::new(generated)));
    run_jobs(rep, v);
    rep.note("rule", "one state = one bit array reached by an operation sequence, or one pair of irises compared in both directions; every bit position under every operation, every mask weight from the limit to all positions with distances around the threshold, every position as the deciding one");
    rep.finish_and_exit();
}
