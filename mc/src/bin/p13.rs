//! P13: the field of the proofs and the polynomials over the rings, against naive references.
use iris_mpc::mc_hooks::{gf, poly, IntRing2k, RingElement};
use iris_mpc::prelude::{Bit, RingImpl};
use mc::exec::guard;
use mc::report::*;

trait W: IntRing2k {
    const NAME: &'static str;
    fn of(x: u128) -> Self;
    fn u(self) -> u128;
}
macro_rules! w { ($($t:ty),*) => {$( impl W for $t {
    const NAME: &'static str = stringify!($t);
    fn of(x: u128) -> Self { x as $t }
    fn u(self) -> u128 { self as u128 }
} )*} }
w!(u8, u16, u32, u64, u128);
impl W for Bit {
    const NAME: &'static str = "Bit";
    fn of(x: u128) -> Self { Bit::new(x & 1 == 1) }
    fn u(self) -> u128 { self.convert() as u128 }
}
fn mask(k: usize) -> u128 {
    if k == 128 { u128::MAX } else { (1 << k) - 1 }
}
fn r<T: W>(v: &[u128]) -> Vec<RingElement<T>> {
    v.iter().map(|&x| RingElement(T::of(x))).collect()
}
fn u<T: W>(v: &[RingElement<T>]) -> Vec<u128> {
    v.iter().map(|x| x.0.u()).collect()
}
/// Without leading zeros: the polynomial itself.
fn trim(mut v: Vec<u128>) -> Vec<u128> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
// ---- the field: carry-less arithmetic modulo x^64 + x^4 + x^3 + x + 1
const RED: u64 = 0x1B;
fn gmul(a: u64, b: u64) -> u64 {
    let (mut a, mut r) = (a, 0u64);
    for i in 0..64 {
        if b >> i & 1 == 1 {
            r ^= a;
        }
        let top = a >> 63 == 1;
        a <<= 1;
        if top {
            a ^= RED;
        }
    }
    r
}
fn bits(n: usize, upto: usize) -> Vec<u64> {
    let mut v = vec![];
    for i in 0..n {
        v.push(1u64 << i);
        if upto > 1 {
            for j in 0..i {
                v.push(1 << i | 1 << j);
                if upto > 2 {
                    for k in 0..j {
                        v.push(1 << i | 1 << j | 1 << k);
                    }
                }
            }
        }
    }
    v
}
fn odd_ones() -> Vec<u64> {
    let mut v = vec![0, 1, u64::MAX, 0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA, 0x8000_0000_0000_001B, 0x0123_4567_89AB_CDEF, 0xFFFF_FFFF, 0xFFFF_FFFF_0000_0000, RED];
    v.extend((2..64).map(|x| x as u64));
    v.extend((0..64).map(|i| u64::MAX << i));
    v.extend((1..64).map(|i| u64::MAX >> i));
    v
}
fn all_eq(what: &str, got: &[u64], want: u64) -> Result<(), String> {
    if got.iter().all(|&x| x == want) { Ok(()) } else { Err(format!("{what}: forms give {got:x?}, should be {want:x}")) }
}
fn field_binary(rep: &Report, a: u64, b: u64) -> Result<(), String> {
    all_eq(&format!("{a:#x} * {b:#x}"), &gf::mul(a, b), gmul(a, b))?;
    all_eq(&format!("{a:#x} + {b:#x}"), &gf::add(a, b), a ^ b)?;
    all_eq(&format!("{a:#x} - {b:#x}"), &gf::sub(a, b), a ^ b)?;
    rep.add("states", 1);
    Ok(())
}
fn field_unary(rep: &Report, a: u64) -> Result<(), String> {
    all_eq(&format!("-{a:#x}"), &[gf::neg(a)], a)?;
    if gf::is_zero(a) != (a == 0) || gf::is_one(a) != (a == 1) {
        return Err(format!("{a:#x} is wrongly (not) recognised as zero or one"));
    }
    let (b, back) = gf::serde(a);
    if b.len() != 8 || back != a {
        return Err(format!("{a:#x} serializes to {b:?} and comes back as {back:#x}"));
    }
    if a != 0 {
        let i = guard(|| gf::inverse(a)).map_err(|p| format!("inverse of {a:#x} panics: {p}"))?;
        if gmul(a, i) != 1 {
            return Err(format!("inverse of {a:#x} is {i:#x}, the product is {:#x}", gmul(a, i)));
        }
    }
    rep.add("states", 1);
    Ok(())
}
/// Product and remainder over two elements' bits, on 128-bit words.
fn bmulmod(a: u128, b: u128, f: u128, d: u32) -> u128 {
    let (mut a, mut r) = (a, 0u128);
    for i in 0..d {
        if b >> i & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        if a >> d & 1 == 1 {
            a ^= f;
        }
    }
    r
}
fn bgcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        while a != 0 && a.leading_zeros() <= b.leading_zeros() {
            a ^= b << (b.leading_zeros() - a.leading_zeros());
        }
        (a, b) = (b, a);
    }
    a
}
/// Rabin's test.
fn irreducible(f: u128) -> bool {
    let d = 127 - f.leading_zeros();
    let frob = |n: u32| (0..n).fold(2u128, |x, _| bmulmod(x, x, f, d));
    let primes: Vec<u32> = (2..=d).filter(|p| d % p == 0 && (2..*p).all(|q| p % q != 0)).collect();
    frob(d) == 2 && primes.iter().all(|p| bgcd(f, frob(d / p) ^ 2) == 1)
}
fn field_constants(rep: &Report) -> Result<(), String> {
    let m = gf::modulus();
    let f = m.iter().enumerate().fold(0u128, |s, (i, &b)| s | (b as u128) << i);
    if f != 1 << 64 | RED as u128 || !irreducible(f) {
        return Err(format!("the reduction polynomial is {f:#x}"));
    }
    if gf::zero_one_default() != [0, 1, 0] || gf::lift(false) != 0 || gf::lift(true) != 1 {
        return Err("a constant of the field is wrong".into());
    }
    rep.add("states", 1);
    Ok(())
}
fn gpoly(p: &[u64], x: u64) -> u64 {
    p.iter().rev().fold(0, |s, &c| gmul(s, x) ^ c)
}
fn field_lagrange(rep: &Report, xs: &[u64]) -> Result<(), String> {
    let l = guard(|| gf::lagrange(xs)).map_err(|p| format!("lagrange at {xs:x?} panics: {p}"))?;
    if l.len() != xs.len() {
        return Err(format!("{} Lagrange polynomials for {} points", l.len(), xs.len()));
    }
    for (j, p) in l.iter().enumerate() {
        if p.iter().skip(xs.len()).any(|&c| c != 0) {
            return Err(format!("Lagrange polynomial {j} at {xs:x?} has too high a degree"));
        }
        for (i, &x) in xs.iter().enumerate() {
            let (want, got) = ((i == j) as u64, gpoly(p, x));
            let theirs = gf::evaluate(p, x);
            if got != want || theirs != want {
                return Err(format!("Lagrange polynomial {j} at {xs:x?} is {got:x} (evaluated by the code: {theirs:x}) at point {i}"));
            }
            rep.add("states", 1);
        }
    }
    // interpolation is linear: every unit vector, times several values, and all vectors over a small set for few points
    let vals = [1u64, 2, u64::MAX, 0x8000_0000_0000_0001];
    let mut ys: Vec<Vec<u64>> = vec![vec![0; xs.len()]];
    for i in 0..xs.len() {
        for v in vals {
            let mut y = vec![0; xs.len()];
            y[i] = v;
            ys.push(y);
        }
    }
    if xs.len() <= 4 {
        let set = [0, 1, 3, u64::MAX];
        for c in 0..set.len().pow(xs.len() as u32) {
            ys.push((0..xs.len()).map(|i| set[c / set.len().pow(i as u32) % set.len()]).collect());
        }
    }
    ys.push((0..xs.len()).map(|i| 0x9E37_79B9_7F4A_7C15u64.wrapping_mul(i as u64 + 1)).collect());
    for y in ys {
        let f = gf::interpolate(xs, &y);
        for (i, &x) in xs.iter().enumerate() {
            if gpoly(&f, x) != y[i] || gf::evaluate(&f, x) != y[i] {
                return Err(format!("interpolating {y:x?} at {xs:x?} gives {f:x?}, which is {:x} at point {i}", gpoly(&f, x)));
            }
        }
        rep.add("states", 1);
    }
    Ok(())
}
fn field_polys(rep: &Report) -> Result<(), String> {
    let set = [0u64, 1, 2, 0x8000_0000_0000_0000, u64::MAX];
    let ps = all_polys(&set, 3);
    for a in &ps {
        for x in [0, 1, 2, 3, u64::MAX, 1 << 63] {
            if gf::evaluate(a, x) != gpoly(a, x) {
                return Err(format!("{a:x?} evaluated at {x:x} gives {:x}", gf::evaluate(a, x)));
            }
        }
        for b in &ps {
            let mut want = vec![0u64; (a.len() + b.len()).max(1)];
            for (i, x) in a.iter().enumerate() {
                for (j, y) in b.iter().enumerate() {
                    want[i + j] ^= gmul(*x, *y);
                }
            }
            let got = gf::poly_mul(a, b);
            if trim(got.iter().map(|&x| x as u128).collect()) != trim(want.iter().map(|&x| x as u128).collect()) {
                return Err(format!("{a:x?} * {b:x?} over the field gives {got:x?}"));
            }
            rep.add("states", 1);
        }
    }
    Ok(())
}
// ---- polynomials over the rings
fn all_polys<X: Copy>(set: &[X], maxlen: usize) -> Vec<Vec<X>> {
    let mut v: Vec<Vec<X>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..maxlen {
        let to = v.len();
        for i in from..to {
            for &c in set {
                let mut p = v[i].clone();
                p.push(c);
                v.push(p);
            }
        }
        from = to;
    }
    v
}
fn padd(a: &[u128], b: &[u128], m: u128, neg: bool) -> Vec<u128> {
    (0..a.len().max(b.len()))
        .map(|i| {
            let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
            (if neg { x.wrapping_sub(y) } else { x.wrapping_add(y) }) & m
        })
        .collect()
}
fn pmul(a: &[u128], b: &[u128], m: u128) -> Vec<u128> {
    let mut v = vec![0u128; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            v[i + j] = v[i + j].wrapping_add(x.wrapping_mul(*y)) & m;
        }
    }
    trim(v)
}
/// Remainder by a polynomial with leading coefficient one.
fn pmod(a: &[u128], f: &[u128], m: u128) -> Vec<u128> {
    let mut a = a.to_vec();
    let d = f.len() - 1;
    while a.len() > d {
        let c = a.pop().unwrap();
        let s = a.len() - d;
        for i in 0..d {
            a[s + i] = a[s + i].wrapping_sub(c.wrapping_mul(f[i])) & m;
        }
    }
    trim(a)
}
fn set_of(k: usize) -> Vec<u128> {
    match k {
        1 => vec![0, 1],
        _ => vec![0, 1, 3, 1 << (k - 1), mask(k)],
    }
}
fn ring_unary<T: W>(rep: &Report, a: &[u128]) -> Result<(), String>
where
    RingElement<T>: RingImpl,
{
    let (m, n) = (mask(T::K), T::NAME);
    let p = r::<T>(a);
    let t = trim(a.to_vec());
    let deg = t.len().saturating_sub(1);
    if poly::degree(&p) != deg {
        return Err(format!("{n}: degree of {a:x?} is {}", poly::degree(&p)));
    }
    if !a.is_empty() && u(&[poly::leading(&p)])[0] != t.last().copied().unwrap_or(0) {
        return Err(format!("{n}: leading coefficient of {a:x?}"));
    }
    if trim(u(&poly::shrink(&p))) != t || poly::shrink(&p).len() != deg + 1 {
        return Err(format!("{n}: shrinking {a:x?} gives {:x?}", u(&poly::shrink(&p))));
    }
    if poly::is_zero(&p) != t.is_empty() {
        return Err(format!("{n}: is_zero of {a:x?} is {}", poly::is_zero(&p)));
    }
    if poly::is_one(&p) != (t == [1]) {
        return Err(format!("{n}: is_one of {a:x?} is {}", poly::is_one(&p)));
    }
    if trim(u(&poly::neg(&p))) != trim(padd(&[], a, m, true)) {
        return Err(format!("{n}: -{a:x?} gives {:x?}", u(&poly::neg(&p))));
    }
    for c in set_of(T::K) {
        let rc = RingElement(T::of(c));
        let forms = [(poly::add_const(&p, &rc), padd(a, &[c], m, false), "+"), (poly::sub_const(&p, &rc), padd(a, &[c], m, true), "-"), (poly::mul_const(&p, &rc), pmul(a, &[c], m), "*")];
        for (got, want, op) in forms {
            let want = trim(want);
            if got.len() != 4 || got.iter().any(|g| trim(u(g)) != want) {
                return Err(format!("{n}: {a:x?} {op} the constant {c:x} gives {:x?}", got.iter().map(|g| u(g)).collect::<Vec<_>>()));
            }
        }
        let want = a.iter().rev().fold(0u128, |s, x| s.wrapping_mul(c).wrapping_add(*x) & m);
        if poly::evaluate(&p, &rc).0.u() != want {
            return Err(format!("{n}: {a:x?} at {c:x} gives {:x}, should be {want:x}", poly::evaluate(&p, &rc).0.u()));
        }
    }
    rep.add("states", 1);
    Ok(())
}
fn ring_binary<T: W>(rep: &Report, a: &[u128], b: &[u128]) -> Result<(), String>
where
    RingElement<T>: RingImpl,
{
    let (m, n) = (mask(T::K), T::NAME);
    let (p, q) = (r::<T>(a), r::<T>(b));
    for (got, want, op) in [(poly::add(&p, &q), padd(a, b, m, false), "+"), (poly::sub(&p, &q), padd(a, b, m, true), "-"), (poly::mul(&p, &q), pmul(a, b, m), "*")] {
        let want = trim(want);
        if got.len() != 4 || got.iter().any(|g| trim(u(g)) != want) {
            return Err(format!("{n}: {a:x?} {op} {b:x?} gives {:x?}, should be {want:x?}", got.iter().map(|g| u(g)).collect::<Vec<_>>()));
        }
    }
    if poly::equal(&p, &q) != (trim(a.to_vec()) == trim(b.to_vec())) {
        return Err(format!("{n}: {a:x?} == {b:x?} is {}", poly::equal(&p, &q)));
    }
    // division by a divisor stored without leading zeros whose leading coefficient is a unit
    if T::K <= 64 && b.last().is_some_and(|l| l & 1 == 1) {
        let (quo, rem) = guard(|| poly::divide(&p, &q)).map_err(|e| format!("{n}: {a:x?} divided by {b:x?} panics: {e}"))?.map_err(|e| format!("{n}: {a:x?} divided by {b:x?}: {e:?}"))?;
        let (quo, rem) = (trim(u(&quo)), trim(u(&rem)));
        if rem.len() >= b.len() || trim(padd(&pmul(&quo, b, m), &rem, m, false)) != trim(a.to_vec()) {
            return Err(format!("{n}: {a:x?} divided by {b:x?} gives {quo:x?} remainder {rem:x?}"));
        }
        for g in guard(|| poly::rem(&p, &q)).map_err(|e| format!("{n}: {a:x?} % {b:x?} panics: {e}"))? {
            if trim(u(&g)) != rem {
                return Err(format!("{n}: {a:x?} % {b:x?} gives {:x?}, the division {rem:x?}", u(&g)));
            }
        }
        rep.add("divisions", 1);
    }
    rep.add("states", 1);
    Ok(())
}
fn modulus<T: W>(d: usize) -> Vec<u128>
where
    RingElement<T>: RingImpl,
{
    u(&poly::modulus::<RingElement<T>>(d))
}
fn check_modulus<T: W>(rep: &Report, d: usize) -> Result<(), String>
where
    RingElement<T>: RingImpl,
{
    let f = guard(|| modulus::<T>(d)).map_err(|e| format!("{}: no modulus of degree {d}: {e}", T::NAME))?;
    let w = f.iter().enumerate().fold(0u128, |s, (i, c)| s | (c & 1) << i);
    if f.len() != d + 1 || f.iter().any(|c| *c > 1) || w >> d != 1 || !irreducible(w) {
        return Err(format!("{}: the modulus of degree {d} is {f:x?}, which is not an irreducible polynomial of that degree", T::NAME));
    }
    rep.add("states", 1);
    Ok(())
}
/// Elements whose reduction modulo two is not zero: what the differences of points look like, and more.
fn elements(d: usize, k: usize, small: usize) -> Vec<Vec<u128>> {
    let m = mask(k);
    let mut v: Vec<Vec<u128>> = all_polys(&[0, 1, m], small);
    for i in 0..d {
        let mut e = vec![0u128; i + 1];
        e[i] = 1;
        v.push(e.clone());
        e[i] = m;
        e[0] = 3 & m;
        v.push(e.clone());
        for x in e.iter_mut() {
            *x = m;
        }
        v.push(e.clone());
        e[i] = m & !1;
        v.push(e);
    }
    v.retain(|e| e.iter().any(|c| c & 1 == 1));
    v
}
fn inverses<T: W>(rep: &Report, d: usize) -> Result<(), String>
where
    RingElement<T>: RingImpl,
{
    let m = mask(T::K);
    let f = modulus::<T>(d);
    for a in elements(d, T::K, rep.pick(4, 6)) {
        let i = guard(|| poly::mod_inverse(&r::<T>(&a), &r::<T>(&f))).map_err(|e| format!("{}: inverse of {a:x?} modulo degree {d} panics: {e}", T::NAME))?;
        let i = u(&i);
        if pmod(&pmul(&a, &i, m), &f, m) != [1] {
            return Err(format!("{}: inverse of {a:x?} modulo degree {d} is {i:x?}", T::NAME));
        }
        rep.add("states", 1);
    }
    Ok(())
}
fn points<T: W>(n: usize) -> Vec<Vec<u128>> {
    (0..n).map(|x| (0..8).map(|i| (x as u128 >> i) & 1).collect::<Vec<_>>()).map(|v| { let t = trim(v); if t.is_empty() { vec![0] } else { t } }).collect()
}
fn ring_lagrange<T: W>(rep: &Report, d: usize, xs: &[Vec<u128>]) -> Result<(), String>
where
    RingElement<T>: RingImpl,
{
    let (m, n) = (mask(T::K), T::NAME);
    let f = modulus::<T>(d);
    let rf = r::<T>(&f);
    let rx: Vec<_> = xs.iter().map(|x| r::<T>(x)).collect();
    let l = guard(|| poly::lagrange(&rx, &rf)).map_err(|e| format!("{n}: Lagrange polynomials at {xs:x?} modulo degree {d} panic: {e}"))?;
    if l.len() != xs.len() {
        return Err(format!("{n}: {} Lagrange polynomials for {} points", l.len(), xs.len()));
    }
    let horner = |p: &[Vec<u128>], x: &[u128]| p.iter().rev().fold(vec![], |s: Vec<u128>, c| pmod(&padd(&pmul(&s, x, m), c, m, false), &f, m));
    for (j, p) in l.iter().enumerate() {
        let p: Vec<Vec<u128>> = p.iter().map(|c| trim(u(c))).collect();
        if p.iter().any(|c| c.len() > d) || p.iter().skip(xs.len()).any(|c| !c.is_empty()) {
            return Err(format!("{n}: Lagrange polynomial {j} of {} points modulo degree {d} is not reduced or of too high a degree", xs.len()));
        }
        for (i, x) in xs.iter().enumerate() {
            let want: Vec<u128> = if i == j { vec![1] } else { vec![] };
            let got = horner(&p, x);
            if got != want {
                return Err(format!("{n}: Lagrange polynomial {j} of {} points modulo degree {d} is {got:x?} at point {i}", xs.len()));
            }
            rep.add("states", 1);
        }
    }
    let vals: Vec<Vec<u128>> = vec![vec![1], vec![m], { let mut v = vec![0; d]; v[d - 1] = m; v }, (0..d).map(|i| (i as u128 * 0x9E37_79B9) & m).collect()];
    let mut ys: Vec<Vec<Vec<u128>>> = vec![];
    for i in 0..xs.len() {
        for v in &vals {
            let mut y = vec![vec![0]; xs.len()];
            y[i] = v.clone();
            ys.push(y);
        }
    }
    if xs.len() <= 3 {
        for c in 0..vals.len().pow(xs.len() as u32) {
            ys.push((0..xs.len()).map(|i| vals[c / vals.len().pow(i as u32) % vals.len()].clone()).collect());
        }
    }
    for y in ys {
        let ry: Vec<_> = y.iter().map(|x| r::<T>(x)).collect();
        let back = guard(|| poly::interpolate(&rx, &ry, &rf)).map_err(|e| format!("{n}: interpolation panics: {e}"))?;
        for (i, b) in back.iter().enumerate() {
            if trim(u(b)) != trim(y[i].clone()) {
                return Err(format!("{n}: interpolating {y:x?} modulo degree {d} gives {:x?} at point {i}", u(b)));
            }
        }
        rep.add("states", 1);
    }
    Ok(())
}
fn ring_jobs<T: W>(rep: &'static Report, v: &mut Vec<Job>)
where
    RingElement<T>: RingImpl,
{
    let n = T::NAME;
    let polys = all_polys(&set_of(T::K), if T::K == 1 { rep.pick(6, 8) } else { rep.pick(3, 4) });
    let (zero, one, lift) = ([0u128; 0], [1u128], [mask(T::K)]);
    v.push((format!("{n}/constants"), Box::new(move |_| {
        let c = poly::constants(RingElement(T::of(lift[0])));
        for (got, want) in c.iter().zip([&zero[..], &one[..], &lift[..]]) {
            if trim(u(got)) != want {
                return Err(format!("{n}: constants are {:x?}", c.iter().map(|x| u(x)).collect::<Vec<_>>()));
            }
        }
        Ok(())
    })));
    let q = polys.clone();
    v.push((format!("{n}/unary"), Box::new(move |r| q.iter().try_for_each(|a| ring_unary::<T>(r, a)))));
    for (i, c) in polys.chunks(polys.len().div_ceil(8)).enumerate() {
        let (c, q) = (c.to_vec(), polys.clone());
        v.push((format!("{n}/binary/{i}"), Box::new(move |r| c.iter().try_for_each(|a| q.iter().try_for_each(|b| ring_binary::<T>(r, a, b))))));
    }
    // long dividends
    v.push((format!("{n}/long"), Box::new(move |r| {
        let m = mask(T::K);
        for la in [7usize, 13, 40, 80, 126] {
            let a: Vec<u128> = (0..la).map(|i| (i as u128 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_0C63_DEAD_BEEF) & m).collect();
            for lb in [1usize, 2, 5, 8, 41, 64, 65] {
                let mut b: Vec<u128> = (0..lb).map(|i| (i as u128 + 7).wrapping_mul(0x0123_4567_89AB_CDEF_0F1E_2D3C_4B5A_6979) & m).collect();
                b[lb - 1] |= 1;
                ring_binary::<T>(r, &a, &b)?;
            }
        }
        Ok(())
    })));
    for d in 40..=63 {
        v.push((format!("{n}/modulus/{d}"), Box::new(move |r| check_modulus::<T>(r, d))));
    }
}
fn extension_jobs<T: W>(rep: &'static Report, v: &mut Vec<Job>)
where
    RingElement<T>: RingImpl,
{
    let n = T::NAME;
    for d in 40..=63usize {
        v.push((format!("{n}/inverse/{d}"), Box::new(move |r| inverses::<T>(r, d))));
        for k in 1..=rep.pick(5, 9) {
            v.push((format!("{n}/interpolate/{d}/{k}"), Box::new(move |r| ring_lagrange::<T>(r, d, &points::<T>(k)))));
        }
    }
    // the number of points a proof of a large batch uses
    for k in rep.pick(vec![9, 16], vec![12, 16, 17, 24, 33]) {
        v.push((format!("{n}/interpolate/47/{k}"), Box::new(move |r| ring_lagrange::<T>(r, 47, &points::<T>(k)))));
    }
}
fn main() {
    let rep = Report::new("P13", "model_checking");
    let mut v: Vec<Job> = vec![("field/constants".into(), Box::new(field_constants)), ("field/polynomials".into(), Box::new(field_polys))];
    let mut left = bits(64, 2);
    left.extend(odd_ones());
    let right = left.clone();
    for (i, c) in left.chunks(left.len().div_ceil(16)).enumerate() {
        let (c, right) = (c.to_vec(), right.clone());
        v.push((format!("field/binary/{i}"), Box::new(move |r| c.iter().try_for_each(|&a| right.iter().try_for_each(|&b| field_binary(r, a, b))))));
    }
    let mut un = bits(64, 3);
    un.extend(odd_ones());
    for (i, c) in un.chunks(un.len().div_ceil(16)).enumerate() {
        let c = c.to_vec();
        v.push((format!("field/unary/{i}"), Box::new(move |r| c.iter().try_for_each(|&a| field_unary(r, a)))));
    }
    for n in 1..=rep.pick(20, 64) {
        v.push((format!("field/lagrange/0..{n}"), Box::new(move |r| field_lagrange(r, &(0..n as u64).collect::<Vec<_>>()))));
    }
    let set = [0, 1, 2, 0x1B, 1 << 63, u64::MAX];
    v.push(("field/lagrange/sets".into(), Box::new(move |r| {
        for c in 1u32..1 << set.len() {
            let xs: Vec<u64> = (0..set.len()).filter(|i| c >> i & 1 == 1).map(|i| set[i]).collect();
            field_lagrange(r, &xs)?;
            field_lagrange(r, &xs.iter().rev().copied().collect::<Vec<_>>())?;
        }
        Ok(())
    })));
    ring_jobs::<Bit>(rep, &mut v);
    ring_jobs::<u8>(rep, &mut v);
    ring_jobs::<u16>(rep, &mut v);
    ring_jobs::<u32>(rep, &mut v);
    ring_jobs::<u64>(rep, &mut v);
    ring_jobs::<u128>(rep, &mut v);
    extension_jobs::<u8>(rep, &mut v);
    extension_jobs::<u16>(rep, &mut v);
    extension_jobs::<u32>(rep, &mut v);
    run_jobs(rep, v);
    rep.note("rule", "one state = one pair of operands, inverse, Lagrange polynomial at a point, or interpolated vector; field: all pairs of one- and two-bit elements and boundary elements, inverses of all one- to three-bit elements, interpolation at 0..n and at all subsets of boundary points; rings: all pairs of polynomials up to the stated length over {0, 1, 3, 2^(k-1), -1}, inverses and interpolation modulo every modulus of degree 40 to 63, each of which is also tested for irreducibility; references: shift-and-add carry-less product, schoolbook polynomial arithmetic, Rabin's test");
    rep.assume("division is checked for divisors stored without leading zero coefficients and with a unit leading coefficient, up to 64-bit rings; inverses modulo a polynomial for rings below 64 bits");
    rep.finish_and_exit();
}
