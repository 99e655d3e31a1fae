//! P12: every operator of the rings, in every form, against arithmetic on 128-bit integers.
use iris_mpc::mc_hooks::{IntRing2k, RingElement};
use iris_mpc::prelude::{Bit, RingImpl, Sharable};
use mc::exec::guard;
use mc::protos::boundary;
use mc::report::*;
use num_traits::{One, Zero};

/// A ring element as a pattern of K bits, and back.
trait W: IntRing2k {
    const NAME: &'static str;
    fn of(x: u128) -> Self;
    fn u(self) -> u128;
}
macro_rules! w { ($($t:ty),*) => {$( impl W for $t {
    const NAME: &'static str = stringify!($t);
    fn of(x: u128) -> Self { x as $t }
    fn u(self) -> u128 { self as u128 }
} )*} }
w!(u8, u16, u32, u64, u128);
impl W for Bit {
    const NAME: &'static str = "Bit";
    fn of(x: u128) -> Self { Bit::new(x & 1 == 1) }
    fn u(self) -> u128 { self.convert() as u128 }
}
fn mask(k: usize) -> u128 {
    if k == 128 { u128::MAX } else { (1 << k) - 1 }
}

fn eq(what: &str, ty: &str, args: &[u128], got: u128, want: u128) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{ty}: {what} of {args:x?} is {got:x}, should be {want:x}")) }
}

/// Both the plain integer and the ring element around it.
fn binary<T: W>(rep: &Report, a: u128, b: u128) -> Result<(), String> {
    let m = mask(T::K);
    let (x, y) = (T::of(a), T::of(b));
    let (p, q) = (RingElement(x), RingElement(y));
    let c = |what: &str, got: u128, want: u128| eq(what, T::NAME, &[a, b], got, want);
    let add = a.wrapping_add(b) & m;
    let sub = a.wrapping_sub(b) & m;
    let mul = a.wrapping_mul(b) & m;
    macro_rules! assign { ($op:tt, $rhs:expr) => {{ let mut z = p.clone(); z $op $rhs; z.0.u() }} }
    macro_rules! in_place { ($f:ident) => {{ let mut z = x; z.$f(&y); z.u() }} }
    c("a + b", (p.clone() + q.clone()).0.u(), add)?;
    c("a + &b", (p.clone() + &q).0.u(), add)?;
    c("a += b", assign!(+=, q.clone()), add)?;
    c("a += &b", assign!(+=, &q), add)?;
    c("wrapping_add", x.wrapping_add(&y).u(), add)?;
    c("wrapping_add_assign", in_place!(wrapping_add_assign), add)?;
    c("a - b", (p.clone() - q.clone()).0.u(), sub)?;
    c("a - &b", (p.clone() - &q).0.u(), sub)?;
    c("a -= b", assign!(-=, q.clone()), sub)?;
    c("a -= &b", assign!(-=, &q), sub)?;
    c("wrapping_sub", x.wrapping_sub(&y).u(), sub)?;
    c("wrapping_sub_assign", in_place!(wrapping_sub_assign), sub)?;
    c("a * b", (p.clone() * q.clone()).0.u(), mul)?;
    c("a * &b", (p.clone() * &q).0.u(), mul)?;
    c("a *= b", assign!(*=, q.clone()), mul)?;
    c("a *= &b", assign!(*=, &q), mul)?;
    c("a * plain", (p.clone() * y).0.u(), mul)?;
    c("a * &plain", (p.clone() * &y).0.u(), mul)?;
    c("a *= plain", assign!(*=, y), mul)?;
    c("a *= &plain", assign!(*=, &y), mul)?;
    c("wrapping_mul", x.wrapping_mul(&y).u(), mul)?;
    c("wrapping_mul_assign", in_place!(wrapping_mul_assign), mul)?;
    c("a ^ b", (p.clone() ^ q.clone()).0.u(), a ^ b)?;
    c("a ^ &b", (p.clone() ^ &q).0.u(), a ^ b)?;
    c("a ^= b", assign!(^=, q.clone()), a ^ b)?;
    c("a ^= &b", assign!(^=, &q), a ^ b)?;
    c("a & b", (p.clone() & q.clone()).0.u(), a & b)?;
    c("a & &b", (p.clone() & &q).0.u(), a & b)?;
    c("a &= b", assign!(&=, q.clone()), a & b)?;
    c("a &= &b", assign!(&=, &q), a & b)?;
    c("a | b", (p.clone() | q.clone()).0.u(), a | b)?;
    c("a | &b", (p.clone() | &q).0.u(), a | b)?;
    c("a |= b", assign!(|=, q.clone()), a | b)?;
    c("a |= &b", assign!(|=, &q), a | b)?;
    c("plain ^", (x ^ y).u(), a ^ b)?;
    c("plain &", (x & y).u(), a & b)?;
    c("plain |", (x | y).u(), a | b)?;
    c("a == b", (p == q) as u128, (a == b) as u128)?;
    c("a < b", (p < q) as u128, (a < b) as u128)?;
    rep.add("states", 1);
    rep.add("transitions", 38);
    Ok(())
}

fn unary<T: W>(rep: &Report, a: u128) -> Result<(), String>
where
    RingElement<T>: RingImpl,
{
    let k = T::K;
    let m = mask(k);
    let x = T::of(a);
    let p = RingElement(x);
    let c = |what: &str, got: u128, want: u128| eq(what, T::NAME, &[a], got, want);
    c("value", p.0.u(), a)?;
    c("-a", (-p.clone()).0.u(), 0u128.wrapping_sub(a) & m)?;
    c("wrapping_neg", x.wrapping_neg().u(), 0u128.wrapping_sub(a) & m)?;
    let mut z = x;
    z.wrapping_neg_inplace();
    c("wrapping_neg_inplace", z.u(), 0u128.wrapping_sub(a) & m)?;
    c("!a", (!p.clone()).0.u(), !a & m)?;
    c("sign", p.get_msb().0.convert() as u128, a >> (k - 1) & 1)?;
    let bits = p.to_bits();
    if bits.len() != k {
        return Err(format!("{}: {} bits of {a:x}", T::NAME, bits.len()));
    }
    for i in 0..k {
        c(&format!("bit {i}"), p.get_bit(i).0.u(), a >> i & 1)?;
        c(&format!("bit {i} of to_bits"), bits[i].0.convert() as u128, a >> i & 1)?;
    }
    c("from_bits(to_bits)", RingElement::<T>::from_bits(&bits).map_err(|e| format!("{e:?}"))?.0.u(), a)?;
    if k > 1 {
        for wrong in [0, k - 1, k + 1] {
            let b: Vec<_> = (0..wrong).map(|i| bits[i % k].clone()).collect();
            match guard(|| RingElement::<T>::from_bits(&b)) {
                Ok(Err(_)) => {}
                r => return Err(format!("{}: from_bits of {wrong} bits: {r:?}", T::NAME)),
            }
        }
    }
    for s in 0..k as u32 {
        let (l, r) = (a << s & m, a >> s);
        let e = |what: &str, got: u128, want: u128| eq(&format!("{what} {s}"), T::NAME, &[a], got, want);
        e("a <<", (p.clone() << s).0.u(), l)?;
        e("a >>", (p.clone() >> s).0.u(), r)?;
        let mut z = p.clone();
        z <<= s;
        e("a <<=", z.0.u(), l)?;
        let mut z = p.clone();
        z >>= s;
        e("a >>=", z.0.u(), r)?;
        e("wrapping_shl", x.wrapping_shl(s).u(), l)?;
        e("wrapping_shr", x.wrapping_shr(s).u(), r)?;
        let mut z = x;
        z.wrapping_shl_assign(s);
        e("wrapping_shl_assign", z.u(), l)?;
        let mut z = x;
        z.wrapping_shr_assign(s);
        e("wrapping_shr_assign", z.u(), r)?;
    }
    c("is_zero", p.is_zero() as u128, (a == 0) as u128)?;
    c("is_one", p.is_one() as u128, (a == 1) as u128)?;
    c("widened", p.clone().upgrade_to_128().0, a)?;
    c("widened plain", x.upgrade_to_128(), a)?;
    c("display", p.to_string().parse::<u128>().map_err(|e| e.to_string())?, a)?;
    // inverse of odd values (128-bit inverses are not offered by the library)
    if k <= 64 {
        match guard(|| p.inverse()) {
            Ok(Ok(i)) if a & 1 == 1 => c("a * inverse", a.wrapping_mul(i.0.u()) & m, 1)?,
            Ok(Err(_)) if a & 1 == 0 => {}
            r => return Err(format!("{}: inverse of {a:x}: {r:?}", T::NAME)),
        }
    }
    rep.add("states", 1);
    rep.add("transitions", 20 + 8 * k as u64);
    Ok(())
}

fn constants<T: W>(rep: &Report) -> Result<(), String>
where
    RingElement<T>: RingImpl,
{
    let c = |what: &str, got: u128, want: u128| eq(what, T::NAME, &[], got, want);
    c("zero", RingElement::<T>::zero().0.u(), 0)?;
    c("one", RingElement::<T>::one().0.u(), 1)?;
    c("default", RingElement::<T>::default().0.u(), 0)?;
    c("plain zero", T::zero().u(), 0)?;
    c("plain one", T::one().u(), 1)?;
    c("from false", RingElement::<T>::from(false).0.u(), 0)?;
    c("from true", RingElement::<T>::from(true).0.u(), 1)?;
    // conversions of whole sequences, of every length
    for n in 0..70usize {
        let v: Vec<T> = (0..n).map(|i| T::of((i as u128).wrapping_mul(0x9E3779B97F4A7C15_F39CC0605CEDC835))).collect();
        let r = RingElement::convert_vec_rev(v.clone());
        let ok = r.len() == n
            && (0..n).all(|i| r[i].0 == v[i])
            && RingElement::convert_slice(&r) == &v[..]
            && RingElement::convert_slice_rev(&v) == &r[..]
            && RingElement::convert_vec(r.clone()) == v
            && r.iter().cloned().map(|x| x.convert()).eq(v.iter().copied());
        if !ok {
            return Err(format!("{}: conversion of a sequence of {n} elements", T::NAME));
        }
    }
    rep.add("states", 1);
    Ok(())
}

/// Plain shared types: conversions into the ring and the wider verification ring and back.
trait S: Sharable + num_traits::PrimInt {
    const NAME: &'static str;
    const K: usize;
    const SIGNED: bool;
    type R: W;
    fn of_bits(x: u128) -> Self;
    fn as_bits(self) -> u128;
    fn ring(x: Self::Share) -> Self::R;
    fn unring(x: Self::R) -> Self::Share;
    fn ver(x: Self::VerificationShare) -> u128;
    fn unver(x: u128) -> Self::VerificationShare;
    fn ver_ring(x: <Self::VerificationShare as Sharable>::Share) -> u128;
    fn unver_ring(x: u128) -> <Self::VerificationShare as Sharable>::Share;
}
macro_rules! s { ($($t:ty, $u:ty, $v:ty, $s:expr);*) => {$( impl S for $t {
    const NAME: &'static str = stringify!($t);
    const K: usize = <$t>::BITS as usize;
    const SIGNED: bool = $s;
    type R = $u;
    fn of_bits(x: u128) -> Self { x as $t }
    fn as_bits(self) -> u128 { self as $u as u128 }
    fn ring(x: Self::Share) -> $u { x.0 }
    fn unring(x: $u) -> Self::Share { RingElement(x) }
    fn ver(x: Self::VerificationShare) -> u128 { x as u128 }
    fn unver(x: u128) -> Self::VerificationShare { x as $v }
    fn ver_ring(x: <Self::VerificationShare as Sharable>::Share) -> u128 { x.0 as u128 }
    fn unver_ring(x: u128) -> <Self::VerificationShare as Sharable>::Share { RingElement(x as $v) }
} )*} }
s!(u8, u8, u64, false; u16, u16, u64, false; u32, u32, u64, false; u64, u64, u128, false; u128, u128, u128, false;
   i8, u8, u64, true; i16, u16, u64, true; i32, u32, u64, true; i64, u64, u128, true; i128, u128, u128, true);

fn plain<T: S>(rep: &Report, a: u128) -> Result<(), String> {
    let m = mask(T::K);
    let x = T::of_bits(a);
    let c = |what: &str, got: u128, want: u128| eq(what, T::NAME, &[a], got, want);
    c("to_sharetype", T::ring(x.to_sharetype()).u(), a)?;
    c("from_sharetype", T::from_sharetype(T::unring(T::R::of(a))).as_bits(), a)?;
    // Widening: any value congruent modulo 2^K will do for arithmetic; it must come back.
    c("widened share modulo 2^k", T::ver_ring(T::to_verificationtype(T::unring(T::R::of(a)))) & m, a)?;
    c("widened modulo 2^k", T::ver(x.to_verificationshare()) & m, a)?;
    for hi in [0u128, 1, 0x5555_5555_5555_5555_5555, u128::MAX] {
        let wide = if T::K == 128 { a } else { a | hi << T::K };
        c("narrowed share", T::ring(T::from_verificationtype(T::unver_ring(wide))).u(), a)?;
        c("narrowed", T::from_verificationshare(T::unver(wide)).as_bits(), a)?;
    }
    // arithmetic shift keeps the sign of signed types
    for s in 0..T::K as u32 {
        let sign = T::SIGNED && a >> (T::K - 1) & 1 == 1;
        let want = if sign { (a >> s) | (m & !(m >> s)) } else { a >> s };
        c(&format!("arithmetic shift by {s}"), T::ring(T::arithmetic_shr(T::unring(T::R::of(a)), s)).u(), want)?;
    }
    rep.add("states", 1);
    rep.add("transitions", 12 + T::K as u64);
    Ok(())
}
fn plain_seqs<T: S>(rep: &Report) -> Result<(), String>
where
    T::Share: Clone + PartialEq,
{
    for n in 0..70usize {
        let v: Vec<T> = (0..n).map(|i| T::of_bits((i as u128).wrapping_mul(0x9E3779B97F4A7C15_F39CC0605CEDC835))).collect();
        let s: Vec<T::Share> = v.iter().map(|x| x.to_sharetype()).collect();
        if T::slice_to_sharetype(&v) != &s[..] || T::slice_from_sharetype(&s) != &v[..] || T::vec_to_sharetype(v.clone()) != s || T::vec_from_sharetype(s.clone()) != v {
            return Err(format!("{}: conversion of a sequence of {n} values", T::NAME));
        }
        rep.add("states", 1);
    }
    Ok(())
}

/// Products and conjunctions of ring elements with plain signed values.
macro_rules! mixed { ($f:ident, $s:ty, $u:ty) => {
    fn $f(rep: &Report, a: u128, b: u128) -> Result<(), String> {
        let (x, y) = (RingElement(a as $u), b as $s);
        let m = mask(<$u>::BITS as usize);
        let (mul, and) = (a.wrapping_mul(b) & m, a & b & m);
        let c = |what: &str, got: u128, want: u128| eq(what, concat!(stringify!($u), " with ", stringify!($s)), &[a, b], got, want);
        c("ring * signed", (x.clone() * y).0 as u128, mul)?;
        c("ring * &signed", (x.clone() * &y).0 as u128, mul)?;
        c("signed * ring", (y * x.clone()) as $u as u128, mul)?;
        c("plain * ring", (b as $u) .mul_ring(x.clone()) as u128, mul)?;
        let mut z = x.clone(); z *= y; c("ring *= signed", z.0 as u128, mul)?;
        let mut z = x.clone(); z *= &y; c("ring *= &signed", z.0 as u128, mul)?;
        c("ring & signed", (x.clone() & y).0 as u128, and)?;
        c("ring & &signed", (x.clone() & &y).0 as u128, and)?;
        c("signed & ring", (y & x.clone()) as $u as u128, and)?;
        c("plain & ring", (b as $u & x.clone()) as u128, and)?;
        let mut z = x.clone(); z &= y; c("ring &= signed", z.0 as u128, and)?;
        let mut z = x.clone(); z &= &y; c("ring &= &signed", z.0 as u128, and)?;
        rep.add("states", 1);
        rep.add("transitions", 12);
        Ok(())
    }
} }
trait MulRing: Sized + std::ops::Mul<RingElement<Self>, Output = Self> + IntRing2k {
    fn mul_ring(self, r: RingElement<Self>) -> Self { self * r }
}
impl<T: std::ops::Mul<RingElement<T>, Output = T> + IntRing2k> MulRing for T {}
mixed!(mixed8, i8, u8);
mixed!(mixed16, i16, u16);
mixed!(mixed32, i32, u32);
mixed!(mixed64, i64, u64);
mixed!(mixed128, i128, u128);

fn bit_only(rep: &Report) -> Result<(), String> {
    for a in [false, true] {
        for b in [false, true] {
            let (x, y) = (Bit::new(a), Bit::new(b));
            let mut t = vec![
                ("a + b", x + y, a ^ b), ("a + &b", x + &y, a ^ b), ("a - b", x - y, a ^ b), ("a - &b", x - &y, a ^ b),
                ("a * b", x * y, a & b), ("a * &b", x * &y, a & b), ("a ^ &b", x ^ &y, a ^ b), ("a & &b", x & &y, a & b), ("a | &b", x | &y, a | b),
                ("-a", -x, a), ("!a", !x, !a),
            ];
            let mut z = x; z ^= &y; t.push(("a ^= &b", z, a ^ b));
            let mut z = x; z &= &y; t.push(("a &= &b", z, a & b));
            let mut z = x; z |= &y; t.push(("a |= &b", z, a | b));
            let mut z = x; z ^= y; t.push(("a ^= b", z, a ^ b));
            let mut z = x; z &= y; t.push(("a &= b", z, a & b));
            let mut z = x; z |= y; t.push(("a |= b", z, a | b));
            for (w, g, want) in t {
                if g.convert() != want {
                    return Err(format!("Bit: {w} of {a}, {b} is {g}"));
                }
                rep.add("transitions", 1);
            }
        }
        if u8::from(Bit::new(a)) != a as u8 || bool::from(Bit::new(a)) != a || Bit::from(a).convert() != a || Bit::new(a).to_string() != (a as u8).to_string() {
            return Err(format!("Bit: conversion of {a}"));
        }
        let x = Bit::new(a);
        if x.to_sharetype().0 != x || Bit::from_sharetype(RingElement(x)) != x || x.to_verificationshare() & 1 != a as u64 || Bit::to_verificationtype(RingElement(x)).0 & 1 != a as u64 {
            return Err(format!("Bit: conversion of {a} to a share type"));
        }
        for hi in [0u64, 2, 4, 0x8000_0000_0000_0000, u64::MAX - 1] {
            if Bit::from_verificationshare(a as u64 | hi).convert() != a || Bit::from_verificationtype(RingElement(a as u64 | hi)).0.convert() != a {
                return Err(format!("Bit: narrowing of {a} with upper bits {hi:x}"));
            }
        }
        rep.add("states", 1);
    }
    for v in 0..=255u8 {
        if Bit::try_from(v).ok().map(|b| b.convert()) != [Some(false), Some(true), None][v.min(2) as usize] || Bit::try_from(v as usize).is_ok() != (v < 2) {
            return Err(format!("Bit: conversion of the byte {v}"));
        }
    }
    for n in 0..70usize {
        let v: Vec<bool> = (0..n).map(|i| (i * 7 + i / 3) % 3 == 1).collect();
        let b = Bit::convert_vec_rev(v.clone());
        if b.iter().map(|x| x.convert()).ne(v.iter().copied()) || Bit::convert_slice(&b) != &v[..] || Bit::convert_slice_rev(&v) != &b[..] || Bit::convert_vec(b.clone()) != v {
            return Err(format!("Bit: conversion of a sequence of {n}"));
        }
        if Bit::slice_to_sharetype(&b).iter().map(|x| x.0).ne(b.iter().copied()) || Bit::vec_to_sharetype(b.clone()) != Bit::slice_to_sharetype(&b) {
            return Err(format!("Bit: conversion of a sequence of {n} to shares"));
        }
    }
    Ok(())
}

/// Values of a width: all up to 16 bits where asked, else the boundary set widened by every power of
/// two and its neighbours.
fn values(k: usize, all: bool) -> Vec<u128> {
    if all && k <= 16 {
        return (0..1u128 << k).collect();
    }
    if k == 1 {
        return vec![0, 1];
    }
    let m = mask(k);
    let mut v = boundary(k);
    for i in 0..k {
        let p = 1u128 << i;
        v.extend([p, p.wrapping_sub(1) & m, (p + 1) & m, !p & m, 0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210u128.rotate_left(i as u32) & m]);
    }
    v.sort();
    v.dedup();
    v
}

fn ring_jobs<T: W>(rep: &'static Report, v: &mut Vec<Job>)
where
    RingElement<T>: RingImpl,
{
    let th = rep.thorough();
    v.push((format!("{}/constants", T::NAME), Box::new(constants::<T>)));
    v.push((format!("{}/unary", T::NAME), Box::new(|r| values(T::K, true).into_iter().try_for_each(|a| unary::<T>(r, a)))));
    let mut left = values(T::K, true);
    if th && T::K > 16 {
        for i in 0..T::K {
            for j in 0..i {
                left.push(1 << i | 1 << j);
                left.push(((1u128 << i) - (1 << j)) & mask(T::K));
            }
        }
    }
    for (i, c) in left.chunks(left.len().div_ceil(8).max(1)).enumerate() {
        let c = c.to_vec();
        v.push((format!("{}/binary/{i}", T::NAME), Box::new(move |r| {
            let right = values(T::K, T::K == 8);
            c.iter().try_for_each(|a| right.iter().try_for_each(|b| binary::<T>(r, *a, *b)))
        })));
    }
}
fn plain_jobs<T: S>(_rep: &'static Report, v: &mut Vec<Job>)
where
    T::Share: Clone + PartialEq,
{
    v.push((format!("{}/plain", <T as S>::NAME), Box::new(|r| values(<T as S>::K, true).into_iter().try_for_each(|a| plain::<T>(r, a)))));
    v.push((format!("{}/plain-sequences", <T as S>::NAME), Box::new(plain_seqs::<T>)));
}

fn main() {
    let rep = Report::new("P12", "model_checking");
    let mut v: Vec<Job> = vec![];
    ring_jobs::<Bit>(rep, &mut v);
    ring_jobs::<u8>(rep, &mut v);
    ring_jobs::<u16>(rep, &mut v);
    ring_jobs::<u32>(rep, &mut v);
    ring_jobs::<u64>(rep, &mut v);
    ring_jobs::<u128>(rep, &mut v);
    plain_jobs::<u8>(rep, &mut v);
    plain_jobs::<u16>(rep, &mut v);
    plain_jobs::<u32>(rep, &mut v);
    plain_jobs::<u64>(rep, &mut v);
    plain_jobs::<u128>(rep, &mut v);
    plain_jobs::<i8>(rep, &mut v);
    plain_jobs::<i16>(rep, &mut v);
    plain_jobs::<i32>(rep, &mut v);
    plain_jobs::<i64>(rep, &mut v);
    plain_jobs::<i128>(rep, &mut v);
    macro_rules! mx { ($n:expr, $f:ident, $k:expr) => {
        v.push((format!("mixed/{}", $n), Box::new(|r| { let w = values($k, $k == 8); w.iter().try_for_each(|a| w.iter().try_for_each(|b| $f(r, *a, *b))) })));
    } }
    mx!("8", mixed8, 8);
    mx!("16", mixed16, 16);
    mx!("32", mixed32, 32);
    mx!("64", mixed64, 64);
    mx!("128", mixed128, 128);
    v.push(("Bit/plain".into(), Box::new(bit_only)));
    run_jobs(rep, v);
    rep.note("rule", "one state = one value or pair of values put through every operator in every form, compared with 128-bit integer arithmetic reduced modulo 2^k; all values and pairs at 1 and 8 bits, all 16-bit values, and at every width the boundary values, every power of two with its neighbours and complements, and rotations of a fixed pattern");
    rep.assume("shifts by the width or more, division, and inverses of 128-bit values are outside the property (the library does not offer them)");
    rep.finish_and_exit();
}
