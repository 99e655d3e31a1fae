//! The four protocol stacks behind one interface, with the reference notion of what a sharing is.
use crate::net::McNetwork;
use iris_mpc::mc_hooks::ShareTrait;
use iris_mpc::prelude::*;
use num_traits::Zero;
use rand_chacha::ChaCha12Rng;
use std::fmt::Debug;

pub use iris_mpc::mc_hooks::RingElement;

pub trait Proto<T: Num>: 'static {
    const NAME: &'static str;
    const MALICIOUS: bool;
    type A: ShareTrait + Clone + Debug + PartialEq + Zero + 'static;
    type B: ShareTrait<VecShare = Vec<Self::B>> + Clone + Debug + PartialEq + Send + Sync + 'static
        + std::ops::BitXorAssign + std::ops::BitXor<Output = Self::B> + std::ops::ShlAssign<u32> + std::ops::Shl<u32, Output = Self::B>;
    type M: MpcTrait<T, Self::A, Self::B> + 'static;
    fn make(net: McNetwork) -> Self::M;
    /// Deals sharings of the session MAC key (no-op where there is none).
    fn key_shares(key: u128, rng: &mut ChaCha12Rng) -> Vec<Self::A>;
    fn deal(x: T, key: u128, rng: &mut ChaCha12Rng) -> Vec<Self::A>;
    /// A sharing with chosen free components (three where the sharing has three, else the first two).
    fn deal_raw(x: T, comp: [u128; 3], key: u128) -> Vec<Self::A>;
    /// Sharings in which the share of party `obs` depends on `c` only, not on the value.
    fn deal_obs(x: T, obs: usize, c: [u128; 4], key: u128) -> Vec<Self::A>;
    fn deal_bit_obs(x: bool, obs: usize, c: [bool; 3]) -> Vec<Self::B>;
    fn deal_bit(x: bool, rng: &mut ChaCha12Rng) -> Vec<Self::B>;
    fn deal_bit_raw(x: bool, comp: [bool; 3]) -> Vec<Self::B>;
    /// How many of the components of `deal_raw` matter.
    const COMPS: usize;
    /// What three shares mean together, or how they disagree.
    fn rec(s: [&Self::A; 3], key: u128) -> Result<T, String>;
    fn rec_bit(s: [&Self::B; 3]) -> Result<bool, String>;
    /// Rolling content of one share, for view comparisons.
    fn raw(a: &Self::A) -> String {
        format!("{a:?}")
    }
}

/// The integers used as values, seen as k-bit patterns.
pub trait Num: Sharable + TryFrom<usize, Error: Debug> + 'static {
    const K: usize;
    const TY: &'static str;
    fn of(x: u128) -> Self;
    fn bits(&self) -> u128;
}
macro_rules! nums { ($($t:ty, $u:ty);*) => {$(
    impl Num for $t {
        const K: usize = <$t>::BITS as usize;
        const TY: &'static str = stringify!($t);
        fn of(x: u128) -> Self { x as $t }
        fn bits(&self) -> u128 { *self as $u as u128 }
    }
)*}}
nums!(u8, u8; u16, u16; u32, u32; u64, u64; u128, u128; i8, u8; i16, u16; i32, u32; i64, u64);

/// Boundary patterns of a k-bit ring.
pub fn boundary(k: usize) -> Vec<u128> {
    let m = if k == 128 { u128::MAX } else { (1u128 << k) - 1 };
    let h = 1u128 << (k - 1);
    let alt = 0xAAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAAu128 & m;
    let mut v = vec![0, 1, 2, h - 1, h, h + 1, m - 1, m, alt, m ^ alt];
    v.dedup();
    v
}

pub struct PAby3;
pub struct PMal;
pub struct PSwift;
pub struct PSpdz;

pub fn rec_aby3<T: Sharable>(s: [&Aby3Share<T>; 3]) -> Result<T, String> {
    let v: Vec<(T::Share, T::Share)> = s.iter().map(|x| (*x).clone().get_ab()).collect();
    for i in 0..3 {
        let p = (i + 2) % 3;
        if v[i].1 != v[p].0 {
            return Err(format!("parties {i} and {p} hold different copies of one component: {:?} / {:?}", v[i].1, v[p].0));
        }
    }
    Ok(T::from_sharetype(v[0].0.clone() + &v[1].0 + &v[2].0))
}
pub fn rec_aby3_bin<T: Sharable>(s: [&Aby3Share<T>; 3]) -> Result<T, String> {
    let v: Vec<(T::Share, T::Share)> = s.iter().map(|x| (*x).clone().get_ab()).collect();
    for i in 0..3 {
        let p = (i + 2) % 3;
        if v[i].1 != v[p].0 {
            return Err(format!("parties {i} and {p} hold different copies of one component: {:?} / {:?}", v[i].1, v[p].0));
        }
    }
    Ok(T::from_sharetype(v[0].0.clone() ^ &v[1].0 ^ &v[2].0))
}
fn swift_parts<T: Sharable>(s: [&Swift3Share<T>; 3]) -> Result<[T::Share; 4], String> {
    let v: Vec<(T::Share, T::Share, T::Share)> = s.iter().map(|x| (*x).clone().get_abc()).collect();
    // P0: (a1, a3, b)  P1: (a2, a1, b)  P2: (a3, a2, b)
    let ok = v[0].0 == v[1].1 && v[0].1 == v[2].0 && v[1].0 == v[2].1 && v[0].2 == v[1].2 && v[0].2 == v[2].2;
    if !ok {
        return Err(format!("parties hold different copies of a component: {v:?}"));
    }
    Ok([v[0].0.clone(), v[1].0.clone(), v[2].0.clone(), v[0].2.clone()])
}
pub fn rec_swift<T: Sharable>(s: [&Swift3Share<T>; 3]) -> Result<T, String> {
    let [a1, a2, a3, b] = swift_parts(s)?;
    Ok(T::from_sharetype(b - &a1 - &a2 - &a3))
}
pub fn rec_swift_bin<T: Sharable>(s: [&Swift3Share<T>; 3]) -> Result<T, String> {
    let [a1, a2, a3, b] = swift_parts(s)?;
    Ok(T::from_sharetype(b ^ &a1 ^ &a2 ^ &a3))
}

fn rb(r: &mut ChaCha12Rng) -> Bit {
    use rand::Rng;
    Bit::new(r.gen::<bool>())
}
pub fn raw_aby3<T: Num>(x: T, c: [u128; 2]) -> Vec<Aby3Share<T>> {
    let (a, b) = (T::of(c[0]).to_sharetype(), T::of(c[1]).to_sharetype());
    let c = x.to_sharetype() - &a - &b;
    vec![Aby3Share::new(a.clone(), c.clone()), Aby3Share::new(b.clone(), a), Aby3Share::new(c, b)]
}
pub fn raw_swift<T: Num>(x: T, c: [u128; 3]) -> Vec<Swift3Share<T>> {
    let f = |v: u128| T::of(v).to_sharetype();
    let (a1, a2, a3) = (f(c[0]), f(c[1]), f(c[2]));
    let b = x.to_sharetype() + &a1 + &a2 + &a3;
    vec![Swift3Share::new(a1.clone(), a3.clone(), b.clone()), Swift3Share::new(a2.clone(), a1, b.clone()), Swift3Share::new(a3, a2, b)]
}
pub fn bit_aby3(x: bool, c: [bool; 3]) -> Vec<Aby3Share<Bit>> {
    let (a, b) = (c[0], c[1]);
    let c = x ^ a ^ b;
    let f = |x: bool| Bit::new(x).to_sharetype();
    vec![Aby3Share::new(f(a), f(c)), Aby3Share::new(f(b), f(a)), Aby3Share::new(f(c), f(b))]
}
pub fn bit_swift(x: bool, c: [bool; 3]) -> Vec<Swift3Share<Bit>> {
    let b = x ^ c[0] ^ c[1] ^ c[2];
    let f = |x: bool| Bit::new(x).to_sharetype();
    vec![Swift3Share::new(f(c[0]), f(c[2]), f(b)), Swift3Share::new(f(c[1]), f(c[0]), f(b)), Swift3Share::new(f(c[2]), f(c[1]), f(b))]
}
/// The component that party `obs` does not hold takes up the value.
pub fn obs_aby3<T: Num>(x: T, obs: usize, p: u128, q: u128) -> Vec<Aby3Share<T>> {
    let h = x.to_sharetype() - &T::of(p).to_sharetype() - &T::of(q).to_sharetype();
    let h = T::from_sharetype(h).bits();
    match obs {
        0 => raw_aby3(x, [p, h]),
        1 => raw_aby3(x, [p, q]),
        _ => raw_aby3(x, [h, p]),
    }
}
pub fn obs_swift<T: Num>(x: T, obs: usize, p: u128, q: u128, b: u128) -> Vec<Swift3Share<T>> {
    let h = T::of(b).to_sharetype() - &x.to_sharetype() - &T::of(p).to_sharetype() - &T::of(q).to_sharetype();
    let h = T::from_sharetype(h).bits();
    match obs {
        0 => raw_swift(x, [p, h, q]),
        1 => raw_swift(x, [p, q, h]),
        _ => raw_swift(x, [h, p, q]),
    }
}
pub fn obs_bit_aby3(x: bool, obs: usize, c: [bool; 3]) -> Vec<Aby3Share<Bit>> {
    let h = x ^ c[0] ^ c[1];
    match obs {
        0 => bit_aby3(x, [c[0], h, false]),
        1 => bit_aby3(x, [c[0], c[1], false]),
        _ => bit_aby3(x, [h, c[0], false]),
    }
}
pub fn obs_bit_swift(x: bool, obs: usize, c: [bool; 3]) -> Vec<Swift3Share<Bit>> {
    let h = c[2] ^ x ^ c[0] ^ c[1];
    match obs {
        0 => bit_swift(x, [c[0], h, c[1]]),
        1 => bit_swift(x, [c[0], c[1], h]),
        _ => bit_swift(x, [h, c[0], c[1]]),
    }
}
pub fn deal_bit_aby3(x: bool, r: &mut ChaCha12Rng) -> Vec<Aby3Share<Bit>> {
    let (a, b) = (rb(r), rb(r));
    let c = Bit::new(x) ^ a ^ b;
    let f = |x: Bit| x.to_sharetype();
    vec![Aby3Share::new(f(a), f(c)), Aby3Share::new(f(b), f(a)), Aby3Share::new(f(c), f(b))]
}
pub fn deal_bit_swift(x: bool, r: &mut ChaCha12Rng) -> Vec<Swift3Share<Bit>> {
    let (a1, a2, a3) = (rb(r), rb(r), rb(r));
    let b = Bit::new(x) ^ a1 ^ a2 ^ a3;
    let f = |x: Bit| x.to_sharetype();
    vec![Swift3Share::new(f(a1), f(a3), f(b)), Swift3Share::new(f(a2), f(a1), f(b)), Swift3Share::new(f(a3), f(a2), f(b))]
}

macro_rules! impl_protos {
    ($($t:ty),*) => {$(
        impl Proto<$t> for PAby3 {
            const NAME: &'static str = "Aby3";
            const MALICIOUS: bool = false;
            type A = Aby3Share<$t>;
            type B = Aby3Share<Bit>;
            type M = Aby3<McNetwork>;
            fn make(net: McNetwork) -> Self::M { Aby3::new(net) }
            fn key_shares(_k: u128, _r: &mut ChaCha12Rng) -> Vec<Self::A> { vec![Zero::zero(); 3] }
            fn deal(x: $t, _k: u128, r: &mut ChaCha12Rng) -> Vec<Self::A> {
                <Self::M as MpcTrait<$t, Self::A, Self::B>>::share(x, Default::default(), r)
            }
            fn deal_raw(x: $t, c: [u128; 3], _k: u128) -> Vec<Self::A> { raw_aby3(x, [c[0], c[1]]) }
            fn deal_obs(x: $t, o: usize, c: [u128; 4], _k: u128) -> Vec<Self::A> { obs_aby3(x, o, c[0], c[1]) }
            fn deal_bit_obs(x: bool, o: usize, c: [bool; 3]) -> Vec<Self::B> { obs_bit_aby3(x, o, c) }
            fn deal_bit_raw(x: bool, c: [bool; 3]) -> Vec<Self::B> { bit_aby3(x, c) }
            const COMPS: usize = 2;
            fn deal_bit(x: bool, r: &mut ChaCha12Rng) -> Vec<Self::B> { deal_bit_aby3(x, r) }
            fn rec(s: [&Self::A; 3], _k: u128) -> Result<$t, String> { rec_aby3(s) }
            fn rec_bit(s: [&Self::B; 3]) -> Result<bool, String> { rec_aby3_bin(s).map(|b| b.convert()) }
        }
        impl Proto<$t> for PMal {
            const NAME: &'static str = "MalAby3";
            const MALICIOUS: bool = true;
            type A = Aby3Share<$t>;
            type B = Aby3Share<Bit>;
            type M = MalAby3<McNetwork>;
            fn make(net: McNetwork) -> Self::M { MalAby3::new(net) }
            fn key_shares(_k: u128, _r: &mut ChaCha12Rng) -> Vec<Self::A> { vec![Zero::zero(); 3] }
            fn deal(x: $t, _k: u128, r: &mut ChaCha12Rng) -> Vec<Self::A> {
                <Self::M as MpcTrait<$t, Self::A, Self::B>>::share(x, Default::default(), r)
            }
            fn deal_raw(x: $t, c: [u128; 3], _k: u128) -> Vec<Self::A> { raw_aby3(x, [c[0], c[1]]) }
            fn deal_obs(x: $t, o: usize, c: [u128; 4], _k: u128) -> Vec<Self::A> { obs_aby3(x, o, c[0], c[1]) }
            fn deal_bit_obs(x: bool, o: usize, c: [bool; 3]) -> Vec<Self::B> { obs_bit_aby3(x, o, c) }
            fn deal_bit_raw(x: bool, c: [bool; 3]) -> Vec<Self::B> { bit_aby3(x, c) }
            const COMPS: usize = 2;
            fn deal_bit(x: bool, r: &mut ChaCha12Rng) -> Vec<Self::B> { deal_bit_aby3(x, r) }
            fn rec(s: [&Self::A; 3], _k: u128) -> Result<$t, String> { rec_aby3(s) }
            fn rec_bit(s: [&Self::B; 3]) -> Result<bool, String> { rec_aby3_bin(s).map(|b| b.convert()) }
        }
        impl Proto<$t> for PSwift {
            const NAME: &'static str = "Swift3";
            const MALICIOUS: bool = true;
            type A = Swift3Share<$t>;
            type B = Swift3Share<Bit>;
            type M = Swift3<McNetwork, $t>;
            fn make(net: McNetwork) -> Self::M { Swift3::new(net) }
            fn key_shares(_k: u128, _r: &mut ChaCha12Rng) -> Vec<Self::A> { vec![Zero::zero(); 3] }
            fn deal(x: $t, _k: u128, r: &mut ChaCha12Rng) -> Vec<Self::A> {
                <Self::M as MpcTrait<$t, Self::A, Self::B>>::share(x, Default::default(), r)
            }
            fn deal_raw(x: $t, c: [u128; 3], _k: u128) -> Vec<Self::A> { raw_swift(x, c) }
            fn deal_obs(x: $t, o: usize, c: [u128; 4], _k: u128) -> Vec<Self::A> { obs_swift(x, o, c[0], c[1], c[2]) }
            fn deal_bit_obs(x: bool, o: usize, c: [bool; 3]) -> Vec<Self::B> { obs_bit_swift(x, o, c) }
            fn deal_bit_raw(x: bool, c: [bool; 3]) -> Vec<Self::B> { bit_swift(x, c) }
            const COMPS: usize = 3;
            fn deal_bit(x: bool, r: &mut ChaCha12Rng) -> Vec<Self::B> { deal_bit_swift(x, r) }
            fn rec(s: [&Self::A; 3], _k: u128) -> Result<$t, String> { rec_swift(s) }
            fn rec_bit(s: [&Self::B; 3]) -> Result<bool, String> { rec_swift_bin(s).map(|b| b.convert()) }
        }
        impl Proto<$t> for PSpdz {
            const NAME: &'static str = "SpdzWise";
            const MALICIOUS: bool = true;
            type A = SpdzWiseShare<<$t as Sharable>::VerificationShare>;
            type B = Aby3Share<Bit>;
            type M = SpdzWise<McNetwork, <$t as Sharable>::VerificationShare>;
            fn make(net: McNetwork) -> Self::M { SpdzWise::new(net) }
            fn key_shares(k: u128, r: &mut ChaCha12Rng) -> Vec<Self::A> {
                type U = <$t as Sharable>::VerificationShare;
                let k = k as U;
                let m = <Aby3<McNetwork> as MpcTrait<U, Aby3Share<U>, Aby3Share<Bit>>>::share(k, Default::default(), r);
                m.into_iter().map(|m| SpdzWiseShare::new(Zero::zero(), m)).collect()
            }
            fn deal(x: $t, k: u128, r: &mut ChaCha12Rng) -> Vec<Self::A> {
                type U = <$t as Sharable>::VerificationShare;
                <Self::M as MpcTrait<$t, Self::A, Self::B>>::share(x, k as U, r)
            }
            fn deal_raw(x: $t, c: [u128; 3], k: u128) -> Vec<Self::A> {
                type U = <$t as Sharable>::VerificationShare;
                let x: U = x.to_verificationshare();
                let spread = |v: u128| v ^ (v << 64) ^ (v << 40);
                let v = raw_aby3::<U>(x, [spread(c[0]), spread(c[1])]);
                let m = raw_aby3::<U>(x.wrapping_mul(k as U), [spread(c[1]) ^ 0x55, spread(c[2])]);
                v.into_iter().zip(m).map(|(v, m)| SpdzWiseShare::new(v, m)).collect()
            }
            fn deal_obs(x: $t, o: usize, c: [u128; 4], k: u128) -> Vec<Self::A> {
                type U = <$t as Sharable>::VerificationShare;
                let x: U = x.to_verificationshare();
                let v = obs_aby3::<U>(x, o, c[0], c[1]);
                let m = obs_aby3::<U>(x.wrapping_mul(k as U), o, c[2], c[3]);
                v.into_iter().zip(m).map(|(v, m)| SpdzWiseShare::new(v, m)).collect()
            }
            fn deal_bit_obs(x: bool, o: usize, c: [bool; 3]) -> Vec<Self::B> { obs_bit_aby3(x, o, c) }
            fn deal_bit_raw(x: bool, c: [bool; 3]) -> Vec<Self::B> { bit_aby3(x, c) }
            const COMPS: usize = 2;
            fn deal_bit(x: bool, r: &mut ChaCha12Rng) -> Vec<Self::B> { deal_bit_aby3(x, r) }
            fn rec(s: [&Self::A; 3], k: u128) -> Result<$t, String> {
                type U = <$t as Sharable>::VerificationShare;
                let v: Vec<_> = s.iter().map(|x| (*x).clone().get()).collect();
                let val: U = rec_aby3([&v[0].0, &v[1].0, &v[2].0]).map_err(|e| format!("value part: {e}"))?;
                let mac: U = rec_aby3([&v[0].1, &v[1].1, &v[2].1]).map_err(|e| format!("tag part: {e}"))?;
                if mac != val.wrapping_mul(k as U) {
                    return Err(format!("authentication tag {mac} does not match value {val} under key {}", k as U));
                }
                Ok(<$t as Sharable>::from_verificationshare(val))
            }
            fn rec_bit(s: [&Self::B; 3]) -> Result<bool, String> { rec_aby3_bin(s).map(|b| b.convert()) }
        }
    )*}
}
impl_protos!(u8, u16, u32, u64, u128, i8, i16, i32, i64);

/// Calls `f::<P, T>(args)` for every protocol and each listed type.
#[macro_export]
macro_rules! each_proto {
    ($f:ident, [$($t:ty),*], $arg:tt) => {$(
        $f::<$crate::protos::PAby3, $t>$arg;
        $f::<$crate::protos::PMal, $t>$arg;
        $f::<$crate::protos::PSwift, $t>$arg;
        $f::<$crate::protos::PSpdz, $t>$arg;
    )*};
}

/// Whether the protocol multiplies at this width: MalAby3 wants 40 spare bits in the wider ring
/// its checks use, and refuses (by assertion) the widths where there are fewer.
pub fn multiplies<P: Proto<T>, T: Num>() -> bool {
    P::NAME != "MalAby3" || matches!(T::K, 8 | 16 | 64)
}
/// Whether the protocol can also verify products at this width (Swift3's proofs embed the values
/// into the field of 2^64 elements).
pub fn verifies<P: Proto<T>, T: Num>() -> bool {
    multiplies::<P, T>() && (P::NAME != "Swift3" || T::K < 64)
}
