//! Scenarios shared by the schedule, corruption, crash and history checkers.
use crate::exec::*;
use crate::net::World;
use crate::protos::*;
use crate::session::*;
use iris_mpc::prelude::{Error, IrisProtocol};
use plain_reference::{IrisCode, IrisCodeArray};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;

pub const KEY: u128 = 0x0123_4567_89ab_cdef_1122_3344_5566_7789;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Setup,
    NewKey,
    Open,
    OpenMany,
    OpenBit,
    OpenBitMany,
    Input(usize),
    Mul,
    MulTwice,
    Dot,
    DotMany,
    Mixed,
    Msb,
    MsbMany(usize),
    Or,
    OrReduce(usize, usize),
    Query(usize, usize),
    FullQuery(usize, usize),
    /// That many products, one after the other.
    MulWide(usize),
    /// That many dot products of length one, at once.
    DotWide(usize),
    /// That many values and bits, opened at once.
    OpenWide(usize),
}

impl Kind {
    /// Whether the scenario multiplies (or, for sign bits, works on) ring elements.
    pub fn multiplies(self) -> bool {
        use Kind::*;
        matches!(self, NewKey | Mul | MulTwice | Dot | DotMany | Mixed | FullQuery(..) | MulWide(_) | DotWide(_))
    }
}

/// What one party ends up with.
#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct Out {
    pub ints: Vec<u128>,
    pub bits: Vec<bool>,
}

/// All the material of a scenario, dealt beforehand.
pub struct Material<P: Proto<T>, T: Num> {
    pub key: Vec<P::A>,
    pub vals: Vec<T>,
    pub sh: Vec<Vec<P::A>>,
    pub bits: Vec<bool>,
    pub bsh: Vec<Vec<P::B>>,
    pub codes: Vec<IrisCode>,
    pub code_sh: Vec<Vec<Va<P, T>>>,
}

pub fn pattern_code(seed: u64) -> IrisCodeArray {
    let mut r = ChaCha12Rng::seed_from_u64(seed);
    IrisCodeArray::random_rng(&mut r)
}

pub fn deal_code<P: Proto<T>, T: Num>(c: &IrisCodeArray, key: u128, rng: &mut ChaCha12Rng) -> Vec<Va<P, T>> {
    let per: Vec<Vec<P::A>> = c.bits().map(|b| P::deal(T::of(b as u128), key, rng)).collect();
    (0..3).map(|i| vec_share::<P::A>(per.iter().map(|s| s[i].clone()).collect())).collect()
}

impl<P: Proto<T>, T: Num> Material<P, T> {
    pub fn new(kind: Kind, seed: u8) -> Self {
        let mut rng = ChaCha12Rng::from_seed([seed; 32]);
        let key = P::key_shares(KEY, &mut rng);
        let h = 1u128 << (T::K - 1);
        let pat = [5u128, 3, h | 1, 0xffff_ffff_ffff_ffff_ffff, h - 1, 7, 2, h | 0x2d];
        let n = match kind {
            Kind::MsbMany(n) => n,
            _ => 6,
        };
        let vals: Vec<T> = (0..n).map(|i| T::of(pat[i % 8].wrapping_mul(1 + (i as u128 / 8) * 3))).collect();
        let sh = vals.iter().map(|v| P::deal(*v, KEY, &mut rng)).collect();
        let nb = match kind {
            Kind::OrReduce(n, _) => n,
            _ => 3,
        };
        let bits: Vec<bool> = (0..nb).map(|i| i == nb / 2).collect();
        let bsh = bits.iter().map(|b| P::deal_bit(*b, &mut rng)).collect();
        let mut codes = vec![];
        if let Kind::FullQuery(n, _) = kind {
            let base = pattern_code(77);
            for i in 0..=n {
                let mut c = IrisCode { code: base, mask: IrisCodeArray::ONES };
                // the query is entry 0; exactly one entry (the last) is close
                let flips = if i == 0 { 0 } else if i == n { 4351 } else { 4352 };
                for j in 0..flips {
                    c.code.flip_bit((j * 2 + i) % 12800);
                }
                codes.push(c);
            }
        }
        let code_sh = codes.iter().map(|c| deal_code::<P, T>(&c.code, KEY, &mut rng)).collect();
        Material { key, vals, sh, bits, bsh, codes, code_sh }
    }
    fn s(&self, i: usize, id: usize) -> P::A {
        self.sh[i % self.sh.len()][id].clone()
    }
    fn v(&self, i: usize) -> T {
        self.vals[i % self.vals.len()]
    }
}

pub fn wrap<T: Num>(x: u128) -> u128 {
    T::of(x).bits()
}
fn mulw<T: Num>(a: T, b: T) -> u128 {
    wrap::<T>(a.bits().wrapping_mul(b.bits()))
}

/// The plaintext result of a scenario.
pub fn expect<P: Proto<T>, T: Num>(k: Kind, m: &Material<P, T>) -> Out {
    let v = |i| m.v(i);
    let msb = |x: T| x.bits() >> (T::K - 1) & 1 == 1;
    let mut o = Out::default();
    match k {
        Kind::Setup => {}
        Kind::NewKey => o.ints.push(mulw::<T>(T::of(9), T::of(11))),
        Kind::Open => o.ints.push(v(0).bits()),
        Kind::OpenMany => o.ints.extend([v(0), v(2), v(3)].map(|x| x.bits())),
        Kind::OpenBit => o.bits.push(m.bits[1]),
        Kind::OpenBitMany => o.bits.extend(m.bits.iter()),
        Kind::Input(_) => o.ints.push(v(1).bits()),
        Kind::Mul => o.ints.push(mulw(v(0), v(1))),
        Kind::MulTwice => o.ints.push(mulw(T::of(mulw(v(0), v(1))), v(2))),
        Kind::Dot => o.ints.push(wrap::<T>(mulw(v(0), v(1)).wrapping_add(mulw(v(2), v(3))).wrapping_add(mulw(v(4), v(5))))),
        Kind::DotMany => {
            o.ints.push(wrap::<T>(mulw(v(0), v(1)).wrapping_add(mulw(v(2), v(3)))));
            o.ints.push(wrap::<T>(mulw(v(4), v(5)).wrapping_add(mulw(v(1), v(1)))));
        }
        Kind::MulWide(n) | Kind::DotWide(n) => o.ints.extend((0..n).map(|i| mulw(v(i), v(i + 1)))),
        Kind::OpenWide(n) => {
            o.ints.extend((0..n).map(|i| v(i).bits()));
            o.bits.extend((0..n).map(|i| m.bits[i % m.bits.len()]));
        }
        Kind::Mixed => {
            let d = wrap::<T>(mulw(v(0), v(1)).wrapping_add(mulw(v(2), v(3))));
            let x = T::of(mulw(T::of(d), v(4)).wrapping_sub(3));
            o.ints.push(x.bits());
            o.bits.push(msb(x) | msb(v(2)) | msb(v(1)));
        }
        Kind::Msb => o.bits.push(msb(v(2))),
        Kind::MsbMany(n) => o.bits.extend((0..n).map(|i| msb(v(i)))),
        Kind::Or => o.bits.push(m.bits[0] | m.bits[1]),
        Kind::OrReduce(..) => o.bits.push(m.bits.iter().any(|b| *b)),
        Kind::Query(n, _) => o.bits.push((0..n).any(|i| msb(v(i)))),
        Kind::FullQuery(n, _) => o.bits.push((1..=n).any(|i| m.codes[0].is_close(&m.codes[i]))),
    }
    o
}

/// The scenario at one party.  `verify`: run the protocol's verification before opening.
pub async fn body<P: Proto<T>, T: Num>(k: Kind, m: &Material<P, T>, mut s: Sess<P, T>, setup: bool, verify: bool) -> Result<Out, Error> {
    let id = s.id;
    let mut o = Out::default();
    if setup && !matches!(k, Kind::FullQuery(..)) {
        s.preprocess().await?;
    }
    let mut ints: Vec<P::A> = vec![];
    let mut bits: Vec<P::B> = vec![];
    // Bit-level gates are verified against triples: make enough of them beforehand.
    let gates = match k {
        Kind::Mixed | Kind::Msb | Kind::MsbMany(_) | Kind::Or | Kind::OrReduce(..) | Kind::Query(..) => verify,
        _ => false,
    };
    if gates {
        s.triples(1 << 13).await?;
    }
    match k {
        Kind::Setup => {}
        Kind::NewKey => {
            s.set_new_mac_key();
            let a = s.input(if id == 0 { Some(T::of(9)) } else { None }, 0).await?;
            let b = s.input(if id == 1 { Some(T::of(11)) } else { None }, 1).await?;
            ints.push(s.mul(a, b).await?);
        }
        Kind::Open => ints.push(m.s(0, id)),
        Kind::OpenMany => ints.extend([m.s(0, id), m.s(2, id), m.s(3, id)]),
        Kind::OpenBit => bits.push(m.bsh[1][id].clone()),
        Kind::OpenWide(n) => {
            ints.extend((0..n).map(|i| m.s(i, id)));
            bits.extend((0..n).map(|i| m.bsh[i % m.bsh.len()][id].clone()));
        }
        Kind::OpenBitMany => bits.extend(of_party(&m.bsh, id)),
        Kind::Input(d) => {
            let x = s.input(if d == id { Some(m.v(1)) } else { None }, d).await?;
            ints.push(x);
        }
        Kind::Mul => {
            let c = s.mul(m.s(0, id), m.s(1, id)).await?;
            ints.push(c)
        }
        Kind::MulTwice => {
            let c = s.mul(m.s(0, id), m.s(1, id)).await?;
            let c = s.mul(c, m.s(2, id)).await?;
            ints.push(c)
        }
        Kind::Dot => {
            let a = vec_share::<P::A>(vec![m.s(0, id), m.s(2, id), m.s(4, id)]);
            let b = vec_share::<P::A>(vec![m.s(1, id), m.s(3, id), m.s(5, id)]);
            ints.push(s.dot(a, b).await?)
        }
        Kind::DotMany => {
            let a = vec![vec_share::<P::A>(vec![m.s(0, id), m.s(2, id)]), vec_share::<P::A>(vec![m.s(4, id), m.s(1, id)])];
            let b = vec![vec_share::<P::A>(vec![m.s(1, id), m.s(3, id)]), vec_share::<P::A>(vec![m.s(5, id), m.s(1, id)])];
            ints.extend(s.dot_many(&a, &b).await?)
        }
        Kind::MulWide(n) => {
            for i in 0..n {
                ints.push(s.mul(m.s(i, id), m.s(i + 1, id)).await?);
            }
        }
        Kind::DotWide(n) => {
            let a: Vec<_> = (0..n).map(|i| vec_share::<P::A>(vec![m.s(i, id)])).collect();
            let b: Vec<_> = (0..n).map(|i| vec_share::<P::A>(vec![m.s(i + 1, id)])).collect();
            ints.extend(s.dot_many(&a, &b).await?)
        }
        Kind::Mixed => {
            let a = vec_share::<P::A>(vec![m.s(0, id), m.s(2, id)]);
            let b = vec_share::<P::A>(vec![m.s(1, id), m.s(3, id)]);
            let d = s.dot(a, b).await?;
            let x = s.mul(d, m.s(4, id)).await?;
            let x = s.sub_const(x, T::of(3));
            let b = s.msb_many(vec![x.clone(), m.s(2, id), m.s(1, id)]).await?;
            bits.push(s.or_reduce(b, 2).await?);
            ints.push(x);
        }
        Kind::Msb => bits.push(s.msb(m.s(2, id)).await?),
        Kind::MsbMany(n) => bits.extend(s.msb_many((0..n).map(|i| m.s(i, id)).collect()).await?),
        Kind::Or => bits.push(s.or(m.bsh[0][id].clone(), m.bsh[1][id].clone()).await?),
        Kind::OrReduce(_, c) => {
            let b = of_party(&m.bsh, id);
            bits.push(s.or_reduce(b, c).await?)
        }
        Kind::Query(n, c) => {
            let b = s.msb_many((0..n).map(|i| m.s(i, id)).collect()).await?;
            bits.push(s.or_reduce(b, c).await?)
        }
        Kind::FullQuery(n, c) => {
            let mut iris = IrisProtocol::<T, P::A, P::B, NoVerify<P, T>>::new(NoVerify::new(s, P::NAME == "Swift3"))?;
            iris.preprocessing().await?;
            let db: Vec<Va<P, T>> = (1..=n).map(|i| m.code_sh[i][id].clone()).collect();
            let masks: Vec<IrisCodeArray> = (1..=n).map(|i| m.codes[i].mask).collect();
            let r = iris.iris_in_db(&m.code_sh[0][id], &db, &m.codes[0].mask, &masks, c).await?;
            iris.finish().await?;
            o.bits.push(r);
            return Ok(o);
        }
    }
    if verify {
        s.verify().await?;
    }
    match ints.len() {
        0 => {}
        1 => o.ints.push(s.open(ints.pop().unwrap()).await?.bits()),
        _ => o.ints.extend(s.open_many(vec_share::<P::A>(ints)).await?.iter().map(|x| x.bits())),
    }
    match bits.len() {
        0 => {}
        1 => o.bits.push(s.open_bit(bits.pop().unwrap()).await?),
        _ => o.bits.extend(s.open_bit_many(bits).await?),
    }
    s.finish().await?;
    Ok(o)
}

pub fn build<'a, P: Proto<T>, T: Num>(k: Kind, m: &'a Material<P, T>, verify: bool, w: &World) -> [Option<Fut<'a, Result<Out, String>>>; 3] {
    parties::<P, T, Out, _, _>(w, &m.key, |s| body::<P, T>(k, m, s, true, verify))
}
