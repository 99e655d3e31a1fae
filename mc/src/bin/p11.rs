//! P11: encodings and their decoding, in all forms, for all lengths.
use bytes::{Bytes, BytesMut};
use iris_mpc::mc_hooks::{wire, IntRing2k, RingElement};
use iris_mpc::prelude::{Bit, Error, RingImpl};
use mc::exec::guard;
use mc::protos::boundary;
use mc::report::*;

trait W: IntRing2k {
    const NAME: &'static str;
    fn of(x: u128) -> Self;
    fn u(self) -> u128;
    /// Bytes of one element.
    const SIZE: usize;
}
macro_rules! w { ($($t:ty),*) => {$( impl W for $t {
    const NAME: &'static str = stringify!($t);
    fn of(x: u128) -> Self { x as $t }
    fn u(self) -> u128 { self as u128 }
    const SIZE: usize = std::mem::size_of::<$t>();
} )*} }
w!(u8, u16, u32, u64, u128);
impl W for Bit {
    const NAME: &'static str = "Bit";
    fn of(x: u128) -> Self { Bit::new(x & 1 == 1) }
    fn u(self) -> u128 { self.convert() as u128 }
    const SIZE: usize = 1;
}

/// Every way to turn one value into bytes.
fn encodings<T: W>(x: T) -> Vec<(&'static str, Vec<u8>)> {
    let r = RingElement(x);
    let mut a = BytesMut::new();
    x.add_to_bytes(&mut a);
    let mut b = BytesMut::new();
    r.add_to_bytes(&mut b);
    vec![
        ("to_bytes of the integer", x.to_bytes().to_vec()),
        ("add_to_bytes of the integer", a.to_vec()),
        ("to_bytes of the element", r.clone().to_bytes().to_vec()),
        ("add_to_bytes of the element", b.to_vec()),
        ("slice of one", wire::slice_to_bytes(&[r.clone()]).to_vec()),
        ("iterator of one", wire::iter_to_bytes(&[r]).to_vec()),
    ]
}
/// Every way to turn bytes into one value; the last two must leave nothing.
fn decodings<T: W>(b: &[u8]) -> Vec<(&'static str, Result<Result<T, Error>, String>)> {
    let bm = || BytesMut::from(b);
    let by = || Bytes::copy_from_slice(b);
    let one = |v: Result<Vec<RingElement<T>>, Error>| v.map(|v| v[0].0);
    vec![
        ("from_bytes_mut of the integer", guard(|| T::from_bytes_mut(bm()))),
        ("from_bytes of the integer", guard(|| T::from_bytes(by()))),
        ("from_bytes_mut of the element", guard(|| RingElement::<T>::from_bytes_mut(bm()).map(|x| x.0))),
        ("from_bytes of the element", guard(|| RingElement::<T>::from_bytes(by()).map(|x| x.0))),
        ("vector of one", guard(|| one(wire::vec_from_bytes(bm(), 1)))),
        ("iterator of one", guard(|| one(wire::iter_from_bytes(bm(), 1).map(|x| x.1)))),
    ]
}

fn value<T: W>(rep: &Report, a: u128) -> Result<(), String> {
    let x = T::of(a);
    let enc = encodings(x);
    for (n, e) in &enc {
        if e.len() != T::SIZE || *e != enc[0].1 {
            return Err(format!("{}: {n} of {a:x} gives {e:x?}, {} gives {:x?}", T::NAME, enc[0].0, enc[0].1));
        }
    }
    for (n, d) in decodings::<T>(&enc[0].1) {
        match d {
            Ok(Ok(y)) if y == x => {}
            d => return Err(format!("{}: {n} of the encoding of {a:x} gives {d:?}", T::NAME)),
        }
    }
    // taking an element leaves exactly the rest
    for rest in [0usize, 1, T::SIZE - 1, T::SIZE, T::SIZE + 1] {
        let mut b = BytesMut::from(&enc[0].1[..]);
        b.extend((0..rest).map(|i| i as u8));
        let mut c = b.clone();
        let tail: Vec<u8> = (0..rest).map(|i| i as u8).collect();
        match guard(|| T::take_from_bytes_mut(&mut b)) {
            Ok(Ok(y)) if y == x && b[..] == tail[..] => {}
            r => return Err(format!("{}: taking {a:x} off a message with {rest} more bytes gives {r:?}, left {:x?}", T::NAME, &b[..])),
        }
        match guard(|| RingElement::<T>::take_from_bytes_mut(&mut c)) {
            Ok(Ok(y)) if y.0 == x && c[..] == tail[..] => {}
            r => return Err(format!("{}: taking element {a:x} off a message with {rest} more bytes gives {r:?}", T::NAME)),
        }
    }
    rep.add("states", 1);
    rep.add("transitions", 22);
    Ok(())
}

/// Distinct values have distinct encodings, every string of the right length is an encoding.
fn onto<T: W>(rep: &Report) -> Result<(), String> {
    let n = 1u128 << (8 * T::SIZE);
    let mut seen = std::collections::HashMap::new();
    for s in 0..n {
        let b: Vec<u8> = (0..T::SIZE).map(|i| (s >> (8 * i)) as u8).collect();
        let ds = decodings::<T>(&b);
        let first = match &ds[0].1 {
            Ok(Ok(x)) => Some(*x),
            Ok(Err(_)) => None,
            Err(p) => return Err(format!("{}: {} of {b:x?} panicked: {p}", T::NAME, ds[0].0)),
        };
        for (w, d) in &ds {
            let d = match d {
                Ok(Ok(x)) => Some(*x),
                Ok(Err(_)) => None,
                Err(p) => return Err(format!("{}: {w} of {b:x?} panicked: {p}", T::NAME)),
            };
            if d != first {
                return Err(format!("{}: {w} of {b:x?} gives {d:?}, {} gives {first:?}", T::NAME, ds[0].0));
            }
        }
        if let Some(x) = first {
            if let Some(o) = seen.insert(x.u(), b.clone()) {
                return Err(format!("{}: {o:x?} and {b:x?} both decode to {x}", T::NAME));
            }
            if encodings(x)[0].1 != b {
                return Err(format!("{}: {b:x?} decodes to {x}, which encodes to something else", T::NAME));
            }
        }
        rep.add("states", 1);
        rep.add("transitions", 6);
    }
    let want = if T::K == 1 { 2 } else { n as usize };
    if seen.len() != want {
        return Err(format!("{}: {} strings of {} bytes decode, {want} values exist", T::NAME, seen.len(), T::SIZE));
    }
    Ok(())
}

/// Single values out of messages of every length.
fn lengths<T: W>(rep: &Report) -> Result<(), String> {
    for len in 0..=40usize {
        for fill in [0u8, 1, 255] {
            let b = vec![fill; len];
            for (n, d) in decodings::<T>(&b) {
                let good = len == T::SIZE && (T::K > 1 || fill < 2);
                match d {
                    Ok(Ok(_)) if good => {}
                    Ok(Err(_)) if !good => {}
                    d => return Err(format!("{}: {n} of {len} bytes {fill:x} gives {d:?}", T::NAME)),
                }
                rep.add("transitions", 1);
            }
            let mut m = BytesMut::from(&b[..]);
            let good = len >= T::SIZE && (T::K > 1 || fill < 2);
            match guard(|| T::take_from_bytes_mut(&mut m)) {
                Ok(Ok(_)) if good => {}
                Ok(Err(_)) if !good => {}
                d => return Err(format!("{}: taking one off {len} bytes {fill:x} gives {d:?}", T::NAME)),
            }
            rep.add("states", 1);
        }
    }
    Ok(())
}

/// Sequences: every length, in both directions and forms, and against every wrong expectation.
fn sequences<T: W>(rep: &Report, max: usize, wrong: usize) -> Result<(), String> {
    let vals: Vec<T> = (0..max).map(|i| T::of(boundary(T::K.max(2))[i * 7 % 9].wrapping_add((i as u128 / 9) << (T::K / 2)))).collect();
    for n in 0..=max {
        let v = RingElement::convert_slice_rev(&vals[..n]);
        let a = wire::slice_to_bytes(v);
        let b = wire::iter_to_bytes(v);
        let mut want = vec![];
        for x in &vals[..n] {
            want.extend_from_slice(&x.to_bytes());
        }
        if a[..] != want[..] || b[..] != want[..] || want.len() != n * T::SIZE {
            return Err(format!("{}: a sequence of {n} is not encoded as its elements one after the other ({} and {} bytes, should be {})", T::NAME, a.len(), b.len(), n * T::SIZE));
        }
        let m = || BytesMut::from(&a[..]);
        for exp in 0..=wrong.max(n + 2) {
            let dv = guard(|| wire::vec_from_bytes::<RingElement<T>>(m(), exp));
            let di = guard(|| wire::iter_from_bytes::<RingElement<T>>(m(), exp));
            match dv {
                Ok(Ok(d)) if exp == n && d == v => {}
                Ok(Err(_)) if exp != n => {}
                d => return Err(format!("{}: {n} encoded, vector of {exp} decoded: {d:?}", T::NAME)),
            }
            match di {
                Ok(Ok((l, d))) if exp == n && d == v && l == n => {}
                Ok(Err(_)) if exp != n => {}
                d => return Err(format!("{}: {n} encoded, iterator of {exp} decoded: {d:?}", T::NAME)),
            }
            rep.add("states", 1);
            rep.add("transitions", 2);
        }
    }
    // every message length against every expected number
    for len in 0..=(T::SIZE * 6 + 1) {
        for exp in 0..=8usize {
            let b = BytesMut::from(&vec![1u8; len][..]);
            let good = len == exp * T::SIZE;
            let dv = guard(|| wire::vec_from_bytes::<RingElement<T>>(b.clone(), exp).is_ok());
            let di = guard(|| wire::iter_from_bytes::<RingElement<T>>(b.clone(), exp).map(|x| x.1.len() == exp).unwrap_or(false));
            if dv != Ok(good) || di != Ok(good) {
                return Err(format!("{}: {len} bytes as {exp} values: vector {dv:?}, iterator {di:?}", T::NAME));
            }
            rep.add("states", 1);
            rep.add("transitions", 2);
        }
    }
    Ok(())
}

/// A byte that encodes no bit, at every place of a message of bits.
fn bad_bits(rep: &Report) -> Result<(), String> {
    for n in 1..=20usize {
        for at in 0..n {
            for bad in 2..=255u8 {
                let mut b = vec![1u8; n];
                b[at] = bad;
                let m = || BytesMut::from(&b[..]);
                let dv = guard(|| wire::vec_from_bytes::<RingElement<Bit>>(m(), n).is_ok());
                let di = guard(|| wire::iter_from_bytes::<RingElement<Bit>>(m(), n).is_ok());
                if dv != Ok(false) || di != Ok(false) {
                    return Err(format!("Bit: byte {bad} at {at} of {n}: vector {dv:?}, iterator {di:?}"));
                }
                rep.add("states", 1);
                rep.add("transitions", 2);
            }
        }
    }
    Ok(())
}

fn seeds(rep: &Report) -> Result<(), String> {
    for len in 0..=80usize {
        let b: Vec<u8> = (0..len).map(|i| (i * 37 + 11) as u8).collect();
        match guard(|| wire::seed_from_bytes(BytesMut::from(&b[..]))) {
            Ok(Ok(s)) if len == 32 && s[..] == b[..] => {}
            Ok(Err(_)) if len != 32 => {}
            r => return Err(format!("a seed out of {len} bytes: {r:?}")),
        }
        rep.add("states", 1);
    }
    for x in (1..=5000usize).chain((0..63).flat_map(|i| [(1usize << i).max(2) - 1, 1 << i, (1 << i) + 1])) {
        let want = (0..=64).find(|&k| k == 64 || (1u128 << k) >= x as u128).unwrap();
        match guard(|| wire::ceil_log2(x)) {
            Ok(w) if w == want => {}
            r => return Err(format!("ceil log2 of {x}: {r:?}, should be {want}")),
        }
        let bits: Vec<RingElement<u16>> = wire::bits_of(x);
        let back = bits.iter().enumerate().fold(0usize, |a, (i, b)| a + ((b.0 as usize) << i));
        if back != x || bits.last().map(|b| b.0) != Some(1) || bits.iter().any(|b| b.0 > 1) {
            return Err(format!("bits of {x}: {bits:?}"));
        }
        rep.add("states", 1);
    }
    Ok(())
}

fn jobs<T: W>(rep: &'static Report, v: &mut Vec<Job>) {
    let (max, wrong) = (rep.pick(70, 300), rep.pick(72, 302));
    v.push((format!("{}/sequences", T::NAME), Box::new(move |r| sequences::<T>(r, max, wrong))));
    v.push((format!("{}/lengths", T::NAME), Box::new(lengths::<T>)));
    v.push((format!("{}/values", T::NAME), Box::new(|r| {
        let k = T::K;
        let m = if k == 128 { u128::MAX } else { (1 << k) - 1 };
        let mut w: Vec<u128> = if k <= 16 { (0..=m).collect() } else { boundary(k) };
        // each byte takes every value, in turn
        if k > 16 {
            for i in 0..T::SIZE {
                w.extend((0..256u128).map(|b| b << (8 * i)));
                w.extend((0..256u128).map(|b| (0x0102_0304_0506_0708_090A_0B0C_0D0E_0F10u128 & m) & !(255 << (8 * i)) | b << (8 * i)));
            }
        }
        w.into_iter().try_for_each(|a| value::<T>(r, a))
    })));
}

fn main() {
    let rep = Report::new("P11", "model_checking");
    let mut v: Vec<Job> = vec![];
    jobs::<Bit>(rep, &mut v);
    jobs::<u8>(rep, &mut v);
    jobs::<u16>(rep, &mut v);
    jobs::<u32>(rep, &mut v);
    jobs::<u64>(rep, &mut v);
    jobs::<u128>(rep, &mut v);
    v.push(("Bit/onto".into(), Box::new(onto::<Bit>)));
    v.push(("u8/onto".into(), Box::new(onto::<u8>)));
    v.push(("u16/onto".into(), Box::new(onto::<u16>)));
    v.push(("Bit/bad".into(), Box::new(bad_bits)));
    v.push(("seeds".into(), Box::new(seeds)));
    run_jobs(rep, v);
    rep.note("rule", "one state = one value, message or sequence put through every encoder and decoder; all values up to 16 bits, every byte of the wider ones with all its values, all sequence lengths up to the bound against all expected lengths, all message lengths, every invalid byte at every place");
    rep.finish_and_exit();
}
