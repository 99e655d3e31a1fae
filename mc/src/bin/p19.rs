//! P19: invalid calls, in every neighbourhood of valid ones.
use iris_mpc::mc_hooks::{BinaryMpcTrait, ShareTrait};
use iris_mpc::prelude::VecShareTrait as VS;
use iris_mpc::prelude::{Bit, Error, IrisProtocol};
use mc::each_proto;
use mc::exec::*;
use mc::net::*;
use mc::protos::*;
use mc::report::*;
use mc::scen::{deal_code, pattern_code, wrap, KEY};
use mc::session::*;
use plain_reference::{IrisCode, IrisCodeArray};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;

#[derive(Clone, Debug, PartialEq)]
enum Call {
    // must be refused
    Dot(usize, usize),
    /// the lengths of the vectors on both sides
    DotMany(Vec<usize>, Vec<usize>),
    /// length of the one code, lengths of the others, number of masks
    Masked(usize, Vec<usize>, usize),
    /// every party gives (or does not give) a value for a dealer that does not exist
    Id(usize, bool),
    /// OR of n bits in chunks
    Reduce(usize, usize),
    And(usize, usize),
    Or(usize, usize),
    Add3(usize, usize, usize),
    // refused at the dealer, who then gives the value after all (number of failed attempts)
    NoInput(usize, usize),
    // to be answered
    /// a party that is not the dealer gives a value too: (dealer, party)
    Extra(usize, usize),
    Msb0,
    Open0,
    OpenBit0,
    Dot0,
    DotMany0,
    DotManyEmpty,
    Masked0,
    Arith,
    /// products and gates left unverified
    Pending,
    Signs,
    Check,
    /// a product where the protocol cannot check products of this width
    Narrow,
    /// an invalid call one party makes on its own
    Alone(usize, Box<Call>),
}
use Call::*;

const N: usize = 12800;

/// What the call must give: None where it must be refused.
fn plain<T: Num>(c: &Call) -> Option<Vec<u128>> {
    let w = |x: u128| wrap::<T>(x);
    Some(match c {
        Dot(..) | DotMany(..) | Masked(..) | Id(..) | Reduce(..) | And(..) | Or(..) | Add3(..) | Narrow => return None,
        NoInput(..) => vec![w(77)],
        Extra(..) => vec![w(78)],
        Msb0 | Open0 | OpenBit0 | DotMany0 | Masked0 | Pending | Check => vec![],
        Alone(..) => vec![],
        Dot0 | DotManyEmpty => vec![0],
        Arith => vec![w(w(201) * 7 + 5)],
        Signs => vec![1, 0, 1],
    })
}

async fn call<P: Proto<T>, T: Num>(c: &Call, s: &mut Sess<P, T>) -> Result<Vec<u128>, Error>
where
    P::M: BinaryMpcTrait<Bit, P::B>,
{
    if let Alone(p, c) = c {
        if s.id == *p && call1::<P, T>(c, s).await.is_ok() {
            return Err(Error::Other("accepted".into()));
        }
        return Ok(vec![]);
    }
    call1::<P, T>(c, s).await
}

async fn call1<P: Proto<T>, T: Num>(c: &Call, s: &mut Sess<P, T>) -> Result<Vec<u128>, Error>
where
    P::M: BinaryMpcTrait<Bit, P::B>,
{
    let id = s.id;
    let sh = move |n: usize| P::deal_raw(T::of(n as u128), [1, 2, 3], KEY)[id].clone();
    let v = move |n: usize| vec_share::<P::A>((0..n).map(|i| sh(i % 5)).collect());
    let bits = move |n: usize| vec_share::<P::B>((0..n).map(|i| P::deal_bit_raw(i % 2 == 0, [true, false, true])[id].clone()).collect());
    let vb = move |n: usize| (0..n).map(|i| P::deal_bit_raw(i % 2 == 0, [true, false, true])[id].clone()).collect::<Vec<_>>();
    macro_rules! b {
        ($f:ident $(, $a:expr)*) => { <P::M as BinaryMpcTrait<Bit, P::B>>::$f(&mut s.m $(, $a)*) };
    }
    Ok(match c {
        Dot(n, m) => {
            s.dot(v(*n), v(*m)).await?;
            vec![]
        }
        DotMany(a, b) => {
            let (a, b): (Vec<_>, Vec<_>) = (a.iter().map(|n| v(*n)).collect(), b.iter().map(|n| v(*n)).collect());
            s.dot_many(&a, &b).await?;
            vec![]
        }
        Masked(n, b, m) => {
            let (a, b): (_, Vec<_>) = (v(*n), b.iter().map(|n| v(*n)).collect());
            s.masked_dot_many(&a, &b, &vec![IrisCodeArray::ONES; *m]).await?;
            vec![]
        }
        Id(i, some) => {
            s.input(if *some { Some(T::of(1)) } else { None }, *i).await?;
            vec![]
        }
        Reduce(n, c) => {
            s.or_reduce(bits(*n), *c).await?;
            vec![]
        }
        And(n, m) => {
            b!(and_many, &vb(*n), &vb(*m)).await?;
            vec![]
        }
        Or(n, m) => {
            b!(or_many, vb(*n), vb(*m)).await?;
            vec![]
        }
        Add3(n, m, k) => {
            b!(binary_add_3_many, vb(*n), vb(*m), vb(*k)).await?;
            vec![]
        }
        Narrow => {
            s.mul(sh(3), sh(2)).await?;
            vec![]
        }
        NoInput(d, tries) => {
            if id == *d {
                for _ in 0..*tries {
                    if s.input(None, *d).await.is_ok() {
                        return Err(Error::Other("accepted".into()));
                    }
                }
            }
            let x = s.input(if id == *d { Some(T::of(77)) } else { None }, *d).await?;
            vec![s.open(x).await?.bits()]
        }
        Extra(d, y) => {
            let x = s.input(if id == *d { Some(T::of(78)) } else if id == *y { Some(T::of(9)) } else { None }, *d).await?;
            vec![s.open(x).await?.bits()]
        }
        Msb0 => {
            let r = s.msb_many(vec![]).await?;
            s.open_bit_many(r).await?.iter().map(|x| *x as u128).collect()
        }
        Open0 => s.open_many(v(0)).await?.iter().map(|x| x.bits()).collect(),
        OpenBit0 => s.open_bit_many(bits(0)).await?.iter().map(|x| *x as u128).collect(),
        Dot0 => {
            let r = s.dot(v(0), v(0)).await?;
            vec![s.open(r).await?.bits()]
        }
        DotMany0 => {
            let r = s.dot_many(&[], &[]).await?;
            s.open_many(vec_share::<P::A>(r)).await?.iter().map(|x| x.bits()).collect()
        }
        DotManyEmpty => {
            let r = s.dot_many(&[v(0)], &[v(0)]).await?;
            s.open_many(vec_share::<P::A>(r)).await?.iter().map(|x| x.bits()).collect()
        }
        Masked0 => {
            let r = s.masked_dot_many(&v(N), &[], &[]).await?;
            s.open_many(vec_share::<P::A>(r)).await?.iter().map(|x| x.bits()).collect()
        }
        Arith => {
            let x = s.input(if id == 1 { Some(T::of(201)) } else { None }, 1).await?;
            let y = s.input(if id == 2 { Some(T::of(7)) } else { None }, 2).await?;
            let r = if multiplies::<P, T>() { s.mul(x, y).await? } else { s.mul_const(x, T::of(7)) };
            let r = s.add_const(r, T::of(5));
            vec![s.open(r).await?.bits()]
        }
        Pending => {
            if multiplies::<P, T>() {
                let m = s.mul(sh(3), sh(4)).await?;
                s.dot(vec_share::<P::A>(vec![m.clone()]), vec_share::<P::A>(vec![m])).await?;
            }
            b!(and_many, &vb(3), &vb(3)).await?;
            vec![]
        }
        Signs => {
            let h = 1u128 << (T::K - 1);
            let x: Vec<P::A> = [h | 3, 5, h].iter().map(|x| P::deal_raw(T::of(*x), [9, 8, 7], KEY)[id].clone()).collect();
            let r = s.msb_many(x).await?;
            s.open_bit_many(r).await?.iter().map(|x| *x as u128).collect()
        }
        Check => {
            s.triples(1).await?;
            s.verify().await?;
            vec![]
        }
        Alone(..) => unreachable!(),
    })
}

fn session<P: Proto<T>, T: Num>(rep: &Report, key: &[P::A], hs: &[Call]) -> Result<(), String>
where
    P::M: BinaryMpcTrait<Bit, P::B>,
{
    own_entropy(3);
    beat();
    let w = World::new(Mode::Fast, 64);
    let what = || format!("calls {hs:?}");
    let (ends, info) = {
        let futs = parties::<P, T, Vec<Option<Vec<u128>>>, _, _>(&w, key, |mut s| async move {
            s.preprocess().await?;
            let mut out = vec![];
            for (i, c) in hs.iter().enumerate() {
                let r = call::<P, T>(c, &mut s).await;
                if plain::<T>(c).is_some() {
                    out.push(Some(r.map_err(|e| Error::Other(format!("call {i} ({c:?}) is answered with {e:?}")))?));
                } else {
                    out.push(r.ok());
                }
            }
            s.finish().await?;
            Ok(out)
        });
        run_fast(&w, futs)
    };
    rep.add("states", hs.len() as u64);
    rep.add("transitions", info.ops.iter().sum::<usize>() as u64);
    rep.add("sessions", 1);
    for (p, e) in ends.iter().enumerate() {
        let v = match e {
            End::Done(Ok(v)) => v,
            o => return Err(format!("{}: party {p} ends with {o:?}", what())),
        };
        for (i, c) in hs.iter().enumerate() {
            let want = plain::<T>(c);
            if v[i] != want {
                return Err(match want {
                    None => format!("{}: call {i} ({c:?}) is invalid and party {p} gets a result", what()),
                    Some(r) => format!("{}: call {i} ({c:?}) gives {:?} at party {p}, should be {r:?}", what(), v[i]),
                });
            }
        }
    }
    if info.stuck {
        return Err(format!("{}: the parties wait for messages nobody sends", what()));
    }
    let i = w.0.borrow();
    if i.links.iter().flatten().any(|l| !l.q.is_empty()) {
        return Err(format!("{}: a message is left over", what()));
    }
    Ok(())
}

/// All ways of being unequal with up to `n` entries.
fn invalid(light: bool) -> Vec<Call> {
    let mut v = vec![];
    let top = if light { 2 } else { 3 };
    for a in 0..=top {
        for b in 0..=top {
            if a != b {
                Extend::extend(&mut v, [Dot(a, b), And(a, b), Or(a, b)]);
            }
            for c in 0..=top {
                if a != b || b != c {
                    v.push(Add3(a, b, c));
                }
            }
        }
    }
    Extend::extend(&mut v, [Dot(129, 128), Dot(128, 129), And(129, 128), Or(128, 257), Dot(N, N - 1)]);
    // batches: every list of up to `top` vectors of lengths 0..2 against every other, if unequal
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut all = lists.clone();
    for _ in 0..if light { 2 } else { 3 } {
        lists = lists.iter().flat_map(|l| (0..3).map(move |n| [l.clone(), vec![n]].concat())).collect();
        Extend::extend(&mut all, lists.clone());
    }
    for a in &all {
        for b in &all {
            // only lists of at most two against each other beyond equal counts
            if a != b && (a.len() == b.len() || a.len().max(b.len()) <= 2) {
                v.push(DotMany(a.clone(), b.clone()));
            }
        }
    }
    for i in [3, 4, 255, 256, 257, 258, 259, 65536, 1 << 32, 1 << 63, usize::MAX - 2, usize::MAX] {
        Extend::extend(&mut v, [Id(i, true), Id(i, false)]);
    }
    for c in [0, 1, 2, 128] {
        v.push(Reduce(0, c));
    }
    for n in [1, 2, 3, 127, 128, 129, 257] {
        v.push(Reduce(n, 0));
    }
    v
}
fn masked() -> Vec<Call> {
    let mut v = vec![];
    for m in 0..4 {
        for n in 0..4 {
            if n != m {
                v.push(Masked(N, vec![N; n], m));
            }
        }
    }
    for bad in [0, 1, 64, N - 64, N - 1, N + 1, N + 64, 2 * N] {
        v.push(Masked(bad, vec![N], 1));
        v.push(Masked(bad, vec![bad], 1));
        v.push(Masked(bad, vec![], 0));
        for at in 0..3 {
            let mut l = vec![N; 3];
            l[at] = bad;
            v.push(Masked(N, l, 3));
        }
    }
    v
}

fn xors<S: ShareTrait>(a: S::VecShare, b: S::VecShare) -> (bool, bool) {
    (a.clone().xor_many(b.clone()).is_ok(), a.clone().xor_assign_many(b).is_ok())
}

fn jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>)
where
    P::M: BinaryMpcTrait<Bit, P::B>,
{
    let main = T::TY == "u16";
    let th = rep.thorough();
    let can = multiplies::<P, T>();
    let mut inv = invalid(!th && !main);
    if !can {
        inv.retain(|c| !matches!(c, Dot(..) | DotMany(..)));
        inv.push(Narrow);
    }
    let slow = P::NAME == "Swift3" || P::NAME == "SpdzWise";
    let mut soft = vec![Msb0, Open0, OpenBit0];
    if can {
        Extend::extend(&mut soft, [Dot0, DotMany0, DotManyEmpty]);
    }
    for d in 0..3 {
        Extend::extend(&mut soft, [NoInput(d, 1), NoInput(d, 2)]);
        for y in 0..3 {
            if y != d {
                soft.push(Extra(d, y));
            }
        }
    }
    // Swift3's proofs and the triples of SpdzWise make these expensive there
    let after: Vec<Vec<Call>> = if slow { vec![vec![Arith]] } else { vec![vec![Arith], vec![Signs, Check], vec![Check, Arith]] };
    let mut seqs: Vec<Vec<Call>> = vec![];
    for c in inv.iter().chain(&soft) {
        for a in &after {
            seqs.push([vec![c.clone()], a.clone()].concat());
            seqs.push([vec![Pending, c.clone()], a.clone()].concat());
        }
        seqs.push(vec![c.clone(), c.clone(), Arith, c.clone(), Arith]);
    }
    // the same mistakes, made by one party alone
    for c in &inv {
        for p in 0..3 {
            let c = Alone(p, Box::new(c.clone()));
            seqs.push(vec![c.clone(), Arith]);
            if main || th {
                seqs.push(vec![Pending, c.clone(), c, Arith]);
            }
        }
    }
    // some of each kind, followed by a verification of what was pending
    let mut few = vec![And(2, 1), Or(1, 2), Add3(1, 1, 2), Id(3, true), Reduce(0, 1), Reduce(3, 0)];
    Extend::extend(&mut few, soft.clone());
    if can {
        Extend::extend(&mut few, [Dot(2, 1), DotMany(vec![1, 2], vec![1, 1]), DotMany(vec![1, 1], vec![1, 2]), DotMany(vec![1], vec![1, 1])]);
    } else {
        few.push(Narrow);
    }
    for a in &few {
        for b in &few {
            seqs.push(vec![a.clone(), b.clone(), Arith]);
            if th {
                for c in &few {
                    seqs.push(vec![a.clone(), b.clone(), c.clone(), Arith]);
                }
            }
        }
        let bits_ok = verifies::<P, T>() || P::NAME != "Swift3";
        if bits_ok && (main || th) {
            seqs.push(vec![Pending, a.clone(), Check, Arith]);
            seqs.push(vec![Check, a.clone(), Pending, Signs, Check]);
        }
    }
    let mk = || P::key_shares(KEY, &mut ChaCha12Rng::from_seed([9; 32]));
    let heavy = |s: &Vec<Call>| s.iter().any(|c| matches!(c, Check | Msb0 | Signs | Masked(..)));
    let (hv, lt): (Vec<_>, Vec<_>) = seqs.into_iter().partition(heavy);
    for (kind, list, n) in [("verified", hv, 16), ("calls", lt, 200)] {
        for (n, c) in list.chunks(n).enumerate() {
            let c = c.to_vec();
            v.push((format!("{}/{}/{kind}/{n}", P::NAME, T::TY), Box::new(move |r| {
                let key = mk();
                for s in &c {
                    session::<P, T>(r, &key, s)?;
                }
                Ok(())
            })));
        }
    }
    if main && can {
        let mut seqs = vec![];
        for c in masked() {
            seqs.push(vec![c.clone(), Arith]);
            seqs.push(vec![Pending, c.clone(), c.clone(), Arith]);
            for p in 0..3 {
                seqs.push(vec![Alone(p, Box::new(c.clone())), Arith]);
            }
        }
        seqs.push(vec![Masked0, Arith]);
        for (n, c) in seqs.chunks(24).enumerate() {
            let c = c.to_vec();
            v.push((format!("{}/{}/masked/{n}", P::NAME, T::TY), Box::new(move |r| {
                let key = mk();
                for s in &c {
                    session::<P, T>(r, &key, s)?;
                }
                Ok(())
            })));
        }
    }
    // vectors of shares on their own
    v.push((format!("{}/{}/vectors", P::NAME, T::TY), Box::new(move |r| {
        for id in 0..3 {
            let a = |n: usize| vec_share::<P::A>((0..n).map(|i| P::deal_raw(T::of(i as u128), [1, 2, 3], KEY)[id].clone()).collect());
            let b = |n: usize| vec_share::<P::B>((0..n).map(|i| P::deal_bit_raw(i % 2 == 0, [true, false, true])[id].clone()).collect());
            for n in 0..6usize {
                for m in 0..6usize {
                    r.add("states", 1);
                    let g = guard(|| {
                        let (x, y) = xors::<P::B>(b(n), b(m));
                        let z = <Va<P, T> as VS>::filter_reduce_add_twice(&a(n), &a(m), &IrisCodeArray::ONES).is_ok();
                        (x, y, n != m && z)
                    });
                    match g {
                        Ok((x, y, z)) if x == (n == m) && y == (n == m) && !z => (),
                        g => return Err(format!("vectors of {n} and {m} shares, party {id}: exclusive or, the same in place, masked sums: {g:?}")),
                    }
                }
            }
        }
        Ok(())
    })));
    // the membership query needs a ring above the largest distance
    v.push((format!("{}/{}/ring", P::NAME, T::TY), Box::new(move |r| {
        let w = World::new(Mode::Fast, 64);
        let key = mk();
        r.add("states", 1);
        let g = guard(|| IrisProtocol::<T, P::A, P::B, NoVerify<P, T>>::new(NoVerify::new(Sess::new(&w, 0, &key[0]), false)).is_ok());
        if g != Ok(T::K > 14) {
            return Err(format!("making the query protocol over {} gives {g:?}", T::TY));
        }
        Ok(())
    })));
}

/// One membership query, good or bad.
#[derive(Clone, Debug)]
struct Qy {
    iris: usize,
    /// 0 far, 1 close, 2 mask too small; and the length of the code
    db: Vec<(usize, usize)>,
    masks: usize,
    chunk: usize,
    low: bool,
}
impl Qy {
    fn want(&self) -> Option<bool> {
        if self.iris != N || self.db.iter().any(|d| d.0 == 2 || d.1 != N) || self.masks != self.db.len() || self.db.is_empty() || self.chunk == 0 || self.low {
            return None;
        }
        Some(self.db.iter().any(|d| d.0 == 1))
    }
}

fn bad_queries() -> Vec<Qy> {
    let good = Qy { iris: N, db: vec![(0, N), (0, N), (1, N)], masks: 3, chunk: 2, low: false };
    let mut v = vec![];
    for l in [0, 1, N - 1, N + 1, 2 * N] {
        v.push(Qy { iris: l, ..good.clone() });
        for chunk in [1, 2, 3] {
            for at in 0..3 {
                let mut q = Qy { chunk, ..good.clone() };
                q.db[at].1 = l;
                v.push(q);
            }
        }
    }
    for m in [0, 1, 2, 4, 5] {
        for chunk in [1, 2, 3, 4] {
            v.push(Qy { masks: m, chunk, ..good.clone() });
        }
    }
    for chunk in [1, 2, 3] {
        for at in 0..3 {
            let mut q = Qy { chunk, ..good.clone() };
            q.db[at].0 = 2;
            v.push(q);
        }
        v.push(Qy { low: true, chunk, ..good.clone() });
    }
    for m in [0, 1] {
        for chunk in [0, 1] {
            v.push(Qy { db: vec![], masks: m, chunk, ..good.clone() });
        }
    }
    v.push(Qy { chunk: 0, ..good.clone() });
    v.push(Qy { chunk: 0, db: vec![(1, N)], masks: 1, ..good.clone() });
    v
}

fn queries<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>)
where
    Va<P, T>: Clone,
{
    let close = Qy { iris: N, db: vec![(0, N), (1, N)], masks: 2, chunk: 1, low: false };
    let far = Qy { iris: N, db: vec![(0, N), (0, N)], masks: 2, chunk: 2, low: false };
    // no chunks at all
    let whole = Qy { chunk: usize::MAX, ..close.clone() };
    let bad = bad_queries();
    let mut seqs: Vec<Vec<Qy>> = vec![vec![whole.clone(), whole]];
    for (i, b) in bad.iter().enumerate() {
        let next = if i % 2 == 0 { &close } else { &far };
        seqs.push(vec![b.clone(), next.clone()]);
        if rep.thorough() {
            for c in &bad {
                seqs.push(vec![far.clone(), b.clone(), c.clone(), close.clone()]);
            }
        }
    }
    for (n, c) in seqs.chunks(8).enumerate() {
        let c = c.to_vec();
        v.push((format!("{}/{}/queries/{n}", P::NAME, T::TY), Box::new(move |r| {
            let base = pattern_code(3);
            let mut rng = ChaCha12Rng::from_seed([4; 32]);
            let key = P::key_shares(KEY, &mut rng);
            let q = IrisCode { code: base, mask: IrisCodeArray::ONES };
            let mut es = vec![q.clone(), q.clone(), q.clone()];
            for i in 0..4352 {
                es[0].code.flip_bit(i * 2);
                if i < 4351 {
                    es[1].code.flip_bit(i * 2 + 1);
                }
            }
            for i in 0..12800 - 8959 {
                es[2].mask.set_bit(i * 3, false);
            }
            let dq = deal_code::<P, T>(&q.code, KEY, &mut rng);
            let de: Vec<_> = es.iter().map(|e| deal_code::<P, T>(&e.code, KEY, &mut rng)).collect();
            // codes of another length: cut off or begun again
            let fit = |x: &Va<P, T>, n: usize| -> Va<P, T> {
                if n == N {
                    return x.clone();
                }
                vec_share::<P::A>((0..n).map(|i| VS::get_at(x, i % N)).collect())
            };
            for seq in &c {
                own_entropy(77);
                beat();
                let w = World::new(Mode::Fast, 64);
                let (ends, info) = {
                    let futs = parties::<P, T, Vec<Option<bool>>, _, _>(&w, &key, |s| {
                        let id = s.id;
                        let (dq, de, es, fit) = (&dq, &de, &es, &fit);
                        async move {
                            let mut iris = IrisProtocol::<T, P::A, P::B, NoVerify<P, T>>::new(NoVerify::new(s, P::NAME == "Swift3"))?;
                            iris.preprocessing().await?;
                            let mut out = vec![];
                            for q in seq {
                                let db: Vec<Va<P, T>> = q.db.iter().map(|(i, n)| fit(&de[*i][id], *n)).collect();
                                let masks: Vec<_> = (0..q.masks).map(|i| es[q.db.get(i).map(|d| d.0).unwrap_or(0)].mask).collect();
                                let m = if q.low { es[2].mask } else { IrisCodeArray::ONES };
                                let x = fit(&dq[id], q.iris);
                                out.push(iris.iris_in_db(&x, &db, &m, &masks, q.chunk).await.ok());
                            }
                            iris.finish().await?;
                            Ok::<_, Error>(out)
                        }
                    });
                    run_fast(&w, futs)
                };
                r.add("sessions", 1);
                r.add("states", seq.len() as u64);
                let want: Vec<Option<bool>> = seq.iter().map(|q| q.want()).collect();
                for p in 0..3 {
                    if ends[p].done() != Some(&Ok(want.clone())) {
                        return Err(format!("queries {seq:?} in one session: party {p} ends with {:?}, should be {want:?}", ends[p]));
                    }
                }
                if info.stuck {
                    return Err(format!("queries {seq:?}: the parties wait for messages nobody sends"));
                }
            }
            Ok(())
        })));
    }
}

fn main() {
    let rep = Report::new("P19", "model_checking");
    let mut v: Vec<Job> = vec![];
    each_proto!(queries, [u16], (rep, &mut v));
    each_proto!(jobs, [u16, u8, u32, u64, i16, i32, u128], (rep, &mut v));
    run_jobs(rep, v);
    rep.note("calls", "every pair of unequal lengths of vectors, batches, masks and codes up to a bound, unknown parties, missing inputs, empty reductions, zero chunks, widths too small; each before, between and after valid calls, and in pairs");
    rep.note("rule", "one state = one call of a session; sessions run all three parties and compare every answer");
    rep.assume("all parties make the same invalid call, except for inputs, where the dealer alone leaves the value out");
    rep.finish_and_exit();
}
