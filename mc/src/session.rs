//! Running one scenario at all three parties.
use crate::exec::*;
use crate::net::*;
use crate::protos::{Num, Proto};
use iris_mpc::mc_hooks::ShareTrait;
use iris_mpc::prelude::*;
use std::future::Future;
use std::marker::PhantomData;

pub type Va<P, T> = <<P as Proto<T>>::A as ShareTrait>::VecShare;
pub type Vb<P, T> = <<P as Proto<T>>::B as ShareTrait>::VecShare;

/// One party of a protocol, with the protocol trait's methods callable without annotations.
pub struct Sess<P: Proto<T>, T: Num> {
    pub id: usize,
    pub m: P::M,
    ph: PhantomData<T>,
}
type R<X> = Result<X, Error>;
macro_rules! c {
    ($s:ident, $f:ident $(, $a:expr)*) => { <P::M as MpcTrait<T, P::A, P::B>>::$f(&mut $s.m $(, $a)*) };
}
macro_rules! r {
    ($s:ident, $f:ident $(, $a:expr)*) => { <P::M as MpcTrait<T, P::A, P::B>>::$f(&$s.m $(, $a)*) };
}
impl<P: Proto<T>, T: Num> Sess<P, T> {
    pub fn new(w: &World, id: usize, key: &P::A) -> Self {
        let mut s = Sess { id, m: P::make(w.net(id)), ph: PhantomData };
        s.set_mac_key(key.clone());
        s
    }
    pub fn set_mac_key(&mut self, k: P::A) {
        c!(self, set_mac_key, k)
    }
    pub fn set_new_mac_key(&mut self) {
        c!(self, set_new_mac_key)
    }
    pub async fn preprocess(&mut self) -> R<()> {
        c!(self, preprocess).await
    }
    pub async fn triples(&mut self, n: usize) -> R<()> {
        c!(self, precompute_and_triples, n).await
    }
    pub async fn input(&mut self, x: Option<T>, id: usize) -> R<P::A> {
        c!(self, input, x, id).await
    }
    pub async fn open(&mut self, a: P::A) -> R<T> {
        c!(self, open, a).await
    }
    pub async fn open_many(&mut self, a: Va<P, T>) -> R<Vec<T>> {
        c!(self, open_many, a).await
    }
    pub async fn open_bit(&mut self, a: P::B) -> R<bool> {
        c!(self, open_bit, a).await
    }
    pub async fn open_bit_many(&mut self, a: Vb<P, T>) -> R<Vec<bool>> {
        c!(self, open_bit_many, a).await
    }
    pub fn add(&self, a: P::A, b: P::A) -> P::A {
        r!(self, add, a, b)
    }
    pub fn sub(&self, a: P::A, b: P::A) -> P::A {
        r!(self, sub, a, b)
    }
    pub fn add_const(&self, a: P::A, b: T) -> P::A {
        r!(self, add_const, a, b)
    }
    pub fn sub_const(&self, a: P::A, b: T) -> P::A {
        r!(self, sub_const, a, b)
    }
    pub fn mul_const(&self, a: P::A, b: T) -> P::A {
        r!(self, mul_const, a, b)
    }
    pub async fn mul(&mut self, a: P::A, b: P::A) -> R<P::A> {
        c!(self, mul, a, b).await
    }
    pub async fn dot(&mut self, a: Va<P, T>, b: Va<P, T>) -> R<P::A> {
        c!(self, dot, a, b).await
    }
    pub async fn dot_many(&mut self, a: &[Va<P, T>], b: &[Va<P, T>]) -> R<Vec<P::A>> {
        c!(self, dot_many, a, b).await
    }
    pub async fn masked_dot_many(&mut self, a: &Va<P, T>, b: &[Va<P, T>], m: &[plain_reference::IrisCodeArray]) -> R<Vec<P::A>> {
        c!(self, masked_dot_many, a, b, m).await
    }
    pub async fn msb(&mut self, a: P::A) -> R<P::B> {
        c!(self, get_msb, a).await
    }
    pub async fn msb_many(&mut self, a: Vec<P::A>) -> R<Vb<P, T>> {
        c!(self, get_msb_many, a).await
    }
    pub async fn or(&mut self, a: P::B, b: P::B) -> R<P::B> {
        c!(self, binary_or, a, b).await
    }
    pub async fn or_reduce(&mut self, a: Vb<P, T>, chunk: usize) -> R<P::B> {
        c!(self, reduce_binary_or, a, chunk).await
    }
    pub async fn verify(&mut self) -> R<()> {
        c!(self, verify).await
    }
    pub async fn finish(self) -> R<()> {
        <P::M as MpcTrait<T, P::A, P::B>>::finish(self.m).await
    }
}

/// Builds the three party futures of a scenario: construct, set key, run the body.
pub fn parties<'a, P, T, O, F, Fu>(w: &World, key: &[P::A], body: F) -> [Option<Fut<'a, Result<O, String>>>; 3]
where
    P: Proto<T>,
    T: Num,
    O: 'a,
    F: Fn(Sess<P, T>) -> Fu,
    Fu: Future<Output = Result<O, Error>> + 'a,
{
    let mut v = vec![];
    for id in 0..3 {
        let f = body(Sess::new(w, id, &key[id]));
        v.push(Some(Box::pin(async move { f.await.map_err(|e| format!("{e:?}")) }) as Fut<'a, Result<O, String>>));
    }
    v.try_into().ok().unwrap()
}

/// One fast run on fresh links; all parties must succeed.
pub fn run_ok<P, T, O, F, Fu>(key: &[P::A], body: F) -> Result<([O; 3], RunInfo), String>
where
    P: Proto<T>,
    T: Num,
    F: Fn(Sess<P, T>) -> Fu,
    Fu: Future<Output = Result<O, Error>>,
    O: std::fmt::Debug,
{
    let w = World::new(Mode::Fast, 64);
    let (ends, info) = {
        let futs = parties::<P, T, O, _, _>(&w, key, |s| body(s));
        run_fast(&w, futs)
    };
    let mut out = vec![];
    for (p, e) in ends.into_iter().enumerate() {
        match e {
            End::Done(Ok(o)) => out.push(o),
            End::Done(Err(e)) => return Err(format!("party {p} got an error: {e}")),
            End::Panic(e) => return Err(format!("party {p} panicked: {e}")),
            End::Blocked(e) => return Err(format!("party {p} never came to an end, waiting in {e}")),
            End::Crashed => return Err(format!("party {p} stopped")),
        }
    }
    if info.stuck {
        return Err("the parties waited for messages nobody sends".into());
    }
    {
        let i = w.0.borrow();
        for f in 0..3 {
            for t in 0..3 {
                if !i.links[f][t].q.is_empty() {
                    return Err(format!("{} message(s) from party {f} to party {t} are left over", i.links[f][t].q.len()));
                }
            }
        }
    }
    Ok((out.try_into().ok().unwrap(), info))
}

/// Shares per party -> one party's vector.
pub fn of_party<X: Clone>(v: &[Vec<X>], id: usize) -> Vec<X> {
    v.iter().map(|s| s[id].clone()).collect()
}
pub fn vec_share<A: ShareTrait>(v: Vec<A>) -> A::VecShare {
    let mut r = <A::VecShare as VecShareTrait>::with_capacity(v.len());
    for x in v {
        r.push(x);
    }
    r
}

/// A party whose `verify` can be switched off (the proofs of one protocol take minutes on codes of
/// full length; they are checked on their own).  Everything else is the protocol itself.
pub struct NoVerify<P: Proto<T>, T: Num> {
    pub s: Sess<P, T>,
    pub skip: bool,
}
impl<P: Proto<T>, T: Num> NoVerify<P, T> {
    pub fn new(s: Sess<P, T>, skip: bool) -> Self {
        NoVerify { s, skip }
    }
}
impl<P: Proto<T>, T: Num> MpcTrait<T, P::A, P::B> for NoVerify<P, T> {
    fn get_id(&self) -> usize {
        <P::M as MpcTrait<T, P::A, P::B>>::get_id(&self.s.m)
    }
    async fn preprocess(&mut self) -> R<()> {
        self.s.preprocess().await
    }
    async fn precompute_and_triples(&mut self, n: usize) -> R<()> {
        self.s.triples(n).await
    }
    fn set_mac_key(&mut self, k: P::A) {
        self.s.set_mac_key(k)
    }
    fn set_new_mac_key(&mut self) {
        self.s.set_new_mac_key()
    }
    async fn finish(self) -> R<()> {
        self.s.finish().await
    }
    fn print_connection_stats(&self, out: &mut impl std::io::Write) -> R<()> {
        <P::M as MpcTrait<T, P::A, P::B>>::print_connection_stats(&self.s.m, out)
    }
    async fn input(&mut self, x: Option<T>, id: usize) -> R<P::A> {
        self.s.input(x, id).await
    }
    fn share<Rn: rand::Rng>(x: T, k: T::VerificationShare, rng: &mut Rn) -> Vec<P::A> {
        <P::M as MpcTrait<T, P::A, P::B>>::share(x, k, rng)
    }
    async fn open(&mut self, a: P::A) -> R<T> {
        self.s.open(a).await
    }
    async fn open_many(&mut self, a: Va<P, T>) -> R<Vec<T>> {
        self.s.open_many(a).await
    }
    async fn open_bit(&mut self, a: P::B) -> R<bool> {
        self.s.open_bit(a).await
    }
    async fn open_bit_many(&mut self, a: Vb<P, T>) -> R<Vec<bool>> {
        self.s.open_bit_many(a).await
    }
    fn add(&self, a: P::A, b: P::A) -> P::A {
        self.s.add(a, b)
    }
    fn add_const(&self, a: P::A, b: T) -> P::A {
        self.s.add_const(a, b)
    }
    fn sub(&self, a: P::A, b: P::A) -> P::A {
        self.s.sub(a, b)
    }
    fn sub_const(&self, a: P::A, b: T) -> P::A {
        self.s.sub_const(a, b)
    }
    async fn mul(&mut self, a: P::A, b: P::A) -> R<P::A> {
        self.s.mul(a, b).await
    }
    fn mul_const(&self, a: P::A, b: T) -> P::A {
        self.s.mul_const(a, b)
    }
    async fn dot(&mut self, a: Va<P, T>, b: Va<P, T>) -> R<P::A> {
        self.s.dot(a, b).await
    }
    async fn dot_many(&mut self, a: &[Va<P, T>], b: &[Va<P, T>]) -> R<Vec<P::A>> {
        self.s.dot_many(a, b).await
    }
    async fn masked_dot_many(&mut self, a: &Va<P, T>, b: &[Va<P, T>], m: &[plain_reference::IrisCodeArray]) -> R<Vec<P::A>> {
        self.s.masked_dot_many(a, b, m).await
    }
    async fn get_msb(&mut self, a: P::A) -> R<P::B> {
        self.s.msb(a).await
    }
    async fn get_msb_many(&mut self, a: Vec<P::A>) -> R<Vb<P, T>> {
        self.s.msb_many(a).await
    }
    async fn binary_or(&mut self, a: P::B, b: P::B) -> R<P::B> {
        self.s.or(a, b).await
    }
    async fn reduce_binary_or(&mut self, a: Vb<P, T>, c: usize) -> R<P::B> {
        self.s.or_reduce(a, c).await
    }
    async fn verify(&mut self) -> R<()> {
        if self.skip {
            return Ok(());
        }
        self.s.verify().await
    }
}
