//! P09: one session, many steps; each step must give what it gives on a fresh session.
use iris_mpc::prelude::{Error, IrisProtocol};
use mc::each_proto;
use mc::exec::*;
use mc::net::*;
use mc::protos::*;
use mc::report::*;
use mc::scen::{deal_code, pattern_code, wrap, KEY};
use mc::session::*;
use plain_reference::{IrisCode, IrisCodeArray};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum H {
    /// inputs by two parties, a product, opened
    Arith,
    /// products left unverified
    MulLeave,
    /// a batch of dot products, opened together
    Dots,
    /// signs extracted and opened, nothing verified
    Signs,
    /// signs, OR reduction, verification, opening; for n values
    Query(usize),
    Verify,
    /// triples for this many units of 128 gates
    Triples(usize),
    NewKey,
    Setup,
    /// dot product of vectors of different lengths
    BadDot,
    /// input by a party that does not exist
    BadInput,
    /// a batch with vectors of different lengths at the second place
    BadDots,
}
use H::*;

type Step = (Vec<u128>, Vec<bool>);

fn val<T: Num>(i: usize, step: usize) -> T {
    let b = boundary(T::K);
    T::of(wrap::<T>(b[(i * 3 + step) % b.len()].wrapping_add(step as u128 * 7)))
}
fn plain<T: Num>(h: H, st: usize) -> Step {
    let v = |i| val::<T>(i, st).bits();
    let sgn = |i: usize| v(i) >> (T::K - 1) & 1 == 1;
    let w = |x: u128| wrap::<T>(x);
    match h {
        Arith => (vec![w(v(0).wrapping_mul(v(1)).wrapping_add(v(0)))], vec![]),
        Dots => (vec![w(v(0).wrapping_mul(v(1)).wrapping_add(v(2).wrapping_mul(v(3)))), w(v(2).wrapping_mul(v(0)).wrapping_add(v(1).wrapping_mul(v(1))))], vec![]),
        Signs => (vec![], (0..3).map(sgn).collect()),
        Query(n) => (vec![], vec![(0..n).any(sgn)]),
        BadDot | BadInput | BadDots => (vec![], vec![true]),
        _ => (vec![], vec![]),
    }
}

async fn values<P: Proto<T>, T: Num>(s: &mut Sess<P, T>, n: usize, st: usize) -> Result<Vec<P::A>, Error> {
    let mut v = vec![];
    for i in 0..n {
        let d = (i + st) % 3;
        let x = s.input(if s.id == d { Some(val::<T>(i, st)) } else { None }, d).await?;
        v.push(x);
    }
    Ok(v)
}

async fn step<P: Proto<T>, T: Num>(h: H, st: usize, s: &mut Sess<P, T>) -> Result<Step, Error> {
    let vs = vec_share::<P::A>;
    Ok(match h {
        Arith => {
            let v = values::<P, T>(s, 2, st).await?;
            let m = s.mul(v[0].clone(), v[1].clone()).await?;
            let r = s.add(m, v[0].clone());
            (vec![s.open(r).await?.bits()], vec![])
        }
        MulLeave => {
            let v = values::<P, T>(s, 2, st).await?;
            let m = s.mul(v[0].clone(), v[1].clone()).await?;
            s.dot(vs(vec![m.clone(), v[0].clone()]), vs(vec![v[1].clone(), m])).await?;
            (vec![], vec![])
        }
        Dots => {
            let v = values::<P, T>(s, 4, st).await?;
            let g = |i: usize| v[i].clone();
            let o = s.dot_many(&[vs(vec![g(0), g(2)]), vs(vec![g(2), g(1)])], &[vs(vec![g(1), g(3)]), vs(vec![g(0), g(1)])]).await?;
            (s.open_many(vs(o)).await?.iter().map(|x| x.bits()).collect(), vec![])
        }
        Signs => {
            let v = values::<P, T>(s, 3, st).await?;
            let b = s.msb_many(v).await?;
            (vec![], s.open_bit_many(b).await?)
        }
        Query(n) => {
            let v = values::<P, T>(s, n, st).await?;
            // as the membership query does it
            let words = (n + 127) / 128;
            s.triples(words * 128 * (2 * T::K - 3) + words * 128).await?;
            let b = s.msb_many(v).await?;
            let r = s.or_reduce(b, 2).await?;
            s.verify().await?;
            (vec![], vec![s.open_bit(r).await?])
        }
        Verify => {
            // triples for what is pending, as a caller has to
            s.triples(1).await?;
            s.verify().await?;
            (vec![], vec![])
        }
        Triples(u) => {
            s.triples(u * 128).await?;
            (vec![], vec![])
        }
        NewKey => {
            s.set_new_mac_key();
            (vec![], vec![])
        }
        Setup => {
            s.preprocess().await?;
            (vec![], vec![])
        }
        BadDot | BadDots => {
            let sh = |n: u128| P::deal_raw(T::of(n), [1, 2, 3], KEY)[s.id].clone();
            let (a, b) = (vs(vec![sh(1), sh(2)]), vs(vec![sh(1)]));
            let r = if h == BadDot { s.dot(a, b).await.is_err() } else { s.dot_many(&[b.clone(), a], &[b.clone(), b]).await.is_err() };
            (vec![], vec![r])
        }
        BadInput => (vec![], vec![s.input(Some(T::of(1)), 3).await.is_err()]),
    })
}

fn history<P: Proto<T>, T: Num>(rep: &Report, hs: &[H], key: &[P::A]) -> Result<(), String> {
    own_entropy(hs.len() as u64 + 5);
    let w = World::new(Mode::Fast, 64);
    let (ends, info) = {
        let futs = parties::<P, T, Vec<Step>, _, _>(&w, key, |mut s| {
            let hs = hs.to_vec();
            async move {
                s.preprocess().await?;
                let mut out = vec![];
                for (i, h) in hs.iter().enumerate() {
                    out.push(step::<P, T>(*h, i, &mut s).await.map_err(|e| Error::Other(format!("step {i} ({h:?}): {e:?}")))?);
                }
                s.finish().await?;
                Ok(out)
            }
        });
        run_fast(&w, futs)
    };
    rep.add("histories", 1);
    rep.add("states", hs.len() as u64);
    rep.add("transitions", info.ops.iter().sum::<usize>() as u64);
    let want: Vec<Step> = hs.iter().enumerate().map(|(i, h)| plain::<T>(*h, i)).collect();
    for p in 0..3 {
        match &ends[p] {
            End::Done(Ok(v)) => {
                for i in 0..hs.len() {
                    if v[i] != want[i] {
                        return Err(format!("history {hs:?}: step {i} gives {:?} at party {p}, should be {:?}", v[i], want[i]));
                    }
                }
            }
            o => return Err(format!("history {hs:?}: party {p} ends with {o:?}")),
        }
    }
    if info.stuck {
        return Err(format!("history {hs:?}: the parties wait for messages nobody sends"));
    }
    Ok(())
}

fn sequences(alpha: &[H], depth: usize) -> Vec<Vec<H>> {
    let mut v = vec![vec![]];
    let mut all = vec![];
    for _ in 0..depth {
        let mut n = vec![];
        for s in &v {
            for a in alpha {
                let mut t: Vec<H> = s.clone();
                t.push(*a);
                n.push(t);
            }
        }
        all.extend(n.iter().cloned());
        v = n;
    }
    all
}

/// A new key makes the tags of products that wait for verification worthless:
/// it is only for a session with nothing pending.
fn key_in_order(s: &[H]) -> bool {
    let mut pending = false;
    for h in s {
        match h {
            MulLeave => pending = true,
            Arith | Dots | Query(_) | Verify => pending = false,
            NewKey if pending => return false,
            _ => (),
        }
    }
    true
}

fn jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>) {
    let th = rep.thorough();
    let main = T::TY == "u16";
    let mk = || P::key_shares(KEY, &mut ChaCha12Rng::from_seed([9; 32]));
    let mut seqs: Vec<Vec<H>>;
    let mut bad_input = vec![BadInput];
    if P::NAME == "Swift3" {
        bad_input = SWIFT_BAD.to_vec();
    }
    match P::NAME {
        "Aby3" | "MalAby3" => {
            let mut al = vec![Arith, MulLeave, Dots, Signs, Query(3), Verify, NewKey, Setup, BadDot, BadDots];
            al.extend(&bad_input);
            seqs = sequences(&al, if main { if th { 5 } else { 4 } } else { 3 });
        }
        "SpdzWise" => {
            let mut al = vec![Arith, MulLeave, Dots, NewKey, Setup, BadDot, BadDots];
            al.extend(&bad_input);
            seqs = sequences(&al, if main { 4 } else { 3 });
            // with bit gates: 2^20 triples each time, so fewer
            let al = [Arith, Signs, Query(3), Verify, NewKey, Setup, BadDot];
            seqs.extend(sequences(&al, if th && main { 4 } else if main { 3 } else { 2 }).into_iter().filter(|s| s.iter().any(|h| matches!(h, Signs | Query(_)))));
            // triple pools that are neither empty nor full
            let al = [Signs, Query(3), Verify, Triples(1), Triples(9000)];
            seqs.extend(sequences(&al, if th { 4 } else { 3 }).into_iter().filter(|s| s.contains(&Triples(9000)) && main));
            if main {
                seqs.push(vec![Triples(9062), Query(200), Query(20), Query(3)]);
                seqs.push(vec![Triples(8193), Query(3), Query(3), Query(3)]);
                seqs.push(vec![Triples(20000), Query(3), Query(3), Query(3), Query(3)]);
            }
        }
        _ => {
            let mut al = vec![Arith, NewKey, Setup, BadDot, BadDots, MulLeave, Dots];
            al.extend(&bad_input);
            seqs = sequences(&al, if main { 4 } else { 2 });
            // with proofs
            let al = [Arith, MulLeave, Dots, Signs, Query(3), Verify, Setup, BadDot];
            let d = if th { 4 } else { 3 };
            seqs.extend(sequences(&al, d).into_iter().filter(|s| main && s.iter().any(|h| matches!(h, Signs | Query(_) | Verify))));
        }
    }
    if !multiplies::<P, T>() {
        seqs.retain(|s| s.iter().all(|h| !matches!(h, Arith | MulLeave | Dots | BadDot | BadDots)));
    }
    if P::NAME == "SpdzWise" {
        seqs.retain(|s| key_in_order(s));
    }
    let light: usize = if P::NAME == "Swift3" || P::NAME == "SpdzWise" { 24 } else { 200 };
    for (n, c) in seqs.chunks(light).enumerate() {
        let c: Vec<Vec<H>> = c.to_vec();
        v.push((format!("{}/{}/histories/{n}", P::NAME, T::TY), Box::new(move |r| {
            let key = mk();
            for s in &c {
                history::<P, T>(r, s, &key)?;
            }
            Ok(())
        })));
    }
}
const SWIFT_BAD: [H; 1] = [BadInput];

/// Sequences of whole membership queries, good and rejected ones, in one session.
fn query_jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>)
where
    Va<P, T>: Clone,
{
    // (entries, chunk): entry 0 far, 1 close, 2 bad mask; "lens": fewer masks than entries
    let menu: [(&[usize], usize, bool); 6] = [(&[0, 1], 1, false), (&[0, 0, 0], 2, false), (&[1], 1, false), (&[0, 0, 2], 1, false), (&[], 1, false), (&[0, 1], 1, true)];
    let depth = if rep.thorough() { 4 } else { 3 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        seqs = seqs.iter().flat_map(|s| (0..menu.len()).map(move |i| [s.clone(), vec![i]].concat())).collect();
    }
    for (n, c) in seqs.chunks(6).enumerate() {
        let c = c.to_vec();
        v.push((format!("{}/{}/queries/{n}", P::NAME, T::TY), Box::new(move |r| {
            let base = pattern_code(3);
            let mut rng = ChaCha12Rng::from_seed([4; 32]);
            let key = P::key_shares(KEY, &mut rng);
            let q = IrisCode { code: base, mask: IrisCodeArray::ONES };
            let mut es = vec![q.clone(), q.clone(), q.clone()];
            for i in 0..4352 {
                es[0].code.flip_bit(i * 2);
                if i < 4351 {
                    es[1].code.flip_bit(i * 2 + 1);
                }
            }
            for i in 0..12800 - 8959 {
                es[2].mask.set_bit(i * 3, false);
            }
            let dq = deal_code::<P, T>(&q.code, KEY, &mut rng);
            let de: Vec<_> = es.iter().map(|e| deal_code::<P, T>(&e.code, KEY, &mut rng)).collect();
            for seq in &c {
                own_entropy(77);
                let w = World::new(Mode::Fast, 64);
                let (ends, info) = {
                    let futs = parties::<P, T, Vec<Option<bool>>, _, _>(&w, &key, |s| {
                        let id = s.id;
                        let (dq, de, es, q) = (&dq, &de, &es, &q);
                        async move {
                            let mut iris = IrisProtocol::<T, P::A, P::B, NoVerify<P, T>>::new(NoVerify::new(s, P::NAME == "Swift3"))?;
                            iris.preprocessing().await?;
                            let mut out = vec![];
                            for m in seq {
                                let (e, chunk, short) = menu[*m];
                                let db: Vec<Va<P, T>> = e.iter().map(|i| de[*i][id].clone()).collect();
                                let mut masks: Vec<_> = e.iter().map(|i| es[*i].mask).collect();
                                if short {
                                    masks.pop();
                                }
                                out.push(iris.iris_in_db(&dq[id], &db, &q.mask, &masks, chunk).await.ok());
                            }
                            iris.finish().await?;
                            Ok::<_, Error>(out)
                        }
                    });
                    run_fast(&w, futs)
                };
                r.add("histories", 1);
                r.add("states", seq.len() as u64);
                let want: Vec<Option<bool>> = seq.iter().map(|m| [Some(true), Some(false), Some(true), None, None, None][*m]).collect();
                for p in 0..3 {
                    if ends[p].done() != Some(&Ok(want.clone())) {
                        return Err(format!("queries {:?} in one session: party {p} ends with {:?}, should be {want:?}", seq.iter().map(|m| menu[*m]).collect::<Vec<_>>(), ends[p]));
                    }
                }
                if info.stuck {
                    return Err(format!("queries {seq:?}: the parties wait for messages nobody sends"));
                }
            }
            Ok(())
        })));
    }
}

fn main() {
    let rep = Report::new("P09", "model_checking");
    let mut v: Vec<Job> = vec![];
    each_proto!(jobs, [u16, i16, u8, u32], (rep, &mut v));
    each_proto!(query_jobs, [u16], (rep, &mut v));
    run_jobs(rep, v);
    rep.note("alphabet", "arithmetic, unverified products, dot batches, unverified signs, query steps, verification, triple generation, key renewal, setup, and rejected calls; whole queries with good, rejected, empty and inconsistent databases");
    rep.note("rule", "one state = one step of a history run by the three parties in one session and compared with the plain result of that step");
    rep.assume("a caller that leaves bit gates pending asks for triples before it verifies, as the membership query does");
    rep.assume("in SpdzWise the key is renewed only when no product waits for verification: products tagged with the old key cannot be verified with the new one");
    rep.finish_and_exit();
}
