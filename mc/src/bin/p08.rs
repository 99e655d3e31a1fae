//! P08: the dealer.  All values of its random draws (over a whole small ring, or over a subgroup of
//! a wide one): every sharing reconstructs, and each party's share takes every content equally often.
use mc::each_proto;
use mc::protos::*;
use mc::report::*;
use rand::SeedableRng;
use rand_chacha::{control, ChaCha12Rng};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

const KEYS: [u128; 4] = [0, 1, mc::scen::KEY, u128::MAX];

/// Runs `f` with the i-th random word of the dealer decided by `vals(i, bytes)`.
fn with_draws<R>(vals: Rc<dyn Fn(usize, u8) -> u64>, f: impl FnOnce(&mut ChaCha12Rng) -> R) -> (R, usize) {
    let n = Rc::new(Cell::new(0usize));
    let m = n.clone();
    control::set_oracle(Some(Box::new(move |_, _, b| {
        let i = m.get();
        m.set(i + 1);
        vals(i, b)
    })));
    let mut rng = ChaCha12Rng::from_seed([0; 32]);
    let r = f(&mut rng);
    control::set_oracle(None);
    (r, n.get())
}

fn uniform<P: Proto<T>, T: Num>(rep: &Report, x: T, key: u128, bits: u32, place: u32) -> Result<(), String> {
    // probe: how many draws, how wide
    let sizes = Rc::new(RefCell::new(vec![]));
    let s2 = sizes.clone();
    let (_, n) = with_draws(Rc::new(move |_, b| { s2.borrow_mut().push(b); 0x0123_4567_89ab_cdef }), |r| P::deal(x, key, r));
    let sizes = sizes.borrow().clone();
    // a ring element wider than a word is made of two words, the second one on top
    let wide = if P::NAME == "SpdzWise" { if T::K <= 32 { 64 } else { 128 } } else { T::K };
    let per = if wide == 128 { 2 } else { 1 };
    if n % per != 0 || n == 0 {
        return Err(format!("the dealer takes {n} random words for one sharing"));
    }
    let free = n / per;
    // where in the element the free bits are: at the bottom, in the middle, at the top
    let width = if wide == 128 { 64 } else { wide as u32 };
    let shift = (width - bits) * place / 2;
    let low_word = wide == 128 && place == 0;
    let total = 1u64 << (bits * free as u32);
    let mut counts: [HashMap<String, u64>; 3] = Default::default();
    let mut packed: [HashMap<u64, u64>; 3] = Default::default();
    let state = Rc::new(Cell::new(0u64));
    for a in 0..total {
        state.set(a);
        let st = state.clone();
        let (sh, m) = with_draws(
            Rc::new(move |i, _| if (i % per == per - 1) != low_word || per == 1 { (st.get() >> (bits as usize * (i / per)) & ((1 << bits) - 1)) << shift } else { 0 }),
            |r| P::deal(x, key, r),
        );
        if m != n {
            return Err(format!("the number of random words depends on their values: {m} and {n}"));
        }
        let got = P::rec([&sh[0], &sh[1], &sh[2]], key).map_err(|e| format!("sharing of {} with draws {a:#x} ({bits} bits each): {e}", x.bits()))?;
        if got.bits() != x.bits() {
            return Err(format!("sharing of {} with draws {a:#x} ({bits} bits each) reconstructs to {}", x.bits(), got.bits()));
        }
        for p in 0..3 {
            let c = format!("{:?}", sh[p]);
            if total > 1 << 18 {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                c.hash(&mut h);
                *packed[p].entry(h.finish()).or_insert(0) += 1;
            } else {
                *counts[p].entry(c).or_insert(0) += 1;
            }
        }
    }
    rep.add("states", total);
    rep.add("transitions", total);
    let _ = sizes;
    for p in 0..3 {
        let c: Vec<u64> = if counts[p].is_empty() { packed[p].values().cloned().collect() } else { counts[p].values().cloned().collect() };
        let (lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
        // how many contents a share of one party can have, with `bits` free bits in every component
        let comps = match P::NAME {
            "Swift3" => 3,
            "SpdzWise" => 4,
            _ => 2,
        };
        let all = 1u64 << (bits * comps);
        if lo != hi || c.len() as u64 != all {
            return Err(format!("party {p}'s share of {} takes {} of {all} contents, between {lo} and {hi} times each, over all {total} choices of {bits} bits (shift {shift}) of every draw of the dealer", x.bits(), c.len()));
        }
    }
    Ok(())
}

fn jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>) {
    let th = rep.thorough();
    let comps = match P::NAME {
        "Swift3" => 3,
        "SpdzWise" => 4,
        _ => 2,
    };
    let vals: Vec<u128> = if T::K == 8 && comps == 2 && th { (0..256).collect() } else { boundary(T::K) };
    let bits = match (comps, T::K) {
        (2, _) => if T::K == 8 { 8 } else { 6 },
        (3, _) => 4,
        _ => 3,
    };
    for x in vals {
        let keys: &[u128] = if comps == 4 { &KEYS } else { &KEYS[2..3] };
        for &key in keys {
            for place in 0..3 {
                if bits == T::K as u32 && place > 0 {
                    continue;
                }
                v.push((format!("{}/{}/uniform/{x}/{key:x}/{place}", P::NAME, T::TY), Box::new(move |r| uniform::<P, T>(r, T::of(x), key, if th && comps > 2 { bits + 1 } else { bits }, place))));
            }
        }
    }
    if comps == 3 && T::K == 8 {
        for x in if th { vec![0, 1, 127, 128, 255] } else { vec![131] } {
            let b = if th { 8 } else { 6 };
            v.push((format!("{}/{}/uniform-whole/{x}", P::NAME, T::TY), Box::new(move |r| uniform::<P, T>(r, T::of(x), 0, b, 0))));
        }
    }
    // all pairs of boundary draws, any value: the sharing is right whatever the draws are
    v.push((format!("{}/{}/boundary-draws", P::NAME, T::TY), Box::new(move |r| {
        let w = boundary(64);
        for x in boundary(T::K) {
            for key in KEYS {
                for i in 0..w.len() {
                    for j in 0..w.len() {
                        for k in 0..w.len() {
                            let pat = [w[i] as u64, w[j] as u64, w[k] as u64, w[(i + j) % w.len()] as u64, w[(j + k) % w.len()] as u64];
                            let (sh, _) = with_draws(Rc::new(move |n, _| pat[n % 5]), |r| P::deal(T::of(x), key, r));
                            let got = P::rec([&sh[0], &sh[1], &sh[2]], key).map_err(|e| format!("sharing of {x} under key {key:x} with draws {pat:x?}: {e}"))?;
                            if got.bits() != x {
                                return Err(format!("sharing of {x} under key {key:x} with draws {pat:x?} reconstructs to {}", got.bits()));
                            }
                            r.add("states", 1);
                            r.add("transitions", 1);
                        }
                    }
                }
                if P::NAME != "SpdzWise" {
                    break;
                }
            }
        }
        Ok(())
    })));
}

fn main() {
    let rep = Report::new("P08", "model_checking");
    let mut v: Vec<Job> = vec![];
    each_proto!(jobs, [u8, i8, u16, i16, u32, i32, u64, i64, u128], (rep, &mut v));
    run_jobs(rep, v);
    rep.note("rule", "one state = one sharing dealt with one assignment of the dealer's random draws; all draws of a whole ring (8 bits), or all values of b bits of each draw at the bottom, the middle and the top of the element; the contents of each party's share are counted and must all occur equally often");
    rep.assume("the dealer's random generator is ideal: its draws are independent and uniform");
    rep.finish_and_exit();
}
