//! P04: every schedule of the three parties' network operations ends with the same results.
use mc::each_proto;
use mc::exec::*;
use mc::protos::*;
use mc::report::*;
use mc::scen::*;

/// Proof-heavy scenarios: a bounded number of departures from each strict priority order.
fn heavy<P: Proto<T>, T: Num>(k: Kind, verify: bool) -> bool {
    let gates = matches!(k, Kind::Msb | Kind::MsbMany(_) | Kind::Or | Kind::OrReduce(..) | Kind::Mixed | Kind::Query(..));
    matches!(k, Kind::FullQuery(..)) && P::NAME != "Aby3" || verify && gates && P::NAME != "MalAby3"
}

fn jobs<P: Proto<T>, T: Num>(th: bool, v: &mut Vec<Job>, kinds: &[Kind], caps: &[usize], long: bool) {
    for &k in kinds {
        if !multiplies::<P, T>() && k.multiplies() {
            continue;
        }
        for verify in [false, true] {
            if verify && (!P::MALICIOUS || !verifies::<P, T>() || matches!(k, Kind::FullQuery(..))) {
                continue;
            }
            // Swift3's proofs cost more than linear time in the number of gates
            if verify && P::NAME == "Swift3" && matches!(k, Kind::MsbMany(n) | Kind::DotWide(n) if n > if th { 33 } else { 17 }) || verify && P::NAME == "Swift3" && matches!(k, Kind::OrReduce(n, _) if n > 1025) {
                continue;
            }
            for &cap in caps {
                let case = format!("{}/{}/{k:?}{}/cap{cap}", P::NAME, T::TY, if verify { "+verify" } else { "" });
                if heavy::<P, T>(k, verify) || long {
                    for order in [[0u8, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
                        if !th && cap == 3 {
                            continue;
                        }
                        v.push((format!("{case}/order{order:?}"), Box::new(move |r| one::<P, T>(r, k, verify, cap, 400_000, Some(((th && !long) as usize, order))))));
                    }
                } else {
                    v.push((case, Box::new(move |r| one::<P, T>(r, k, verify, cap, if th { 400_000 } else { 60_000 }, None))));
                }
            }
        }
    }
}

fn one<P: Proto<T>, T: Num>(rep: &Report, k: Kind, verify: bool, cap: usize, max: u64, bound: Option<(usize, [u8; 3])>) -> Result<(), String> {
    let m = Material::<P, T>::new(k, 11);
    let want = expect(k, &m);
    let (st, viol) = explore(
        cap,
        bound,
        max,
        &[],
        [None; 3],
        |w| {
            own_entropy(21);
            build::<P, T>(k, &m, verify, w)
        },
        |ends| {
            for (p, e) in ends.iter().enumerate() {
                match e {
                    End::Done(Ok(o)) if *o == want => {}
                    End::Done(Ok(o)) => return Some(format!("party {p} obtains {o:?} instead of {want:?}")),
                    e => return Some(format!("party {p}: {e:?}")),
                }
            }
            None
        },
    );
    rep.add("states", st.states);
    rep.add("transitions", st.transitions);
    rep.add("schedules_run_on_the_code", st.executions);
    rep.add("traces_validated_against_impl", st.executions);
    rep.add("complete_executions_judged", st.terminals);
    rep.max("max_depth", st.max_depth as u64);
    if !st.complete {
        rep.add("capped_cases", 1);
    }
    match viol {
        Some(v) => Err(format!("after the schedule {} (party per network operation): {}", v.schedule.iter().map(|c| c.to_string()).collect::<String>(), v.what)),
        None => Ok(()),
    }
}

fn main() {
    let rep = Report::new("P04", "model_checking");
    let th = rep.thorough();
    let mut v: Vec<Job> = vec![];
    let ks = [Kind::Setup, Kind::NewKey, Kind::Open, Kind::OpenMany, Kind::OpenBit, Kind::OpenBitMany, Kind::Input(0), Kind::Input(1), Kind::Input(2), Kind::Mul, Kind::MulTwice, Kind::Dot, Kind::DotMany, Kind::Mixed, Kind::Msb, Kind::MsbMany(3), Kind::Or, Kind::OrReduce(5, 2), Kind::Query(4, 2)];
    let caps: &[usize] = if th { &[2, 3, 4, 8, 64] } else { &[2, 3, 8] };
    each_proto!(jobs, [u16], (th, &mut v, &ks, caps, false));
    each_proto!(jobs, [u16], (th, &mut v, &[Kind::FullQuery(2, 1)], caps, false));
    // other widths (quick: one schedule per priority order), and lengths around words and powers of two
    each_proto!(jobs, [u8, u32, u64, u128], (th, &mut v, &ks, if th { caps } else { &[2] }, !th));
    let mut long: Vec<Kind> = vec![];
    for n in if th { vec![7, 8, 9, 16, 17, 63, 64, 65, 127, 128, 129, 200, 256, 257, 511, 512, 513, 1024, 1025] } else { vec![9, 17, 64, 65, 129, 257] } {
        long.push(Kind::MsbMany(n));
        for c in if th { vec![1, 2, 3, 7, 64, 128, 1000] } else { vec![1, 3, 64] } {
            if n <= 300 * c {
                long.push(Kind::OrReduce(n, c));
                if th {
                    long.push(Kind::Query(n, c));
                }
            }
        }
    }
    // large batches
    for n in if th { vec![1025, 4097, 12800, 40000] } else { vec![1025, 4097] } {
        long.extend([Kind::DotWide(n), Kind::MsbMany(n), Kind::OrReduce(n, n)]);
    }
    each_proto!(jobs, [u16], (th, &mut v, &long, &[2], true));
    each_proto!(jobs, [u16], (th, &mut v, &[Kind::FullQuery(1, 1), Kind::FullQuery(3, 2), Kind::FullQuery(4, 4), Kind::FullQuery(5, 3)], &[2], true));
    run_jobs(rep, v);
    rep.note("rule", "one state = the three parties' own histories of network operations plus link contents; a transition = one party performs its next send or receive; alternatives are reached by re-running the real code along the schedule");
    rep.assume("links are reliable FIFO queues of the given capacity per ordered pair; computation between two network operations is atomic");
    rep.finish_and_exit();
}
