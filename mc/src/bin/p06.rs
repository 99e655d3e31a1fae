//! P06: a party that stops at any point, and messages that arrive with a wrong length.
use mc::each_proto;
use mc::exec::*;
use mc::net::*;
use mc::protos::*;
use mc::report::*;
use mc::scen::*;

struct Fault {
    crash: [Option<usize>; 3],
    tamper: Vec<((usize, usize, usize), Action)>,
    send_fails: bool,
}

fn run<P: Proto<T>, T: Num>(rep: &Report, k: Kind, m: &Material<P, T>, want: &Out, verify: bool, f: &Fault) -> Result<(), String> {
    let w = World::new(Mode::Fast, 64);
    {
        let mut i = w.0.borrow_mut();
        i.crash = f.crash;
        i.send_to_closed_fails = f.send_fails;
        for (k, a) in &f.tamper {
            i.tamper.insert(*k, a.clone());
        }
    }
    own_entropy(47);
    let (ends, info) = run_fast(&w, build::<P, T>(k, m, verify, &w));
    rep.add("evaluations", 1);
    if f.tamper.is_empty() || info.tampered > 0 {
        rep.add("distinct_nontrivial", 1);
    }
    let desc = || {
        let mut s = vec![];
        for p in 0..3 {
            if let Some(n) = f.crash[p] {
                s.push(format!("party {p} stops after {n} network operations (sending to a closed link {})", if f.send_fails { "fails" } else { "is swallowed" }));
            }
        }
        for ((a, b, i), x) in &f.tamper {
            s.push(format!("message {i} from {a} to {b}: {x:?}"));
        }
        format!("{k:?}: {}", s.join("; "))
    };
    for p in 0..3 {
        match &ends[p] {
            End::Done(Ok(o)) if o == want => rep.add("correct_result", 1),
            End::Done(Ok(o)) => return Err(format!("{}: party {p} returns {o:?}, the right result is {want:?}", desc())),
            End::Done(Err(_)) => rep.add("reported_an_error", 1),
            End::Panic(m) => return Err(format!("{}: party {p} panics: {m}", desc())),
            End::Blocked(m) => return Err(format!("{}: party {p} waits forever in {m}", desc())),
            End::Crashed => {
                if f.crash[p].is_none() {
                    return Err(format!("{}: party {p} stopped", desc()));
                }
            }
        }
    }
    if info.stuck {
        return Err(format!("{}: the remaining parties wait for each other although every party involved with the fault has closed its connections", desc()));
    }
    Ok(())
}

fn jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>, kinds: &[Kind]) {
    let th = rep.thorough();
    for &k in kinds {
        if P::NAME == "MalAby3" && T::K > 24 && matches!(k, Kind::Mul | Kind::DotMany | Kind::MulTwice | Kind::Dot | Kind::Mixed) {
            // its checks need 40 spare bits in the wider ring
            continue;
        }
        if P::NAME == "Swift3" && T::K > 32 {
            continue;
        }
        if !th && P::NAME == "SpdzWise" && matches!(k, Kind::Msb | Kind::MsbMany(_) | Kind::Or) {
            // Mixed and OrReduce take the same steps
            continue;
        }
        let m = Material::<P, T>::new(k, 13);
        let want = expect(k, &m);
        let w = World::new(Mode::Fast, 64);
        w.0.borrow_mut().record = true;
        own_entropy(47);
        let (ends, info) = run_fast(&w, build::<P, T>(k, &m, true, &w));
        if ends.iter().any(|e| e.done() != Some(&Ok(want.clone()))) || info.stuck {
            let e = format!("the undisturbed run ends with {ends:?} instead of {want:?}");
            v.push((format!("{}/{}/{k:?}/undisturbed", P::NAME, T::TY), Box::new(move |_| Err(e.clone()))));
            continue;
        }
        let log: Vec<_> = w.0.borrow().log.iter().map(|l| (l.0, l.1, l.2, l.3.len())).collect();
        // runs that cost 50 ms and more each
        let swift_heavy = matches!(P::NAME, "Swift3" | "SpdzWise") && matches!(k, Kind::Mixed | Kind::Msb | Kind::MsbMany(_) | Kind::Query(..) | Kind::Or | Kind::OrReduce(..));
        for p in 0..3 {
            let ops = info.ops[p];
            let name = format!("{}/{}/{k:?}/stop-{p}", P::NAME, T::TY);
            v.push((name, Box::new(move |r| {
                let m = Material::<P, T>::new(k, 13);
                let want = expect(k, &m);
                for n in 0..ops {
                    for send_fails in [false, true] {
                        if send_fails && !th && (swift_heavy || matches!(k, Kind::FullQuery(..))) && n % 3 != 1 {
                            continue;
                        }
                        let mut crash = [None; 3];
                        crash[p] = Some(n);
                        run::<P, T>(r, k, &m, &want, true, &Fault { crash, tamper: vec![], send_fails })?;
                    }
                }
                Ok(())
            })));
        }
        for (n, (f, t, i, len)) in log.into_iter().enumerate() {
            if matches!(k, Kind::FullQuery(..)) && !th && n % 8 != 3 {
                continue;
            }
            let name = format!("{}/{}/{k:?}/length-{f}-{t}-{i}", P::NAME, T::TY);
            v.push((name, Box::new(move |r| {
                let m = Material::<P, T>::new(k, 13);
                let want = expect(k, &m);
                let mut acts = vec![Action::Empty, Action::Extend(1), Action::Truncate(1)];
                if swift_heavy && !th && n % 3 != 0 {
                    acts = vec![acts[n % 3].clone()];
                }
                if matches!(k, Kind::FullQuery(..)) {
                    acts.truncate(r.pick(1, 3));
                } else if !swift_heavy || th {
                    acts.extend([Action::Extend(len.max(1)), Action::Extend(7), Action::Truncate(len / 2), Action::Duplicate]);
                    if len > 1 {
                        acts.push(Action::Truncate(len - 1));
                    }
                    if th || len <= 32 {
                        acts.extend((2..len.min(64)).map(Action::Truncate));
                        acts.extend((2..len.min(24)).map(Action::Extend));
                    }
                }
                for a in acts {
                    // repeating a message is only excluded where somebody checks
                    if a == Action::Duplicate && !P::MALICIOUS {
                        continue;
                    }
                    run::<P, T>(r, k, &m, &want, true, &Fault { crash: [None; 3], tamper: vec![((f, t, i), a)], send_fails: false })?;
                }
                Ok(())
            })));
        }
    }
}

fn main() {
    let rep = Report::new("P06", "fault_enumeration");
    let mut v: Vec<Job> = vec![];
    let ks = [Kind::Setup, Kind::Open, Kind::OpenMany, Kind::OpenBit, Kind::OpenBitMany, Kind::Input(0), Kind::Input(1), Kind::Input(2), Kind::Mul, Kind::MulTwice, Kind::Dot, Kind::DotMany, Kind::Msb, Kind::MsbMany(3), Kind::Or, Kind::OrReduce(5, 2), Kind::Mixed];
    each_proto!(jobs, [u16], (rep, &mut v, &ks));
    let few = [Kind::OpenMany, Kind::OpenBitMany, Kind::Input(1), Kind::Mul, Kind::DotMany];
    each_proto!(jobs, [u8, i32], (rep, &mut v, &few));
    each_proto!(jobs, [u16], (rep, &mut v, &[Kind::FullQuery(2, 1)]));
    if rep.thorough() {
        each_proto!(jobs, [u32], (rep, &mut v, &ks));
        each_proto!(jobs, [u16], (rep, &mut v, &[Kind::FullQuery(3, 2)]));
    }
    run_jobs(rep, v);
    rep.note("rule", "one evaluation = one complete three-party run with one party stopping at one point, or one message of wrong length; the faulted run is nontrivial when the fault really happened");
    rep.assume("a closed connection is seen by its peer (the network reports it); a party that is silent without closing cannot be told from a slow one");
    rep.finish_and_exit();
}
