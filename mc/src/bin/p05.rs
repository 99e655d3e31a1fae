//! P05: one corrupted party.  Every message of a run, altered in many ways, one at a time (and in
//! pairs on short runs); honest parties end with the undisturbed results or with an error.
use mc::dev;
use mc::each_proto;
use mc::exec::*;
use mc::foresee;
use mc::net::*;
use mc::protos::*;
use mc::report::*;
use mc::scen::*;

/// The alterations tried on a message of `len` bytes.
fn menu(len: usize, dense: bool) -> Vec<Action> {
    let mut v = vec![Action::Zero, Action::Ones, Action::Duplicate];
    let bytes: Vec<usize> = if dense || len <= 16 { (0..len.min(64)).collect() } else { [0, 1, len / 3, len / 2, len - 2, len - 1].to_vec() };
    for b in bytes {
        if dense {
            v.extend((0..8).map(|i| Action::FlipBit(b * 8 + i)));
            v.push(Action::AddByte(b, 0xff));
        } else {
            v.push(Action::FlipBit(b * 8 + (b * 5 + 3) % 8));
            v.push(Action::AddByte(b, 1));
            if len <= 4 {
                v.extend((0..8).map(|i| Action::FlipBit(b * 8 + i)));
            }
        }
    }
    v.sort_by_key(|a| format!("{a:?}"));
    v.dedup();
    v
}

fn judge(ends: &[End<Result<Out, String>>; 3], bad: usize, want: &Out, stuck: bool) -> Option<String> {
    for p in 0..3 {
        if p == bad {
            continue;
        }
        match &ends[p] {
            End::Done(Ok(o)) if o == want => {}
            End::Done(Ok(o)) => return Some(format!("honest party {p} accepts {o:?}, the undisturbed result is {want:?}")),
            End::Done(Err(_)) => {}
            End::Panic(m) => return Some(format!("honest party {p} panics instead of reporting an error: {m}")),
            End::Blocked(m) => return Some(format!("honest party {p} hangs in {m}")),
            End::Crashed => return Some(format!("honest party {p} stopped")),
        }
    }
    let _ = stuck;
    None
}

fn base<P: Proto<T>, T: Num>(k: Kind, m: &Material<P, T>) -> Result<(Vec<(usize, usize, usize, usize)>, Out), String> {
    let w = World::new(Mode::Fast, 64);
    w.0.borrow_mut().record = true;
    own_entropy(31);
    let want = expect(k, m);
    let (ends, _) = run_fast(&w, build::<P, T>(k, m, true, &w));
    for e in &ends {
        if e.done() != Some(&Ok(want.clone())) {
            return Err(format!("the undisturbed run ends with {ends:?} instead of {want:?}"));
        }
    }
    let log = w.0.borrow().log.iter().map(|l| (l.0, l.1, l.2, l.3.len())).collect();
    Ok((log, want))
}

fn attack<P: Proto<T>, T: Num>(rep: &Report, k: Kind, m: &Material<P, T>, want: &Out, plan: &[((usize, usize, usize), Action)]) -> Result<(), String> {
    let w = World::new(Mode::Fast, 64);
    {
        let mut i = w.0.borrow_mut();
        for (key, a) in plan {
            i.tamper.insert(*key, a.clone());
        }
    }
    own_entropy(31);
    let (ends, info) = run_fast(&w, build::<P, T>(k, m, true, &w));
    rep.add("evaluations", 1);
    if info.tampered == 0 {
        rep.add("without_effect_on_the_wire", 1);
        return Ok(());
    }
    rep.add("distinct_nontrivial", 1);
    let bad = plan[0].0 .0;
    if (0..3).any(|p| p != bad && matches!(ends[p], End::Done(Err(_)))) {
        rep.add("detected_by_an_honest_party", 1);
    } else {
        rep.add("harmless", 1);
    }
    match judge(&ends, bad, want, info.stuck) {
        None => Ok(()),
        Some(s) => Err(format!("{k:?} with party {bad} corrupted, {}: {s}", plan.iter().map(|((f, t, i), a)| format!("message {i} from {f} to {t} altered by {a:?}")).collect::<Vec<_>>().join(" and "))),
    }
}

fn jobs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>, kinds: &[Kind]) {
    if !P::MALICIOUS {
        return;
    }
    let th = rep.thorough();
    for &k in kinds {
        let probe = base::<P, T>(k, &Material::<P, T>::new(k, 13));
        let log = match probe {
            Ok((l, _)) => l,
            Err(e) => {
                v.push((format!("{}/{}/{k:?}/undisturbed", P::NAME, T::TY), Box::new(move |_| Err(e.clone()))));
                continue;
            }
        };
        let heavy = matches!(k, Kind::Msb | Kind::MsbMany(_) | Kind::Or | Kind::OrReduce(..) | Kind::Mixed | Kind::Query(..)) && P::NAME != "MalAby3";
        let dense = !heavy && (th || matches!(k, Kind::Open | Kind::OpenBit | Kind::Mul));
        for (n, (f, t, i, len)) in log.iter().cloned().enumerate() {
            if let Kind::Input(d) = k {
                // what a corrupted dealer says is its own business
                if d == f {
                    continue;
                }
            }
            if let Kind::NewKey = k {
                continue;
            }
            if heavy && !th && n % 3 != 0 {
                continue;
            }
            v.push((format!("{}/{}/{k:?}/{f}-{t}-{i}", P::NAME, T::TY), Box::new(move |r| {
                let m = Material::<P, T>::new(k, 13);
                let want = expect(k, &m);
                let mut acts = menu(len, dense);
                if heavy && !th {
                    let n = acts.len();
                    acts = acts.into_iter().step_by((n / 3).max(1)).collect();
                }
                for a in acts {
                    attack::<P, T>(r, k, &m, &want, &[((f, t, i), a)])?;
                }
                Ok(())
            })));
        }
    }
}

/// Large batches: every long message, altered at places all over it.
fn large<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>, kinds: &[Kind]) {
    if !P::MALICIOUS {
        return;
    }
    let th = rep.thorough();
    for &k in kinds {
        v.push((format!("{}/{}/{k:?}/large", P::NAME, T::TY), Box::new(move |r| {
            let m = Material::<P, T>::new(k, 13);
            let (log, want) = base::<P, T>(k, &m)?;
            let longest = log.iter().map(|l| l.3).max().unwrap_or(0);
            // every message of the batch's size of one party, and every other one of the other two
            for (n, (f, t, i, len)) in log.into_iter().filter(|l| l.3 * 4 >= longest.min(2048)).enumerate() {
                if !th && n % 2 != 0 && !matches!(k, Kind::OpenWide(_)) {
                    continue;
                }
                let cheap = matches!(k, Kind::OpenWide(_));
                for b in if cheap { (0..32).map(|j| len * j / 32).chain([len - 1]).collect() } else if th { vec![len - 1, len / 2, len / 3, len / 4 * 3, len - len / 8, 0] } else { vec![len - 1, len / 2] } {
                    attack::<P, T>(r, k, &m, &want, &[((f, t, i), Action::FlipBit(b * 8 + 1))])?;
                }
            }
            Ok(())
        })));
    }
}

/// All pairs of altered messages of the same sender on the short runs.
fn pairs<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>, kinds: &[Kind]) {
    if !P::MALICIOUS {
        return;
    }
    for &k in kinds {
        let Ok((log, _)) = base::<P, T>(k, &Material::<P, T>::new(k, 13)) else { continue };
        for f in 0..3 {
            let mine: Vec<_> = log.iter().filter(|l| l.0 == f).cloned().collect();
            for x in 0..mine.len() {
                let mine = mine.clone();
                v.push((format!("{}/{}/{k:?}/pairs/{f}-{x}", P::NAME, T::TY), Box::new(move |r| {
                    let m = Material::<P, T>::new(k, 13);
                    let want = expect(k, &m);
                    for y in x + 1..mine.len() {
                        let (a, b) = (mine[x], mine[y]);
                        // the same change in both, changes that cancel, and unrelated ones
                        for (p, q) in [(Action::FlipBit(0), Action::FlipBit(0)), (Action::AddByte(0, 1), Action::AddByte(0, 0xff)), (Action::Zero, Action::Zero), (Action::FlipBit(3), Action::Ones)] {
                            attack::<P, T>(r, k, &m, &want, &[((a.0, a.1, a.2), p), ((b.0, b.1, b.2), q)])?;
                        }
                    }
                    Ok(())
                })));
            }
        }
    }
    let _ = rep;
}

/// One party takes another random word than it should, once, and goes on honestly with it.
fn deviate<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>, kinds: &[Kind]) {
    if !P::MALICIOUS {
        return;
    }
    let th = rep.thorough();
    for &k in kinds {
        if !verifies::<P, T>() && !matches!(k, Kind::Setup | Kind::Open | Kind::OpenBit | Kind::Input(_)) {
            continue;
        }
        let heavy = matches!(k, Kind::Msb | Kind::MsbMany(_) | Kind::Or | Kind::OrReduce(..) | Kind::Mixed | Kind::Query(..));
        for bad in 0..3 {
            if k == Kind::Input(bad) {
                continue;
            }
            v.push((format!("{}/{}/{k:?}/deviate/{bad}", P::NAME, T::TY), Box::new(move |r| {
                let m = Material::<P, T>::new(k, 13);
                let want = expect(k, &m);
                let once = |at: &[(dev::Draw, dev::Delta)]| {
                    let w = World::new(Mode::Fast, 64);
                    own_entropy(31);
                    dev::with_deviation(bad, at, || run_fast(&w, build::<P, T>(k, &m, true, &w)))
                };
                let (base, list) = {
                    let w = World::new(Mode::Fast, 64);
                    own_entropy(31);
                    dev::draws(|| run_fast(&w, build::<P, T>(k, &m, true, &w)))
                };
                for e in &base.0 {
                    if e.done() != Some(&Ok(want.clone())) {
                        return Err(format!("the undisturbed run ends with {:?} instead of {want:?}", base.0));
                    }
                }
                // what only this party draws is its own choice
                let mut mine: Vec<_> = list.into_iter().filter(|d| d.1 >> bad & 1 == 1 && d.1 != 1 << bad).collect();
                r.max("draws_in_a_run", mine.len() as u64);
                let cap = match (heavy, th) { (true, false) => 24, (true, true) => 160, (false, false) => 80, (false, true) => 600 };
                if mine.len() > cap {
                    let n = mine.len();
                    // spread over the run, and both ends completely
                    let (head, tail) = (cap / 3, cap / 3);
                    let mid: Vec<_> = (0..cap - head - tail).map(|i| mine[head + i * (n - head - tail) / (cap - head - tail)]).collect();
                    let mut keep: Vec<_> = mine[..head].to_vec();
                    keep.extend(mid);
                    keep.extend_from_slice(&mine[n - tail..]);
                    mine = keep;
                }
                for (d, _, bytes) in mine {
                    let mut ds = dev::deltas(bytes, T::K, th);
                    if heavy && !th {
                        ds.truncate(2);
                    }
                    for de in ds {
                        let (ends, info) = once(&[(d, de)]);
                        r.add("evaluations", 1);
                        r.add("consistent_deviations", 1);
                        let detected = (0..3).any(|p| p != bad && matches!(ends[p], End::Done(Err(_))));
                        r.add(if detected { "detected_by_an_honest_party" } else { "harmless" }, 1);
                        if let Some(s) = judge(&ends, bad, &want, info.stuck) {
                            return Err(format!("{k:?} with party {bad} drawing another word at {}... position {} ({de:?}): {s}", d.0[..4].iter().map(|b| format!("{b:02x}")).collect::<String>(), d.1));
                        }
                    }
                }
                Ok(())
            })));
        }
    }
}

/// One party takes two other random words than it should, with changes that cancel or agree.
fn deviate_twice<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>, kinds: &[Kind]) {
    if !P::MALICIOUS || !verifies::<P, T>() {
        return;
    }
    let th = rep.thorough();
    for &k in kinds {
        let shared = move |bad: usize| {
            let m = Material::<P, T>::new(k, 13);
            let w = World::new(Mode::Fast, 64);
            own_entropy(31);
            let (base, list) = dev::draws(|| run_fast(&w, build::<P, T>(k, &m, true, &w)));
            let mut mine: Vec<_> = list.into_iter().filter(|d| d.1 >> bad & 1 == 1 && d.1 != 1 << bad).collect();
            if P::NAME != "Swift3" && mine.iter().any(|d| d.2 == 8) {
                // ring elements, not bytes of seeds
                mine.retain(|d| d.2 == 8);
            }
            let cap = if th { 64 } else { 24 };
            if mine.len() > cap {
                mine = mine.split_off(mine.len() - cap);
            }
            (base, mine)
        };
        for bad in 0..3 {
            let n = shared(bad).1.len();
            for x in 0..n {
                v.push((format!("{}/{}/{k:?}/deviate twice/{bad}/{x}", P::NAME, T::TY), Box::new(move |r| {
                    let m = Material::<P, T>::new(k, 13);
                    let want = expect(k, &m);
                    let (base, mine) = shared(bad);
                    for e in &base.0 {
                        if e.done() != Some(&Ok(want.clone())) {
                            return Err(format!("the undisturbed run ends with {:?} instead of {want:?}", base.0));
                        }
                    }
                    for y in x + 1..mine.len() {
                        let (a, b) = (mine[x].0, mine[y].0);
                        let mut ds = vec![(dev::Delta::Add(1), dev::Delta::Add(u64::MAX)), (dev::Delta::Add(1), dev::Delta::Add(1))];
                        if k.multiplies() == false {
                            ds = vec![(dev::Delta::Xor(1), dev::Delta::Xor(1)), (dev::Delta::Xor(1 << 31), dev::Delta::Xor(1 << 31))];
                        }
                        if th {
                            ds.extend([(dev::Delta::Add(3), dev::Delta::Add(3u64.wrapping_neg())), (dev::Delta::Xor(1 << 31), dev::Delta::Xor(1 << 31)), (dev::Delta::Add(1), dev::Delta::Add(2))]);
                        }
                        for (p, q) in ds {
                            let w = World::new(Mode::Fast, 64);
                            own_entropy(31);
                            let (ends, info) = dev::with_deviation(bad, &[(a, p), (b, q)], || run_fast(&w, build::<P, T>(k, &m, true, &w)));
                            r.add("evaluations", 1);
                            r.add("consistent_deviations_in_two_words", 1);
                            if let Some(s) = judge(&ends, bad, &want, info.stuck) {
                                return Err(format!("{k:?} with party {bad} drawing two other words, shared draws {x} ({p:?}) and {y} ({q:?}) of the run: {s}"));
                            }
                        }
                    }
                    Ok(())
                })));
            }
        }
    }
}

/// Changes that cancel, in two gates of a large batch at many distances: factors that come round again
/// would let them pass.
fn deviate_far<P: Proto<T>, T: Num>(rep: &'static Report, v: &mut Vec<Job>, k: Kind) {
    let th = rep.thorough();
    for bad in 0..3 {
        for part in 0..2 {
            v.push((format!("{}/{}/{k:?}/deviate far/{bad}/{part}", P::NAME, T::TY), Box::new(move |r| {
                let m = Material::<P, T>::new(k, 13);
                let want = expect(k, &m);
                let w = World::new(Mode::Fast, 64);
                own_entropy(31);
                let (base, list) = dev::draws(|| run_fast(&w, build::<P, T>(k, &m, true, &w)));
                for e in &base.0 {
                    if e.done() != Some(&Ok(want.clone())) {
                        return Err(format!("the undisturbed run ends with {:?} instead of {want:?}", base.0));
                    }
                }
                // the words that this party draws with one other, per stream
                let mut streams: Vec<([u8; 32], Vec<dev::Draw>)> = vec![];
                for d in list.iter().filter(|d| d.1 >> bad & 1 == 1 && d.1.count_ones() == 2 && d.2 == 8) {
                    match streams.iter_mut().find(|s| s.0 == d.0 .0) {
                        Some(s) => s.1.push(d.0),
                        None => streams.push((d.0 .0, vec![d.0])),
                    }
                }
                streams.retain(|s| s.1.len() > 1000);
                r.max("words_of_a_stream", streams.iter().map(|s| s.1.len()).max().unwrap_or(0) as u64);
                if streams.is_empty() {
                    r.add("attack_does_not_fit_the_messages", 1);
                    return Ok(());
                }
                let far: Vec<usize> = if th { (1..1024).collect() } else { vec![1, 2, 64, 100, 128, 256, 512, 720, 840, 960, 1000, 1008, 1024] };
                for (_, s) in streams {
                    for x in if th { vec![0, 1, s.len() / 3] } else { vec![part * (s.len() / 3)] } {
                        for d in far.iter().skip(part * th as usize).step_by(1 + th as usize) {
                            if x + d >= s.len() {
                                continue;
                            }
                            let w = World::new(Mode::Fast, 64);
                            own_entropy(31);
                            let at = [(s[x], dev::Delta::Add(1)), (s[x + d], dev::Delta::Add(u64::MAX))];
                            let (ends, info) = dev::with_deviation(bad, &at, || run_fast(&w, build::<P, T>(k, &m, true, &w)));
                            r.add("evaluations", 1);
                            r.add("consistent_deviations_in_two_words", 1);
                            let detected = (0..3).any(|p| p != bad && matches!(ends[p], End::Done(Err(_))));
                            r.add(if detected { "detected_by_an_honest_party" } else { "harmless" }, 1);
                            if let Some(s) = judge(&ends, bad, &want, info.stuck) {
                                return Err(format!("{k:?} with party {bad} drawing two other words, the {x}th of a stream (+1) and the one {d} later (-1): {}", s.chars().take(300).collect::<String>()));
                            }
                        }
                    }
                }
                Ok(())
            })));
        }
    }
}

fn main() {
    let rep = Report::new("P05", "fault_enumeration");
    let mut v: Vec<Job> = vec![];
    let ks = [Kind::Setup, Kind::Open, Kind::OpenMany, Kind::OpenBit, Kind::OpenBitMany, Kind::Input(0), Kind::Input(1), Kind::Input(2), Kind::Mul, Kind::MulTwice, Kind::Dot, Kind::DotMany, Kind::Msb, Kind::MsbMany(3), Kind::Or, Kind::OrReduce(5, 2), Kind::Mixed];
    each_proto!(jobs, [u16], (rep, &mut v, &ks));
    each_proto!(pairs, [u16], (rep, &mut v, &[Kind::Open, Kind::OpenBit, Kind::Mul]));
    each_proto!(deviate, [u16], (rep, &mut v, &ks));
    each_proto!(deviate, [u8, u32, u64], (rep, &mut v, &[Kind::Input(0), Kind::Input(1), Kind::Input(2), Kind::Mul, Kind::Dot]));
    each_proto!(deviate_twice, [u16], (rep, &mut v, &[Kind::Mul, Kind::DotMany, Kind::MulTwice]));
    deviate_far::<PSpdz, u16>(rep, &mut v, Kind::DotWide(1025));
    deviate_far::<PMal, u16>(rep, &mut v, Kind::DotWide(1025));
    for n in if rep.thorough() { vec![1025, 5000] } else { vec![1025] } {
        let ks = [Kind::OrReduce(n, n), Kind::DotWide(n), Kind::MsbMany(n)];
        large::<PSpdz, u16>(rep, &mut v, &ks);
        large::<PMal, u16>(rep, &mut v, &ks);
        large::<PSpdz, u16>(rep, &mut v, &[Kind::OpenWide(n)]);
        large::<PMal, u16>(rep, &mut v, &[Kind::OpenWide(n)]);
        large::<PSwift, u16>(rep, &mut v, &[Kind::OpenWide(n)]);
        // its verification of many arithmetic gates takes minutes
        large::<PSwift, u16>(rep, &mut v, &ks[..1]);
        large::<PSwift, u16>(rep, &mut v, &[Kind::DotWide(n / 16)]);
    }
    for bad in 0..3 {
        for k in [Kind::Mul, Kind::Dot, Kind::DotMany] {
            v.insert(0, (format!("MalAby3/u16/{k:?}/foreseen ratio/{bad}"), Box::new(move |r| foresee::ratios::<PMal, u16>(r, k, bad))));
        }
        v.insert(0, (format!("SpdzWise/u16/foreseen permutation/{bad}"), Box::new(move |r| foresee::buckets::<u16>(r, bad))));
    }
    v.insert(0, ("MalAby3/u16/Or/foreseen ratio/0".into(), Box::new(|r| foresee::ratios::<PMal, u16>(r, Kind::Or, 0))));
    // the longest cases first
    for g in [foresee::Gate::And, foresee::Gate::Mul, foresee::Gate::Dot] {
        for several in [false, true] {
            if g != foresee::Gate::And || !several {
                v.insert(0, (format!("Swift3/u16/foreseen point/{g:?}/{several}"), Box::new(move |r| foresee::betas::<u16>(r, g, several))));
            }
        }
        if g != foresee::Gate::Dot || rep.thorough() {
            v.insert(0, (format!("Swift3/u16/foreseen thetas/{g:?}"), Box::new(move |r| {
                // a dot product over thousands of columns takes minutes to verify
                PATIENCE.with(|p| p.set(if g == foresee::Gate::Dot { 1800 } else { 0 }));
                let res = foresee::thetas::<u16>(r, g);
                PATIENCE.with(|p| p.set(0));
                res
            })));
        }
    }
    deviate_twice::<PSwift, u16>(rep, &mut v, &[Kind::OrReduce(5, 2), Kind::Msb]);
    run_jobs(rep, v);
    rep.note("rule", "one evaluation = one complete three-party run of the real code with one (or two) messages of one party altered; it is nontrivial when the delivered bytes differ from the sent ones");
    rep.assume("a corrupted party deviates in what it sends; detection is statistical where the protocols are (soundness error at most 2^-40 per check), so an undetected random hit is not expected within the runs made");
    rep.finish_and_exit();
}
