//! P16: establishing the network for every order of starting and listing, with any one packet lost,
//! doubled or late, and configurations that must be refused.
use bytes::Bytes;
use futures::{SinkExt, StreamExt};
use iris_mpc::mc_hooks::PartyID;
use iris_mpc::prelude::{Aby3Network, Error, NetworkTrait};
use mc::quic::*;
use mc::report::*;
use mpc_net::config::{NetworkConfig, NetworkParty};
use mpc_net::MpcNetworkHandler;
use std::collections::HashMap;
use std::time::Duration;

fn text(from: usize, to: usize, round: usize) -> Bytes {
    format!("{from}>{to}#{round}").repeat(1 + round).into_bytes().into()
}
/// One party: joins after its delay, opens channels three times, exchanges messages on all of them.
async fn party(me: usize, ids: &[usize], c: NetworkConfig, delay: Duration, done: &tokio::sync::Barrier) -> Result<(), String> {
    let my = ids[me];
    let others: Vec<usize> = ids.iter().copied().filter(|i| *i != my).collect();
    tokio::time::sleep(delay).await;
    let mut h = MpcNetworkHandler::establish(c).await.map_err(|e| format!("party {my} cannot establish the network: {e:?}"))?;
    let a = h.get_byte_channels().await.map_err(|e| format!("party {my} gets no channels: {e}"))?;
    let b = h.get_serde_bincode_channels::<(u64, u64, String)>().await.map_err(|e| format!("party {my} gets no typed channels: {e}"))?;
    let c = h.get_byte_channels().await.map_err(|e| format!("party {my} gets no third channels: {e}"))?;
    fn keys<V>(m: &HashMap<usize, V>) -> Vec<usize> {
        let mut k: Vec<usize> = m.keys().copied().collect();
        k.sort_unstable();
        k
    }
    let mut want = others.clone();
    want.sort_unstable();
    for k in [keys(&a), keys(&b), keys(&c)] {
        if k != want {
            return Err(format!("party {my} has channels to {k:?}, its peers are {want:?}"));
        }
    }
    let (mut a, mut b, mut c) = (a, b, c);
    for to in &others {
        // the third set first: the channels are independent of each other
        c.get_mut(to).unwrap().send(text(my, *to, 2)).await.map_err(|e| format!("party {my} to {to}: {e}"))?;
        a.get_mut(to).unwrap().send(text(my, *to, 0)).await.map_err(|e| format!("party {my} to {to}: {e}"))?;
        b.get_mut(to).unwrap().send((my as u64, *to as u64, "typed".into())).await.map_err(|e| format!("party {my} to {to}: {e}"))?;
        a.get_mut(to).unwrap().send(text(my, *to, 3)).await.map_err(|e| format!("party {my} to {to}: {e}"))?;
    }
    for from in others.iter().rev() {
        for (ch, round) in [(0, 0), (2, 2), (0, 3)] {
            let x = if ch == 0 { a.get_mut(from).unwrap().next().await } else { c.get_mut(from).unwrap().next().await };
            match x {
                Some(Ok(x)) if x[..] == text(*from, my, round)[..] => {}
                x => return Err(format!("party {my} receives {x:?} on channel {ch} of {from} instead of {:?}", text(*from, my, round))),
            }
        }
        match b.get_mut(from).unwrap().next().await {
            Some(Ok((f, t, s))) if f == *from as u64 && t == my as u64 && s == "typed" => {}
            x => return Err(format!("party {my} receives {x:?} on the typed channel of {from}")),
        }
    }
    done.wait().await;
    drop((a, b, c));
    drop(h);
    Ok(())
}
/// Parties with these identities (by entry), listing orders and start delays; every one of them runs `party`.
fn mesh(rep: &Report, threads: usize, ids: &[usize], orders: &[Vec<usize>], delays: &[u64], faults: &[Fault]) -> Result<(), String> {
    mesh_of(rep, threads, ids, orders, delays, faults, false)
}
fn mesh_of(rep: &Report, threads: usize, ids: &[usize], orders: &[Vec<usize>], delays: &[u64], faults: &[Fault], apart: bool) -> Result<(), String> {
    beat();
    rep.add("states", 1);
    let all = parties(ids);
    let (mut configs, relays) = relayed(&all, orders, faults);
    if apart {
        // every machine binds what is its own local address, and is itself not reachable under its public one
        for (c, me) in configs.iter_mut().zip(&all) {
            for p in &mut c.parties {
                p.bind_addr = me.bind_addr;
                if p.id == me.id {
                    p.public_addr = std::net::SocketAddr::from(([127, 0, 0, 1], 9));
                }
            }
        }
    }
    let rt = if threads == 0 { current() } else { multi(threads) };
    let name = format!("identities {ids:?}, listed {orders:?}, started after {delays:?} ms, faults {faults:?}");
    let done = tokio::sync::Barrier::new(ids.len());
    let r = rt.block_on(async {
        let f = configs.into_iter().enumerate().map(|(i, c)| party(i, ids, c, Duration::from_millis(delays[i]), &done));
        // stops at the first failure
        within(75, "establishing the network and exchanging messages", futures::future::try_join_all(f)).await
    });
    for r in &relays {
        for d in 0..2 {
            rep.max("packets_one_way", r.counts[d].load(std::sync::atomic::Ordering::SeqCst) as u64);
        }
    }
    rep.add("transitions", (ids.len() * (ids.len() - 1) * 4) as u64);
    rt.shutdown_background();
    match r {
        Ok(Ok(_)) => Ok(()),
        Ok(Err(e)) | Err(e) => Err(format!("{name}: {e}")),
    }
}
/// The same through the three-party network: next and previous party are the right ones.
fn ring(rep: &Report, orders: &[Vec<usize>], delays: &[u64], entry: &[usize]) -> Result<(), String> {
    beat();
    rep.add("states", 1);
    let all = parties(entry);
    let rt = current();
    rt.block_on(async {
        let done = tokio::sync::Barrier::new(3);
        let f = (0..3).map(|i| {
            let c = config(&all, i, &orders[i]);
            let (id, done) = (entry[i], &done);
            async move {
                tokio::time::sleep(Duration::from_millis(delays[i])).await;
                let mut n = Aby3Network::new(c).await.map_err(|e| format!("party {id}: {e:?}"))?;
                n.send_next_id(text(id, (id + 1) % 3, 1)).await.map_err(|e| e.to_string())?;
                n.send_prev_id(text(id, (id + 2) % 3, 1)).await.map_err(|e| e.to_string())?;
                let p = n.receive_prev_id().await.map_err(|e| e.to_string())?;
                let q = n.receive_next_id().await.map_err(|e| e.to_string())?;
                if p[..] != text((id + 2) % 3, id, 1)[..] || q[..] != text((id + 1) % 3, id, 1)[..] {
                    return Err(format!("party {id}: previous party's message is {p:?}, next party's is {q:?}"));
                }
                done.wait().await;
                drop(n);
                Ok(())
            }
        });
        within(75, "the exchange", futures::future::try_join_all(f)).await?.map(|_| ())
    })
    .map_err(|e| format!("identities {entry:?}, listed {orders:?}: {e}"))
}
fn plain(id: usize, n: u16) -> NetworkParty {
    let a = std::net::SocketAddr::from(([127, 0, 0, 1], 9 + n));
    NetworkParty { id, dns_name: "x".into(), bind_addr: a, public_addr: a, cert_path: "/nonexistent/cert".into() }
}
/// All lists of identities up to a length, with every own identity: accepted exactly if fine.
fn lists(rep: &Report, max: usize) -> Result<(), String> {
    let ids = [0usize, 1, 2, 3, 7, usize::MAX];
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for k in ids {
                let mut l = all[i].clone();
                l.push(k);
                all.push(l);
            }
        }
        from = to;
    }
    let rt = current();
    for l in all {
        for my_id in ids {
            rep.add("lists", 1);
            let c = NetworkConfig { parties: l.iter().enumerate().map(|(n, i)| plain(*i, n as u16)).collect(), my_id, key_path: "/nonexistent/key".into() };
            let fine = l.contains(&my_id) && (0..l.len()).all(|i| !l[i + 1..].contains(&l[i]));
            if c.check_config().is_ok() != fine {
                return Err(format!("the list {l:?} for party {my_id} is {}", if fine { "refused" } else { "accepted" }));
            }
            if !fine && rt.block_on(MpcNetworkHandler::establish(c)).is_ok() {
                return Err(format!("a network is established from the list {l:?} for party {my_id}"));
            }
        }
    }
    Ok(())
}
/// Refused although everything else (certificates, ports) is right.
fn refused(rep: &Report) -> Result<(), String> {
    let rt = current();
    let all = parties(&[0, 1, 2, 3]);
    let dup = |i: usize, id: usize| { let mut v = all[..3].to_vec(); v[i].id = id; v };
    for (parties, my) in [(all[..3].to_vec(), 3), (all[..3].to_vec(), 7), (dup(1, 0), 0), (dup(2, 1), 1), (dup(2, 1), 0), (dup(0, 2), 2)] {
        rep.add("lists", 1);
        let c = NetworkConfig { parties, my_id: my, key_path: certs().join("key0.der") };
        match rt.block_on(within(20, "establishing a network that must be refused", MpcNetworkHandler::establish(c.clone())))? {
            Err(_) => {}
            Ok(_) => return Err(format!("a network is established from {c:?}")),
        }
        if rt.block_on(within(20, "a three-party network that must be refused", Aby3Network::new(c.clone())))?.is_ok() {
            return Err(format!("a three-party network is established from {c:?}"));
        }
    }
    // the three-party network needs exactly three parties and an identity below three
    for (ids, my) in [(vec![0], 0), (vec![0, 1], 0), (vec![0, 1], 1), (vec![0, 1, 2, 3], 0), (vec![1, 2, 3], 3), (vec![0, 1, 5], 5)] {
        let c = NetworkConfig { parties: ids.iter().enumerate().map(|(k, i)| { let mut p = all[k].clone(); p.id = *i; p }).collect(), my_id: my, key_path: certs().join("key0.der") };
        match rt.block_on(within(20, &format!("a three-party network of {ids:?} for {my}"), Aby3Network::new(c)))? {
            Err(_) => {}
            Ok(_) => return Err(format!("a three-party network is made of the parties {ids:?} for party {my}")),
        }
    }
    Ok(())
}
fn identities(rep: &Report) -> Result<(), String> {
    for i in (0..2000usize).chain([usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + 1, 256, 257, 258, 65536, 65537]) {
        rep.add("lists", 1);
        match PartyID::try_from(i) {
            Ok(p) if i < 3 && usize::from(p) == i => {
                if usize::from(p.next_id()) != (i + 1) % 3 || usize::from(p.prev_id()) != (i + 2) % 3 || p.next_id().prev_id() != p || format!("{p}") != i.to_string() {
                    return Err(format!("party {i} has the next party {} and the previous party {}", p.next_id(), p.prev_id()));
                }
            }
            Err(Error::IdError(k)) if i >= 3 && k == i => {}
            x => return Err(format!("the identity {i} becomes {x:?}")),
        }
    }
    for i in 0..=255u8 {
        match PartyID::try_from(i) {
            Ok(p) if i < 3 && usize::from(p) == i as usize => {}
            Err(_) if i >= 3 => {}
            x => return Err(format!("the identity {i} (u8) becomes {x:?}")),
        }
    }
    Ok(())
}

fn main() {
    let rep = Report::new("P16", "model_checking");
    let th = rep.thorough();
    certs();
    let mut v: Vec<Job> = vec![];
    let max = rep.pick(3, 4);
    v.push(("lists".into(), Box::new(move |r| lists(r, max))));
    v.push(("refused".into(), Box::new(refused)));
    v.push(("identities".into(), Box::new(identities)));
    let same = |n: usize, o: &Vec<usize>| vec![o.clone(); n];
    let p3 = permutations(3);
    // every party lists the parties in an order of its own
    for a in &p3 {
        let p3 = p3.clone();
        let a = a.clone();
        v.push((format!("listed/{a:?}").replace(' ', ""), Box::new(move |r| {
            for b in &p3 {
                for c in &p3 {
                    mesh(r, 0, &[0, 1, 2], &[a.clone(), b.clone(), c.clone()], &[0; 3], &[])?;
                }
            }
            Ok(())
        })));
    }
    // start orders and identities
    let sets: Vec<Vec<usize>> = vec![vec![0, 1], vec![7, 3], vec![0, 1, 2], vec![2, 0, 1], vec![1, 2, 0], vec![5, 1, 900], vec![4_000_000_000, 0, 65536], vec![0, 1, 2, 3], vec![3, 2, 1, 0], vec![10, 0, 7, 2]];
    for ids in sets {
        let n = ids.len();
        for gap in if th { vec![0, 5, 40, 200, 1500] } else { vec![5, 60] } {
            for start in permutations(n) {
                let rank: Vec<u64> = (0..n).map(|i| start.iter().position(|x| *x == i).unwrap() as u64 * gap).collect();
                let all = permutations(n);
                let few: Vec<Vec<usize>> = if n == 4 && !th { vec![all[0].clone(), all[23].clone(), all[9].clone()] } else { all };
                let (ids, n) = (ids.clone(), n);
                v.push((format!("started/{ids:?}/{gap}/{start:?}").replace(' ', ""), Box::new(move |r| few.iter().try_for_each(|o| mesh(r, 0, &ids, &same(n, o), &rank, &[])))));
            }
        }
    }
    // parties on machines of their own, which see each other under other addresses than their own
    for ids in [vec![0usize, 1], vec![0, 1, 2], vec![2, 0, 1], vec![5, 1, 900], vec![0, 1, 2, 3]] {
        for o in permutations(ids.len()) {
            let ids = ids.clone();
            v.push((format!("apart/{ids:?}/{o:?}").replace(' ', ""), Box::new(move |r| mesh_of(r, 0, &ids, &same(ids.len(), &o), &vec![0; ids.len()], &[], true))));
        }
    }
    // real parallelism
    for t in if th { vec![1, 2, 3, 4, 8] } else { vec![2, 4] } {
        for k in 0..rep.pick(4, 40) {
            let o = p3[k % 6].clone();
            v.push((format!("threads/{t}/{k}"), Box::new(move |r| (0..10).try_for_each(|_| mesh(r, t, &[0, 1, 2], &same(3, &o), &[0; 3], &[])))));
        }
    }
    // one packet (or a run of them) lost, doubled or late on the way between each two parties
    let fates: Vec<(Fate, usize)> = if th { vec![(Fate::Lost, 1), (Fate::Twice, 1), (Fate::Late(30), 1), (Fate::Late(200), 1), (Fate::Lost, 2), (Fate::Lost, 3), (Fate::Late(60), 3), (Fate::Twice, 30)] } else { vec![(Fate::Lost, 1), (Fate::Twice, 1), (Fate::Late(40), 1), (Fate::Lost, 2)] };
    for (client, server) in [(1, 0), (2, 0), (2, 1)] {
        for to_server in [true, false] {
            for nth in 0..rep.pick(14, 24) {
                for (fate, run) in fates.clone() {
                    let f = Fault { client, server, to_server, nth, run, fate };
                    v.push((format!("packet/{client}-{server}/{}/{nth}/{fate:?}x{run}", if to_server { "up" } else { "down" }), Box::new(move |r| mesh(r, 0, &[0, 1, 2], &same(3, &vec![0, 1, 2]), &[0; 3], &[f]))));
                }
            }
        }
    }
    for (k, e) in permutations(3).into_iter().enumerate() {
        let p3 = p3.clone();
        v.push((format!("ring/{e:?}").replace(' ', ""), Box::new(move |r| {
            for (i, o) in p3.iter().enumerate() {
                let d: Vec<u64> = o.iter().map(|x| *x as u64 * [0, 8, 30][(i + k) % 3]).collect();
                ring(r, &same(3, o), &d, &e)?;
            }
            Ok(())
        })));
    }
    run_jobs_on(rep, v, 24);
    remove_certs();
    rep.note("rule", "one state = one network of two to four parties over loopback with one assignment of identities, listing order, start order and fate of packets; every party exchanges messages with every other one on three sets of channels. The fate of each single packet between two parties is chosen by a relay; which packet is the n-th one and the schedule of the operating system are not controlled");
    rep.finish_and_exit();
}
