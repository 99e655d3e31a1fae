//! P20: the real transport over loopback: lengths, bursts, shutdown behind the last send.
use bytes::Bytes;
use iris_mpc::prelude::{Aby3Network, NetworkTrait};
use mc::quic::*;
use mc::report::*;

const LIMIT: usize = 8 << 20;

fn data(from: usize, i: usize, len: usize) -> Bytes {
    let mut x = (from * 1_000_003 + i * 7919 + len) as u32 | 1;
    (0..len)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            x as u8
        })
        .collect::<Vec<u8>>()
        .into()
}
async fn mesh(order: &[usize]) -> Result<Vec<Aby3Network>, String> {
    let all = parties(&[0, 1, 2]);
    mesh_of((0..3).map(|i| config(&all, i, order)).collect()).await
}
async fn mesh_of(configs: Vec<mpc_net::config::NetworkConfig>) -> Result<Vec<Aby3Network>, String> {
    let f = configs.into_iter().map(Aby3Network::new);
    let r = within(60, "establishing the network", futures::future::join_all(f)).await?;
    let bad: Vec<String> = r.iter().enumerate().filter_map(|(i, x)| x.as_ref().err().map(|e| format!("party {i}: {e:?}"))).collect();
    if !bad.is_empty() {
        return Err(format!("no network: {}", bad.join("; ")));
    }
    Ok(r.into_iter().map(|x| x.unwrap_or_else(|_| unreachable!())).collect())
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum By {
    Id,
    Neighbour,
}
async fn send(n: &mut Aby3Network, to: usize, d: Bytes, by: By) -> std::io::Result<()> {
    let me = n.get_id();
    match by {
        By::Id => n.send(to, d).await,
        By::Neighbour if (me + 1) % 3 == to => n.send_next_id(d).await,
        By::Neighbour => n.send_prev_id(d).await,
    }
}
async fn receive(n: &mut Aby3Network, from: usize, by: By) -> std::io::Result<bytes::BytesMut> {
    let me = n.get_id();
    match by {
        By::Id => n.receive(from).await,
        By::Neighbour if (me + 1) % 3 == from => n.receive_next_id().await,
        By::Neighbour => n.receive_prev_id().await,
    }
}
/// When the receivers begin to receive.
#[derive(Clone, Copy, Debug, PartialEq)]
enum When {
    AtOnce,
    AfterShutdown,
}
/// Every party in `senders` sends these messages to the two others and shuts down right away; the
/// receivers get everything that a send accepted.
async fn last_words(rep: &Report, senders: &[usize], lens: &[usize], by: By, when: When, faults: &[Fault]) -> Result<(), String> {
    rep.add("states", 1);
    beat();
    let all = parties(&[0, 1, 2]);
    let (configs, _relays) = if faults.is_empty() { ((0..3).map(|i| config(&all, i, &[0, 1, 2])).collect(), vec![]) } else { relayed(&all, &[vec![0, 1, 2], vec![0, 1, 2], vec![0, 1, 2]], faults) };
    let nets = mesh_of(configs).await?;
    let faulty = !faults.is_empty();
    let name = format!("senders {senders:?}, lengths {lens:?}, {by:?}, receiving {when:?}, faults {faults:?}");
    let (tx, rx) = tokio::sync::watch::channel(0usize);
    let tx = std::sync::Arc::new(tx);
    let runs = nets.into_iter().enumerate().map(|(id, mut n)| {
        let (tx, mut rx) = (tx.clone(), rx.clone());
        let name = name.clone();
        async move {
            let is_sender = senders.contains(&id);
            let mut out = vec![];
            if is_sender {
                for (i, len) in lens.iter().enumerate() {
                    for to in [(id + 1) % 3, (id + 2) % 3] {
                        match (send(&mut n, to, data(id, i, *len), by).await, *len > LIMIT) {
                            (Ok(()), false) => {}
                            (Err(_), true) => {}
                            (Ok(()), true) => return Err(format!("[send-too-long] {name}: a message of {len} bytes is accepted, it cannot be transported")),
                            (Err(e), false) => return Err(format!("{name}: party {id}: sending message {i} fails: {e}")),
                        }
                    }
                }
            }
            let get = |out: Vec<(usize, Vec<std::io::Result<bytes::BytesMut>>)>| async move { out };
            let expect: Vec<usize> = [(id + 1) % 3, (id + 2) % 3].into_iter().filter(|f| senders.contains(f)).collect();
            let count = lens.iter().filter(|l| **l <= LIMIT).count();
            if is_sender {
                // a sender has first what others sent to it, then it shuts down without delay
                if senders.len() > 1 {
                    for f in &expect {
                        let mut v = vec![];
                        for _ in 0..count {
                            v.push(receive(&mut n, *f, by).await);
                        }
                        out.push((*f, v));
                    }
                }
                n.shutdown().await.map_err(|e| format!("{name}: shutdown fails: {e}"))?;
                tx.send_modify(|x| *x += 1);
            } else {
                if when == When::AfterShutdown {
                    rx.wait_for(|x| *x >= senders.len()).await.map_err(|e| e.to_string())?;
                }
                for f in &expect {
                    let mut v = vec![];
                    for _ in 0..count {
                        v.push(receive(&mut n, *f, by).await);
                    }
                    if faulty {
                        // the end of the connection may be what is lost
                        out.push((*f, v));
                        continue;
                    }
                    // and then nothing but errors
                    let more = receive(&mut n, *f, by).await;
                    if let Ok(b) = more {
                        return Err(format!("{name}: party {id} receives a further message of {} bytes from {f}", b.len()));
                    }
                    out.push((*f, v));
                }
                if !faulty {
                    n.shutdown().await.map_err(|e| format!("{name}: shutdown fails: {e}"))?;
                }
            }
            Ok((id, get(out).await))
        }
    });
    let ends = within(100, &format!("{name}: the exchange"), futures::future::join_all(runs)).await?;
    let ok: Vec<usize> = lens.iter().enumerate().filter(|(_, l)| **l <= LIMIT).map(|x| x.0).collect();
    for e in ends {
        let (id, got) = e?;
        for (f, v) in got {
            for (k, x) in v.into_iter().enumerate() {
                let i = ok[k];
                rep.add("transitions", 1);
                match x {
                    Ok(b) if b[..] == data(f, i, lens[i])[..] => {}
                    Ok(b) => return Err(format!("{name}: party {id} receives {} other bytes as message {i} from {f}", b.len())),
                    Err(e) => return Err(format!("{name}: party {id} does not get message {i} ({} bytes) from {f}: {e}", lens[i])),
                }
            }
        }
    }
    Ok(())
}
/// Exchanges without shutdown in every direction, by every call; calls for identities that are no peer.
async fn exchange(rep: &Report, order: Vec<usize>, lens: Vec<usize>) -> Result<(), String> {
    rep.add("states", 1);
    let nets = mesh(&order).await?;
    let lens = &lens;
    let runs = nets.into_iter().enumerate().map(|(id, mut n)| async move {
        if n.get_id() != id || n.get_num_parties() != 3 {
            return Err(format!("party {id} is told to be {} of {}", n.get_id(), n.get_num_parties()));
        }
        for bad in [id, 3, 4, 255, usize::MAX] {
            if n.send(bad, Bytes::from_static(b"x")).await.is_ok() {
                return Err(format!("party {id} can send to {bad}"));
            }
            match tokio::time::timeout(std::time::Duration::from_secs(20), n.receive(bad)).await {
                Ok(Err(_)) => {}
                _ => return Err(format!("party {id} receiving from {bad} gets no error")),
            }
        }
        for (i, len) in lens.iter().enumerate() {
            let by = if i % 2 == 0 { By::Id } else { By::Neighbour };
            for to in [(id + 2) % 3, (id + 1) % 3] {
                send(&mut n, to, data(id * 3 + to, i, *len), by).await.map_err(|e| format!("party {id}: {e}"))?;
            }
        }
        for (i, len) in lens.iter().enumerate() {
            let by = if i % 2 == 1 { By::Id } else { By::Neighbour };
            for from in [(id + 1) % 3, (id + 2) % 3] {
                let b = receive(&mut n, from, by).await.map_err(|e| format!("party {id} does not get message {i} of {len} bytes from {from}: {e}"))?;
                if b[..] != data(from * 3 + id, i, *len)[..] {
                    return Err(format!("party {id} gets other bytes as message {i} from {from}"));
                }
            }
        }
        for i in 0..3 {
            let d = data(id, 100 + i, 10 + i);
            let r = n.broadcast(d).await.map_err(|e| format!("party {id}: broadcast fails: {e}"))?;
            if r.len() != 3 || (0..3).any(|p| r[p][..] != data(p, 100 + i, 10 + i)[..]) {
                return Err(format!("party {id}: broadcast {i} gives something else than the three messages"));
            }
        }
        Ok(n)
    });
    let ends = within(100, "the exchange", futures::future::join_all(runs)).await?;
    let nets = ends.into_iter().collect::<Result<Vec<_>, _>>()?;
    let down = within(60, "shutdown", futures::future::join_all(nets.into_iter().map(|n| n.shutdown()))).await?;
    rep.add("transitions", 6 * lens.len() as u64);
    down.into_iter().try_for_each(|x| x.map_err(|e| format!("shutdown fails: {e}")))
}
/// A party that goes away: the others' receives end with an error.
async fn gone(rep: &Report, who: usize, polite: bool) -> Result<(), String> {
    rep.add("states", 1);
    let mut nets: Vec<Option<Aby3Network>> = mesh(&[0, 1, 2]).await?.into_iter().map(Some).collect();
    let n = nets[who].take().unwrap();
    let others = async {
        let v: Vec<_> = nets.iter_mut().enumerate().filter_map(|(i, n)| n.as_mut().map(|n| (i, n))).map(|(i, n)| async move { (i, n.receive(who).await) }).collect();
        futures::future::join_all(v).await
    };
    let leave = async {
        if polite {
            n.shutdown().await.map_err(|e| e.to_string())
        } else {
            drop(n);
            Ok(())
        }
    };
    let (l, o) = within(100, "receiving from a party that is gone", async { tokio::join!(leave, others) }).await?;
    l?;
    for (i, r) in o {
        if r.is_ok() {
            return Err(format!("party {i} receives something from party {who}, which sent nothing"));
        }
    }
    Ok(())
}
fn on(threads: usize) -> tokio::runtime::Runtime {
    if threads == 0 {
        current()
    } else {
        multi(threads)
    }
}

fn main() {
    let rep = Report::new("P20", "model_checking");
    let th = rep.thorough();
    certs();
    let mut v: Vec<Job> = vec![];
    let threads: &'static [usize] = if th { &[0, 1, 2, 4] } else { &[0, 2] };
    let mut sets: Vec<Vec<usize>> = vec![vec![0], vec![1], vec![0, 0, 0], vec![5, 0, 1], vec![1200, 1300, 1452], vec![8183, 8184, 8187, 8188, 8189, 8192, 8193], vec![65535, 65536, 1], vec![(1 << 20) + 1], vec![1_250_000, 3], vec![3 << 20, 0, 3 << 20], vec![LIMIT], vec![LIMIT + 1], vec![7, LIMIT + 1, 9], vec![9 << 20, 2]];
    for n in if th { (1..=40).collect::<Vec<usize>>() } else { vec![2, 4, 5, 7, 8, 9, 10, 16, 17, 18, 33] } {
        sets.push((0..n).map(|i| i * 13 % 50).collect());
    }
    for n in if th { vec![5, 8, 9, 17, 40] } else { vec![9, 17] } {
        sets.push((0..n).map(|i| 30_000 + i).collect());
    }
    let who: Vec<Vec<usize>> = vec![vec![0], vec![1], vec![2], vec![0, 1], vec![2, 0], vec![0, 1, 2]];
    for (k, lens) in sets.into_iter().enumerate() {
        for (w, senders) in who.iter().enumerate() {
            let big = lens.iter().any(|l| *l > 1 << 20);
            if !th && big && w != k % 6 {
                continue;
            }
            for t in threads.iter().copied() {
                if !th && !big && (w + k + t) % 3 != 0 && w != 0 {
                    continue;
                }
                for by in [By::Id, By::Neighbour] {
                    if !th && (k + w + t / 2) % 2 != by as usize {
                        continue;
                    }
                    for when in [When::AtOnce, When::AfterShutdown] {
                        // a receiver that starts late only works if the transport can hold everything
                        if when == When::AfterShutdown && (lens.iter().sum::<usize>() > 900_000 || senders.len() == 3) {
                            continue;
                        }
                        let (lens, senders) = (lens.clone(), senders.clone());
                        v.push((format!("shutdown/{}x{}/{senders:?}/{t}/{by:?}/{when:?}", lens.len(), lens[lens.len() - 1]).replace(' ', ""), Box::new(move |r| on(t).block_on(last_words(r, &senders, &lens, by, when, &[])))));
                    }
                }
            }
        }
    }
    let fates: Vec<(Fate, usize)> = if th { vec![(Fate::Lost, 1), (Fate::Lost, 2), (Fate::Lost, 4), (Fate::Twice, 1), (Fate::Late(40), 1), (Fate::Late(40), 3)] } else { vec![(Fate::Lost, 1), (Fate::Late(40), 1), (Fate::Lost, 2)] };
    for (client, server) in [(1, 0), (2, 0), (2, 1)] {
        for sender in [client, server] {
            for to_server in [true, false] {
                for nth in 3..rep.pick(32, 48) {
                    for (fate, run) in fates.clone() {
                        for lens in if th { vec![vec![5], vec![3000, 0, 5], vec![20_000; 4]] } else { vec![vec![3000, 0, 5]] } {
                            let f = Fault { client, server, to_server, nth, run, fate };
                            v.push((format!("packet/{client}-{server}/{sender}/{}/{nth}/{fate:?}x{run}/{}", if to_server { "up" } else { "down" }, lens[0]), Box::new(move |r| current().block_on(last_words(r, &[sender], &lens, By::Id, When::AtOnce, &[f])))));
                        }
                    }
                }
            }
        }
    }
    for (i, o) in permutations(3).into_iter().enumerate() {
        for t in threads.iter().copied() {
            let o = o.clone();
            v.push((format!("exchange/{o:?}/{t}").replace(' ', ""), Box::new(move |r| {
                on(t).block_on(exchange(r, o.clone(), (0..8).map(|k| k * 97 + i).collect()))?;
                on(t).block_on(exchange(r, o.clone(), vec![0, 70_000, 1, 0, 300_000, 2]))
            })));
        }
    }
    for who in 0..3 {
        v.push((format!("gone/{who}/shutdown"), Box::new(move |r| on(0).block_on(gone(r, who, true)))));
        v.push((format!("gone/{who}/dropped"), Box::new(move |r| on(0).block_on(gone(r, who, false)))));
    }
    run_jobs_on(rep, v, 24);
    remove_certs();
    rep.note("rule", "one state = one network of three parties over loopback with one list of messages, set of senders, way to call, time at which the receivers begin and fate of one or more packets; transitions = messages compared. Schedules of the operating system and the QUIC library are not controlled: each case runs under the schedule that occurs");
    rep.finish_and_exit();
}
