//! Real parties over loopback: certificates, ports and configurations.
use mpc_net::config::{NetworkConfig, NetworkParty};
use std::net::{SocketAddr, UdpSocket};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::OnceLock;
use std::time::Duration;

/// A folder that goes with the process.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        static N: AtomicU32 = AtomicU32::new(0);
        let p = std::env::temp_dir().join(format!("mc-{name}-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch folder");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub const PARTIES: usize = 8;
static CERTS: OnceLock<PathBuf> = OnceLock::new();
/// Certificates for up to eight parties, made once per process.
pub fn certs() -> &'static PathBuf {
    CERTS.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("mc-certs-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch folder");
        for i in 0..PARTIES {
            let c = rcgen::generate_simple_self_signed(vec![format!("party{i}")]).expect("certificate");
            std::fs::write(d.join(format!("key{i}.der")), c.serialize_private_key_der()).expect("key");
            std::fs::write(d.join(format!("cert{i}.der")), c.serialize_der().expect("certificate")).expect("certificate");
        }
        d
    })
}
pub fn remove_certs() {
    if let Some(d) = CERTS.get() {
        let _ = std::fs::remove_dir_all(d);
    }
}
/// Ports below the range the system hands out by itself, each given out once per process.
pub fn port() -> u16 {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let start = std::process::id() % 11_000;
    loop {
        let p = 20_000 + ((start + NEXT.fetch_add(1, Ordering::SeqCst)) % 12_000) as u16;
        if UdpSocket::bind(("127.0.0.1", p)).is_ok() && UdpSocket::bind(("0.0.0.0", p)).is_ok() {
            return p;
        }
    }
}
/// The entries of parties with these identities (in this order), certificate i for entry i.
pub fn parties(ids: &[usize]) -> Vec<NetworkParty> {
    ids.iter()
        .enumerate()
        .map(|(i, id)| {
            let a = SocketAddr::from(([127, 0, 0, 1], port()));
            NetworkParty { id: *id, dns_name: format!("party{i}"), bind_addr: a, public_addr: a, cert_path: certs().join(format!("cert{i}.der")) }
        })
        .collect()
}
/// The configuration of entry `me`, with the entries listed in this order.
pub fn config(all: &[NetworkParty], me: usize, order: &[usize]) -> NetworkConfig {
    NetworkConfig { parties: order.iter().map(|i| all[*i].clone()).collect(), my_id: all[me].id, key_path: certs().join(format!("key{me}.der")) }
}
pub fn current() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime")
}
pub fn multi(n: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build().expect("runtime")
}
/// A time limit far beyond what anything here takes.
pub async fn within<F: std::future::Future>(secs: u64, what: &str, f: F) -> Result<F::Output, String> {
    tokio::time::timeout(Duration::from_secs(secs), f).await.map_err(|_| format!("{what} does not come to an end within {secs} s"))
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v.sort();
    v
}

/// What happens to one packet on its way.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fate {
    Lost,
    Twice,
    /// held back for so many milliseconds, while later ones go on
    Late(u64),
}
/// The n-th packet (from 0) between client and server, in this direction; `each` means that one and all later ones up to `each` more.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub client: usize,
    pub server: usize,
    pub to_server: bool,
    pub nth: usize,
    pub run: usize,
    pub fate: Fate,
}
fn relays() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| multi(2))
}
/// Passes the packets between a client and a server, except for those with a fate.
pub struct Relay {
    pub addr: SocketAddr,
    pub counts: std::sync::Arc<[AtomicU32; 2]>,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for Relay {
    fn drop(&mut self) {
        self.task.abort();
    }
}
impl Relay {
    pub fn new(server: SocketAddr, faults: Vec<Fault>) -> Relay {
        let addr = SocketAddr::from(([127, 0, 0, 1], port()));
        let front = UdpSocket::bind(addr).expect("relay socket");
        front.set_nonblocking(true).expect("relay socket");
        let counts = std::sync::Arc::new([AtomicU32::new(0), AtomicU32::new(0)]);
        let c = counts.clone();
        let task = relays().spawn(async move {
            use std::sync::Arc;
            let front = Arc::new(tokio::net::UdpSocket::from_std(front).expect("relay socket"));
            let back = Arc::new(tokio::net::UdpSocket::bind("127.0.0.1:0").await.expect("relay socket"));
            let mut client: Option<SocketAddr> = None;
            let (mut a, mut b) = (vec![0u8; 65536], vec![0u8; 65536]);
            loop {
                let (to_server, data) = tokio::select! {
                    r = front.recv_from(&mut a) => match r {
                        Ok((n, from)) => { client = Some(from); (true, a[..n].to_vec()) }
                        Err(_) => continue,
                    },
                    r = back.recv_from(&mut b) => match r {
                        Ok((n, _)) => (false, b[..n].to_vec()),
                        Err(_) => continue,
                    },
                };
                let i = c[to_server as usize].fetch_add(1, Ordering::SeqCst) as usize;
                let fate = faults.iter().find(|f| f.to_server == to_server && i >= f.nth && i < f.nth + f.run).map(|f| f.fate);
                let sock = if to_server { back.clone() } else { front.clone() };
                let Some(to) = (if to_server { Some(server) } else { client }) else { continue };
                match fate {
                    None => drop(sock.send_to(&data, to).await),
                    Some(Fate::Lost) => {}
                    Some(Fate::Twice) => {
                        let _ = sock.send_to(&data, to).await;
                        let _ = sock.send_to(&data, to).await;
                    }
                    Some(Fate::Late(ms)) => {
                        tokio::spawn(async move {
                            tokio::time::sleep(Duration::from_millis(ms)).await;
                            let _ = sock.send_to(&data, to).await;
                        });
                    }
                }
            }
        });
        Relay { addr, counts, task }
    }
}
/// Configurations (entry i lists the parties in `orders[i]`) whose packets pass through relays with these faults.
pub fn relayed(all: &[NetworkParty], orders: &[Vec<usize>], faults: &[Fault]) -> (Vec<NetworkConfig>, Vec<Relay>) {
    let mut relays = vec![];
    let configs = (0..all.len())
        .map(|me| {
            let mut mine = all.to_vec();
            for (s, p) in mine.iter_mut().enumerate() {
                if all[s].id < all[me].id {
                    let r = Relay::new(all[s].bind_addr, faults.iter().filter(|f| f.client == me && f.server == s).copied().collect());
                    p.public_addr = r.addr;
                    relays.push(r);
                }
            }
            config(&mine, me, &orders[me])
        })
        .collect();
    (configs, relays)
}
