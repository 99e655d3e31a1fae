//! P21: the data tools.  Their whole source is compiled into this program, which calls itself to run
//! them, so that a tool's entropy is known where an expectation needs it.  Histories of calls on one
//! file, every point at which a write fails, contents against an independent reader, searches over
//! all small databases, and the stored shares in the real protocols.
use iris_mpc::prelude::*;
use mc::exec::*;
use mc::net::*;
use mc::protos::*;
use mc::report::*;
use mc::scen::*;
use mc::session::*;
use plain_reference::{IrisCode, IrisCodeArray};
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use rusqlite::{Connection, OpenFlags};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

mod create {
    include!("/repo/iris-mpc/src/bin/create_sample_data.rs");
    pub fn run() -> bool {
        report(main())
    }
    fn report<E: std::fmt::Debug>(r: std::result::Result<(), E>) -> bool {
        if let Err(e) = &r {
            eprintln!("{e:?}");
        }
        r.is_ok()
    }
}
mod plain {
    include!("/repo/plain-reference/src/bin/create_sample_data_plain.rs");
    pub fn run() -> bool {
        main().map_err(|e| eprintln!("{e:?}")).is_ok()
    }
}
mod find {
    include!("/repo/plain-reference/src/bin/find_match.rs");
    pub fn run() -> bool {
        main().map_err(|e| eprintln!("{e:?}")).is_ok()
    }
}

const N: usize = 12800;
const PROTS: [&str; 3] = ["aby3", "swift3", "spdzwise"];

struct Dir(PathBuf);
static COUNT: AtomicUsize = AtomicUsize::new(0);
impl Dir {
    fn new() -> Self {
        let p = std::env::temp_dir().join(format!("verif-p21-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir(&p).expect("scratch directory");
        Dir(p)
    }
    fn file(&self) -> PathBuf {
        self.0.join("db")
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Ran {
    ok: bool,
    code: Option<i32>,
    out: String,
    err: String,
}

/// Runs a tool; `entropy`: its generators are seeded in a known way; `limit`: its files end at so many KiB.
fn tool(name: &str, args: &[&str], entropy: Option<u64>, limit: Option<usize>) -> Ran {
    beat();
    let me = std::env::current_exe().expect("path of this program");
    let mut c = match limit {
        None => Command::new(me),
        Some(k) => {
            let mut c = Command::new("/bin/bash");
            c.arg("-c").arg(format!("ulimit -c 0; ulimit -f {k}; exec \"$@\"")).arg("bash").arg(me);
            c
        }
    };
    c.args(args).env("VERIF_P21_TOOL", name).stdin(Stdio::null()).env_remove("RUST_BACKTRACE");
    if let Some(e) = entropy {
        c.env("VERIF_P21_ENTROPY", e.to_string());
    }
    let o = c.output().expect("the tool starts");
    Ran { ok: o.status.success(), code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
}

fn create(db: &Path, prot: &str, items: usize, seed: Option<u64>) -> Ran {
    let (d, i) = (db.to_str().unwrap().to_string(), items.to_string());
    let s = seed.map(|s| s.to_string());
    let mut a = vec!["-d", &d, "-m", prot, "-i", &i];
    if let Some(s) = &s {
        a.extend(["-s", s]);
    }
    tool("create", &a, None, None)
}

fn open(db: &Path) -> Result<Connection, String> {
    Connection::open_with_flags(db, OpenFlags::SQLITE_OPEN_READ_WRITE).map_err(|e| format!("the file does not open: {e}"))
}

fn has_table(c: &Connection, t: &str) -> bool {
    c.query_row("SELECT count(*) FROM sqlite_master WHERE type='table' AND name=?1", [t], |r| r.get::<_, i64>(0)).map(|n| n == 1).unwrap_or(false)
}

fn le16(b: &[u8]) -> Result<Vec<u64>, String> {
    list(b, 2)
}
/// A list as the examples read it: length, then little-endian elements.
fn list(b: &[u8], w: usize) -> Result<Vec<u64>, String> {
    if b.len() < 8 || u64::from_le_bytes(b[..8].try_into().unwrap()) != N as u64 || b.len() != 8 + N * w {
        return Err(format!("a column of {} bytes does not hold {N} elements of {w} bytes", b.len()));
    }
    Ok(b[8..].chunks(w).map(|c| c.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64)).collect())
}

#[derive(Clone, PartialEq)]
struct Row {
    id: i64,
    code: Vec<u8>,
    mask: Vec<u8>,
    /// Columns as stored.
    cols: Vec<Vec<u8>>,
}

fn columns(prot: &str) -> &'static [&'static str] {
    match prot {
        "aby3" => &["share_a", "share_b", "share_c"],
        "swift3" => &["share_a", "share_b", "share_c", "share_d"],
        "spdzwise" => &["share_a", "mac_a", "share_b", "mac_b", "share_c", "mac_c"],
        _ => &[],
    }
}

fn rows(db: &Path, prot: &str) -> Result<Vec<Row>, String> {
    let c = open(db)?;
    if !has_table(&c, "iris_codes") {
        return Ok(vec![]);
    }
    let cols = columns(prot);
    let sql = format!("SELECT id, code, mask{} FROM iris_codes ORDER BY id", cols.iter().map(|c| format!(", {c}")).collect::<String>());
    let mut st = c.prepare(&sql).map_err(|e| format!("the rows are not readable: {e}"))?;
    let it = st
        .query_map([], |r| {
            let mut row = Row { id: r.get(0)?, code: r.get(1)?, mask: r.get(2)?, cols: vec![] };
            for i in 0..cols.len() {
                row.cols.push(r.get(3 + i)?);
            }
            Ok(row)
        })
        .map_err(|e| e.to_string())?;
    it.collect::<Result<Vec<_>, _>>().map_err(|e| format!("a row is not readable: {e}"))
}

/// The key and its three parts.
fn key(db: &Path) -> Result<Vec<[u64; 4]>, String> {
    let c = open(db)?;
    if !has_table(&c, "mac_key") {
        return Ok(vec![]);
    }
    let mut st = c.prepare("SELECT key, share_a, share_b, share_c FROM mac_key").map_err(|e| e.to_string())?;
    let it = st
        .query_map([], |r| {
            let mut k = [0; 4];
            for (i, k) in k.iter_mut().enumerate() {
                let b: Vec<u8> = r.get(i)?;
                *k = if b.len() == 8 { u64::from_le_bytes(b.try_into().unwrap()) } else { return Err(rusqlite::Error::InvalidQuery) };
            }
            Ok(k)
        })
        .map_err(|e| e.to_string())?;
    it.collect::<Result<Vec<_>, _>>().map_err(|e| format!("the key is not readable: {e}"))
}

fn bit(v: &[u8], i: usize) -> u64 {
    (v[i / 8] >> (i % 8) & 1) as u64
}

/// Judges one row by itself.
fn judge(prot: &str, row: &Row, key: Option<u64>) -> Result<(), String> {
    let at = |e: String| format!("row {}: {e}", row.id);
    if row.code.len() != N / 8 || row.mask.len() != N / 8 {
        return Err(at(format!("code of {} and mask of {} bytes", row.code.len(), row.mask.len())));
    }
    let w: u32 = row.mask.iter().map(|b| b.count_ones()).sum();
    if !(11000..=12000).contains(&w) {
        return Err(at(format!("a mask of weight {w}, about a tenth should be hidden")));
    }
    let o: u32 = row.code.iter().map(|b| b.count_ones()).sum();
    if !(5900..=6900).contains(&o) {
        return Err(at(format!("a code of weight {o}")));
    }
    let spread = |n: &str, v: &[u64]| {
        let mut s = v.to_vec();
        s.sort();
        s.dedup();
        if s.len() < 1000 {
            return Err(at(format!("column {n} has {} different elements only", s.len())));
        }
        Ok(())
    };
    match prot {
        "aby3" | "swift3" => {
            let c: Vec<Vec<u64>> = row.cols.iter().map(|c| le16(c)).collect::<Result<_, _>>().map_err(at)?;
            for (n, v) in columns(prot).iter().zip(&c) {
                spread(n, v)?;
            }
            for i in 0..N {
                let s = c[0][i].wrapping_add(c[1][i]).wrapping_add(c[2][i]);
                let v = if prot == "aby3" { s } else { c[3][i].wrapping_sub(s) } & 0xffff;
                if v != bit(&row.code, i) {
                    return Err(at(format!("the shares at position {i} give {v}, the code has {}", bit(&row.code, i))));
                }
            }
        }
        "spdzwise" => {
            let c: Vec<Vec<u64>> = row.cols.iter().map(|c| list(c, 8)).collect::<Result<_, _>>().map_err(at)?;
            for (n, v) in columns(prot).iter().zip(&c) {
                spread(n, v)?;
            }
            let key = key.ok_or_else(|| at("there is no key".into()))?;
            for i in 0..N {
                let v = c[0][i].wrapping_add(c[2][i]).wrapping_add(c[4][i]);
                let m = c[1][i].wrapping_add(c[3][i]).wrapping_add(c[5][i]);
                if v != bit(&row.code, i) {
                    return Err(at(format!("the shares at position {i} give {v}, the code has {}", bit(&row.code, i))));
                }
                if m != v.wrapping_mul(key) {
                    return Err(at(format!("the tag at position {i} is not that of {v} under the stored key")));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

/// Judges a whole database of `n` rows.
fn judge_all(db: &Path, prot: &str, n: usize) -> Result<Vec<Row>, String> {
    let r = rows(db, prot)?;
    if r.len() != n {
        return Err(format!("{} rows, {n} were asked for", r.len()));
    }
    let mut k = None;
    if prot == "spdzwise" {
        let ks = key(db)?;
        if ks.len() > 1 {
            return Err(format!("{} keys are stored, the tags can be valid under one only", ks.len()));
        }
        if let Some(x) = ks.first() {
            if x[1].wrapping_add(x[2]).wrapping_add(x[3]) != x[0] {
                return Err("the parts of the key do not give the key".into());
            }
            k = Some(x[0]);
        }
    }
    for (i, row) in r.iter().enumerate() {
        if row.id != i as i64 + 1 {
            return Err(format!("row {} has the identifier {}", i + 1, row.id));
        }
        judge(prot, row, k)?;
    }
    Ok(r)
}

fn distinct(r: &[Row]) -> Result<(), String> {
    for i in 0..r.len() {
        for j in 0..i {
            if r[i].code == r[j].code || r[i].mask == r[j].mask {
                return Err(format!("rows {} and {} are the same person", j + 1, i + 1));
            }
        }
    }
    Ok(())
}

/// One call on a fresh file.
fn single(r: &Report, prot: &str, items: usize, seed: Option<u64>) -> Result<(), String> {
    let d = Dir::new();
    let run = create(&d.file(), prot, items, seed);
    r.add("evaluations", 1);
    r.add("tool_calls", 1);
    if !run.ok {
        return Err(format!("the tool fails: {}", run.err));
    }
    let rs = judge_all(&d.file(), &prot.to_lowercase(), items)?;
    distinct(&rs)?;
    r.add("rows", items as u64);
    // again with the same seed / with another one
    let e = Dir::new();
    if !create(&e.file(), prot, items, seed).ok {
        return Err("the tool fails the second time".into());
    }
    let again = judge_all(&e.file(), &prot.to_lowercase(), items)?;
    match seed {
        Some(s) => {
            if rs != again || key(&d.file())? != key(&e.file())? {
                return Err(format!("two calls with seed {s} differ"));
            }
            // seeds that differ in one bit anywhere
            for b in if items == 1 { (0..64).collect() } else { vec![0, 16, 32, 63] } {
                let t = s ^ 1 << b;
                let o = Dir::new();
                if !create(&o.file(), prot, items, Some(t)).ok {
                    return Err("the tool fails with another seed".into());
                }
                r.add("tool_calls", 1);
                let other = judge_all(&o.file(), &prot.to_lowercase(), items)?;
                distinct(&[rs.clone(), other].concat()).map_err(|e| format!("seeds {s} and {t}: {e}"))?;
            }
        }
        None => {
            distinct(&[rs, again].concat()).map_err(|e| format!("two calls without a seed: {e}"))?;
        }
    }
    r.add("distinct_nontrivial", 1);
    Ok(())
}

/// Calls one after the other on one file.
fn history(r: &Report, prot: &str, items: &[usize], seeds: bool) -> Result<(), String> {
    let d = Dir::new();
    let mut n = 0;
    let mut before: Vec<Row> = vec![];
    for (i, &k) in items.iter().enumerate() {
        let at = |e: String| format!("calls for {items:?} rows on one file, after call {}: {e}", i + 1);
        let run = if prot == "plain" {
            tool("plain", &["-d", d.file().to_str().unwrap(), "-i", &k.to_string()], None, None)
        } else {
            create(&d.file(), prot, k, seeds.then_some(i as u64))
        };
        r.add("evaluations", 1);
        r.add("tool_calls", 1);
        if !run.ok {
            return Err(at(format!("the tool fails: {}", run.err)));
        }
        n += k;
        let now = judge_all(&d.file(), prot, n).map_err(at)?;
        if now[..before.len()] != before[..] {
            return Err(at("rows stored before have changed".into()));
        }
        distinct(&now).map_err(at)?;
        before = now;
    }
    r.add("distinct_nontrivial", 1);
    Ok(())
}

/// A call for another protocol on a database, or for no protocol.
fn other(r: &Report, first: &str, second: &str) -> Result<(), String> {
    let d = Dir::new();
    let run = |p: &str| {
        if p == "plain" {
            tool("plain", &["-d", d.file().to_str().unwrap(), "-i", "1"], None, None)
        } else {
            create(&d.file(), p, 1, Some(5))
        }
    };
    if !run(first).ok {
        return Err(format!("the tool fails for {first}"));
    }
    let before = judge_all(&d.file(), first, 1)?;
    let second_ran = run(second);
    r.add("evaluations", 1);
    r.add("tool_calls", 2);
    if second_ran.ok {
        return Err(format!("a database of {first} is taken for {second} without an error"));
    }
    if second_ran.code == Some(101) {
        return Err(format!("panics: {}", second_ran.err));
    }
    let after = judge_all(&d.file(), first, 1).map_err(|e| format!("after a refused call for {second}: {e}"))?;
    if before != after {
        return Err(format!("a refused call for {second} changes the rows of {first}"));
    }
    if !run(first).ok {
        return Err(format!("after a refused call for {second} the database takes no more rows of {first}"));
    }
    let ids = rows(&d.file(), first)?.len();
    if ids != 2 {
        return Err(format!("{ids} rows after two calls for one row and a refused one"));
    }
    r.add("distinct_nontrivial", 1);
    Ok(())
}

/// The tool stops because its file may not grow beyond `limit` KiB.
fn cut(r: &Report, prot: &str, start: usize, more: usize, limit: usize, cuts: &AtomicUsize) -> Result<(), String> {
    let d = Dir::new();
    let db = d.file();
    let ds = db.to_str().unwrap();
    if start > 0 && !create(&db, prot, start, Some(1)).ok {
        return Err("the tool fails without a limit".into());
    }
    let ms = more.to_string();
    let args = ["-d", ds, "-m", prot, "-i", &ms, "-s", "9"];
    let plain = ["-d", ds, "-i", &ms];
    let (name, args): (&str, &[&str]) = if prot == "plain" { ("plain", &plain) } else { ("create", &args) };
    let run = tool(name, args, None, Some(limit));
    r.add("evaluations", 1);
    r.add("tool_calls", 1);
    if !run.ok {
        cuts.fetch_add(1, Ordering::SeqCst);
        r.add("stopped_calls", 1);
    }
    let at = |e: String| format!("a call on a database of {start} rows {} with a file limit of {limit} KiB: {e}", if run.ok { "went through" } else { "stopped" });
    let n = if !db.exists() { 0 } else { rows(&db, prot).map_err(at)?.len() };
    if n != start && n != start + more || run.ok && n != start + more {
        return Err(at(format!("{n} rows are left, neither none nor all of the new ones")));
    }
    if db.exists() {
        judge_all(&db, prot, n).map_err(at)?;
    }
    let run2 = tool(name, args, None, None);
    if !run2.ok {
        return Err(at(format!("the same call without a limit fails afterwards: {}", run2.err)));
    }
    judge_all(&db, prot, n + more).map_err(|e| at(format!("after the same call without a limit: {e}")))?;
    r.add("distinct_nontrivial", !run.ok as u64);
    Ok(())
}

fn flip(mut c: IrisCode, d: usize, s: usize) -> IrisCode {
    // positions spread over the code
    (0..d).for_each(|j| c.code.flip_bit((j * 7 + s) % N));
    c
}

/// A search over a database whose rows are of the given kinds.
fn search(r: &Report, kinds: &[usize], entropy: u64) -> Result<(), String> {
    own_entropy(entropy);
    let probe = IrisCode::random();
    let ones = IrisCodeArray::ONES;
    let m = probe.mask.count_ones();
    let mut rng = ChaCha12Rng::seed_from_u64(entropy);
    let list: Vec<IrisCode> = kinds
        .iter()
        .map(|k| match k {
            0 => IrisCode { code: IrisCodeArray::random_rng(&mut rng), mask: ones },
            1 | 2 => {
                // the closest distance that is not one of a match, or one less
                let lim = (0.34 * m as f64) as usize - (*k == 1) as usize;
                let mut c = IrisCode { code: probe.code, mask: ones };
                let at = (0..N).filter(|i| probe.mask.get_bit(*i)).step_by(2).take(lim).collect::<Vec<_>>();
                at.into_iter().for_each(|i| c.code.flip_bit(i));
                c
            }
            3 => {
                // as few positions visible as may be, and as many of them different as one more than a match has
                let seen = (0..N).filter(|i| probe.mask.get_bit(*i)).take(plain_reference::MASK_THRESHOLD).collect::<Vec<_>>();
                let mut c = IrisCode { code: probe.code, mask: IrisCodeArray::ZERO };
                seen.iter().for_each(|i| c.mask.set_bit(*i, true));
                let lim = (0.34 * seen.len() as f64) as usize;
                seen.iter().take(lim).for_each(|i| c.code.flip_bit(*i));
                c
            }
            _ => flip(IrisCode { code: probe.code, mask: ones }, 100, 3),
        })
        .collect();
    let d = Dir::new();
    store(&d.file(), &list)?;
    let run = tool("find", &["-d", d.file().to_str().unwrap()], Some(entropy), None);
    r.add("evaluations", 1);
    r.add("tool_calls", 1);
    let want = list.iter().any(|c| c.is_close(&probe));
    let structural = kinds.iter().any(|k| *k == 1 || *k == 4);
    if want != structural {
        return Err(format!("the comparison calls {kinds:?} {want}"));
    }
    expect_found(&run, want).map_err(|e| format!("rows {kinds:?} (0 far, 1 just close, 2 just not close, 3 just not close and little visible, 4 close): {e}"))?;
    r.add("distinct_nontrivial", want as u64);
    Ok(())
}

fn expect_found(run: &Ran, want: bool) -> Result<(), String> {
    let (y, n) = (run.out.contains("Found a match!"), run.out.contains("No match found"));
    if !run.ok || y == n {
        return Err(format!("the search ends with {:?}, saying {:?} {:?}", run.code, run.out, run.err));
    }
    if y != want {
        return Err(format!("the search reports {}", if y { "a match that is not there" } else { "no match although there is one" }));
    }
    Ok(())
}

fn store(db: &Path, list: &[IrisCode]) -> Result<(), String> {
    let f = |e: rusqlite::Error| format!("the checker's database: {e}");
    let c = Connection::open(db).map_err(f)?;
    c.execute("CREATE TABLE iris_codes (id INTEGER PRIMARY KEY, code BLOB NOT NULL, mask BLOB NOT NULL)", []).map_err(f)?;
    for x in list {
        c.execute("INSERT INTO iris_codes (code, mask) VALUES (?1, ?2)", [x.code.as_raw_slice(), x.mask.as_raw_slice()]).map_err(f)?;
    }
    Ok(())
}

/// A search for a disturbed copy of the first row.
fn search_copy(r: &Report, kinds: &[usize]) -> Result<(), String> {
    let mut rng = ChaCha12Rng::seed_from_u64(8);
    let masked = IrisCode::random_rng(&mut rng);
    let list: Vec<IrisCode> = kinds.iter().map(|k| IrisCode { code: IrisCodeArray::random_rng(&mut rng), mask: if *k == 0 { IrisCodeArray::ONES } else { masked.mask } }).collect();
    let d = Dir::new();
    store(&d.file(), &list)?;
    let run = tool("find", &["-s", "-d", d.file().to_str().unwrap()], None, None);
    r.add("evaluations", 1);
    r.add("tool_calls", 1);
    if kinds.is_empty() {
        return if run.ok || run.out.contains("match") || run.code == Some(101) { Err(format!("a search for a copy in an empty database ends with {:?} {:?} {}", run.code, run.out, run.err)) } else { Ok(()) };
    }
    r.add("distinct_nontrivial", 1);
    expect_found(&run, true).map_err(|e| format!("rows {kinds:?} (0 fully visible, 1 not), a disturbed copy of the first: {e}"))
}

fn search_made(r: &Report, prot: &str) -> Result<(), String> {
    let d = Dir::new();
    let ds = d.file().to_str().unwrap().to_string();
    let run = if prot == "plain" { tool("plain", &["-d", &ds, "-i", "3"], None, None) } else { create(&d.file(), prot, 3, None) };
    if !run.ok {
        return Err(run.err);
    }
    expect_found(&tool("find", &["-s", "-d", &ds], None, None), true)?;
    expect_found(&tool("find", &["-d", &ds], None, None), false)?;
    // the probe itself put somewhere into the database
    own_entropy(77);
    let probe = IrisCode::random();
    for id in 1..=3 {
        let c = open(&d.file())?;
        let (code, mask): (Vec<u8>, Vec<u8>) = c.query_row("SELECT code, mask FROM iris_codes WHERE id=?1", [id], |r| Ok((r.get(0)?, r.get(1)?))).map_err(|e| e.to_string())?;
        let put = |code: &[u8], mask: &[u8]| c.execute("UPDATE iris_codes SET code=?1, mask=?2 WHERE id=?3", rusqlite::params![code, mask, id]).map_err(|e| e.to_string());
        put(probe.code.as_raw_slice(), probe.mask.as_raw_slice())?;
        expect_found(&tool("find", &["-d", &ds], Some(77), None), true).map_err(|e| format!("the probe is row {id}: {e}"))?;
        put(&code, &mask)?;
        r.add("tool_calls", 1);
    }
    expect_found(&tool("find", &["-d", &ds], Some(77), None), false)?;
    r.add("evaluations", 6);
    r.add("distinct_nontrivial", 3);
    Ok(())
}

fn code_of(row: &Row) -> IrisCode {
    let mut c = IrisCode::default();
    c.code.as_raw_mut_slice().copy_from_slice(&row.code);
    c.mask.as_raw_mut_slice().copy_from_slice(&row.mask);
    c
}

/// The columns, read the way the examples do, in the real protocol of the three parties.
fn in_protocol<P: Proto<u16>>(r: &Report, prot: &'static str, n: usize, chunk: usize, mk: impl Fn(&[Vec<u64>], usize, usize) -> P::A, keys: impl Fn([u64; 4], usize) -> P::A) -> Result<(), String> {
    let d = Dir::new();
    // in two calls, as a database grows
    for (i, k) in [n - 1, 1].into_iter().enumerate() {
        let run = create(&d.file(), prot, k, Some(3 + i as u64));
        if !run.ok {
            return Err(run.err);
        }
    }
    let rs = judge_all(&d.file(), prot, n)?;
    let ks = key(&d.file())?;
    let w = if prot == "spdzwise" { 8 } else { 2 };
    let mut db: Vec<Vec<Va<P, u16>>> = vec![];
    for row in &rs {
        let cols: Vec<Vec<u64>> = row.cols.iter().map(|c| list(c, w)).collect::<Result<_, _>>()?;
        db.push((0..3).map(|p| vec_share::<P::A>((0..N).map(|i| mk(&cols, i, p)).collect())).collect());
    }
    let mac = ks.first().cloned().unwrap_or([KEY as u64, 0, 0, 0]);
    let mut rng = ChaCha12Rng::seed_from_u64(4);
    for q in 0..=n {
        let near = q < n;
        let query = if near { flip(code_of(&rs[q]), 640, q) } else { IrisCode { code: pattern_code(5), mask: IrisCodeArray::ONES } };
        let mut m = Material::<P, u16>::new(Kind::Setup, 13);
        if let Some(k) = ks.first() {
            m.key = (0..3).map(|p| keys(*k, p)).collect();
        }
        m.codes = [query.clone()].into_iter().chain(rs.iter().map(code_of)).collect();
        m.code_sh = vec![deal_code::<P, u16>(&query.code, mac[0] as u128, &mut rng)];
        m.code_sh.extend(db.iter().cloned());
        let want = (1..=n).any(|i| m.codes[0].is_close(&m.codes[i]));
        if want != near {
            return Err("the rows are not as far apart as random codes are".into());
        }
        let world = World::new(Mode::Fast, 64);
        own_entropy(9);
        // the bodies' queries compare with the plain masks of the database
        let k = Kind::FullQuery(n, chunk);
        let (ends, _) = run_fast(&world, build::<P, u16>(k, &m, true, &world));
        r.add("evaluations", 1);
        r.add("queries_over_stored_shares", 1);
        let o = Out { ints: vec![], bits: vec![want] };
        for (p, e) in ends.iter().enumerate() {
            if e.done() != Some(&Ok(o.clone())) {
                return Err(format!("query {q} over the stored shares: party {p} ends with {e:?} instead of {want}"));
            }
        }
        r.add("distinct_nontrivial", 1);
    }
    Ok(())
}

fn aby(c: &[Vec<u64>], i: usize, p: usize) -> Aby3Share<u16> {
    let f = |k: usize| <u16 as Sharable>::to_sharetype(c[k % 3][i] as u16);
    Aby3Share::new(f(p), f(p + 2))
}
fn swift(c: &[Vec<u64>], i: usize, p: usize) -> Swift3Share<u16> {
    let f = |k: usize| <u16 as Sharable>::to_sharetype(c[k][i] as u16);
    Swift3Share::new(f(p), f((p + 2) % 3), f(3))
}
fn a64(x: u64, y: u64) -> Aby3Share<u64> {
    Aby3Share::new(<u64 as Sharable>::to_sharetype(x), <u64 as Sharable>::to_sharetype(y))
}

fn main() {
    if let Ok(t) = std::env::var("VERIF_P21_TOOL") {
        if let Some(e) = std::env::var("VERIF_P21_ENTROPY").ok().and_then(|e| e.parse().ok()) {
            own_entropy(e);
        }
        let ok = match t.as_str() {
            "create" => create::run(),
            "plain" => plain::run(),
            _ => find::run(),
        };
        std::process::exit(!ok as i32);
    }
    let rep = Report::new("P21", "model_checking");
    let th = rep.thorough();
    let mut v: Vec<Job> = vec![];
    for prot in ["aby3", "swift3", "spdzwise", "ABY3", "Swift3", "SpdzWise"] {
        let list: &[usize] = if PROTS.contains(&prot) { if th { &[0, 1, 2, 3, 5, 9, 17, 65, 130] } else if prot == "spdzwise" { &[0, 1, 2, 5] } else { &[0, 1, 2, 5, 34] } } else { &[1] };
        for &n in list {
            for s in [None, Some(0), Some(1), Some(u64::MAX)] {
                v.push((format!("create/{prot}/{n}/{s:?}"), Box::new(move |r| single(r, prot, n, s))));
            }
        }
    }
    for prot in ["aby3", "swift3", "spdzwise", "plain"] {
        let al = [0usize, 1, 2];
        let depth = if th { 5 } else { 4 };
        let mut hs: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..depth {
            hs = hs.iter().flat_map(|h| al.iter().map(move |a| [h.clone(), vec![*a]].concat())).collect();
        }
        for h in hs {
            for seeds in [false, true] {
                let h = h.clone();
                if prot != "plain" || !seeds {
                    v.push((format!("history/{prot}/{h:?}/{seeds}"), Box::new(move |r| history(r, prot, &h, seeds))));
                }
            }
        }
        for q in ["aby3", "swift3", "spdzwise", "plain", "nothing", ""] {
            if q != prot && (q != "plain" || prot == "none") {
                v.push((format!("other/{prot}/{q}"), Box::new(move |r| other(r, prot, q))));
            }
        }
        // journal and file grow in pages of 4 KiB
        let top = match prot { "spdzwise" => 1260, "plain" => 200, "aby3" => 180, _ => 240 };
        let step = match (prot, th) { (_, true) => 4, ("spdzwise", _) => 12, _ => 4 };
        for start in [0, 1] {
            if prot == "plain" && start == 1 {
                continue;
            }
            let cuts: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
            let top = top + start * top / 2;
            v.push((format!("stopped/{prot}/{start}"), Box::new(move |r| {
                for l in (0..=top).step_by(step) {
                    cut(r, prot, start, if prot == "plain" { 40 } else { 2 }, l, cuts)?;
                }
                if cuts.load(Ordering::SeqCst) == 0 {
                    return Err("no limit had an effect".into());
                }
                Ok(())
            })));
        }
        // calls for many rows
        let (many, each) = match prot { "aby3" => (40, 80), "swift3" => (40, 110), "spdzwise" => (12, 620), _ => (600, 4) };
        let size = many * each;
        for part in 0..4usize {
            let cuts: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
            let steps = if th { 48 } else { 16 };
            v.push((format!("stopped/{prot}/many/{part}"), Box::new(move |r| {
                for l in (part..steps).step_by(4) {
                    cut(r, prot, 0, many, (l * 2 + 1) * size / (steps * 2), cuts)?;
                }
                if cuts.load(Ordering::SeqCst) == 0 {
                    return Err("no limit had an effect".into());
                }
                Ok(())
            })));
        }
        v.push((format!("search/{prot}"), Box::new(move |r| search_made(r, prot))));
    }
    let depth = if th { 5 } else { 4 };
    let mut ks: Vec<Vec<usize>> = vec![vec![]];
    let mut level = ks.clone();
    for _ in 0..depth {
        level = level.iter().flat_map(|h| (0..5).map(move |a| [h.clone(), vec![a]].concat())).collect();
        ks.extend(level.iter().cloned());
    }
    for k in ks {
        v.push((format!("find/{k:?}"), Box::new(move |r| search(r, &k, 12 + k.len() as u64))));
    }
    for k in [vec![], vec![0], vec![1], vec![0, 1], vec![1, 0], vec![0, 0], vec![1, 1, 0], vec![0, 1, 1]] {
        v.push((format!("copy/{k:?}"), Box::new(move |r| search_copy(r, &k))));
    }
    for n in if th { vec![1, 2, 3, 5] } else { vec![3] } {
        for chunk in [1, 2] {
            v.push((format!("protocol/aby3/{n}/{chunk}"), Box::new(move |r| in_protocol::<PAby3>(r, "aby3", n, chunk, aby, |_, _| unreachable!()))));
            v.push((format!("protocol/aby3 for MalAby3/{n}/{chunk}"), Box::new(move |r| in_protocol::<PMal>(r, "aby3", n, chunk, aby, |_, _| unreachable!()))));
            v.push((format!("protocol/swift3/{n}/{chunk}"), Box::new(move |r| in_protocol::<PSwift>(r, "swift3", n, chunk, swift, |_, _| unreachable!()))));
            v.push((format!("protocol/spdzwise/{n}/{chunk}"), Box::new(move |r| {
                in_protocol::<PSpdz>(r, "spdzwise", n, chunk, |c, i, p| {
                    let q = (p + 2) % 3;
                    SpdzWiseShare::new(a64(c[2 * p][i], c[2 * q][i]), a64(c[2 * p + 1][i], c[2 * q + 1][i]))
                }, |k, p| SpdzWiseShare::new(Aby3Share::default(), a64(k[1 + p], k[1 + (p + 2) % 3])))
            })));
        }
    }
    run_jobs(rep, v);
    rep.note("rule", "one evaluation = one call of a tool judged on the file or answer it leaves, or one query of the real three-party protocol over stored shares; it is nontrivial when rows were stored, a call stopped half-way or a match exists");
    rep.assume("a tool that may not write further is ended by the system at that write; other ways of stopping (power loss with reordered writes) are left to the database library");
    rep.finish_and_exit();
}
