//! Supervisor: spreads runs over worker processes, survives their deaths, confirms, minimises and
//! records violations, writes evidence.

use crate::ctx::{self, DUMP_REGION, STREAM_NAMES};
use crate::props;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{Sender, channel};
use std::time::{Duration, Instant};

pub fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string())
}
fn exe() -> std::path::PathBuf {
    std::env::current_exe().expect("own path")
}

pub type Lists = [Vec<u32>; 4];

pub fn load_choices(path: &str) -> Lists {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    let mut l: Lists = Default::default();
    for line in t.lines() {
        for s in 0..4 {
            if let Some(r) = line.strip_prefix(&format!("{}=", STREAM_NAMES[s])) {
                l[s] = r.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            }
        }
    }
    l
}
fn fmt_choices(l: &Lists) -> String {
    let mut o = String::new();
    for s in 0..4 {
        let v: Vec<String> = l[s].iter().map(|x| x.to_string()).collect();
        o.push_str(&format!("{}={}\n", STREAM_NAMES[s], v.join(",")));
    }
    o
}
pub fn map_dump(path: &str) -> *mut u32 {
    let len = 4 * DUMP_REGION * 4;
    let c = std::ffi::CString::new(path).unwrap();
    unsafe {
        use crate::shim::raw6;
        let fd = raw6(libc::SYS_open, c.as_ptr() as usize, (libc::O_RDWR | libc::O_CREAT) as usize, 0o644, 0, 0, 0) as i32;
        raw6(libc::SYS_ftruncate, fd as usize, len, 0, 0, 0, 0);
        libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0) as *mut u32
    }
}
fn read_dump(path: &str) -> Lists {
    let b = std::fs::read(path).unwrap_or_default();
    let w: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let mut l: Lists = Default::default();
    for s in 0..4 {
        if w.len() >= (s + 1) * DUMP_REGION {
            let n = w[s * DUMP_REGION] as usize;
            l[s] = w[s * DUMP_REGION + 1..s * DUMP_REGION + 1 + n.min(DUMP_REGION - 1)].to_vec();
        }
    }
    l
}

/// Outcome of one run in its own process.
#[derive(Clone, Debug, Default)]
pub struct Ran {
    pub class: Option<String>,
    pub detail: String,
    pub hash: String,
    pub trace: Vec<String>,
}
fn death(status: std::process::ExitStatus, w: Option<String>) -> String {
    use std::os::unix::process::ExitStatusExt;
    if let Some(w) = w {
        return w;
    }
    match status.signal() {
        Some(libc::SIGPROF) => "hang (cpu time)".into(),
        Some(libc::SIGSEGV) => "stack overflow (SIGSEGV)".into(),
        Some(libc::SIGABRT) => "abort (SIGABRT)".into(),
        Some(s) => format!("killed by signal {s}"),
        None => format!("process exited with {:?}", status.code()),
    }
}
pub struct Job<'a> {
    pub prop: &'a str,
    pub seed: u64,
    pub run: u64,
    pub tier: &'a str,
}
fn exec(j: &Job, choices: Option<&str>, dump: Option<&str>, verbose: bool) -> Ran {
    let out = Command::new(exe())
        .args(["exec", j.prop, &j.seed.to_string(), &j.run.to_string(), j.tier])
        .args([choices.unwrap_or("-"), dump.unwrap_or("-"), if verbose { "v" } else { "" }])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("exec self");
    parse_out(&out.stdout, out.status)
}
fn parse_out(stdout: &[u8], status: std::process::ExitStatus) -> Ran {
    let text = String::from_utf8_lossy(stdout);
    let mut r = Ran::default();
    let mut w = None;
    let mut clean = false;
    for l in text.lines() {
        if let Some(t) = l.strip_prefix("T ") {
            r.trace.push(t.to_string());
        } else if let Some(t) = l.strip_prefix("V ") {
            let t = t.split_once(' ').map(|x| x.1).unwrap_or("");
            let (c, d) = t.split_once('\t').unwrap_or((t, ""));
            r.class = Some(c.to_string());
            r.detail = d.to_string();
        } else if let Some(t) = l.strip_prefix("W ") {
            w = Some(t.to_string());
        } else if let Some(t) = l.strip_prefix("Q ") {
            r.hash = t.to_string();
        } else if l == "Z" {
            clean = true;
        }
    }
    if !clean {
        r.class = Some(death(status, w));
    }
    r
}

fn work_dir() -> String {
    let d = format!("{}/work/{}", root(), std::process::id());
    let _ = std::fs::create_dir_all(&d);
    d
}

/// Shrink the choice lists while the same class of violation still shows.
fn minimise(j: &Job, class: &str, mut cur: Lists, secs: f64) -> (Lists, usize) {
    let dir = work_dir();
    let t0 = Instant::now();
    let mut tried = 0;
    // evaluate candidates in parallel, return the first (in order) that reproduces
    let try_all = |cands: Vec<Lists>, tried: &mut usize| -> Option<Lists> {
        for group in cands.chunks(8) {
            if t0.elapsed().as_secs_f64() > secs {
                return None;
            }
            *tried += group.len();
            let ok: Vec<bool> = std::thread::scope(|sc| {
                let hs: Vec<_> = group
                    .iter()
                    .enumerate()
                    .map(|(k, c)| {
                        let f = format!("{dir}/c{k}");
                        sc.spawn(move || {
                            let _ = std::fs::write(&f, fmt_choices(c));
                            exec(j, Some(&f), None, false).class.as_deref() == Some(class)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
            });
            if let Some(k) = ok.iter().position(|x| *x) {
                return Some(group[k].clone());
            }
        }
        None
    };
    let trim = |l: &mut Lists| {
        for v in l.iter_mut() {
            while v.last() == Some(&0) {
                v.pop();
            }
        }
    };
    trim(&mut cur);
    loop {
        let before = cur.clone();
        for s in [ctx::S, ctx::F, ctx::L, ctx::D] {
            // truncations
            let n = cur[s].len();
            let mut cands = vec![];
            let mut lens: Vec<usize> = vec![0, n / 16, n / 8, n / 4, n / 2, 3 * n / 4, 7 * n / 8];
            lens.dedup();
            for k in lens {
                if k < n {
                    let mut c = cur.clone();
                    c[s].truncate(k);
                    cands.push(c);
                }
            }
            if let Some(c) = try_all(cands, &mut tried) {
                cur = c;
                trim(&mut cur);
            }
            // zero or remove chunks
            let mut size = (cur[s].len() / 2).max(1);
            while !cur[s].is_empty() {
                let mut at = 0;
                while at < cur[s].len() {
                    let mut cands = vec![];
                    let mut starts = vec![];
                    let mut p = at;
                    while p < cur[s].len() && cands.len() < 8 {
                        let e = (p + size).min(cur[s].len());
                        if cur[s][p..e].iter().any(|x| *x != 0) {
                            let mut c = cur.clone();
                            c[s][p..e].fill(0);
                            cands.push(c);
                            starts.push(p);
                            if size <= 8 {
                                let mut c = cur.clone();
                                c[s].drain(p..e);
                                cands.push(c);
                                starts.push(p);
                            }
                        }
                        p = e;
                    }
                    if cands.is_empty() {
                        break;
                    }
                    match try_all(cands, &mut tried) {
                        Some(c) => {
                            cur = c;
                            trim(&mut cur);
                        }
                        None => at = p,
                    }
                    if t0.elapsed().as_secs_f64() > secs {
                        trim(&mut cur);
                        return (cur, tried);
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        if cur == before || t0.elapsed().as_secs_f64() > secs {
            return (cur, tried);
        }
    }
}

enum Msg {
    Line(usize, String),
    Dead(usize, Child),
}
fn spawn_worker(slot: usize, j: &Job, w: u64, n: u64, start: u64, end: u64, secs: f64, tx: Sender<Msg>) {
    let mut ch = Command::new(exe())
        .args(["worker", j.prop, &w.to_string(), &n.to_string(), &j.seed.to_string(), j.tier])
        .args([start.to_string(), end.to_string(), format!("{secs:.2}")])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .expect("spawn worker");
    let out = ch.stdout.take().unwrap();
    std::thread::spawn(move || {
        for l in BufReader::new(out).split(b'\n') {
            let Ok(l) = l else { break };
            let _ = tx.send(Msg::Line(slot, String::from_utf8_lossy(&l).into_owned()));
        }
        let _ = tx.send(Msg::Dead(slot, ch));
    });
}

#[derive(Clone)]
struct Hit {
    run: u64,
    worker: u64,
    class: String,
    detail: String,
}
#[derive(Default)]
struct Explored {
    hits: Vec<Hit>,
    runs: u64,
    counters: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    ilv: BTreeSet<u64>,
    evals: u64,
    nontrivial: u64,
    sim_ns: u64,
    samples: Vec<String>,
    hashes: BTreeMap<u64, String>,
    deaths: u64,
}

fn explore(j: &Job, n: u64, end: u64, secs: f64, known: &[(String, String)]) -> Explored {
    let mut x = Explored::default();
    let (tx, rx) = channel();
    let t0 = Instant::now();
    let mut cur: Vec<u64> = vec![u64::MAX; n as usize];
    let mut fin: Vec<bool> = vec![false; n as usize];
    let mut wline: Vec<Option<String>> = vec![None; n as usize];
    for w in 0..n {
        spawn_worker(w as usize, j, w, n, 0, end, secs, tx.clone());
    }
    let mut alive = n;
    let mut stop_at: Option<Instant> = None;
    let mut unlisted: BTreeSet<String> = BTreeSet::new();
    let mut per_class: BTreeMap<String, usize> = BTreeMap::new();
    while alive > 0 {
        let m = match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(m) => m,
            Err(_) => {
                if stop_at.is_some_and(|s| Instant::now() > s) {
                    break;
                }
                continue;
            }
        };
        let mut hit = None;
        match m {
            Msg::Line(s, l) => {
                let (k, r) = l.split_once(' ').unwrap_or((l.as_str(), ""));
                match k {
                    "B" => cur[s] = r.parse().unwrap_or(0),
                    "E" => {
                        x.runs += 1;
                        let (i, h) = r.split_once(' ').unwrap_or((r, ""));
                        x.hashes.insert(i.parse().unwrap_or(0), h.to_string());
                    }
                    "V" => {
                        x.runs += 1;
                        let (i, t) = r.split_once(' ').unwrap_or((r, ""));
                        let (c, d) = t.split_once('\t').unwrap_or((t, ""));
                        hit = Some(Hit { run: i.parse().unwrap_or(0), worker: s as u64, class: c.into(), detail: d.into() });
                    }
                    "W" => wline[s] = Some(r.to_string()),
                    "C" => {
                        if let Some((n, v)) = r.rsplit_once(' ') {
                            *x.counters.entry(n.to_string()).or_default() += v.parse::<u64>().unwrap_or(0);
                        }
                    }
                    "N" => {
                        let v: Vec<u64> = r.split(' ').filter_map(|t| t.parse().ok()).collect();
                        if v.len() == 3 {
                            x.evals += v[0];
                            x.nontrivial += v[1];
                            x.sim_ns += v[2];
                        }
                    }
                    "H" => x.states.extend(r.split(' ').filter_map(|t| u64::from_str_radix(t, 16).ok())),
                    "I" => x.ilv.extend(r.split(' ').filter_map(|t| u64::from_str_radix(t, 16).ok())),
                    "X" => {
                        if x.samples.len() < 8 {
                            x.samples.push(r.to_string())
                        }
                    }
                    "Z" => fin[s] = true,
                    _ => {}
                }
            }
            Msg::Dead(s, mut ch) => {
                let st = ch.wait().expect("wait");
                if fin[s] {
                    alive -= 1;
                } else {
                    x.deaths += 1;
                    let class = death(st, wline[s].take());
                    let run = cur[s];
                    if run != u64::MAX {
                        x.runs += 1;
                        hit = Some(Hit { run, worker: s as u64, class, detail: String::new() });
                        let left = secs - t0.elapsed().as_secs_f64();
                        if left > 0.0 && run + n < end && stop_at.is_none() {
                            spawn_worker(s, j, s as u64, n, run + n, end, left, tx.clone());
                        } else {
                            alive -= 1;
                        }
                    } else {
                        eprintln!("worker {s} died at start: {class}");
                        alive -= 1;
                    }
                }
            }
        }
        if let Some(h) = hit {
            let is_known = known.iter().any(|(p, c)| p == j.prop && *c == h.class);
            let k = per_class.entry(h.class.clone()).or_default();
            *k += 1;
            if *k <= 3 {
                x.hits.push(h.clone());
            }
            if !is_known {
                unlisted.insert(h.class);
                let grace = if std::env::var("SIM_ALL").is_ok() { 1000.0 } else { 2.0 };
                stop_at.get_or_insert(Instant::now() + Duration::from_secs_f64(grace));
            }
        }
        if stop_at.is_some_and(|s| Instant::now() > s) {
            break;
        }
    }
    let _ = Command::new("pkill").args(["-P", &std::process::id().to_string()]).status();
    x
}

pub fn known_findings() -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: property=")?;
            let (p, r) = r.split_once(" class=\"")?;
            let (c, _) = r.split_once('"')?;
            Some((p.to_string(), c.to_string()))
        })
        .collect()
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    println!("seed={seed} property={prop} tier={tier}");
    let Some(info) = props::info(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let j = Job { prop, seed, run: 0, tier };
    let (runs, secs) = if tier == "thorough" { (u64::MAX / 2, info.secs_thorough) } else { (info.runs_quick, info.secs_quick) };
    let secs = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(secs);
    let runs = if std::env::var("SIM_SECS").is_ok() { u64::MAX / 2 } else { runs };
    let n = std::env::var("SIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8).clamp(2, 16));
    let known = known_findings();
    let t0 = Instant::now();
    let x = explore(&j, n, runs, secs, &known);
    let wall = t0.elapsed().as_secs_f64();

    // determinism self-check: the same seed in a fresh process gives the same event hash
    let mut det_n = 0;
    let mut det_bad = vec![];
    let picks: Vec<u64> = x.hashes.keys().copied().step_by((x.hashes.len() / 16).max(1)).take(16).collect();
    for group in picks.chunks(8) {
        let res: Vec<(u64, String)> = std::thread::scope(|sc| {
            let hs: Vec<_> = group
                .iter()
                .map(|&r| {
                    let j = Job { run: r, ..j };
                    sc.spawn(move || (r, exec(&j, None, None, false).hash))
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (r, h) in res {
            det_n += 1;
            if x.hashes[&r] != h {
                det_bad.push(r);
            }
        }
    }
    if !det_bad.is_empty() {
        println!("note: runs {det_bad:?} did not repeat exactly in a fresh process");
    }

    // violations
    let mut reported = 0;
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    let mut unrepro = vec![];
    let mut done: BTreeSet<String> = BTreeSet::new();
    let max_report = if std::env::var("SIM_ALL").is_ok() { 40 } else { 3 };
    for h in &x.hits {
        if known.iter().any(|(p, c)| p == prop && *c == h.class) {
            known_hit.insert(h.class.clone());
            continue;
        }
        if done.contains(&h.class) || reported >= max_report {
            continue;
        }
        let dir = work_dir();
        let j = Job { run: h.run, ..j };
        let dump = format!("{dir}/dump");
        let _ = std::fs::remove_file(&dump);
        let first = exec(&j, None, Some(&dump), false);
        let rdir = format!("{}/replay", root());
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{prop}-{}-{}.replay", seed, h.run);
        let Some(class) = first.class.clone() else {
            // does it need the history of the process it was found in?
            if history_replay(&j, h.worker, n, &h.class) {
                let body = format!(
                    "property={prop}\nclass={}\ndetail={}\nseed={seed}\nrun={}\ntier={tier}\nhistory={} {n}\n",
                    h.class, h.detail, h.run, h.worker
                );
                let _ = std::fs::write(&path, body);
                done.insert(h.class.clone());
                reported += 1;
                println!("  {} : {} (depends on earlier reads of the process)", h.class, h.detail);
                println!("VIOLATION property={prop} replay={path}");
                continue;
            }
            unrepro.push(format!("run {} {}", h.run, h.class));
            continue;
        };
        if done.contains(&class) {
            continue;
        }
        done.insert(h.class.clone());
        done.insert(class.clone());
        let lists = read_dump(&dump);
        let n0: usize = lists.iter().map(|l| l.len()).sum();
        let quickish = class.starts_with("hang");
        let msecs = std::env::var("SIM_MIN").ok().and_then(|s| s.parse().ok()).unwrap_or(if quickish { 5.0 } else { 25.0 });
        let (min, tried) = if quickish { (lists.clone(), 0) } else { minimise(&j, &class, lists.clone(), msecs) };
        let n1: usize = min.iter().map(|l| l.len()).sum();
        let write = |l: &Lists, r: &Ran, extra: &str| {
            let mut body = format!(
                "property={prop}\nclass={class}\ndetail={}\nseed={seed}\nrun={}\ntier={tier}\n{}",
                r.detail,
                h.run,
                fmt_choices(l)
            );
            body.push_str(&format!("# {extra}\n"));
            for t in &r.trace {
                body.push_str(&format!("# {t}\n"));
            }
            let _ = std::fs::write(&path, body);
        };
        write(&min, &Ran::default(), "");
        let mut r = exec(&j, Some(&path), None, true);
        let mut use_l = &min;
        if r.class.as_deref() != Some(&class) {
            use_l = &lists;
            write(&lists, &Ran::default(), "");
            r = exec(&j, Some(&path), None, true);
        }
        write(use_l, &r, &format!("minimised from {n0} to {n1} recorded decisions with {tried} trial runs"));
        reported += 1;
        println!("  {class} : {}", r.detail.replace("\\n", "\n    "));
        println!("VIOLATION property={prop} replay={path}");
    }
    for (p, c) in &known {
        if p == prop {
            println!("KNOWN-FINDING: property={p} {c} (seen in this run: {})", known_hit.contains(c));
        }
    }
    for u in &unrepro {
        println!("note: not reproducible, not reported: {u}");
    }
    let _ = std::fs::remove_dir_all(work_dir());
    let total = t0.elapsed().as_secs_f64();
    evidence(prop, tier, seed, &info, &x, wall, total, reported, det_n, det_bad.len(), &unrepro, n);
    println!(
        "{} runs in {:.1}s ({:.0}/h), {} oracle evaluations, {} distinct states, {} interleavings, {} violation classes",
        x.runs,
        wall,
        x.runs as f64 / wall * 3600.0,
        x.evals,
        x.states.len(),
        x.ilv.len(),
        reported
    );
    if std::env::var("SIM_VERBOSE").is_ok() {
        for (k, v) in &x.counters {
            println!("  {k} {v}");
        }
    }
    if x.runs == 0 {
        eprintln!("no run completed");
        return 2;
    }
    if reported > 0 { 1 } else { 0 }
}

/// Re-run the worker's whole sequence up to the run in one fresh process.
fn history_replay(j: &Job, w: u64, n: u64, class: &str) -> bool {
    let out = Command::new(exe())
        .args(["worker", j.prop, &w.to_string(), &n.to_string(), &j.seed.to_string(), j.tier])
        .args(["0".to_string(), (j.run + 1).to_string(), "300".to_string()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("exec self");
    let text = String::from_utf8_lossy(&out.stdout);
    let want = format!("V {} {class}", j.run);
    text.lines().any(|l| l.starts_with(&want)) || !text.lines().any(|l| l == "Z")
}

pub fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|s| s.to_string())).unwrap_or_default();
    let (prop, class, tier) = (get("property"), get("class"), get("tier"));
    let j = Job { prop: &prop, seed: get("seed").parse().unwrap_or(1), run: get("run").parse().unwrap_or(0), tier: &tier };
    let h = get("history");
    let ok = if let Some((w, n)) = h.split_once(' ') {
        history_replay(&j, w.parse().unwrap_or(0), n.parse().unwrap_or(8), &class)
    } else {
        let r = exec(&j, Some(path), None, true);
        for l in &r.trace {
            println!("{l}");
        }
        println!("outcome: {:?} {}", r.class, r.detail.replace("\\n", "\n"));
        r.class.as_deref() == Some(&class)
    };
    if ok {
        println!("VIOLATION property={prop} replay={path}");
        1
    } else {
        println!("the recorded violation does not occur");
        0
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.map(|s| js(&s)).collect::<Vec<_>>().join(", "))
}

fn evidence(
    prop: &str,
    tier: &str,
    seed: u64,
    info: &props::Info,
    x: &Explored,
    wall: f64,
    total: f64,
    violations: usize,
    det_n: usize,
    det_bad: usize,
    unrepro: &[String],
    workers: u64,
) {
    let faults: Vec<String> = x
        .counters
        .iter()
        .filter(|(k, _)| k.starts_with("fault."))
        .map(|(k, v)| format!("{}: {v}", js(&k[6..])))
        .collect();
    let probes: Vec<String> =
        x.counters.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| format!("{}: {v}", js(k))).collect();
    let body = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": {},\n    \"simulated_runs\": {},\n    \"seeds\": {},\n    \"runs_per_hour\": {:.0},\n    \"simulated_seconds\": {:.3},\n    \"simulated_runs_nontrivial\": {},\n    \"faults_injected\": {{{}}},\n    \"probes\": {{{}}},\n    \"distinct_states\": {},\n    \"state_measure\": {},\n    \"distinct_interleavings\": {},\n    \"workers\": {workers},\n    \"worker_deaths\": {},\n    \"determinism_rechecked\": {det_n},\n    \"determinism_mismatches\": {det_bad},\n    \"unreproduced\": {},\n    \"real_components\": {},\n    \"stubbed_components\": {}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {violations}\n}}\n",
        js(prop),
        js(tier),
        js(info.level),
        x.evals,
        x.states.len(),
        js(info.rule),
        jlist(x.samples.iter().cloned()),
        x.runs,
        x.runs,
        x.runs as f64 / wall.max(0.001) * 3600.0,
        x.sim_ns as f64 / 1e9,
        x.nontrivial,
        faults.join(", "),
        probes.join(", "),
        x.states.len(),
        js(info.measure),
        x.ilv.len(),
        x.deaths,
        jlist(unrepro.iter().cloned()),
        jlist(["onenote_parser (the whole crate, compiled from /repo's working tree)", "Rust std file, path, directory and thread code", "std hash maps with simulator-chosen hash seeds"].iter().map(|s| s.to_string())),
        jlist(["kernel file system (in-memory model behind the libc symbols)", "OneNote as the writer (reference model, revision store and encoder of the simulator)", "kernel thread scheduling (seeded cooperative scheduler)", "entropy source for hash seeds"].iter().map(|s| s.to_string())),
        jlist(info.assumptions.iter().map(|s| s.to_string())),
        total,
    );
    let d = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(format!("{d}/{prop}.json"), body);
}

/// Every property: n runs with 8 workers and 3 workers must give the same event hashes.
pub fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    for p in props::ALL {
        let j = Job { prop: p, seed: 7, run: 0, tier: "quick" };
        let a = explore(&j, 8, n, 600.0, &[]);
        let b = explore(&j, 3, n, 600.0, &[]);
        let diff: Vec<u64> = a.hashes.iter().filter(|(k, v)| b.hashes.get(k) != Some(v)).map(|(k, _)| *k).collect();
        println!("{p}: {} runs twice, {} differ {:?}", a.hashes.len(), diff.len(), &diff[..diff.len().min(5)]);
        bad += diff.len();
    }
    if bad > 0 { 1 } else { 0 }
}
