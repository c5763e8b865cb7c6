//! C01, C02: whatever a file holds, reading it ends in a document or an error, in bounded time and
//! memory. C03: a file cut short is never read as a shorter document.

use super::*;
use crate::ctx::F;
use crate::alloc;
use crate::corrupt::*;
use crate::doc::dump_section;
use crate::nb;
use std::sync::OnceLock;
use std::sync::atomic::Ordering::Relaxed;

pub struct Sample {
    pub name: String,
    pub bytes: Arc<Vec<u8>>,
}
/// The sample files of the repository, when it has any.
pub fn samples() -> &'static [Sample] {
    static S: OnceLock<Vec<Sample>> = OnceLock::new();
    S.get_or_init(|| {
        fn walk(d: &Path, out: &mut Vec<Sample>) {
            let Ok(it) = std::fs::read_dir(d) else { return };
            let mut v: Vec<_> = it.flatten().map(|e| e.path()).collect();
            v.sort();
            for p in v {
                if p.is_dir() {
                    walk(&p, out);
                } else if p.extension().is_some_and(|e| e == "one" || e == "onetoc2") {
                    if let Ok(b) = std::fs::read(&p) {
                        out.push(Sample { name: p.file_name().unwrap().to_string_lossy().into_owned(), bytes: Arc::new(b) });
                    }
                }
            }
        }
        let mut out = vec![];
        walk(Path::new("/repo/tests/samples"), &mut out);
        out
    })
}

pub struct Victim {
    pub bytes: Vec<u8>,
    pub toc: bool,
}
fn damaged_section(steps: usize, log: &mut Vec<String>) -> Victim {
    let big = if ctx::ctx().tier_thorough && choose(D, 6) == 5 { 3 } else { 1 };
    let budget = [3, 6, 12, 24, 40][choose(D, 5)] * big;
    let mut g = swarm(["C05", "C06", "C07", "C08", "C09", ""][choose(D, 6)], budget);
    bulky(&mut g, 60, 400);
    let cfg = HistCfg { pages: 1 + choose(D, 2), steps, versions: false, crashes: choose(D, 4) == 3, stale: choose(D, 4) == 3 };
    let mut h = run_history(&mut g, &cfg);
    if choose(D, 12) == 11 && !h.doc.series.is_empty() && !h.doc.series[0].pages.is_empty() {
        // legitimately deep content
        let n = [20, 60, 120, 260, 700][choose(D, 5)];
        let p = &mut h.doc.series[0].pages[0];
        crate::model::deepen(&mut g, &mut p.sh, &mut p.node, n, &mut |_| choose(D, 4));
        h.store.commit(&crate::doc::section_states(&h.doc), false);
        log.push(format!("deep content ({n})"));
        ctx::count("fault.deep_nesting");
    }
    let mut img = h.store.image();
    let mode = choose(F, 4);
    if mode != 1 {
        for _ in 0..1 + choose(F, 3) {
            match choose(F, 12) {
                11 => cycle_revisions(&mut img, log),
                10 => structure_one(&mut img, log),
                _ => semantic_one(&mut img, log),
            }
        }
    }
    if img.elems.is_empty() {
        return Victim { bytes: vec![], toc: false };
    }
    let seed = choose(L, 1 << 20) as u64;
    let e = encode(&img, &mut Lay::new(seed), false);
    let mut bytes = e.bytes;
    if mode == 1 || mode == 2 {
        let old = vec![Arc::new(lay_out(&h.store).bytes)];
        for _ in 0..1 + choose(F, 4) {
            bytes_one(&mut bytes, &e.spans, &old, log);
        }
    }
    Victim { bytes, toc: false }
}
fn damaged_toc(log: &mut Vec<String>) -> Victim {
    let mut g = swarm("", 3);
    let n = nb::gen_nb(&mut g, &nb::NbCfg { depth: 0, entries: 5, steps: 3, budget: 1 }, 0);
    let mut img = n.store.image();
    let mode = choose(F, 3);
    if mode != 1 {
        for _ in 0..1 + choose(F, 3) {
            match choose(F, 8) {
                7 => cycle_revisions(&mut img, log),
                _ => semantic_one(&mut img, log),
            }
        }
    }
    if img.elems.is_empty() {
        return Victim { bytes: vec![], toc: true };
    }
    let seed = choose(L, 1 << 20) as u64;
    let e = encode(&img, &mut Lay::new(seed), true);
    let mut bytes = e.bytes;
    if mode == 1 {
        for _ in 0..1 + choose(F, 4) {
            bytes_one(&mut bytes, &e.spans, &[], log);
        }
    }
    Victim { bytes, toc: true }
}
pub fn victim(log: &mut Vec<String>) -> Victim {
    let s = samples();
    match choose(D, 16) {
        0..=11 => damaged_section(choose(D, 3), log),
        12 | 13 => damaged_toc(log),
        14 if !s.is_empty() => {
            let k = choose(D, s.len());
            let mut b = s[k].bytes.to_vec();
            let toc = s[k].name.ends_with("onetoc2");
            for _ in 0..1 + choose(F, 5) {
                bytes_one(&mut b, &[], &[s[choose(F, s.len())].bytes.clone()], log);
            }
            log.push(format!("sample {}", s[k].name));
            Victim { bytes: b, toc }
        }
        _ => {
            // a genuine header followed by noise
            let mut g = swarm("", 2);
            let h = run_history(&mut g, &HistCfg { pages: 1, steps: 0, versions: false, crashes: false, stale: false });
            let mut b = lay_out(&h.store).bytes;
            let keep = choose(F, b.len() + 1);
            b.truncate(keep);
            for _ in 0..choose(F, 60) {
                b.extend(evil_bytes());
            }
            ctx::count("fault.noise");
            log.push("noise".into());
            Victim { bytes: b, toc: choose(F, 4) == 3 }
        }
    }
}
fn read_victim(v: Victim) -> Got {
    let hs = hseed();
    if v.toc {
        put("/w/nb/Open Notebook.onetoc2", v.bytes);
        // something an entry may name
        let mut g = swarm("", 2);
        let h = run_history(&mut g, &HistCfg { pages: 1, steps: 0, versions: false, crashes: false, stale: false });
        put("/w/nb/s.one", lay_out(&h.store).bytes);
        fresh();
        return read_notebook(hs, "/w/nb/Open Notebook.onetoc2");
    }
    match choose(S, 4) {
        3 => read_buffer(hs, &v.bytes, "n.one"),
        2 => {
            // as an entry of a healthy notebook
            let root = crate::doc::TocNode {
                oid: 10,
                color: None,
                leaf: None,
                kids: vec![crate::doc::TocNode { oid: 11, color: None, leaf: Some(("x.one".into(), 1)), kids: vec![], extra: false }],
                extra: false,
            };
            let mut st = Store::new(crate::write::SCHEMA_TOC);
            st.commit(&crate::doc::toc_states(&root), false);
            put("/w/nb/t.onetoc2", lay_out(&st).bytes);
            put("/w/nb/x.one", v.bytes);
            fresh();
            read_notebook(hs, "/w/nb/t.onetoc2")
        }
        _ => {
            put("/w/x.one", v.bytes);
            fresh();
            read_section(hs, "/w/x.one")
        }
    }
}

/// A section group in a section group in a section group, as deep as paths allow.
fn deep_groups() -> u64 {
    use crate::doc::{TocNode, toc_states};
    let depth = [4, 40, 300, 900, 1900][choose(D, 5)] + choose(D, 100);
    let kid = |oid, name: &str| TocNode { oid, color: None, leaf: Some((name.into(), oid)), kids: vec![], extra: false };
    let toc = |name: &str| {
        let root = TocNode { oid: 10, color: None, leaf: None, kids: vec![kid(21, name)], extra: false };
        let mut st = Store::new(crate::write::SCHEMA_TOC);
        st.commit(&toc_states(&root), false);
        Arc::new(lay_out(&st).bytes)
    };
    let again = toc("x");
    let mut dir = String::from("/w/n");
    for _ in 0..depth {
        vfs().mkdirs(&dir);
        vfs().put_file(&format!("{dir}/t.onetoc2"), again.clone());
        dir.push_str("/x");
    }
    vfs().mkdirs(&dir);
    if choose(D, 2) == 1 {
        vfs().put_file(&format!("{dir}/t.onetoc2"), toc("gone"));
    }
    fresh();
    ctx::state(depth as u64);
    let c = ctx::ctx();
    c.evals += 1;
    c.nontrivial += 1;
    ctx::count("fault.deep_directories");
    (again.len() * depth) as u64
}
pub fn c01() -> Result<(), Violation> {
    alloc::MAX_LIVE.store(3 << 30, Relaxed);
    if choose(D, 200) == 199 {
        deep_groups();
        return match read_notebook(hseed(), "/w/n/t.onetoc2") {
            Got::Panic(p) => fail(format!("panic at {}", site(&p)), p),
            _ => Ok(()),
        };
    }
    let mut log = vec![];
    let v = victim(&mut log);
    ctx::state(ctx::hash_bytes(&v.bytes));
    let c = ctx::ctx();
    c.evals += 1;
    c.nontrivial += (!log.is_empty()) as u64;
    if c.sample.is_empty() {
        c.sample.push(format!("run {}: {} ({} bytes)", c.run, log.join(", "), v.bytes.len()));
    }
    match read_victim(v) {
        Got::Panic(p) => fail(format!("panic at {}", site(&p)), p),
        _ => Ok(()),
    }
}
/// Budgets for reading `size` bytes: (allocations, allocated bytes, live bytes).
pub fn budget(size: u64) -> (u64, u64, i64) {
    let q = size * size / 50;
    (100_000 + 50 * size + q / 5, (32 << 20) + 4_000 * size + 20 * q, (4 << 20) + (400 * size + q) as i64)
}
pub fn c02() -> Result<(), Violation> {
    let mut log = vec![];
    if choose(D, 12) == 11 {
        if choose(D, 16) == 15 {
            let total = deep_groups();
            let hs = hseed();
            bounded(total, move || read_notebook(hs, "/w/n/t.onetoc2"));
            return Ok(());
        }
        return many_groups();
    }
    let v = victim(&mut log);
    ctx::state(ctx::hash_bytes(&v.bytes));
    let size = v.bytes.len() as u64 + 4096;
    let c = ctx::ctx();
    c.evals += 1;
    c.nontrivial += (!log.is_empty()) as u64;
    if c.sample.is_empty() {
        c.sample.push(format!("run {}: {} ({} bytes)", c.run, log.join(", "), v.bytes.len()));
    }
    bounded(size, move || read_victim(v));
    Ok(())
}
/// Run a read under the budgets of `size`; an overrun ends the process with a W line.
fn bounded(size: u64, f: impl FnOnce() -> Got) {
    let (t, b, l) = budget(size);
    alloc::mark();
    alloc::MAX_TICKS.store(t, Relaxed);
    alloc::MAX_BYTES.store(b, Relaxed);
    alloc::MAX_LIVE.store(l, Relaxed);
    let _ = f();
    let used = (alloc::TICKS.load(Relaxed), alloc::BYTES.load(Relaxed), alloc::PEAK.load(Relaxed));
    alloc::MAX_TICKS.store(u64::MAX, Relaxed);
    alloc::MAX_BYTES.store(u64::MAX, Relaxed);
    alloc::MAX_LIVE.store(i64::MAX, Relaxed);
    if std::env::var("SIM_CAL").is_ok() {
        let p = |a: u64, b: u64| format!("{:05.1}%", 100.0 * a as f64 / b as f64);
        crate::say(&format!(
            "CAL {} {} {} size {size} run {} used {used:?}\n",
            p(used.0, t),
            p(used.1, b),
            p(used.2.max(0) as u64, l as u64),
            ctx::ctx().run
        ));
    }
    ctx::count_n("allocations", used.0);
}
/// Groups that contain themselves or each other, by links or by unusual spellings.
fn many_groups() -> Result<(), Violation> {
    use crate::doc::{TocNode, toc_states};
    let mut total = 0u64;
    let depth = 1 + choose(D, 4);
    let mut dir = String::from("/w/nb");
    let spell = |k: usize, name: &str| match k % 6 {
        0 => name.to_string(),
        1 => format!("./{name}"),
        2 => format!("{name}/."),
        3 => format!("{name}/"),
        4 => format!("././{name}"),
        _ => format!("{}{name}", "./".repeat(k / 6 + 2)),
    };
    let mut g = swarm("", 2);
    let h = run_history(&mut g, &HistCfg { pages: 1, steps: 0, versions: false, crashes: false, stale: false });
    for level in 0..depth {
        let last = level + 1 == depth;
        let fan = 1 + choose(D, 8);
        let mut kids = vec![];
        let mut oid = 20;
        let mut add = |name: String| {
            oid += 1;
            kids.push(TocNode { oid, color: None, leaf: Some((name, oid)), kids: vec![], extra: false });
        };
        for k in 0..fan {
            add(spell(k, "g"));
        }
        let links = choose(D, 3);
        for k in 0..links {
            let l = format!("l{k}");
            let target = [".", "g", "..", "../..", "/w/nb", "l0"][choose(D, 6)];
            vfs().put_link(&format!("{dir}/{l}"), target);
            ctx::count("fault.link_cycle");
            for s in 0..1 + choose(D, 3) {
                add(spell(s, &l));
            }
        }
        if choose(D, 2) == 1 {
            add("s.one".into());
            total += put(&format!("{dir}/s.one"), lay_out(&h.store).bytes).len() as u64;
        }
        let root = TocNode { oid: 10, color: None, leaf: None, kids, extra: false };
        let mut st = Store::new(crate::write::SCHEMA_TOC);
        st.commit(&toc_states(&root), false);
        total += put(&format!("{dir}/a.onetoc2"), lay_out(&st).bytes).len() as u64;
        if !last {
            dir.push_str("/g");
            vfs().mkdirs(&dir);
        } else if choose(D, 2) == 1 {
            vfs().put_link(&format!("{dir}/g"), [".", "..", "/w/nb"][choose(D, 3)]);
            ctx::count("fault.link_cycle");
        }
    }
    fresh();
    ctx::ctx().evals += 1;
    let hs = hseed();
    ctx::state(ctx::mix(total ^ depth as u64));
    bounded(total, move || read_notebook(hs, "/w/nb/a.onetoc2"));
    // a single directory is never entered without bound
    let opens = vfs().journal.len();
    ctx::count_n("calls_of_nested_reads", opens as u64);
    if vfs().calls > 400 * (total + 100) {
        return fail("too many system calls", format!("{} calls for {total} bytes of files", vfs().calls));
    }
    Ok(())
}

pub fn c03() -> Result<(), Violation> {
    let hs = hseed();
    // toc, section, sample
    let what = choose(D, 8);
    let s = samples();
    if what == 7 && !s.is_empty() {
        let k = choose(D, s.len());
        return cuts(&s[k].name, s[k].bytes.clone(), &[], hs, s[k].name.ends_with("onetoc2"));
    }
    if what == 6 {
        return cut_notebook(hs);
    }
    let mut g = swarm("", [3, 6, 12, 24][choose(D, 4)]);
    let cfg = HistCfg { pages: 1 + choose(D, 2), steps: choose(D, 4), versions: choose(D, 2) == 1, crashes: choose(D, 4) == 3, stale: choose(D, 4) == 3 };
    let h = run_history(&mut g, &cfg);
    let enc = lay_out(&h.store);
    let mut ends: Vec<usize> = enc.spans.iter().flat_map(|s| [s.0, s.1]).collect();
    ends.push(enc.package_start);
    let mut want = String::new();
    dump_section(&h.doc, "x.one", 0, &mut want);
    cuts("x.one", Arc::new(enc.bytes), &ends, hs, false)
}
fn cuts(name: &str, full: Arc<Vec<u8>>, ends: &[usize], hs: u64, toc: bool) -> Result<(), Violation> {
    let path = format!("/w/{name}");
    vfs().put_file(&path, full.clone());
    let read = |hs: u64| if toc { read_notebook(hs, &path) } else { read_section(hs, &path) };
    fresh();
    let want = read(hs);
    let n = full.len();
    let k = if ctx::ctx().tier_thorough { 160 } else { 48 };
    let c = ctx::ctx();
    c.states.insert(ctx::hash_bytes(&full));
    c.nontrivial += 1;
    if c.sample.is_empty() {
        c.sample.push(format!("run {}: {name}, {n} bytes, {} records, {k} cut points", c.run, ends.len() / 2));
    }
    for i in 0..k {
        let at = match choose(F, 6) {
            0 if !ends.is_empty() => ends[choose(F, ends.len())],
            1 if !ends.is_empty() => (ends[choose(F, ends.len())] + choose(F, 9)).saturating_sub(4),
            2 => n.saturating_sub(1 + choose(F, 60)),
            3 => choose(F, n.div_ceil(512) + 1) * 512,
            _ => choose(F, n + 1),
        }
        .min(n.saturating_sub(1));
        let how = choose(F, 4);
        let got = match how {
            // cut at rest
            0 | 1 => {
                ctx::count("fault.truncated_file");
                vfs().put_file(&path, Arc::new(full[..at].to_vec()));
                fresh();
                read(hs)
            }
            // the file ends early while it is read, although its size was larger
            2 => {
                vfs().put_file(&path, full.clone());
                vfs().fresh(Plan { eof_at: Some((path.clone(), at)), ..Plan::default() });
                read(hs)
            }
            _ if toc => continue,
            _ => {
                ctx::count("fault.truncated_buffer");
                read_buffer(hs, &full[..at], name)
            }
        };
        ctx::ctx().evals += 1;
        match (&got, &want) {
            (Got::Err(_), _) => {}
            (Got::Doc(a), Got::Doc(b)) if a == b => {
                ctx::count("cut_outside_content");
            }
            (Got::Doc(a), Got::Doc(b)) => {
                let (c, t) = difference(b, a);
                return fail(format!("cut file read as another document: {c}"), format!("cut {i} at byte {at} of {n} (way {how}): {t}"));
            }
            (Got::Doc(_), _) => {
                return fail("cut file accepted, complete file refused", format!("cut at byte {at} of {n}: {}", want.short()));
            }
            (Got::Panic(p), _) => return fail(format!("panic at {}", site(p)), format!("cut at byte {at} of {n}: {p}")),
        }
    }
    Ok(())
}
/// One file of a notebook is cut; the notebook is read as a whole.
fn cut_notebook(hs: u64) -> Result<(), Violation> {
    let mut g = swarm("", 3);
    let nb = nb::notebook(&mut g, 0);
    let files = nb.write("/w/nb");
    let path = format!("/w/nb/{}", nb.toc_name);
    let want = nb.dump();
    ctx::state(ctx::hash_bytes(want.as_bytes()));
    for _ in 0..12 {
        let f = files[choose(F, files.len())].clone();
        let at = match choose(F, 3) {
            0 if !f.spans.is_empty() => f.spans[choose(F, f.spans.len())].1,
            1 => f.bytes.len() - 1 - choose(F, 30).min(f.bytes.len() - 1),
            _ => choose(F, f.bytes.len()),
        }
        .min(f.bytes.len() - 1);
        ctx::count("fault.truncated_file");
        vfs().put_file(&f.path, Arc::new(f.bytes[..at].to_vec()));
        fresh();
        let got = read_notebook(hs, &path);
        vfs().put_file(&f.path, f.bytes.clone());
        ctx::ctx().evals += 1;
        match got {
            Got::Doc(d) if d != want => {
                let (c, t) = difference(&want, &d);
                return fail(format!("notebook with a cut file read as another notebook: {c}"), format!("{} cut at {at}: {t}", f.path));
            }
            Got::Panic(p) => return fail(format!("panic at {}", site(&p)), p),
            _ => {}
        }
    }
    Ok(())
}
