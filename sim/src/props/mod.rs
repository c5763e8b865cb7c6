//! The properties: one run function each, over shared helpers.

use crate::ctx::{self, D, L, S, Violation, choose, fail};
use crate::dump;
use crate::model::Gen;
use crate::sched;
use crate::store::*;
use crate::vfs::{Plan, vfs};
use crate::write::{Encoded, Lay, encode};
use onenote_parser::Parser;
use std::path::Path;
use std::sync::Arc;

mod content;
mod damage;
mod io;
mod kinds;
mod layout;
mod tree;

pub struct Info {
    pub level: &'static str,
    pub runs_quick: u64,
    pub secs_quick: f64,
    pub secs_thorough: f64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub assumptions: &'static [&'static str],
}
pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"];
pub fn info(p: &str) -> Option<Info> {
    const HIST: &str = "one run = one seeded writing history (create, edit, commit, crash before the index switch, compact, \
        keep versions, leave a stale index) of a generated document, laid out under a seeded physical layout, read back by the \
        real crate and compared with the reference model; distinct = different expected document; non-trivial = more than one commit";
    const M_DOC: &str = "hash of the document the reference model expects";
    const M_BYTES: &str = "hash of the bytes under test";
    const A_MODEL: &str = "the reference model and encoder follow [MS-ONESTORE]/[MS-ONE]/[MS-FSSHTTPB] as the crate's documentation \
        cites them; cross-checked against the real sample files in /repo/tests/samples";
    const A_OS: &str = "the in-memory file system behaves like POSIX for the calls the crate's dependencies make; calls outside \
        the seam end the run";
    let f = |rule: &'static str, measure: &'static str, assumptions: &'static [&'static str]| Info {
        level: "exploration",
        runs_quick: 300_000,
        secs_quick: 45.0,
        secs_thorough: 600.0,
        rule,
        measure,
        assumptions,
    };
    Some(match p {
        "C01" => f(
            "one run = one damaged file (semantic corruption of a generated store, contradicting or looping records, storage faults on the \
             bytes, damaged real samples, pure noise) given to every entry point; distinct = different bytes; non-trivial = at least one fault",
            M_BYTES,
            &[A_OS, "stack limit 2 MB per reading thread, as Rust gives spawned threads"],
        ),
        "C02" => f(
            "one run = one damaged or adversarial file or notebook read under budgets of allocations, live memory and system calls that \
             grow with the size of the input; distinct = different bytes; non-trivial = at least one fault",
            M_BYTES,
            &[A_OS, "work is counted in allocations, bytes and simulated calls plus a generous CPU watchdog, never in wall time alone"],
        ),
        "C03" => f(
            "one run = one document cut at every kind of place (record boundaries and near them, sectors, tail, anywhere), at rest, while being \
             read, or as a buffer; distinct = different complete file; non-trivial = all",
            M_BYTES,
            &[A_OS],
        ),
        "C04" | "C05" | "C06" | "C07" | "C08" | "C09" => f(HIST, M_DOC, &[A_MODEL]),
        "C10" => f(
            "one run = one seeded history of a notebook directory (add, edit, delete, rename, reorder, recolour, lose files, strays, lost \
             commits, compaction), read through parse_notebook under a seeded directory order and compared with the model; \
             distinct = different expected notebook; non-trivial = the list was committed more than once",
            M_DOC,
            &[A_MODEL, A_OS],
        ),
        "C11" => f(
            "one run = one healthy, damaged or self-contradicting file or notebook read several times under other hash seeds, directory \
             orders, path spellings, working directories and earlier reads; distinct = different bytes; non-trivial = all",
            M_BYTES,
            &[A_OS],
        ),
        "C12" => f(
            "one run = two to four simulated threads reading shared or separate files under one seeded schedule with preemption at system \
             calls and allocations, one of them possibly on a failing disk, compared with each read alone; distinct = different bytes; \
             non-trivial = all",
            "distinct_interleavings counts different schedules (hash of the sequence of thread switches)",
            &[A_OS, "threads switch only at system calls and allocations of the code under test: data races between those points are \
               excluded by the absence of unsafe code and of shared mutable state, which the compiler checks"],
        ),
        "C13" => f(
            "one run = one file or notebook read repeatedly with short reads, interrupted calls, wrong size hints, slow calls and odd \
             directory behaviour, compared with the undisturbed read; distinct = different bytes; non-trivial = all",
            M_BYTES,
            &[A_OS],
        ),
        "C14" => f(
            "one run = one section or notebook whose reads meet failing calls (chosen from the calls of a dry run), total failure from one \
             call on, or missing permissions; the result is an error or complete, and complete again after healing; \
             distinct = different bytes; non-trivial = all",
            M_BYTES,
            &[A_MODEL, A_OS],
        ),
        "C15" => f(
            "one run = one notebook with hostile entry names and links at two levels, possibly with failing lookups or a link swapped in \
             while it is read; every opened file is judged by inode; distinct = different names and links; non-trivial = all",
            "hash of the listed names and the shape of the tree",
            &[A_OS, "a link swapped in between the check of a path and its opening is not judged: no path-based reader can exclude it"],
        ),
        "C16" => f(
            "one run = one healthy or damaged target read three times, also under faults, with every system call journalled and live memory \
             compared after the result is dropped; distinct = different bytes; non-trivial = all",
            M_BYTES,
            &[A_OS],
        ),
        "C17" => f(
            "one run = one document, section or notebook in several physical layouts (record order, widths, identifiers, packaging, grouping, \
             compaction, garbage), also swapped while being read; distinct = different canonical bytes; non-trivial = all",
            M_BYTES,
            &["documents whose records contradict each other have no equivalent layouts and are left out"],
        ),
        "C18" => f(
            "one run = one document or notebook from which records, objects, index entries are lost or in which references lead nowhere, \
             several times; the read is refused or complete; distinct = different expected document; non-trivial = all",
            M_DOC,
            &[A_MODEL, "a lost object is only judged where no other version of it is on disk"],
        ),
        "C19" => f(
            "one run = one section and one notebook, right and wrong kinds, schemas, formats, versions, packagings and foreign files at every \
             entry point and at every place of the notebook, also swapped while being read; distinct = different documents; non-trivial = all",
            M_DOC,
            &[A_MODEL, A_OS],
        ),
        _ => return None,
    })
}
pub fn run(p: &str) -> Result<(), Violation> {
    match p {
        "C04" | "C05" | "C06" | "C07" | "C08" | "C09" => content::run(p),
        "C01" => damage::c01(),
        "C02" => damage::c02(),
        "C03" => damage::c03(),
        "C11" => io::c11(),
        "C12" => io::c12(),
        "C13" => io::c13(),
        "C14" => io::c14(),
        "C15" => io::c15(),
        "C16" => io::c16(),
        "C17" => layout::c17(),
        "C18" => layout::c18(),
        "C19" => kinds::c19(),
        "C10" => tree::run(p),
        _ => fail("unknown property", p),
    }
}

// ---------------------------------------------------------------- reading
#[derive(Clone, PartialEq, Debug)]
pub enum Got {
    Doc(String),
    Err(String),
    Panic(String),
}
impl Got {
    pub fn short(&self) -> String {
        match self {
            Got::Doc(d) => format!("a document of {} lines", d.lines().count()),
            Got::Err(e) => format!("error: {e}"),
            Got::Panic(p) => format!("panic: {p}"),
        }
    }
    pub fn hash(&self) -> u64 {
        match self {
            Got::Doc(d) => ctx::hash_bytes(d.as_bytes()),
            Got::Err(e) => ctx::hash_bytes(e.as_bytes()) ^ 1,
            Got::Panic(p) => ctx::hash_bytes(p.as_bytes()) ^ 2,
        }
    }
}
pub fn got(r: Result<Result<String, String>, String>) -> Got {
    let g = match r {
        Ok(Ok(d)) => Got::Doc(d),
        Ok(Err(e)) => Got::Err(e),
        Err(p) => Got::Panic(p),
    };
    ctx::count(match &g {
        Got::Doc(_) => "reads_ok",
        Got::Err(_) => "reads_error",
        Got::Panic(_) => "reads_panic",
    });
    ctx::event(g.hash());
    if EXPORT.load(std::sync::atomic::Ordering::Relaxed) {
        crate::export(".result", if let Got::Doc(d) = &g { d.clone() } else { g.short() }.as_bytes());
    }
    ctx::trace(|| format!("    => {}", g.short()));
    g
}
/// What a read returns, as text; runs as system-under-test code.
pub fn sut_section(p: &Parser, path: &str) -> Result<String, String> {
    match p.parse_section(Path::new(path)) {
        Ok(s) => Ok(crate::alloc::harness(|| dump::section(&s))),
        Err(e) => Err(crate::alloc::harness(|| format!("{e:?}"))),
    }
}
pub fn sut_notebook(p: &Parser, path: &str) -> Result<String, String> {
    match p.parse_notebook(Path::new(path)) {
        Ok(s) => Ok(crate::alloc::harness(|| dump::notebook(&s))),
        Err(e) => Err(crate::alloc::harness(|| format!("{e:?}"))),
    }
}
pub fn sut_buffer(p: &Parser, data: &[u8], name: &str) -> Result<String, String> {
    match p.parse_section_buffer(data, Path::new(name)) {
        Ok(s) => Ok(crate::alloc::harness(|| dump::section(&s))),
        Err(e) => Err(crate::alloc::harness(|| format!("{e:?}"))),
    }
}
pub fn read_section(hseed: u64, path: &str) -> Got {
    ctx::trace(|| format!("  parse_section({path})"));
    got(sched::run_one(hseed, || sut_section(&Parser::new(), path)))
}
pub fn read_notebook(hseed: u64, path: &str) -> Got {
    ctx::trace(|| format!("  parse_notebook({path})"));
    got(sched::run_one(hseed, || sut_notebook(&Parser::new(), path)))
}
/// see `export`
pub static EXPORT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn read_buffer(hseed: u64, data: &[u8], name: &str) -> Got {
    ctx::trace(|| format!("  parse_section_buffer({} bytes, {name})", data.len()));
    if EXPORT.load(std::sync::atomic::Ordering::Relaxed) {
        crate::export(&format!(".buffer.{name}"), data);
    }
    got(sched::run_one(hseed, || sut_buffer(&Parser::new(), data, name)))
}
pub fn hseed() -> u64 {
    choose(S, 1 << 16) as u64
}

// ---------------------------------------------------------------- comparing
fn key(l: &str) -> String {
    let t = l.trim_start();
    let t = t.split(['=', ' ']).next().unwrap_or(t);
    t.to_string()
}
fn indent(l: &str) -> usize {
    l.len() - l.trim_start().len()
}
/// Where two dumps differ first: (stable class, human detail).
pub fn difference(want: &str, got: &str) -> (String, String) {
    let w: Vec<&str> = want.lines().collect();
    let g: Vec<&str> = got.lines().collect();
    let mut i = 0;
    while i < w.len() && i < g.len() && w[i] == g[i] {
        i += 1;
    }
    let pick = |v: &Vec<&str>| v.get(i).map(|s| s.to_string()).unwrap_or("(end)".into());
    let at = if i < w.len() { i } else { w.len().saturating_sub(1) };
    let mut path = vec![];
    let mut ind = w.get(at).map(|l| indent(l)).unwrap_or(0);
    for k in (0..at).rev() {
        if indent(w[k]) < ind {
            ind = indent(w[k]);
            path.push(w[k].trim().to_string());
        }
    }
    path.reverse();
    let owner = path.last().map(|s| key(s)).unwrap_or_default();
    let class = format!("{owner} {}", if i < w.len() { key(w[i]) } else { "(extra)".into() });
    (
        class.trim().to_string(),
        format!("in {}: expected `{}`, read `{}`", path.join(" / "), pick(&w).trim(), pick(&g).trim()),
    )
}
/// The read must return exactly `want`.
pub fn expect(what: &str, want: &str, g: &Got) -> Result<(), Violation> {
    if EXPORT.load(std::sync::atomic::Ordering::Relaxed) {
        crate::export(".want", want.as_bytes());
    }
    ctx::ctx().evals += 1;
    match g {
        Got::Doc(d) if d == want => Ok(()),
        Got::Doc(d) => {
            let (c, t) = difference(want, d);
            fail(format!("{what}: wrong {c}"), t)
        }
        Got::Err(e) => fail(format!("{what}: refused: {}", strip_digits(e)), e.clone()),
        Got::Panic(p) => fail(format!("{what}: panic at {}", site(p)), p.clone()),
    }
}
pub fn site(p: &str) -> String {
    let s = p.split(": ").next().unwrap_or(p);
    // paths relative to the crate, without line numbers that unrelated edits move
    s.rsplit_once("/repo/").map(|x| x.1).unwrap_or(s).to_string()
}
pub fn strip_digits(e: &str) -> String {
    let mut o = String::new();
    for w in e.chars().take(160) {
        if w.is_ascii_digit() {
            if !o.ends_with('#') {
                o.push('#');
            }
        } else {
            o.push(w);
        }
    }
    o
}

// ---------------------------------------------------------------- generating
/// Feature weights of one run (swarm style: each run exercises a random subset).
pub fn swarm(focus: &str, budget: i32) -> Gen {
    let mut w = [4usize, 2, 1, 1, 1, 1, 1];
    for x in w.iter_mut().skip(1) {
        if choose(D, 3) == 0 {
            *x = 0;
        }
    }
    let mut g = Gen {
        next_oid: 10,
        budget,
        w,
        density: choose(D, 5),
        tag_p: [0, 2, 5][choose(D, 3)],
        run_p: [2, 6, 0, 9][choose(D, 4)],
        extra_p: [0, 2, 4][choose(D, 3)],
        group_p: [0, 3][choose(D, 2)],
        list_p: [0, 3, 6][choose(D, 3)],
        big_blobs: false,
        deep: 2 + choose(D, 3),
        bulk: None,
        wide: false,
    };
    match focus {
        "C05" => {
            g.w = [8, 1, 0, 0, 1, 0, 0];
            g.run_p = [9, 6, 3][choose(D, 3)];
        }
        "C06" => {
            g.w = [5, 5, 1, 0, 0, 1, 1];
            g.list_p = [4, 8][choose(D, 2)];
            g.group_p = 4;
        }
        "C07" => {
            g.w = [2, 1, 6, 6, 0, 1, 0];
            g.big_blobs = choose(D, 4) == 3;
        }
        "C08" => g.w = [2, 0, 0, 0, 8, 0, 0],
        "C09" => {
            g.w = [4, 2, 2, 2, 0, 0, 0];
            g.tag_p = [5, 8][choose(D, 2)];
        }
        _ => {}
    }
    g
}
/// Now and then one dimension of the documents becomes bulky.
pub fn bulky(g: &mut Gen, one_in: usize, cap: usize) {
    if choose(D, one_in) == one_in - 1 {
        g.bulk = Some((choose(D, crate::bulk::DIMS), cap));
    }
}
/// Encode a record image under a random layout (0 = canonical).
pub fn lay_out(store: &Store) -> Encoded {
    let seed = choose(L, 1 << 20) as u64;
    encode(&store.image(), &mut Lay::new(seed), store.schema == crate::write::SCHEMA_TOC)
}
pub fn file_name() -> String {
    format!("{}.one", crate::doc::gen_fs_name())
}
pub fn put(path: &str, bytes: Vec<u8>) -> Arc<Vec<u8>> {
    let a = Arc::new(bytes);
    vfs().put_file(path, a.clone());
    a
}
pub fn fresh() {
    vfs().fresh(Plan::default());
}

/// Diagnostic: write a section whose only outline is nested n levels (to a real file).
pub fn deep_file(n: usize, how: usize, out: &str) {
    ctx::begin(1, "deep", 0, None);
    let mut g = swarm("", 3);
    let mut sp = 10;
    let mut d = crate::doc::gen_section(&mut g, 1, &mut sp);
    let p = &mut d.series[0].pages[0];
    crate::model::deepen(&mut g, &mut p.sh, &mut p.node, n, &mut |_| how);
    let mut st = Store::new(crate::write::SCHEMA_ONE);
    st.commit(&crate::doc::section_states(&d), false);
    let e = encode(&st.image(), &mut Lay::new(0), false);
    std::fs::write(out, e.bytes).unwrap();
}
