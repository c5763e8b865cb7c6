//! C11-C16: the environment of a read - system calls, faults, threads, paths - against its result.

use super::*;
use crate::alloc;
use crate::corrupt;
use crate::ctx::F;
use crate::doc::dump_section;
use crate::model::Cell;
use crate::nb;
use crate::sched::{Task, run_tasks};
use crate::vfs::{Event, Op};
use crate::write::{El, Id};
use onenote_parser::notebook::Notebook;
use onenote_parser::section::Section;
use std::sync::atomic::Ordering::Relaxed;

/// What one read is about, already laid out in the simulated file system.
#[derive(Clone)]
pub struct Target {
    pub path: String,
    pub notebook: bool,
    /// what an undisturbed read shows; None when that is not known (damaged files)
    pub want: Option<String>,
    pub files: Vec<(String, Arc<Vec<u8>>)>,
}
impl Target {
    fn read_in(&self, p: &Parser, path: &str) -> Result<String, String> {
        if self.notebook { sut_notebook(p, path) } else { sut_section(p, path) }
    }
    pub fn read(&self, hs: u64) -> Got {
        self.read_as(hs, &self.path)
    }
    pub fn read_as(&self, hs: u64, path: &str) -> Got {
        if self.notebook { read_notebook(hs, path) } else { read_section(hs, path) }
    }
    fn bytes(&self) -> u64 {
        self.files.iter().map(|f| f.1.len() as u64).sum()
    }
}
fn section_target(dir: &str) -> Target {
    let mut g = swarm("", [2, 5, 10, 20][choose(D, 4)]);
    bulky(&mut g, 80, 600);
    let cfg = HistCfg { pages: choose(D, 3), steps: choose(D, 3), versions: choose(D, 3) == 2, crashes: choose(D, 4) == 3, stale: choose(D, 4) == 3 };
    let h = run_history(&mut g, &cfg);
    let name = file_name();
    let path = format!("{dir}/{name}");
    let b = put(&path, lay_out(&h.store).bytes);
    let mut want = String::new();
    dump_section(&h.doc, &name, 0, &mut want);
    Target { path: path.clone(), notebook: false, want: Some(want), files: vec![(path, b)] }
}
/// Two versions of one section: mostly the same objects under the same names.
fn two_versions(dir: &str, dir2: &str) -> (Target, Target) {
    let mut g = swarm("", [3, 8][choose(D, 2)]);
    let cfg = HistCfg { pages: 1 + choose(D, 2), steps: choose(D, 2), versions: false, crashes: false, stale: false };
    let mut h = run_history(&mut g, &cfg);
    let name = file_name();
    let mut version = |h: &crate::store::History, dir: &str| {
        let path = format!("{dir}/{name}");
        let b = put(&path, lay_out(&h.store).bytes);
        let mut want = String::new();
        dump_section(&h.doc, &name, 0, &mut want);
        Target { path: path.clone(), notebook: false, want: Some(want), files: vec![(path, b)] }
    };
    let a = version(&h, dir);
    let mut sp = 7000 + h.store.next;
    for _ in 0..1 + choose(D, 4) {
        crate::doc::edit_section(&mut g, &mut h.doc, &mut sp);
    }
    h.store.commit(&crate::doc::section_states(&h.doc), choose(D, 2) == 1);
    ctx::count("gen.two_versions");
    (a, version(&h, dir2))
}
/// A notebook in which something is not as it should be.
fn upset_notebook(dir: &str) -> Target {
    let mut t = notebook_target(dir, 1);
    for _ in 0..1 + choose(F, 2) {
        let (p, b) = t.files[choose(F, t.files.len())].clone();
        let (d, _) = p.rsplit_once('/').unwrap();
        match choose(F, 6) {
            0 => {
                ctx::count("fault.file_removed");
                if p != t.path {
                    vfs().remove(&p);
                }
            }
            1 => {
                ctx::count("fault.file_replaced_by_another");
                let o = t.files[choose(F, t.files.len())].1.clone();
                if p != t.path {
                    vfs().put_file(&p, o);
                }
            }
            2 => {
                ctx::count("fault.file_replaced_by_a_directory");
                if p != t.path {
                    vfs().remove(&p);
                    vfs().mkdirs(&p);
                }
            }
            3 => {
                // the directory holds itself, under the name of one of its files
                ctx::count("fault.directory_cycle");
                if p != t.path && vfs().lookup(&p).is_some() {
                    vfs().remove(&p);
                    vfs().put_link(&p, [".", "..", d][choose(F, 3)]);
                }
            }
            4 => {
                ctx::count("fault.dangling_link");
                if p != t.path {
                    vfs().remove(&p);
                    vfs().put_link(&p, ["nowhere", "/etc/passwd", "../../x"][choose(F, 3)]);
                }
            }
            _ => {
                ctx::count("fault.file_cut");
                let n = choose(F, b.len() + 1);
                if p != t.path || choose(F, 2) == 1 {
                    vfs().put_file(&p, Arc::new(b[..n].to_vec()));
                }
            }
        }
    }
    t.want = None;
    t
}
/// A section with a payload of several megabytes.
fn huge_target(dir: &str) -> Target {
    use crate::model::*;
    let mut g = swarm("", 3);
    g.bulk = Some((crate::bulk::PAYLOAD, 1200));
    let cfg = HistCfg { pages: 1, steps: 0, versions: false, crashes: false, stale: false };
    let h = run_history(&mut g, &cfg);
    let path = format!("{dir}/huge.one");
    let b = put(&path, lay_out(&h.store).bytes);
    let mut want = String::new();
    dump_section(&h.doc, "huge.one", 0, &mut want);
    ctx::count("gen.huge_file");
    Target { path: path.clone(), notebook: false, want: Some(want), files: vec![(path, b)] }
}
fn notebook_target(dir: &str, size: usize) -> Target {
    let mut g = swarm("", 3);
    let n = nb::notebook(&mut g, size);
    let files = n.write(dir).into_iter().map(|w| (w.path, w.bytes)).collect();
    Target { path: format!("{dir}/{}", n.toc_name), notebook: true, want: Some(n.dump()), files }
}
fn sample_target(dir: &str) -> Option<Target> {
    let s = super::damage::samples();
    if s.is_empty() {
        return None;
    }
    let s = &s[choose(D, s.len())];
    let path = format!("{dir}/{}", s.name);
    vfs().put_file(&path, s.bytes.clone());
    Some(Target {
        path: path.clone(),
        notebook: s.name.ends_with("onetoc2"),
        want: None,
        files: vec![(path, s.bytes.clone())],
    })
}
/// A well-formed thing to read.
pub fn healthy(dir: &str) -> Target {
    match choose(D, 10) {
        0..=3 => section_target(dir),
        9 if ctx::ctx().tier_thorough || choose(D, 8) == 7 => match sample_target(dir) {
            Some(mut t) => {
                fresh();
                if let Got::Doc(d) = t.read(1) {
                    t.want = Some(d);
                }
                t
            }
            None => section_target(dir),
        },
        _ => notebook_target(dir, choose(D, 2)),
    }
}
fn damaged(dir: &str) -> Target {
    let mut log = vec![];
    let v = super::damage::victim(&mut log);
    let path = format!("{dir}/{}", if v.toc { "d.onetoc2" } else { "d.one" });
    let b = put(&path, v.bytes);
    Target { path: path.clone(), notebook: v.toc, want: None, files: vec![(path, b)] }
}
fn remember(t: &Target, what: &str) {
    let mut h = 0;
    for f in &t.files {
        h = ctx::mix(h ^ ctx::hash_bytes(&f.1));
    }
    let c = ctx::ctx();
    c.states.insert(h);
    c.nontrivial += 1;
    if c.sample.is_empty() {
        c.sample.push(format!(
            "run {}: {what} {} ({} files, {} bytes)",
            c.run,
            if t.notebook { "notebook" } else { "section" },
            t.files.len(),
            t.bytes()
        ));
    }
}
/// Same document, or the same kind of outcome.
fn same(a: &Got, b: &Got) -> bool {
    match (a, b) {
        (Got::Doc(x), Got::Doc(y)) => x == y,
        (Got::Err(_), Got::Err(_)) | (Got::Panic(_), Got::Panic(_)) => true,
        _ => false,
    }
}
fn differ(what: &str, a: &Got, b: &Got, detail: &str) -> Result<(), Violation> {
    if same(a, b) {
        return Ok(());
    }
    let t = match (a, b) {
        (Got::Doc(x), Got::Doc(y)) => difference(x, y).1,
        _ => format!("{} / {}", a.short(), b.short()),
    };
    fail(what, format!("{detail}: {t}"))
}

// ---------------------------------------------------------------- C11
/// A file whose records contradict each other, each reading being defensible.
fn ambiguous(dir: &str) -> Target {
    let mut g = swarm("", [3, 6, 12][choose(D, 3)]);
    let toc = choose(D, 4) == 3;
    let (mut img, other) = if toc {
        let c = nb::NbCfg { depth: 0, entries: 4, steps: 3, budget: 1 };
        let n = nb::gen_nb(&mut g, &c, 0);
        for name in n.listed() {
            let st = n.files.get(&name);
            if let Some(nb::Item::Section(h)) = st {
                put(&format!("{dir}/{name}"), lay_out(&h.store).bytes);
            }
        }
        (n.store.image(), vec![])
    } else {
        let cfg = HistCfg { pages: 1 + choose(D, 3), steps: choose(D, 3), versions: true, crashes: true, stale: true };
        let h = run_history(&mut g, &cfg);
        let old = h.store.image();
        let mut h2 = h.clone();
        let mut sp = 900;
        for _ in 0..2 {
            crate::doc::edit_section(&mut g, &mut h2.doc, &mut sp);
        }
        h2.store.commit(&crate::doc::section_states(&h2.doc), false);
        (h2.store.image(), old.elems)
    };
    let n = 1 + choose(F, 4);
    for _ in 0..n {
        let k = choose(F, img.elems.len());
        ctx::count("fault.contradicting_records");
        match choose(F, 12) {
            0 => {
                // two records with one identifier
                let mut e = img.elems[choose(F, img.elems.len())].clone();
                e.id = img.elems[k].id;
                img.elems.push(e);
            }
            1 => {
                if !other.is_empty() {
                    img.elems.push(other[choose(F, other.len())].clone());
                }
            }
            2 => {
                for e in img.elems.iter_mut() {
                    if let El::Index { cells, .. } = &mut e.el {
                        // a cell mapped twice
                        if cells.len() > 1 {
                            let a = choose(F, cells.len());
                            let b = choose(F, cells.len());
                            let c = cells[b].clone();
                            cells.push((cells[a].0, c.1, c.2));
                        }
                    }
                }
            }
            3 => {
                for e in img.elems.iter_mut() {
                    if let El::Index { revs, .. } = &mut e.el {
                        if revs.len() > 1 {
                            let a = choose(F, revs.len());
                            let b = choose(F, revs.len());
                            let c = revs[b];
                            revs.push((revs[a].0, c.1, c.2));
                        }
                    }
                }
            }
            4 => {
                // the index identifier leads nowhere, several indexes remain
                let mut found = None;
                for e in &img.elems {
                    if let El::Index { .. } = e.el {
                        found = Some(e.clone());
                    }
                }
                if let Some(mut e) = found {
                    e.id = Id::Bogus(40 + choose(F, 3) as u32);
                    if let El::Index { cells, .. } = &mut e.el {
                        if !cells.is_empty() {
                            let i = choose(F, cells.len());
                            cells.remove(i);
                        }
                    }
                    img.elems.push(e);
                }
                if choose(F, 2) == 1 {
                    img.index = [Id::Nil, Id::Bogus(77)][choose(F, 2)];
                }
            }
            5 => {
                // several storage manifests
                for i in 0..img.elems.len() {
                    if let El::Manifest { roots, .. } = &img.elems[i].el {
                        let mut e = img.elems[i].clone();
                        let r = roots.clone();
                        e.id = Id::Bogus(50);
                        if let El::Manifest { roots, .. } = &mut e.el {
                            *roots = r.into_iter().rev().collect();
                            if roots.len() > 1 && choose(F, 2) == 1 {
                                let c = roots[0].1;
                                roots[0].1 = roots[1].1;
                                roots[1].1 = c;
                            }
                        }
                        img.elems.push(e);
                        break;
                    }
                }
                if choose(F, 2) == 1 {
                    for e in img.elems.iter_mut() {
                        if let El::Index { manifests, .. } = &mut e.el {
                            manifests.clear();
                        }
                    }
                }
            }
            6 => {
                // equal serial numbers
                let s = img.elems[k].serial;
                let manifests_of: Vec<Id> = img.elems.iter().filter(|e| matches!(e.el, El::Rev { .. })).map(|e| e.id).collect();
                for e in img.elems.iter_mut() {
                    if choose(F, 2) == 1 {
                        e.serial = s;
                    }
                    if let El::Index { cells, revs, .. } = &mut e.el {
                        for c in cells.iter_mut() {
                            let how = choose(F, 4);
                            if how >= 2 {
                                c.1 = Id::Bogus(60);
                            }
                            if how == 3 {
                                c.2 = s;
                            }
                        }
                        for c in revs.iter_mut() {
                            if choose(F, 2) == 1 {
                                c.2 = s;
                            }
                        }
                        if choose(F, 2) == 1 {
                            for (i, m) in manifests_of.iter().enumerate() {
                                if choose(F, 2) == 1 {
                                    revs.push((Id::Bogus(70 + i as u32), *m, s));
                                }
                            }
                        }
                    }
                }
            }
            7 => {
                // an object declared twice with different content
                for i in 0..img.elems.len() {
                    if let El::Group { objs, .. } = &mut img.elems[i].el {
                        if objs.len() > 1 && choose(F, 2) == 1 {
                            let a = choose(F, objs.len());
                            let b = choose(F, objs.len());
                            let mut o = objs[b].clone();
                            o.oid = objs[a].oid;
                            o.jcid = objs[a].jcid;
                            objs.push(o);
                        }
                    }
                }
            }
            8 => {
                // a root named twice
                for e in img.elems.iter_mut() {
                    match &mut e.el {
                        El::Rev { roots, .. } if roots.len() > 1 && choose(F, 2) == 1 => {
                            let a = roots[choose(F, roots.len())].0;
                            let b = roots[choose(F, roots.len())].1;
                            roots.push((a, b));
                        }
                        El::Manifest { roots, .. } if roots.len() > 1 && choose(F, 2) == 1 => {
                            let a = roots[choose(F, roots.len())].0;
                            let b = roots[choose(F, roots.len())].1;
                            roots.push((a, b));
                        }
                        _ => {}
                    }
                }
            }
            9 => corrupt::cycle_revisions(&mut img, &mut vec![]),
            10 => corrupt::structure_one(&mut img, &mut vec![]),
            _ => {
                // the same property twice
                for e in img.elems.iter_mut() {
                    if let El::Group { objs, cell } = &mut e.el {
                        let _: &Cell = cell;
                        for o in objs.iter_mut() {
                            if o.props.len() > 1 && choose(F, 3) == 2 {
                                let a = choose(F, o.props.len());
                                let b = choose(F, o.props.len());
                                let v = o.props[b].1.clone();
                                let id = o.props[a].0;
                                o.props.push((id, v));
                            }
                        }
                    }
                }
            }
        }
        if img.elems.is_empty() {
            break;
        }
    }
    let seed = choose(L, 1 << 20) as u64;
    let e = encode(&img, &mut Lay::new(seed), toc);
    let path = format!("{dir}/{}", if toc { "a.onetoc2" } else { "a.one" });
    let b = put(&path, e.bytes);
    Target { path: path.clone(), notebook: toc, want: None, files: vec![(path, b)] }
}
/// A section group that holds several tables of contents.
fn several_tocs(dir: &str) -> Target {
    use crate::doc::{TocNode, toc_states};
    let mut g = swarm("", 2);
    let mut files = vec![];
    let toc = |names: &[String]| {
        let kids = names
            .iter()
            .enumerate()
            .map(|(i, n)| TocNode { oid: 20 + i as u32, color: None, leaf: Some((n.clone(), i as u32)), kids: vec![], extra: false })
            .collect();
        let mut st = Store::new(crate::write::SCHEMA_TOC);
        st.commit(&toc_states(&TocNode { oid: 10, color: None, leaf: None, kids, extra: false }), false);
        lay_out(&st).bytes
    };
    let mut put_ = |p: String, b: Vec<u8>| {
        let a = put(&p, b);
        files.push((p, a));
    };
    put_(format!("{dir}/top.onetoc2"), toc(&["g".into()]));
    let k = 2 + choose(D, 3);
    for i in 0..k {
        let h = run_history(&mut g, &HistCfg { pages: 1, steps: 0, versions: false, crashes: false, stale: false });
        put_(format!("{dir}/g/s{i}.one"), lay_out(&h.store).bytes);
    }
    let names = ["Open Notebook.onetoc2", "a.onetoc2", "Z.onetoc2", "é.onetoc2", "Öffnen.onetoc2", "a b.onetoc2"];
    for i in 0..2 + choose(D, 4) {
        let l: Vec<String> = (0..k).filter(|_| choose(D, 2) == 1).map(|j| format!("s{j}.one")).collect();
        put_(format!("{dir}/g/{}", names[(i * 5 + choose(D, 3)) % 6]), toc(&l));
    }
    ctx::count("fault.several_tables_of_contents");
    Target { path: format!("{dir}/top.onetoc2"), notebook: true, want: None, files }
}
pub fn c11() -> Result<(), Violation> {
    let dir = "/w/nb";
    vfs().mkdirs("/w/nb/sub");
    vfs().mkdirs("/w/other");
    // what else is read by the same thread
    let mut other = None;
    let t = match choose(D, 10) {
        0 | 1 => healthy(dir),
        2 => damaged(dir),
        3 => several_tocs(dir),
        4 => {
            let (a, b) = two_versions(dir, "/w/other");
            other = Some(b);
            a
        }
        5 => upset_notebook(dir),
        _ => ambiguous(dir),
    };
    if other.is_none() && choose(D, 3) == 2 {
        other = Some(match choose(D, 3) {
            0 => damaged("/w/other"),
            1 => section_target("/w/other"),
            _ => upset_notebook("/w/other"),
        });
    }
    remember(&t, "repeated reads of a");
    fresh();
    let first = t.read(0);
    if let (Some(w), Got::Doc(d)) = (&t.want, &first)
        && w != d
    {
        return Ok(()); // not this property's concern
    }
    let (parent, name) = t.path.rsplit_once('/').unwrap();
    let n = if ctx::ctx().tier_thorough { 8 } else { 5 };
    for i in 0..n {
        let plan = Plan { dir_seed: choose(S, 1 << 16) as u64, dt_unknown: choose(S, 3) == 2, ..Plan::default() };
        let v = vfs();
        v.cwd = "/".into();
        let mut how = String::from("same path");
        let path = match choose(S, 9) {
            1 => {
                v.cwd = parent.to_string();
                how = "bare file name".into();
                name.to_string()
            }
            2 => {
                v.cwd = parent.to_string();
                how = "./name".into();
                format!("./{name}")
            }
            3 => {
                v.cwd = "/w".into();
                how = "relative directory".into();
                format!("nb/{name}")
            }
            4 => {
                v.cwd = "/w/other".into();
                how = "../ components".into();
                format!("../nb/sub/../{name}")
            }
            5 => {
                how = "doubled separators".into();
                format!("//w/.//nb/./{name}")
            }
            6 => {
                how = "through a link".into();
                v.put_link("/w/ln", "nb");
                format!("/w/ln/{name}")
            }
            7 => {
                v.cwd = "/w/nb/sub".into();
                how = "../name".into();
                format!("../{name}")
            }
            _ => t.path.clone(),
        };
        let hs = hseed();
        let before = choose(S, 4);
        v.fresh(plan);
        ctx::trace(|| format!("  read {i}: {how}, hash seed {hs}, prior reads {before}"));
        let r = match before {
            // another document, or another version of this one at the very same place
            1 if other.is_some() => {
                let o = other.clone().unwrap();
                let t2 = t.clone();
                let swap = !t.notebook && !o.notebook && choose(S, 2) == 1;
                let times = match choose(S, 40) {
                    39 if t.bytes() + o.bytes() < 20_000 => 600,
                    k => 1 + k % 3,
                };
                if times == 600 {
                    ctx::count("reads_of_long_lives");
                }
                ctx::count("fault.other_document_read_before");
                got(sched::run_one(hs, move || {
                    let p = Parser::new();
                    for _ in 0..times {
                        if swap {
                            alloc::harness(|| vfs().put_file(&t2.files[0].0, o.files[0].1.clone()));
                            let _ = t2.read_in(&p, &path);
                            alloc::harness(|| vfs().put_file(&t2.files[0].0, t2.files[0].1.clone()));
                        } else {
                            let _ = o.read_in(&p, &o.path);
                        }
                    }
                    t2.read_in(&p, &path)
                }))
            }
            // the same parser has read something else before, possibly unsuccessfully
            2 | 3 => {
                let noise: Vec<u8> = t.files[choose(S, t.files.len())].1[..].to_vec();
                let cut = choose(S, noise.len() + 1);
                let again = choose(S, 2) == 1;
                let t2 = t.clone();
                got(sched::run_one(hs, move || {
                    let p = Parser::new();
                    let _ = sut_buffer(&p, &noise[..cut], "q.one");
                    if again {
                        let _ = t2.read_in(&p, &path);
                    }
                    t2.read_in(&p, &path)
                }))
            }
            _ => t.read_as(hs, &path),
        };
        vfs().cwd = "/".into();
        ctx::ctx().evals += 1;
        let kind = match (&first, &r) {
            (Got::Doc(_), Got::Doc(_)) => "two different documents",
            (Got::Panic(_), _) | (_, Got::Panic(_)) => "panics only sometimes",
            _ => "fails only sometimes",
        };
        differ(kind, &first, &r, &format!("{how}, hash seed {hs}, prior reads {before}"))?;
    }
    // buffers are no different
    if !t.notebook {
        let b = t.files[0].1.clone();
        let a1 = read_buffer(0, &b, "n.one");
        let a2 = read_buffer(hseed(), &b, "n.one");
        ctx::ctx().evals += 1;
        differ("buffer read twice with different results", &a1, &a2, "")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C12
struct Any<T>(T);
// SAFETY: the simulator runs one thread at a time; whether the types themselves promise this is
// checked separately, without making the build of the simulator depend on it.
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
struct Probe<T>(std::marker::PhantomData<T>);
trait Fallback {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Fallback for Probe<T> {}
struct ProbeSync<T>(std::marker::PhantomData<T>);
impl<T> Fallback for ProbeSync<T> {}
impl<T: Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: Sync> ProbeSync<T> {
    const SYNC: bool = true;
}
pub fn c12() -> Result<(), Violation> {
    let promised = [
        ("Notebook: Send", Probe::<Notebook>::SEND),
        ("Notebook: Sync", ProbeSync::<Notebook>::SYNC),
        ("Section: Send", Probe::<Section>::SEND),
        ("Section: Sync", ProbeSync::<Section>::SYNC),
        ("Parser: Send", Probe::<Parser>::SEND),
        ("Parser: Sync", ProbeSync::<Parser>::SYNC),
    ];
    for (what, ok) in promised {
        if !ok {
            return fail(format!("not usable across threads: {what}"), what);
        }
    }
    // several targets in one tree
    let k = 1 + choose(D, 3);
    let mut ts = vec![];
    for i in 0..k {
        let dir = format!("/w/t{i}");
        ts.push(match choose(D, 15) {
            12 => upset_notebook(&dir),
            13 | 14 => damaged(&dir),
            _ => healthy(&dir),
        });
    }
    if k > 1 && choose(D, 4) == 3 {
        let (a, b) = two_versions("/w/v0", "/w/v1");
        ts[0] = a;
        ts[1] = b;
    }
    remember(&ts[0], "concurrent reads, first a");
    let alone: Vec<Got> = ts
        .iter()
        .map(|t| {
            fresh();
            t.read(0)
        })
        .collect();
    let n = 2 + choose(S, 3);
    let which: Vec<usize> = (0..n).map(|i| if i < k { i } else { choose(S, k) }).collect();
    let via: Vec<usize> = (0..n).map(|_| choose(S, 4)).collect();
    // one of the readers may meet a failing disk
    let victim = if choose(F, 3) == 2 { Some(choose(F, n)) } else { None };
    let mut plan = Plan { dir_seed: choose(S, 1 << 12) as u64, ..Plan::default() };
    if let Some(v) = victim {
        plan.only_thread = Some(v);
        let errs = [libc::EIO, libc::EACCES, libc::ENOMEM, libc::ESTALE];
        if choose(F, 2) == 1 {
            plan.from = Some((choose(F, 40) as u64, errs[choose(F, 4)]));
        } else {
            plan.hard = vec![(choose(F, 60) as u64, errs[choose(F, 4)])];
        }
    }
    if choose(F, 4) == 3 {
        plan.benign = 3 + choose(F, 5);
    }
    vfs().fresh(plan);
    let tasks: Vec<Task<Result<String, String>>> = (0..n)
        .map(|i| {
            let t = ts[which[i]].clone();
            let buf = via[i] == 3 && !t.notebook;
            // something else may be read first by the same thread
            let before = if choose(S, 3) == 2 { Some(ts[choose(S, ts.len())].clone()) } else { None };
            Task {
                hseed: hseed(),
                f: Box::new(move || {
                    let p = Parser::new();
                    if let Some(b) = before {
                        let _ = b.read_in(&p, &b.path);
                    }
                    if buf {
                        let name = t.path.rsplit_once('/').unwrap().1.to_string();
                        sut_buffer(&p, &t.files[0].1, &name)
                    } else {
                        t.read_in(&p, &t.path)
                    }
                }),
            }
        })
        .collect();
    let out = run_tasks(tasks, true);
    for (i, o) in out.into_iter().enumerate() {
        let r = got(o.value);
        ctx::ctx().evals += 1;
        let a = &alone[which[i]];
        if victim == Some(i) && matches!(r, Got::Err(_)) {
            continue;
        }
        let what = if victim == Some(i) { "reader with a failing disk" } else { "concurrent reader" };
        differ(&format!("{what} gets another result than alone"), a, &r, &format!("thread {i} reading {}", ts[which[i]].path))?;
    }
    // hand a document to other threads and look at it from there
    if let Some(t) = ts.iter().find(|t| !t.notebook)
        && let Got::Doc(_) = &alone[ts.iter().position(|x| x.path == t.path).unwrap()]
    {
        fresh();
        let path = t.path.clone();
        let r = sched::run_one(hseed(), move || Any(Parser::new().parse_section(Path::new(&path)).ok()));
        if let Ok(Any(Some(sec))) = r {
            let sec = Any(sec);
            let shared = &sec;
            let tasks: Vec<Task<String>> = (0..2)
                .map(|_| Task {
                    hseed: hseed(),
                    f: Box::new(move || {
                        let s = &shared;
                        dump::section(&s.0)
                    }) as Box<dyn FnOnce() -> String + Send>,
                })
                .collect();
            for o in run_tasks(tasks, true) {
                let g = got(o.value.map(Ok));
                ctx::ctx().evals += 1;
                let a = &alone[ts.iter().position(|x| x.path == t.path).unwrap()];
                differ("document looks different from another thread", a, &g, "")?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13
pub fn c13() -> Result<(), Violation> {
    let t = if choose(D, 6) == 5 { damaged("/w/nb") } else { healthy("/w/nb") };
    remember(&t, "benign faults while reading a");
    fresh();
    let ideal = t.read(0);
    let n = if ctx::ctx().tier_thorough { 10 } else { 5 };
    for i in 0..n {
        let plan = Plan {
            benign: [2, 3, 5, 10, 30][choose(F, 5)],
            size_lie: if choose(F, 3) == 2 { 1 + choose(F, 3) as u8 } else { 0 },
            dir_seed: choose(S, 1 << 12) as u64,
            dt_unknown: choose(S, 3) == 2,
            ..Plan::default()
        };
        vfs().fresh(plan);
        let r = t.read(hseed());
        ctx::ctx().evals += 1;
        differ("benign I/O behaviour changes the result", &ideal, &r, &format!("read {i}, {} benign faults", vfs().fired))?;
    }
    if !t.notebook {
        let name = t.path.rsplit_once('/').unwrap().1.to_string();
        let r = read_buffer(hseed(), &t.files[0].1.clone(), &name);
        ctx::ctx().evals += 1;
        differ("file and buffer read differ", &ideal, &r, "")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C14
const HARD: &[i32] = &[
    libc::EIO,
    libc::EACCES,
    libc::EMFILE,
    libc::ENFILE,
    libc::ENOMEM,
    libc::ELOOP,
    libc::ESTALE,
    libc::EPERM,
    libc::ETIMEDOUT,
    libc::EOVERFLOW,
];
pub fn c14() -> Result<(), Violation> {
    let mut t = match choose(D, 10) {
        0 | 1 => section_target("/w/nb"),
        9 if choose(D, 2) == 1 => several_tocs("/w/nb"),
        _ => notebook_target("/w/nb", choose(D, 2)),
    };
    remember(&t, "disk errors while reading a");
    fresh();
    let dry = t.read(0);
    let calls = vfs().calls;
    if let (None, Got::Doc(d)) = (&t.want, &dry) {
        t.want = Some(d.clone());
    }
    let Some(want) = t.want.clone() else { return Ok(()) };
    match &dry {
        Got::Doc(d) if *d == want => {}
        _ => return Ok(()), // C04/C10 report this
    }
    let n = if ctx::ctx().tier_thorough { 24 } else { 8 };
    for _ in 0..n {
        let at = choose(F, calls as usize + 1) as u64;
        let e = HARD[choose(F, HARD.len())];
        let mut plan = Plan { dir_seed: choose(S, 1 << 12) as u64, ..Plan::default() };
        let mut denied = None;
        let how = match choose(F, 5) {
            0 | 1 => {
                plan.hard = vec![(at, e)];
                "one call fails"
            }
            2 => {
                plan.hard = vec![(at, e), (at + 1 + choose(F, 6) as u64, HARD[choose(F, HARD.len())])];
                "two calls fail"
            }
            3 => {
                plan.from = Some((at, e));
                "everything fails from one call on"
            }
            _ => {
                // permissions of one file or directory
                let f = &t.files[choose(F, t.files.len())].0;
                let p = if choose(F, 2) == 1 { f.rsplit_once('/').unwrap().0.to_string() } else { f.clone() };
                denied = Some(p);
                "no permission"
            }
        };
        let name = crate::vfs::errname(e);
        ctx::trace(|| format!("  fault: {how} ({name} at call {at}), {denied:?}"));
        vfs().fresh(plan);
        if let Some(p) = &denied {
            ctx::count("fault.permission_denied");
            vfs().deny(p, true);
        }
        let t2 = t.clone();
        let d2 = denied.clone();
        let both = sched::run_one(hseed(), move || {
            let p = Parser::new();
            let a = t2.read_in(&p, &t2.path);
            let fired = alloc::harness(|| {
                let f = vfs().fired_hard;
                fresh();
                if let Some(p) = &d2 {
                    vfs().deny(p, false);
                }
                f
            });
            let b = t2.read_in(&p, &t2.path);
            (a, b, fired)
        });
        if let Some(p) = &denied {
            vfs().deny(p, false);
        }
        ctx::ctx().evals += 1;
        match both {
            Err(p) => return fail(format!("panic at {}", site(&p)), format!("{how}: {p}")),
            Ok((a, b, fired)) => {
                let (a, b) = (got(Ok(a)), got(Ok(b)));
                if fired > 0 || denied.is_some() {
                    ctx::count("reads_with_disk_error");
                }
                match &a {
                    Got::Err(_) => {}
                    Got::Doc(d) if *d == want => {}
                    Got::Doc(d) => {
                        let (c, x) = difference(&want, d);
                        return fail(format!("content missing because of a disk error: {c}"), format!("{how} ({name} at call {at}, {denied:?}): {x}"));
                    }
                    Got::Panic(p) => return fail("panic", p.clone()),
                }
                expect("after the fault is gone", &want, &b)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16
pub fn c16() -> Result<(), Violation> {
    let t = match choose(D, 6) {
        0 | 1 => damaged("/w/nb"),
        2 => upset_notebook("/w/nb"),
        3 if choose(D, 60) == 59 => huge_target("/w/nb"),
        _ => healthy("/w/nb"),
    };
    remember(&t, "side effects of reading a");
    let mut plan = Plan { dir_seed: choose(S, 1 << 12) as u64, ..Plan::default() };
    let mode = choose(F, 4);
    if mode == 1 {
        plan.hard = vec![(choose(F, 60) as u64, HARD[choose(F, HARD.len())])];
    } else if mode == 2 {
        plan.from = Some((choose(F, 40) as u64, HARD[choose(F, HARD.len())]));
    } else if mode == 3 {
        plan.benign = 3;
    }
    let buffer = !t.notebook && choose(S, 3) == 2;
    // three reads on one thread: what is set up once, for good, is in place after the second
    let t2 = t.clone();
    let r = sched::run_one(hseed(), move || {
        let mut seen = vec![];
        alloc::harness(|| seen.reserve(3));
        for _ in 0..3 {
            alloc::harness(|| vfs().fresh(plan.clone()));
            let p = Parser::new();
            let r = if buffer { sut_buffer(&p, &t2.files[0].1, "b.one") } else { t2.read_in(&p, &t2.path) };
            drop(p);
            // anything still waiting in the standard streams
            let _ = std::io::Write::flush(&mut std::io::stdout());
            alloc::harness(|| {
                let live = alloc::LIVE.load(Relaxed);
                seen.push((r, live, vfs().mutations.first().cloned(), vfs().leaks().into_iter().next()));
            });
        }
        alloc::harness(move || drop((t2, plan)));
        seen
    });
    let seen = match r {
        Ok(s) => s,
        Err(p) => {
            // a panic is reported elsewhere; its side effects count here
            got(Err(p));
            let m = vfs().mutations.first().cloned();
            return match m {
                Some(m) => fail(format!("side effect: {}", words(&m, 3)), m),
                None => Ok(()),
            };
        }
    };
    let live: Vec<i64> = seen.iter().map(|x| x.1).collect();
    for (round, (r, _, m, l)) in seen.into_iter().enumerate() {
        let g = got(Ok(r));
        ctx::ctx().evals += 1;
        if let Some(m) = m {
            return fail(format!("side effect: {}", words(&m, 3)), format!("{m} (read {round}, {})", g.short()));
        }
        if let Some(x) = l {
            return fail(format!("left open: {}", words(&x, 2)), format!("{x} after {}", g.short()));
        }
    }
    if live[2] > live[1] {
        return fail("memory stays in use after the result is dropped", format!("{} bytes more after one more read", live[2] - live[1]));
    }
    Ok(())
}
fn words(m: &str, n: usize) -> String {
    m.split_whitespace().take(n).collect::<Vec<_>>().join(" ")
}

// ---------------------------------------------------------------- C15
const SECRET: &str = "TOPSECRET";
pub fn c15() -> Result<(), Violation> {
    use crate::doc::{TocNode, toc_states};
    let mut g = swarm("", 2);
    let hist = |g: &mut crate::model::Gen, secret: bool| {
        let mut h = run_history(g, &HistCfg { pages: 1, steps: 0, versions: false, crashes: false, stale: false });
        h.doc.name = Some(if secret { SECRET.into() } else { "inside".into() });
        h.doc.name_tail = 0;
        h.store.commit(&crate::doc::section_states(&h.doc), false);
        h
    };
    let secret = hist(&mut g, true);
    let inside = hist(&mut g, false);
    let toc = |names: &[String]| {
        let kids = names
            .iter()
            .enumerate()
            .map(|(i, n)| TocNode { oid: 20 + i as u32, color: None, leaf: Some((n.clone(), i as u32)), kids: vec![], extra: false })
            .collect();
        let mut st = Store::new(crate::write::SCHEMA_TOC);
        st.commit(&toc_states(&TocNode { oid: 10, color: None, leaf: None, kids, extra: false }), false);
        lay_out(&st).bytes
    };
    // the notebook's directory is sometimes an unusual one
    let base = ["/w/nb", "/w/nb", "/nb", "/w/a/b/nb"][choose(D, 4)];
    let up = base.rsplit_once('/').unwrap().0.to_string();
    let sec_bytes = lay_out(&secret.store).bytes;
    for p in ["secret.one", "nb-evil/secret.one", "nb.one", "nbg/secret.one", "g/secret.one", "g/s.one", "secret"] {
        put(&format!("{up}/{p}"), sec_bytes.clone());
    }
    put(&format!("{up}/nb-evil/Open Notebook.onetoc2"), toc(&["secret.one".into()]));
    put("/secret.one", sec_bytes.clone());
    put("/etc/secret.one", sec_bytes.clone());
    put(&format!("{up}/outer/t.onetoc2"), toc(&["secret.one".into()]));
    put(&format!("{up}/outer/secret.one"), sec_bytes.clone());
    put(&format!("{base}/s.one"), lay_out(&inside.store).bytes);
    put(&format!("{base}/real/s.one"), lay_out(&inside.store).bytes);
    put(&format!("{base}/real/t.onetoc2"), toc(&["s.one".into()]));
    // names a hostile list may hold
    let nm = |depth: usize| -> String {
        let upx = "../".repeat(depth + 1);
        match if choose(D, 3) == 0 { 27 + choose(D, 4) } else { choose(D, 30) } {
            0 => format!("{upx}secret.one"),
            1 => format!("{up}/secret.one"),
            2 => "/etc/secret.one".into(),
            3 => format!("s.one/{upx}secret.one"),
            4 => format!("real/{upx}../secret.one"),
            5 => "..".into(),
            6 => ".".into(),
            7 => "".into(),
            8 => "../nb-evil".into(),
            9 => "../nb-evil/secret.one".into(),
            10 => format!("./{upx}secret.one"),
            11 => format!(".//../{}secret.one", "../".repeat(depth)),
            12 => "..\\secret.one".into(),
            13 => "CON.one".into(),
            14 => "s.one\0../secret.one".into(),
            15 => "lf.one".into(),
            16 => "ld".into(),
            17 => "ld/secret.one".into(),
            18 => "lu/secret.one".into(),
            19 => "lu".into(),
            20 => "lrel.one".into(),
            21 => "lchain.one".into(),
            22 => "real/lf.one".into(),
            23 => "lt".into(),
            24 => "OneNote_RecycleBin/../../secret.one".into(),
            25 => "lu/outer".into(),
            26 => "lself/../secret.one".into(),
            27 => "real".into(),
            28 => "gsub".into(),
            _ => "s.one".into(),
        }
    };
    let links = |dir: &str| {
        let put_link = |name: &str, target: String| {
            if choose(D, 3) != 0 {
                vfs().put_link(&format!("{dir}/{name}"), &target);
                ctx::count("fault.link_out_of_the_notebook");
            }
        };
        put_link("lf.one", format!("{up}/secret.one"));
        put_link("ld", format!("{up}/nb-evil"));
        put_link("lu", [up.clone() + "/", "..".to_string(), "../..".into(), "/".into()][choose(D, 4)].clone());
        put_link("lrel.one", ["../secret.one", "../../secret.one", "../nb-evil/secret.one", "../nb.one"][choose(D, 4)].into());
        put_link("lchain.one", "lrel.one".into());
        put_link("lself", ".".into());
        put_link("real/lf.one", "../../secret.one".into());
        // a group whose table of contents is a link
        vfs().mkdirs(&format!("{dir}/lt"));
        put_link("lt/a.onetoc2", format!("{up}/nb-evil/Open Notebook.onetoc2"));
    };
    let n = 1 + choose(D, 4);
    let mut names: Vec<String> = (0..n).map(|_| nm(0)).collect();
    if base != "/nb" || choose(D, 2) == 1 {
        links(base);
    }
    // a group with its own hostile list
    let with_group = choose(D, 2) == 1;
    if with_group {
        let gd = format!("{base}/gsub");
        put(&format!("{gd}/s.one"), lay_out(&inside.store).bytes);
        put(&format!("{gd}/real/s.one"), lay_out(&inside.store).bytes);
        put(&format!("{gd}/real/t.onetoc2"), toc(&["s.one".into()]));
        links(&gd);
        let gn: Vec<String> = (0..1 + choose(D, 3)).map(|_| nm(1)).collect();
        ctx::trace(|| format!("  group gsub lists {gn:?}"));
        put(&format!("{gd}/t.onetoc2"), toc(&gn));
        names.push("gsub".into());
    }
    ctx::trace(|| format!("  {base} lists {names:?}"));
    put(&format!("{base}/Open Notebook.onetoc2"), toc(&names));
    let mut plan = Plan { dir_seed: choose(S, 1 << 12) as u64, ..Plan::default() };
    let mut swap = None;
    match choose(F, 5) {
        3 => plan.hard = vec![(choose(F, 40) as u64, HARD[choose(F, HARD.len())])],
        4 => {
            // a link is swapped in while the notebook is read
            let v = ["s.one", "gsub/s.one", "real", "real/s.one", "real/t.onetoc2"][choose(F, 5)];
            let target = match v {
                "real" => format!("{up}/nb-evil"),
                "real/t.onetoc2" => format!("{up}/nb-evil/Open Notebook.onetoc2"),
                _ => format!("{up}/secret.one"),
            };
            let path = format!("{base}/{v}");
            if vfs().lookup(&path).is_some() {
                swap = Some(path.clone());
                plan.events = vec![(1 + choose(F, 40) as u64, Event::Symlink { path, target })];
            }
        }
        _ => {}
    }
    // everything below the notebook's directory before the read
    let mut mine = std::collections::BTreeSet::new();
    let root = vfs().lookup(base).unwrap();
    let mut todo = vec![root];
    while let Some(i) = todo.pop() {
        if mine.insert(i)
            && let Some(l) = vfs().list(i)
        {
            todo.extend(l.iter().filter(|e| e.0 != b"." && e.0 != b"..").map(|e| e.1));
        }
    }
    let rootfs: u64 = 1;
    vfs().fresh(plan);
    let c = ctx::ctx();
    c.states.insert(ctx::hash_bytes(format!("{names:?}{base}{with_group}{:?}", vfs().next_ino).as_bytes()));
    c.nontrivial += 1;
    c.evals += 1;
    if c.sample.is_empty() {
        c.sample.push(format!("run {}: {base} lists {names:?}, group {with_group}", c.run));
    }
    let top = match choose(S, 3) {
        1 => {
            vfs().cwd = base.to_string();
            "Open Notebook.onetoc2".to_string()
        }
        2 => {
            vfs().cwd = up.clone() + "/";
            "nb/Open Notebook.onetoc2".to_string()
        }
        _ => format!("{base}/Open Notebook.onetoc2"),
    };
    let r = read_notebook(hseed(), &top);
    vfs().cwd = "/".into();
    // what was opened?
    let fired = vfs().fired > 0;
    for (k, s) in vfs().journal.iter().enumerate() {
        if !matches!(s.op, Op::Open | Op::Opendir | Op::Read) || s.ret < 0 || s.ino == rootfs && s.op != Op::Opendir {
            continue;
        }
        if !mine.contains(&s.ino) && s.ino != 0 {
            if let (Some(p), true) = (&swap, fired) {
                // No path-based check can close the window between the check and the open. What
                // can be told: a link that was in place when its entry was resolved.
                let rel = p[base.len() + 1..].to_string();
                let seen = vfs().journal[vfs().changed_at.min(k)..k]
                    .iter()
                    .any(|x| matches!(x.op, Op::Realpath) && x.ret >= 0 && (x.path == rel || x.path == *p || x.path == format!("nb/{rel}")));
                if seen && rel != "real" {
                    return fail("a link that was in place when its entry was resolved is followed", format!("{:?} {}", s.op, s.path));
                }
                ctx::count("swaps_after_the_check");
                return Ok(());
            }
            return fail(format!("{:?} outside the notebook", s.op), s.path.clone());
        }
    }
    match &r {
        Got::Doc(d) if d.contains(SECRET) => fail("content from outside the notebook", d.lines().find(|l| l.contains(SECRET)).unwrap_or("").trim().to_string()),
        Got::Panic(p) => fail(format!("panic at {}", site(p)), p.clone()),
        _ => Ok(()),
    }
}
