//! Notebooks: a directory tree of section files and groups, each with its own table of contents,
//! changed by a history of operations; laid out in the simulated file system.

use crate::ctx::{self, D, L, chance, choose};
use crate::doc::*;
use crate::model::*;
use crate::store::*;
use crate::vfs::vfs;
use crate::write::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone)]
pub enum Item {
    Section(Box<History>),
    Group(Box<Nb>),
}
#[derive(Clone)]
pub enum Stray {
    File(Vec<u8>),
    Dir,
    Fifo,
    /// a section file nobody lists
    Section(Vec<u8>),
}
/// One directory with a table of contents.
#[derive(Clone)]
pub struct Nb {
    pub toc_name: String,
    pub root: TocNode,
    pub store: Store,
    /// what the directory really holds
    pub files: BTreeMap<String, Item>,
    pub strays: Vec<(String, Stray)>,
    /// entries that are links to where this directory keeps the file or group
    pub links: BTreeMap<String, String>,
    pub log: Vec<String>,
}
pub struct NbCfg {
    pub depth: usize,
    pub entries: usize,
    pub steps: usize,
    pub budget: i32,
}
/// One file of a written notebook.
#[derive(Clone)]
pub struct Written {
    pub path: String,
    pub toc: bool,
    pub bytes: Arc<Vec<u8>>,
    pub spans: Vec<(usize, usize)>,
    /// steps of entry names from the notebook's root that lead here
    pub trail: Vec<String>,
}

pub const BIN: &str = "OneNote_RecycleBin";
fn entry_name(group: bool) -> String {
    let n = gen_fs_name();
    match choose(D, 8) {
        // extensions are a convention only
        7 => n,
        // the name of a group may look like the name of a file
        4 | 5 if group => format!("{n}{}", [".one", ".onetoc2", ".one.one", " 1.one x"][choose(D, 4)]),
        _ if group => n,
        4 => format!("{n}.one {}.one", choose(D, 3)),
        6 => format!("{n}.ONE"),
        5 => format!("{n}{}.one", [" ", ".", " .", "  ", ".one"][choose(D, 5)]),
        _ => format!("{n}.one"),
    }
}
fn leaf(g: &mut Gen, name: &str, order: u32) -> TocNode {
    TocNode {
        oid: g.oid(),
        color: gen_color_opt(),
        leaf: Some((name.to_string(), order)),
        kids: vec![],
        extra: choose(D, 3) == 2,
    }
}
fn leaves<'a>(n: &'a mut TocNode, out: &mut Vec<&'a mut TocNode>) {
    if n.leaf.is_some() {
        out.push(n);
    } else {
        n.kids.iter_mut().for_each(|k| leaves(k, out));
    }
}
fn retain(n: &mut TocNode, f: &mut dyn FnMut(&str) -> bool) {
    n.kids.retain_mut(|k| match &k.leaf {
        Some((name, _)) => f(name),
        None => {
            retain(k, f);
            true
        }
    });
}
fn gen_order() -> u32 {
    match choose(D, 6) {
        0..=3 => choose(D, 12) as u32,
        4 => choose(D, 2) as u32,
        _ => gen_u32(),
    }
}
fn containers<'a>(n: &'a mut TocNode, out: &mut Vec<*mut TocNode>) {
    if n.leaf.is_none() {
        out.push(n);
        for k in n.kids.iter_mut() {
            containers(k, out);
        }
    }
}
fn insert_leaf(root: &mut TocNode, l: TocNode) {
    let mut c = vec![];
    containers(root, &mut c);
    let at = c[choose(D, c.len())];
    // SAFETY: the pointers come from the exclusive borrow above and only one is used
    let n = unsafe { &mut *at };
    let i = choose(D, n.kids.len() + 1);
    n.kids.insert(i, l);
}

impl Nb {
    pub fn listed(&self) -> Vec<String> {
        toc_names(&self.root)
    }
    pub fn commit(&mut self) {
        self.store.commit(&toc_states(&self.root), false);
    }
    /// Where the file or directory of an entry is kept.
    pub fn place(&self, dir: &str, name: &str) -> String {
        format!("{dir}/{}", self.links.get(name).map_or(name, |l| l))
    }
    /// What a reader must show.
    pub fn dump(&self) -> String {
        let mut o = String::new();
        line(&mut o, 0, "notebook");
        line(&mut o, 1, &format!("color={}", self.root.color.as_ref().map(|c| c.dump.clone()).unwrap_or("-".into())));
        self.dump_entries(1, &mut o);
        o
    }
    fn dump_entries(&self, ind: usize, o: &mut String) {
        let shown: Vec<(String, &Item)> =
            self.listed().into_iter().filter(|n| n != BIN).filter_map(|n| self.files.get(&n).map(|i| (n, i))).collect();
        line(o, ind, &format!("entries {}", shown.len()));
        for (name, item) in shown {
            match item {
                Item::Section(h) => dump_section(&h.doc, &name, ind + 1, o),
                Item::Group(n) => {
                    line(o, ind + 1, "group");
                    line(o, ind + 2, &format!("name={name:?}"));
                    n.dump_entries(ind + 2, o);
                }
            }
        }
    }
    /// Number of sections and groups a reader shows.
    pub fn shown(&self) -> usize {
        self.listed()
            .into_iter()
            .filter(|n| n != BIN)
            .filter_map(|n| self.files.get(&n))
            .map(|i| if let Item::Group(g) = i { 1 + g.shown() } else { 1 })
            .sum()
    }
    /// Lay the tree out in the simulated file system.
    pub fn write(&self, dir: &str) -> Vec<Written> {
        let mut out = vec![];
        self.write_at(dir, &[], &mut out);
        out
    }
    fn write_at(&self, dir: &str, trail: &[String], out: &mut Vec<Written>) {
        vfs().mkdirs(dir);
        let mut put = |path: String, st: &Store, toc: bool, trail: Vec<String>| {
            let e = crate::props::lay_out(st);
            let bytes = Arc::new(e.bytes);
            vfs().put_file(&path, bytes.clone());
            out.push(Written { path, toc, bytes, spans: e.spans, trail });
        };
        put(format!("{dir}/{}", self.toc_name), &self.store, true, trail.to_vec());
        let place = |name: &str| {
            if let Some(to) = self.links.get(name) {
                vfs().put_link(&format!("{dir}/{name}"), to);
            }
            self.place(dir, name)
        };
        for (name, item) in &self.files {
            let mut t = trail.to_vec();
            t.push(name.clone());
            if let Item::Section(h) = item {
                put(place(name), &h.store, false, t);
            }
        }
        for (name, item) in &self.files {
            let mut t = trail.to_vec();
            t.push(name.clone());
            if let Item::Group(n) = item {
                n.write_at(&place(name), &t, out);
            }
        }
        for (name, s) in &self.strays {
            let p = format!("{dir}/{name}");
            if vfs().lookup(&p).is_some() {
                continue;
            }
            match s {
                Stray::File(b) | Stray::Section(b) => {
                    vfs().put_file(&p, Arc::new(b.clone()));
                }
                Stray::Dir => {
                    vfs().mkdirs(&p);
                }
                Stray::Fifo => {
                    vfs().put_fifo(&p);
                }
            }
        }
    }
    fn fresh_name(&self, group: bool) -> String {
        let mut n = entry_name(group);
        while self.files.contains_key(&n) || self.listed().contains(&n) || self.strays.iter().any(|s| s.0 == n) {
            n.insert(0, 'q');
        }
        n
    }
}

fn small_section(g: &mut Gen, budget: i32) -> Item {
    g.budget = budget;
    let cfg = HistCfg {
        pages: choose(D, 3),
        steps: choose(D, 2),
        versions: false,
        crashes: choose(D, 4) == 3,
        stale: false,
    };
    Item::Section(Box::new(run_history(g, &cfg)))
}
pub fn gen_nb(g: &mut Gen, cfg: &NbCfg, depth: usize) -> Nb {
    let root = TocNode { oid: g.oid(), color: gen_color_opt(), leaf: None, kids: vec![], extra: choose(D, 3) == 2 };
    let mut nb = Nb {
        toc_name: ["Open Notebook.onetoc2", "n.onetoc2", "Öffnen.onetoc2"][choose(D, 3)].to_string(),
        root,
        store: Store::new(SCHEMA_TOC),
        files: BTreeMap::new(),
        strays: vec![],
        links: BTreeMap::new(),
        log: vec![],
    };
    if choose(D, 3) == 2 {
        nb.root.kids.push(TocNode { oid: g.oid(), color: gen_color_opt(), leaf: None, kids: vec![], extra: false });
    }
    let n = choose(D, cfg.entries + 1);
    for _ in 0..n {
        add(g, &mut nb, cfg, depth);
    }
    if let Some((_, cap)) = g.bulk.take() {
        let n = [30, 70, 130, 260, 300, 600][choose(D, 6)].min(cap);
        let s = small_section(g, 1);
        ctx::count("gen.bulky");
        for k in 0..n {
            let name = format!("s{k:03}.one");
            let l = leaf(g, &name, [k as u32, (k * 7 % 64) as u32, 0][choose(D, 3)]);
            insert_leaf(&mut nb.root, l);
            if k % 5 != 4 {
                nb.files.insert(name, s.clone());
            }
        }
        nb.log.push(format!("{n} sections"));
    }
    nb.store.map_manifest = !chance(L, 1, 6);
    nb.store.commit(&toc_states(&nb.root), chance(L, 1, 2));
    // now and then a long life between two compactions
    let long = depth == 0 && cfg.steps > 2 && choose(D, 24) == 23;
    for _ in 0..if long { 16 + choose(D, 40) } else { choose(D, cfg.steps + 1) } {
        step(g, &mut nb, cfg, depth);
    }
    nb
}
fn add(g: &mut Gen, nb: &mut Nb, cfg: &NbCfg, depth: usize) {
    let group = depth < cfg.depth && choose(D, 3) == 2;
    let name = nb.fresh_name(group);
    let item = if group {
        let c = NbCfg { entries: cfg.entries.div_ceil(2), steps: cfg.steps / 2, ..*cfg };
        Item::Group(Box::new(gen_nb(g, &c, depth + 1)))
    } else {
        small_section(g, cfg.budget)
    };
    let l = leaf(g, &name, gen_order());
    insert_leaf(&mut nb.root, l);
    let link = choose(D, 16) == 15;
    if link {
        let k = nb.links.len();
        let to = [format!("kept {k}.one"), format!("kept {k}"), format!("attic/{k}"), format!("attic/deep/{k}.onetoc2")][choose(D, 4)].clone();
        ctx::count("gen.link_entry");
        nb.links.insert(name.clone(), to);
    }
    nb.log.push(format!("add {}{} {name:?}", if link { "linked " } else { "" }, if group { "group" } else { "section" }));
    nb.files.insert(name, item);
}
/// A notebook whose only group is `inner`.
pub fn wrap(g: &mut Gen, inner: Nb) -> Nb {
    let cfg = NbCfg { depth: 0, entries: choose(D, 2), steps: 0, budget: 2 };
    let mut nb = gen_nb(g, &cfg, 1);
    let mut name = ["g", "n 1", "ä"][choose(D, 3)].to_string();
    while nb.files.contains_key(&name) || nb.listed().contains(&name) || nb.strays.iter().any(|s| s.0 == name) {
        name.push('q');
    }
    let l = leaf(g, &name, gen_order());
    insert_leaf(&mut nb.root, l);
    nb.files.insert(name, Item::Group(Box::new(inner)));
    nb.commit();
    nb
}
/// One operation on a notebook; its commit may be lost in a crash.
pub fn step(g: &mut Gen, nb: &mut Nb, cfg: &NbCfg, depth: usize) {
    let before = nb.root.clone();
    let listed = nb.listed();
    let pick = |v: &[String]| if v.is_empty() { None } else { Some(v[choose(D, v.len())].clone()) };
    let mut what = String::from("nothing");
    match choose(D, 13) {
        0 => {
            if let Some(n) = pick(&listed) {
                // edit the section or the group behind it
                match nb.files.get_mut(&n) {
                    Some(Item::Section(h)) => {
                        let mut sp = 5000 + h.store.next;
                        edit_section(g, &mut h.doc, &mut sp);
                        h.store.commit(&section_states(&h.doc), false);
                        what = format!("edit section {n:?}");
                    }
                    Some(Item::Group(x)) => {
                        step(g, x, cfg, depth + 1);
                        what = format!("in group {n:?}: {}", x.log.last().cloned().unwrap_or_default());
                    }
                    None => {}
                }
            }
        }
        1 | 2 => {
            add(g, nb, cfg, depth);
            what = nb.log.pop().unwrap_or_default();
        }
        3 => {
            if let Some(n) = pick(&listed) {
                retain(&mut nb.root, &mut |x| x != n);
                let keep = choose(D, 3) == 2;
                if !keep {
                    nb.files.remove(&n);
                }
                what = format!("delete {n:?}{}", if keep { " from the list only" } else { "" });
            }
        }
        4 => {
            if let Some(n) = pick(&listed) {
                nb.files.remove(&n);
                what = format!("lose the file of {n:?}");
            }
        }
        5 => {
            if let Some(n) = pick(&listed) {
                let group = matches!(nb.files.get(&n), Some(Item::Group(_)));
                let to = nb.fresh_name(group);
                let half = choose(D, 6) == 5;
                if let Some(i) = nb.files.remove(&n) {
                    nb.files.insert(to.clone(), i);
                }
                if let Some(l) = nb.links.remove(&n) {
                    nb.links.insert(to.clone(), l);
                }
                if !half {
                    let mut v = vec![];
                    leaves(&mut nb.root, &mut v);
                    for l in v {
                        if let Some((x, _)) = &mut l.leaf {
                            if *x == n {
                                *x = to.clone();
                            }
                        }
                    }
                }
                what = format!("rename {n:?} to {to:?}{}", if half { " on disk only" } else { "" });
            }
        }
        6 | 7 => {
            let mut v = vec![];
            leaves(&mut nb.root, &mut v);
            for l in v {
                if let Some((_, o)) = &mut l.leaf {
                    if choose(D, 2) == 1 {
                        *o = gen_order();
                    }
                }
            }
            what = "reorder".into();
        }
        8 => {
            nb.root.color = gen_color_opt();
            let mut v = vec![];
            leaves(&mut nb.root, &mut v);
            for l in v {
                if choose(D, 3) == 2 {
                    l.color = gen_color_opt();
                }
            }
            what = "recolour".into();
        }
        9 => {
            if let Some(n) = pick(&listed) {
                let l = leaf(g, &n, gen_order());
                insert_leaf(&mut nb.root, l);
                what = format!("list {n:?} a second time");
            }
        }
        10 => {
            let name = if choose(D, 2) == 1 { BIN.to_string() } else { nb.fresh_name(false) };
            if name == BIN && choose(D, 2) == 1 && !nb.files.contains_key(BIN) {
                let c = NbCfg { depth: 0, entries: 1, steps: 0, budget: 3 };
                nb.files.insert(BIN.into(), Item::Group(Box::new(gen_nb(g, &c, 9))));
            }
            let l = leaf(g, &name, gen_order());
            insert_leaf(&mut nb.root, l);
            what = format!("list {name:?}, which is not part of the notebook");
        }
        11 => {
            // list entries again under new objects, or move them into an inner container
            let mut v = vec![];
            leaves(&mut nb.root, &mut v);
            for l in v {
                if choose(D, 2) == 1 {
                    l.oid = g.oid();
                }
            }
            if choose(D, 2) == 1 {
                let kids = std::mem::take(&mut nb.root.kids);
                let (a, b): (Vec<_>, Vec<_>) = kids.into_iter().partition(|_| choose(D, 2) == 0);
                nb.root.kids = a;
                let c = TocNode { oid: g.oid(), color: gen_color_opt(), leaf: None, kids: b, extra: false };
                nb.root.kids.push(c);
            }
            if choose(D, 3) == 2 {
                nb.root.oid = g.oid();
            }
            what = "rebuild the list".into();
        }
        _ => {
            let (name, s) = match choose(D, 9) {
                0 => ("notes.txt".to_string(), Stray::File(b"hello".to_vec())),
                1 => ("desktop.ini".to_string(), Stray::File(vec![0xFF; 40])),
                2 => ("onetoc2".to_string(), Stray::File(vec![])),
                3 => ("Backup".to_string(), Stray::Dir),
                4 => ("Open Notebook.onetoc2.tmp".to_string(), Stray::File(vec![1; 9])),
                5 => ("A.onetoc2".to_string(), Stray::Dir),
                6 => (".onetoc2".to_string(), Stray::File(vec![2; 5])),
                7 => ("B.onetoc2".to_string(), Stray::Fifo),
                _ => ("pipe".to_string(), Stray::Fifo),
            };
            if !nb.files.contains_key(&name) && !nb.strays.iter().any(|x| x.0 == name) {
                what = format!("stray {name:?}");
                nb.strays.push((name, s));
            }
        }
    }
    if nb.root != before {
        if choose(D, 8) == 7 {
            nb.store.interrupted(&toc_states(&nb.root));
            nb.root = before;
            what.push_str(" (the commit of the list is lost in a crash)");
        } else {
            nb.commit();
        }
    }
    if choose(D, 8) == 7 {
        let n = nb.store.cells[&ROOT].revs.len();
        nb.store.compact(ROOT, n);
        what.push_str(", then compact");
    }
    ctx::trace(|| format!("  [depth {depth}] {what}"));
    nb.log.push(what);
}
/// A random notebook; `size` 0 = tiny.
pub fn notebook(g: &mut Gen, size: usize) -> Nb {
    let cfg = NbCfg {
        depth: [1, 2, 3, 4][choose(D, 2 + size.min(2))],
        entries: [1, 3, 5, 8][choose(D, 2 + size.min(2))],
        steps: [0, 2, 5, 9][choose(D, 2 + size.min(2))],
        budget: [2, 3, 5][choose(D, 3)],
    };
    gen_nb(g, &cfg, 0)
}
