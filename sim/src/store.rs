//! The writing side: per-cell revision chains, incremental commits, interrupted commits,
//! compaction, page versions, and the record-level file image they leave on disk.

use crate::ctx::{self, L, chance, choose};
use crate::doc::*;
use crate::model::*;
use crate::write::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Rev {
    pub el: u32,
    pub rid: u32,
    /// refer to this revision by its manifest's record id instead of its revision id
    pub direct: bool,
    pub roots: Vec<(u32, u32)>,
    pub groups: Vec<(u32, Vec<ObjRec>)>,
}
#[derive(Clone, Debug)]
pub struct CellHist {
    pub cell: Cell,
    pub cellman: u32,
    /// 0 cell manifest -> revision id, 1 cell manifest -> record id, 2 mapping -> revision id,
    /// 3 mapping -> record id, 4 by serial
    pub mode: u8,
    pub revs: Vec<Rev>,
    pub state: SpaceState,
}
#[derive(Clone, Debug)]
pub struct Store {
    pub schema: &'static str,
    pub next: u32,
    pub cells: BTreeMap<Cell, CellHist>,
    pub blobs: BTreeMap<u32, Arc<Vec<u8>>>,
    /// records that the current index does not reach
    pub garbage: Vec<Elem>,
    /// extra revision mappings nobody uses
    pub stray_maps: Vec<(u32, u32)>,
    pub index: u32,
    pub manifest: u32,
    pub map_manifest: bool,
    pub addr: u8,
    pub commits: u32,
    /// one object group per object
    pub tiny_groups: bool,
}

impl Store {
    pub fn new(schema: &'static str) -> Store {
        Store {
            schema,
            next: 10,
            cells: BTreeMap::new(),
            blobs: BTreeMap::new(),
            garbage: vec![],
            stray_maps: vec![],
            index: 1,
            manifest: 2,
            map_manifest: true,
            addr: choose(L, 7) as u8,
            commits: 0,
            tiny_groups: false,
        }
    }
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    /// Assign payload records to the objects that carry payloads.
    fn place_blobs(&mut self, objs: &mut [ObjRec]) {
        for o in objs {
            if let Some((id, b)) = &mut o.blob {
                let reuse = if chance(L, 1, 3) { self.blobs.iter().find(|(_, v)| v == &b).map(|(k, _)| *k) } else { None };
                *id = match reuse {
                    Some(k) => k,
                    None => {
                        self.next += 1;
                        self.blobs.insert(self.next, b.clone());
                        self.next
                    }
                };
            }
        }
    }
    fn make_rev(&mut self, mut objs: Vec<ObjRec>, roots: Vec<(u32, u32)>) -> Rev {
        self.place_blobs(&mut objs);
        let n = 1 + choose(L, 3).min(objs.len().saturating_sub(1));
        let n = if self.tiny_groups { objs.len().max(1) } else { n };
        let mut groups: Vec<(u32, Vec<ObjRec>)> = (0..n).map(|_| (self.id(), vec![])).collect();
        if n == 1 {
            groups[0].1 = objs;
        } else {
            for (i, o) in objs.into_iter().enumerate() {
                let k = if self.tiny_groups { i } else { choose(L, n) };
                groups[k].1.push(o);
            }
            if !chance(L, 1, 4) {
                groups.retain(|g| !g.1.is_empty());
            }
        }
        let el = self.id();
        let rid = self.id();
        let direct = self.addr == 1 || self.addr >= 5 && choose(L, 2) == 1;
        Rev { el, rid, direct, roots, groups }
    }
    fn diff(old: &SpaceState, new: &SpaceState) -> Vec<ObjRec> {
        let same = |a: &ObjRec, b: &ObjRec| {
            a.jcid == b.jcid && a.props == b.props && a.blob.as_ref().map(|x| &x.1) == b.blob.as_ref().map(|x| &x.1)
        };
        new.objs.values().filter(|o| !old.objs.get(&o.oid).is_some_and(|p| same(p, o))).cloned().collect()
    }
    fn cell_mode(&self) -> u8 {
        match self.addr {
            0..=4 => self.addr,
            5 => 0,
            _ => choose(L, 5) as u8,
        }
    }
    /// Commit the given spaces. `keep_gone`: cells no longer listed stay in the index.
    pub fn commit(&mut self, spaces: &[SpaceState], spread: bool) {
        self.commits += 1;
        for s in spaces {
            match self.cells.get(&s.cell).map(|c| c.state.clone()) {
                None => {
                    let cellman = self.id();
                    let mode = self.cell_mode();
                    let mut revs = vec![];
                    let k = if spread && s.cell != HEADER { 1 + choose(L, 3) } else { 1 };
                    if k == 1 {
                        revs.push(self.make_rev(s.objs.values().cloned().collect(), s.roots.clone()));
                    } else {
                        // the first state reaches disk as several partial saves
                        let mut parts: Vec<Vec<ObjRec>> = vec![vec![]; k];
                        for o in s.objs.values() {
                            parts[choose(L, k)].push(o.clone());
                        }
                        for (i, mut p) in parts.clone().into_iter().enumerate() {
                            if i == 0 && chance(L, 1, 2) {
                                // superseded early version of an object written later
                                if let Some(o) = parts[k - 1].first() {
                                    let mut o = o.clone();
                                    o.props.truncate(o.props.len() / 2);
                                    o.blob = None;
                                    p.push(o);
                                }
                            }
                            let r = self.make_rev(p, s.roots.clone());
                            revs.push(r);
                        }
                    }
                    self.cells.insert(s.cell, CellHist { cell: s.cell, cellman, mode, revs, state: s.clone() });
                }
                Some(old) => {
                    if s.cell == HEADER {
                        continue;
                    }
                    let mut d = Store::diff(&old, s);
                    if d.is_empty() && old.roots == s.roots && !chance(L, 1, 8) {
                        continue;
                    }
                    // unchanged objects are sometimes written again
                    if chance(L, 1, 3) {
                        for o in s.objs.values() {
                            if choose(L, 4) == 3 && !d.iter().any(|x| x.oid == o.oid) {
                                d.push(o.clone());
                            }
                        }
                    }
                    let r = self.make_rev(d, s.roots.clone());
                    let c = self.cells.get_mut(&s.cell).unwrap();
                    c.revs.push(r);
                    c.state = s.clone();
                    if chance(L, 1, 2) {
                        // a new cell manifest record replaces the old one
                        let id = self.id();
                        let c = self.cells.get_mut(&s.cell).unwrap();
                        let old = std::mem::replace(&mut c.cellman, id);
                        if chance(L, 1, 3) {
                            let n = c.revs.len();
                            let e = Elem { id: Id::El(old), serial: old, el: El::CellMan(Id::Rid(c.revs[n - 2].rid)) };
                            self.garbage.push(e);
                        }
                    }
                }
            }
        }
        let gone: Vec<Cell> =
            self.cells.keys().filter(|c| c.ctx == 0 && !spaces.iter().any(|s| s.cell == **c)).copied().collect();
        for c in gone {
            if chance(L, 1, 2) {
                let h = self.cells.remove(&c).unwrap();
                if chance(L, 1, 2) {
                    self.bury(&h, h.revs.len());
                }
            }
        }
    }
    /// Keep a cell's records on disk although no index entry leads to them.
    fn bury(&mut self, h: &CellHist, revs: usize) {
        for (i, r) in h.revs.iter().enumerate().take(revs) {
            let base = if i == 0 { Id::Nil } else { rev_ref(&h.revs[i - 1]) };
            self.garbage.extend(rev_elems(h.cell, r, base));
            self.stray_maps.push((r.rid, r.el));
        }
    }
    /// A commit that crashed before the index switched: any prefix of its records is on disk.
    pub fn interrupted(&mut self, spaces: &[SpaceState]) {
        let mut recs = vec![];
        for s in spaces {
            if s.cell == HEADER {
                continue;
            }
            let (d, base, cell) = match self.cells.get(&s.cell) {
                None => (s.objs.values().cloned().collect(), Id::Nil, s.cell),
                Some(c) => (Store::diff(&c.state, s), rev_ref(c.revs.last().unwrap()), s.cell),
            };
            if d.is_empty() {
                continue;
            }
            let before: Vec<u32> = self.blobs.keys().copied().collect();
            let r = self.make_rev(d, s.roots.clone());
            let newb: Vec<u32> = self.blobs.keys().filter(|k| !before.contains(k)).copied().collect();
            for b in newb {
                let data = self.blobs.remove(&b).unwrap();
                recs.push(Elem { id: Id::El(b), serial: b, el: El::Blob(data) });
            }
            recs.extend(rev_elems(cell, &r, base));
            let cm = self.id();
            recs.push(Elem { id: Id::El(cm), serial: cm, el: El::CellMan(Id::Rid(r.rid)) });
        }
        let keep = choose(L, recs.len() + 1);
        recs.truncate(keep);
        ctx::count("fault.interrupted_commit");
        self.garbage.extend(recs);
    }
    /// Background reorganisation: merge revisions of a cell.
    pub fn compact(&mut self, cell: Cell, upto: usize) {
        let Some(h) = self.cells.get(&cell).cloned() else { return };
        let n = h.revs.len();
        let k = upto.min(n);
        if k < 2 {
            return;
        }
        // merge the oldest k revisions into one
        let mut eff: BTreeMap<u32, ObjRec> = BTreeMap::new();
        let mut roots: BTreeMap<u32, u32> = BTreeMap::new();
        for r in &h.revs[..k] {
            for (_, g) in &r.groups {
                for o in g {
                    eff.insert(o.oid, o.clone());
                }
            }
            roots.extend(r.roots.iter().copied());
        }
        if k == n {
            // a full compaction drops objects that are gone
            eff.retain(|o, _| h.state.objs.contains_key(o));
        }
        if chance(L, 1, 3) {
            self.bury(&h, k);
        }
        let r = self.make_rev(eff.into_values().collect(), roots.into_iter().collect());
        let c = self.cells.get_mut(&cell).unwrap();
        c.revs.drain(..k);
        c.revs.insert(0, r);
    }
    /// Keep the present state of a page as an old version of it.
    pub fn snapshot(&mut self, space: u32, version: u32) {
        let Some(h) = self.cells.get(&Cell { ctx: 0, space }) else { return };
        let mut s = h.state.clone();
        s.cell = Cell { ctx: version, space };
        let cellman = self.id();
        let mode = self.cell_mode();
        let r = self.make_rev(s.objs.values().cloned().collect(), s.roots.clone());
        self.cells.insert(s.cell, CellHist { cell: s.cell, cellman, mode, revs: vec![r], state: s });
    }
    /// Drop payload records no revision refers to.
    fn live_blobs(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self
            .cells
            .values()
            .flat_map(|c| &c.revs)
            .flat_map(|r| &r.groups)
            .flat_map(|g| &g.1)
            .chain(self.garbage.iter().flat_map(|e| if let El::Group { objs, .. } = &e.el { &objs[..] } else { &[] }))
            .filter_map(|o| o.blob.as_ref().map(|b| b.0))
            .collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn image(&self) -> FileImg {
        let mut elems = vec![];
        let mut cells = vec![];
        let mut revs = vec![];
        for h in self.cells.values() {
            let last = h.revs.last().unwrap();
            let cm = Id::El(h.cellman);
            let serial = h.cellman;
            let (map, ser) = match h.mode {
                0 => {
                    elems.push(Elem { id: cm, serial, el: El::CellMan(Id::Rid(last.rid)) });
                    (cm, serial)
                }
                1 => {
                    elems.push(Elem { id: cm, serial, el: El::CellMan(Id::El(last.el)) });
                    (cm, serial)
                }
                2 => (Id::Rid(last.rid), serial),
                3 => (Id::El(last.el), serial),
                _ => (Id::Bogus(1000 + h.cellman), 0x8000_0000 | last.el),
            };
            cells.push((cref(h.cell), map, ser));
            for (i, r) in h.revs.iter().enumerate() {
                let base = if i == 0 { Id::Nil } else { rev_ref(&h.revs[i - 1]) };
                let is_last = i + 1 == h.revs.len();
                let mapped = !r.direct || is_last && matches!(h.mode, 0 | 2 | 4);
                if mapped {
                    revs.push((Id::Rid(r.rid), Id::El(r.el), 0x8000_0000 | r.el));
                }
                elems.extend(rev_elems(h.cell, r, base));
            }
        }
        for (rid, el) in &self.stray_maps {
            revs.push((Id::Rid(*rid), Id::El(*el), 0x8000_0000 | *el));
        }
        let have: std::collections::BTreeSet<Id> = elems.iter().map(|e| e.id).collect();
        let have_g: std::collections::BTreeSet<Id> = self.garbage.iter().map(|e| e.id).collect();
        for b in self.live_blobs() {
            if let Some(d) = self.blobs.get(&b) {
                if !have_g.contains(&Id::El(b)) {
                    elems.push(Elem { id: Id::El(b), serial: b, el: El::Blob(d.clone()) });
                }
            }
        }
        let mut seen = have;
        for e in &self.garbage {
            if seen.insert(e.id) {
                elems.push(e.clone());
            }
        }
        let manifests = if self.map_manifest { vec![(Id::El(self.manifest), self.manifest)] } else { vec![] };
        elems.push(Elem { id: Id::El(self.index), serial: self.index, el: El::Index { manifests, cells, revs } });
        elems.push(Elem {
            id: Id::El(self.manifest),
            serial: self.manifest,
            el: El::Manifest {
                schema: guid(self.schema),
                roots: vec![(Id::HeaderRoot, cref(HEADER)), (Id::DataRoot, cref(ROOT))],
            },
        });
        FileImg { elems, index: Id::El(self.index) }
    }
    /// The image plus an index left over from an earlier commit.
    pub fn stale_index(&mut self) {
        let img = self.image();
        let id = self.id();
        for e in &img.elems {
            if let El::Index { .. } = e.el {
                self.garbage.push(Elem { id: Id::El(id), serial: id, el: e.el.clone() });
            }
        }
        // the records it leads to stay on disk as well
        for e in img.elems {
            if matches!(e.el, El::CellMan(_) | El::Rev { .. } | El::Group { .. } | El::Blob(_)) {
                self.garbage.push(e);
            }
        }
    }
}
pub fn rev_ref(r: &Rev) -> Id {
    if r.direct { Id::El(r.el) } else { Id::Rid(r.rid) }
}
fn rev_elems(cell: Cell, r: &Rev, base: Id) -> Vec<Elem> {
    let mut v = vec![Elem {
        id: Id::El(r.el),
        serial: r.el,
        el: El::Rev {
            rid: Id::Rid(r.rid),
            base,
            roots: r.roots.iter().map(|(a, b)| (Id::Role(*a), Id::Oid(*b))).collect(),
            groups: r.groups.iter().map(|g| Id::El(g.0)).collect(),
        },
    }];
    for (id, objs) in &r.groups {
        v.push(Elem { id: Id::El(*id), serial: *id, el: El::Group { cell, objs: objs.clone() } });
    }
    v
}

// ---------------------------------------------------------------- a section with its history
#[derive(Clone)]
pub struct History {
    pub doc: SectionDoc,
    pub store: Store,
    pub log: Vec<String>,
}
/// Knobs of one simulated writing history.
pub struct HistCfg {
    pub pages: usize,
    pub steps: usize,
    pub versions: bool,
    pub crashes: bool,
    pub stale: bool,
}
/// A page that is edited and saved very often, with nothing else going on.
fn many_revisions(g: &mut Gen, h: &mut History, cap: usize) {
    let n = ([20, 40, 66, 130, 260, 300][choose(ctx::D, 6)] + choose(ctx::D, 5)).min(cap);
    let all = pages(&h.doc).count();
    if all == 0 {
        return;
    }
    ctx::count("gen.bulky");
    let at = choose(ctx::D, all);
    for _ in 0..n {
        let p = h.doc.series.iter_mut().flat_map(|s| s.pages.iter_mut()).nth(at).expect("page");
        p.level = gen_level();
        p.meta_props = crate::doc::gen_meta_props();
        if choose(ctx::D, 4) == 0 {
            g.budget = 2;
            let mut sh = std::mem::take(&mut p.sh);
            crate::model::edit(g, &mut p.node, &mut sh);
            p.sh = sh;
        }
        h.store.commit(&section_states(&h.doc), false);
    }
    g.budget = 0;
    h.log.push(format!("the same page edited and saved {n} times"));
}
pub fn run_history(g: &mut Gen, cfg: &HistCfg) -> History {
    let mut space = 100;
    let doc = gen_section(g, cfg.pages, &mut space);
    let store = Store::new(SCHEMA_ONE);
    let mut h = History { doc, store, log: vec![] };
    let bulk_at = g.bulk.map(|_| choose(ctx::D, 2) * choose(ctx::D, cfg.steps + 1));
    if let (Some(0), Some((dim, cap))) = (bulk_at, g.bulk) {
        match dim {
            crate::bulk::REVS => {}
            crate::bulk::GROUPS => {
                h.store.tiny_groups = true;
                let t = crate::bulk::bulk(g, &mut h.doc, &mut space, choose(ctx::D, 6), cap.min(150));
                h.log.push(format!("bulk: {t}, each object in a group of its own"));
            }
            _ => {
                let t = crate::bulk::bulk(g, &mut h.doc, &mut space, dim, cap);
                h.log.push(format!("bulk: {t}"));
            }
        }
    }
    h.store.map_manifest = !chance(L, 1, 6);
    h.store.commit(&section_states(&h.doc), true);
    h.log.push("create + commit".into());
    if let (Some(0), Some((crate::bulk::REVS, cap))) = (bulk_at, g.bulk) {
        many_revisions(g, &mut h, cap);
    }
    let mut version = 1;
    // now and then a long life between two compactions
    let long = cfg.steps > 2 && choose(ctx::D, 24) == 23;
    let steps = if long { 16 + choose(ctx::D, 60) } else { cfg.steps };
    for step in 1..=steps {
        if g.wide {
            break;
        }
        if let (Some(at), Some((dim, cap))) = (bulk_at, g.bulk)
            && at == step
        {
            if dim >= crate::bulk::REVS {
                h.store.tiny_groups = dim == crate::bulk::GROUPS;
                many_revisions(g, &mut h, cap);
                continue;
            }
            let t = crate::bulk::bulk(g, &mut h.doc, &mut space, dim, cap);
            h.log.push(format!("bulk: {t}"));
            h.store.commit(&section_states(&h.doc), false);
        }
        match choose(ctx::D, 8) {
            5 if cfg.crashes => {
                // another writer's changes never make it
                let mut d2 = h.doc.clone();
                for _ in 0..1 + choose(ctx::D, 3) {
                    let t = edit_section(g, &mut d2, &mut space);
                    h.log.push(format!("edit (lost): {t}"));
                }
                h.store.interrupted(&section_states(&d2));
                h.log.push("commit interrupted by a crash".into());
            }
            6 if !long || choose(L, 24) == 23 => {
                let cells: Vec<Cell> = h.store.cells.keys().filter(|c| **c != HEADER).copied().collect();
                let c = cells[choose(L, cells.len())];
                let n = h.store.cells[&c].revs.len();
                h.store.compact(c, n - choose(L, 2).min(n - 1));
                h.log.push(format!("compact {c:?}"));
            }
            7 if cfg.versions => {
                let sp: Vec<u32> = pages(&h.doc).map(|p| p.space).collect();
                if !sp.is_empty() {
                    version += 1;
                    let s = sp[choose(ctx::D, sp.len())];
                    h.store.snapshot(s, version);
                    h.log.push(format!("keep a version of the page in space {s}"));
                }
            }
            4 if cfg.stale && chance(L, 1, 2) => {
                h.store.stale_index();
                h.log.push("old storage index stays on disk".into());
            }
            _ => {
                let n = if long { 1 } else { 1 + choose(ctx::D, 3) };
                for _ in 0..n {
                    let t = edit_section(g, &mut h.doc, &mut space);
                    h.log.push(format!("edit: {t}"));
                }
                h.store.commit(&section_states(&h.doc), false);
                h.log.push("commit".into());
            }
        }
    }
    h
}
