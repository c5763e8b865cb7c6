//! C17-C19: the physical side - equivalent layouts, lost records, kinds and versions of files.

use super::*;
use crate::ctx::{F, chance};
use crate::doc::{SpaceState, dump_section, section_states, toc_states};
use crate::model::{Cell, Props, Val};
use crate::nb::{self, Item, Nb};
use crate::vfs::Event;
use crate::write::{El, Elem, FileImg, Id, SCHEMA_TOC};

fn seed() -> u64 {
    choose(L, 1 << 20) as u64
}
fn note_state(img: &[u8], what: String) {
    let c = ctx::ctx();
    c.states.insert(ctx::hash_bytes(img));
    c.nontrivial += 1;
    if c.sample.is_empty() {
        c.sample.push(format!("run {}: {what}", c.run));
    }
}

// ---------------------------------------------------------------- C17
/// The same document in another store: fewer or more revisions, other records around it.
fn reorganised(st: &Store, states: &[SpaceState], log: &mut String) -> Store {
    match choose(L, 7) {
        0 => {
            log.push_str("written anew");
            let mut s = Store::new(st.schema);
            s.map_manifest = !chance(L, 1, 6);
            s.commit(states, false);
            s
        }
        1 => {
            log.push_str("written anew in parts");
            let mut s = Store::new(st.schema);
            s.commit(states, true);
            s
        }
        2 => {
            log.push_str("every cell compacted");
            let mut s = st.clone();
            let cells: Vec<Cell> = s.cells.keys().copied().collect();
            for c in cells {
                let n = s.cells[&c].revs.len();
                s.compact(c, n);
            }
            s
        }
        3 => {
            log.push_str("some old revisions merged");
            let mut s = st.clone();
            let cells: Vec<Cell> = s.cells.keys().copied().collect();
            for c in cells {
                let n = s.cells[&c].revs.len();
                s.compact(c, 1 + choose(L, n));
            }
            s
        }
        4 => {
            log.push_str("garbage removed");
            let mut s = st.clone();
            s.garbage.clear();
            s.stray_maps.clear();
            s
        }
        5 => {
            log.push_str("left-over index and unchanged rewrites added");
            let mut s = st.clone();
            s.stale_index();
            s.commit(states, false);
            s
        }
        _ => {
            log.push_str("only the bytes differ");
            st.clone()
        }
    }
}
/// A cell that never got any content, or has lost its last revision.
fn empty_cell(img: &mut FileImg) -> String {
    let (id, serial) = (Id::Bogus(40 + choose(L, 3) as u32), 90_000 + choose(L, 100) as u32);
    let nil = chance(L, 1, 2);
    let cell = (Id::Ctx(1 + choose(L, 3) as u32), Id::Space(80_000 + choose(L, 3) as u32));
    for e in img.elems.iter_mut() {
        if let El::Index { cells, .. } = &mut e.el
            && e.id == img.index
        {
            let at = choose(L, cells.len() + 1);
            cells.insert(at, (cell, if nil { Id::Nil } else { id }, serial));
        }
    }
    if !nil {
        let at = choose(L, img.elems.len() + 1);
        img.elems.insert(at, Elem { id, serial, el: El::CellMan(Id::Nil) });
    }
    ctx::count("gen.empty_cell");
    format!(" + a cell without {}", if nil { "manifest" } else { "revision" })
}
/// Bytes of one more layout of the document.
fn other_layout(st: &Store, states: &[SpaceState]) -> (Vec<u8>, String) {
    let mut how = String::new();
    let s = reorganised(st, states, &mut how);
    let mut img = s.image();
    if chance(L, 1, 8) {
        // a record of a kind the reader has no use for
        img.elems.push(Elem { id: Id::Bogus(3), serial: 3, el: El::Frag(vec![7; choose(L, 40)]) });
        how.push_str(" + unrelated fragment");
    }
    if chance(L, 1, 6) {
        how.push_str(&empty_cell(&mut img));
    }
    let sd = seed();
    (encode(&img, &mut Lay::new(sd), st.schema == SCHEMA_TOC).bytes, format!("{how}, layout {sd}"))
}
pub fn c17() -> Result<(), Violation> {
    match choose(D, 4) {
        3 => layouts_of_notebook(),
        2 => layouts_of_odd(),
        _ => layouts_of_section(),
    }
}
fn layouts_of_section() -> Result<(), Violation> {
    let mut g = swarm("", [3, 8, 16, 30][choose(D, 4)]);
    bulky(&mut g, 80, 300);
    let cfg = HistCfg { pages: choose(D, 4), steps: choose(D, 7), versions: choose(D, 3) == 2, crashes: choose(D, 3) == 2, stale: choose(D, 3) == 2 };
    let h = run_history(&mut g, &cfg);
    let states = section_states(&h.doc);
    let plain = encode(&h.store.image(), &mut Lay::new(0), false).bytes;
    note_state(&plain, format!("section of {} bytes: {}", plain.len(), h.log.join("; ")));
    let path = "/w/s.one";
    put(path, plain.clone());
    fresh();
    let a = read_section(0, path);
    let n = if ctx::ctx().tier_thorough { 12 } else { 6 };
    for _ in 0..n {
        let (bytes, how) = other_layout(&h.store, &states);
        ctx::trace(|| format!("  {how}"));
        ctx::count("layouts_compared");
        ctx::ctx().evals += 1;
        let b = match choose(S, 4) {
            0 => read_buffer(hseed(), &bytes, "s.one"),
            1 => {
                // the file is reorganised by another process while it is read
                put(path, plain.clone());
                let e = Event::Replace { path: path.into(), data: Arc::new(bytes) };
                vfs().fresh(Plan { events: vec![(choose(S, 8) as u64, e)], ..Plan::default() });
                ctx::count("fault.reorganised_during_read");
                read_section(hseed(), path)
            }
            _ => {
                put(path, bytes);
                fresh();
                read_section(hseed(), path)
            }
        };
        same_document(&a, &b, &how)?;
    }
    Ok(())
}
fn same_document(a: &Got, b: &Got, how: &str) -> Result<(), Violation> {
    match (a, b) {
        (Got::Doc(x), Got::Doc(y)) if x == y => Ok(()),
        (Got::Err(_), Got::Err(_)) | (Got::Panic(_), Got::Panic(_)) => Ok(()),
        (Got::Doc(x), Got::Doc(y)) => {
            let (c, t) = difference(x, y);
            fail(format!("another layout reads differently: {c}"), format!("{how}: {t}"))
        }
        (Got::Doc(_), Got::Err(e)) => fail(format!("another layout is refused: {}", strip_digits(e)), format!("{how}: {e}")),
        (Got::Err(e), Got::Doc(_)) => fail(format!("only another layout is accepted: {}", strip_digits(e)), format!("{how}: {e}")),
        _ => fail("another layout panics", format!("{how}: {} / {}", a.short(), b.short())),
    }
}
/// Contents the reader refuses or treats in a special way: that, too, does not depend on layout.
fn layouts_of_odd() -> Result<(), Violation> {
    let mut g = swarm("", [3, 8, 16][choose(D, 3)]);
    let cfg = HistCfg { pages: 1 + choose(D, 2), steps: choose(D, 3), versions: false, crashes: false, stale: false };
    let h = run_history(&mut g, &cfg);
    let mut img = h.store.image();
    let mut log = vec![];
    for _ in 0..1 + choose(F, 3) {
        crate::corrupt::semantic_one(&mut img, &mut log);
    }
    // records that contradict each other or lie about their own size have no equivalent layouts
    let keeps = ["corrupt_value", "lost_property", "lost_object", "lost_record", "redirected_reference", "shared_substructure", "wrong_object_type"];
    if !log.iter().all(|l| keeps.contains(&l.as_str())) {
        return Ok(());
    }
    let one = encode(&img, &mut Lay::new(0), false).bytes;
    note_state(&one, format!("section with {}", log.join(", ")));
    let a = read_buffer(0, &one, "s.one");
    for _ in 0..4 {
        let sd = seed();
        let b = encode(&img, &mut Lay::new(sd), false).bytes;
        ctx::count("layouts_compared");
        ctx::ctx().evals += 1;
        let r = read_buffer(hseed(), &b, "s.one");
        same_document(&a, &r, &format!("{} in layout {sd}", log.join(", ")))?;
    }
    Ok(())
}
fn layouts_of_notebook() -> Result<(), Violation> {
    let mut g = swarm("", 3);
    let n = nb::notebook(&mut g, choose(D, 2));
    let files = n.write("/w/nb");
    let path = format!("/w/nb/{}", n.toc_name);
    note_state(&files[0].bytes, format!("notebook of {} files", files.len()));
    fresh();
    let a = read_notebook(0, &path);
    // all files of the tree, each with a way to write it anew
    let mut all: Vec<(String, &Store, Vec<SpaceState>)> = vec![];
    fn walk<'a>(dir: &str, n: &'a Nb, out: &mut Vec<(String, &'a Store, Vec<SpaceState>)>) {
        out.push((format!("{dir}/{}", n.toc_name), &n.store, toc_states(&n.root)));
        for (name, i) in &n.files {
            match i {
                Item::Section(h) => out.push((n.place(dir, name), &h.store, section_states(&h.doc))),
                Item::Group(x) => walk(&n.place(dir, name), x, out),
            }
        }
    }
    walk("/w/nb", &n, &mut all);
    for _ in 0..if ctx::ctx().tier_thorough { 6 } else { 3 } {
        let mut how = String::new();
        let mut events = vec![];
        let during = choose(S, 3) == 2;
        for (p, st, states) in &all {
            if choose(L, 2) == 1 {
                let (b, t) = other_layout(st, states);
                ctx::trace(|| format!("  {p}: {t}"));
                if how.is_empty() {
                    how = format!("{p} {t}");
                }
                if during && choose(S, 2) == 1 {
                    events.push((choose(S, 60) as u64, Event::Replace { path: p.clone(), data: Arc::new(b) }));
                    ctx::count("fault.reorganised_during_read");
                } else {
                    put(p, b);
                }
            }
        }
        ctx::count("layouts_compared");
        ctx::ctx().evals += 1;
        vfs().fresh(Plan { events, dir_seed: choose(S, 1 << 12) as u64, ..Plan::default() });
        let b = read_notebook(hseed(), &path);
        same_document(&a, &b, &how)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C18
fn each_oid(p: &mut Props, f: &mut dyn FnMut(&mut u32)) {
    for (_, v) in p.iter_mut() {
        match v {
            Val::Oid(x) => f(x),
            Val::Oids(x) => x.iter_mut().for_each(&mut *f),
            Val::Sets(_, s) => s.iter_mut().for_each(|q| each_oid(q, f)),
            Val::Set(s) => each_oid(s, f),
            _ => {}
        }
    }
}
fn each_osid(p: &mut Props, f: &mut dyn FnMut(&mut Cell)) {
    for (_, v) in p.iter_mut() {
        match v {
            Val::Osid(x) => f(x),
            Val::Osids(x) => x.iter_mut().for_each(&mut *f),
            Val::Sets(_, s) => s.iter_mut().for_each(|q| each_osid(q, f)),
            Val::Set(s) => each_osid(s, f),
            _ => {}
        }
    }
}
/// Make a reference lead to an object of a kind that can't be there.
fn wrong_kind(img: &mut FileImg) -> Option<String> {
    // kinds that may stand for each other
    fn class(jcid: u32) -> u32 {
        match jcid {
            0x60019 => 0x6000D,
            0x8003A => 0x80039,
            j => j,
        }
    }
    // the content of pages and paragraphs is open to kinds the reader doesn't know
    let open = |jcid: u32, p: u32| matches!((jcid, p & 0x03FF_FFFF), (0x6000B, 0x1C20) | (0x6000D, 0x1C1F));
    let mut kinds: std::collections::BTreeMap<(Cell, u32), u32> = Default::default();
    for e in &img.elems {
        if let El::Group { cell, objs } = &e.el {
            objs.iter().for_each(|o| drop(kinds.insert((*cell, o.oid), o.jcid)));
        }
    }
    let mut all = vec![];
    for (k, e) in img.elems.iter().enumerate() {
        match &e.el {
            El::Group { cell, objs } => {
                for (j, o) in objs.iter().enumerate() {
                    for (i, (p, v)) in o.props.iter().enumerate() {
                        let n = match v {
                            Val::Oid(_) => 1,
                            Val::Oids(x) => x.len(),
                            _ => 0,
                        };
                        if !open(o.jcid, *p) {
                            all.extend((0..n).map(|x| (k, *cell, j, i, x)));
                        }
                    }
                }
            }
            El::Rev { roots, groups, .. } => {
                let cell = img.elems.iter().find_map(|e| match &e.el {
                    El::Group { cell, .. } if groups.contains(&e.id) => Some(*cell),
                    _ => None,
                });
                if let Some(c) = cell {
                    all.extend((0..roots.len()).map(|x| (k, c, 0, 0, x)))
                }
            }
            _ => {}
        }
    }
    if all.is_empty() {
        return None;
    }
    let (k, cell, j, i, x) = all[choose(F, all.len())];
    let slot = match &mut img.elems[k].el {
        El::Group { objs, .. } => match &mut objs[j].props[i].1 {
            Val::Oid(o) => o,
            Val::Oids(o) => &mut o[x],
            _ => return None,
        },
        El::Rev { roots, .. } => match &mut roots[x].1 {
            Id::Oid(o) => o,
            _ => return None,
        },
        _ => return None,
    };
    let was = *kinds.get(&(cell, *slot))?;
    let other: Vec<_> = kinds.iter().filter(|(c, j)| c.0 == cell && class(**j) != class(was)).map(|(c, j)| (c.1, *j)).collect();
    if other.is_empty() {
        return None;
    }
    let (to, is) = other[choose(F, other.len())];
    let t = format!("a reference to object {} of kind {was:X} in {cell:?} leads to object {to} of kind {is:X}", *slot);
    *slot = to;
    ctx::count("fault.wrong_kind");
    Some(t)
}
/// Lose something the rest of the file may still refer to. None: nothing of the kind is there.
fn lose(img: &mut FileImg, log: &[String]) -> Option<String> {
    let pick = |v: &[usize]| if v.is_empty() { None } else { Some(v[choose(F, v.len())]) };
    let of = |img: &FileImg, f: &dyn Fn(&El) -> bool| -> Vec<usize> {
        img.elems.iter().enumerate().filter(|(_, e)| f(&e.el)).map(|x| x.0).collect()
    };
    let what = match choose(F, 16) {
        0 | 1 => {
            let k = choose(F, img.elems.len());
            let e = img.elems.remove(k);
            ctx::count("fault.lost_record");
            format!("{} {:?} lost", e.el.name(), e.id)
        }
        2 => {
            let k = pick(&of(img, &|e| matches!(e, El::Blob(_))))?;
            let e = img.elems.remove(k);
            ctx::count("fault.lost_payload");
            format!("payload {:?} lost", e.id)
        }
        3 => {
            let k = pick(&of(img, &|e| matches!(e, El::Rev { .. })))?;
            let e = img.elems.remove(k);
            ctx::count("fault.lost_revision");
            format!("revision {:?} lost", e.id)
        }
        4 => {
            let k = pick(&of(img, &|e| matches!(e, El::Group { .. })))?;
            let e = img.elems.remove(k);
            ctx::count("fault.lost_group");
            format!("object group {:?} lost", e.id)
        }
        5 => {
            // one object of a group, of which no other version is around
            let mut seen: std::collections::BTreeMap<(Cell, u32), Vec<(usize, usize)>> = Default::default();
            for (i, e) in img.elems.iter().enumerate() {
                if let El::Group { cell, objs } = &e.el {
                    for (k, o) in objs.iter().enumerate() {
                        seen.entry((*cell, o.oid)).or_default().push((i, k));
                    }
                }
            }
            let v: Vec<_> = seen.into_iter().filter(|x| x.1.len() == 1).collect();
            if v.is_empty() {
                return None;
            }
            let ((c, oid), at) = &v[choose(F, v.len())];
            if let El::Group { objs, .. } = &mut img.elems[at[0].0].el {
                objs.remove(at[0].1);
            }
            ctx::count("fault.lost_object");
            format!("object {oid} of {c:?} lost")
        }
        6 | 7 => {
            // an object reference that leads nowhere
            let gs = of(img, &|e| matches!(e, El::Group { .. }));
            let k = pick(&gs)?;
            let El::Group { objs, cell } = &mut img.elems[k].el else { return None };
            let mut n = 0;
            objs.iter_mut().for_each(|o| each_oid(&mut o.props, &mut |_| n += 1));
            if n == 0 {
                return None;
            }
            let at = choose(F, n);
            let to = 0x00F0_0000 + choose(F, 7) as u32;
            let mut i = 0;
            let mut was = 0;
            for o in objs.iter_mut() {
                each_oid(&mut o.props, &mut |x| {
                    if i == at {
                        was = *x;
                        *x = to;
                    }
                    i += 1;
                });
            }
            ctx::count("fault.unresolvable_object");
            format!("a reference to object {was} in {cell:?} leads nowhere")
        }
        8 => {
            let gs = of(img, &|e| matches!(e, El::Group { .. }));
            let mut all = vec![];
            for k in gs {
                if let El::Group { objs, .. } = &mut img.elems[k].el {
                    for (j, o) in objs.iter_mut().enumerate() {
                        let mut n = 0;
                        each_osid(&mut o.props, &mut |_| n += 1);
                        all.extend((0..n).map(|i| (k, j, i)));
                    }
                }
            }
            if all.is_empty() {
                return None;
            }
            let (k, j, at) = all[choose(F, all.len())];
            let El::Group { objs, .. } = &mut img.elems[k].el else { return None };
            let mut i = 0;
            let mut t = String::new();
            let (a, b) = (choose(F, 2) as u32, 0x00F1_0000 + choose(F, 5) as u32);
            each_osid(&mut objs[j].props, &mut |x| {
                if i == at {
                    t = format!("{x:?}");
                    *x = Cell { ctx: if a == 1 { 77 } else { x.ctx }, space: b };
                }
                i += 1;
            });
            ctx::count("fault.unresolvable_space");
            format!("a reference to {t} leads nowhere")
        }
        9 => {
            // an index entry
            let k = pick(&of(img, &|e| matches!(e, El::Index { .. })))?;
            let El::Index { cells, revs, .. } = &mut img.elems[k].el else { return None };
            ctx::count("fault.lost_index_entry");
            if choose(F, 2) == 0 && !cells.is_empty() {
                let i = choose(F, cells.len());
                format!("index entry of cell {:?} lost", cells.remove(i).0)
            } else if !revs.is_empty() {
                let i = choose(F, revs.len());
                format!("index entry of revision {:?} lost", revs.remove(i).0)
            } else {
                return None;
            }
        }
        10 => {
            // identifiers in the bookkeeping records
            let k = choose(F, img.elems.len());
            let to = Id::Bogus(500 + choose(F, 9) as u32);
            ctx::count("fault.unresolvable_record");
            match &mut img.elems[k].el {
                El::Index { cells, revs, manifests } => match choose(F, 3) {
                    0 if !cells.is_empty() => {
                        let i = choose(F, cells.len());
                        cells[i].1 = to;
                        cells[i].2 = 0x7000_0000 + choose(F, 99) as u32;
                    }
                    1 if !revs.is_empty() => {
                        let i = choose(F, revs.len());
                        revs[i].1 = to;
                        revs[i].2 = 0x7000_0000 + choose(F, 99) as u32;
                    }
                    _ if !manifests.is_empty() => manifests[0].0 = to,
                    _ => return None,
                },
                El::CellMan(r) => *r = to,
                El::Rev { base, groups, roots, .. } => match choose(F, 3) {
                    0 if *base != Id::Nil => *base = to,
                    1 if !groups.is_empty() => {
                        let i = choose(F, groups.len());
                        groups[i] = to
                    }
                    _ if !roots.is_empty() => {
                        let i = choose(F, roots.len());
                        roots[i].1 = Id::Oid(0x00F2_0000)
                    }
                    _ => return None,
                },
                El::Group { objs, .. } => {
                    let v: Vec<usize> = (0..objs.len()).filter(|i| objs[*i].blob.is_some()).collect();
                    let i = pick(&v)?;
                    if let Some(b) = &mut objs[i].blob {
                        b.0 = 0x00F3_0000;
                    }
                }
                _ => return None,
            }
            format!("an identifier in {} {:?} leads nowhere", img.elems[k].el.name(), img.elems[k].id)
        }
        // half of what a group has of an object. Only one: two of them could match each other
        13 | 14 if log.iter().any(|l| l.contains("of object")) => return None,
        13 | 14 => {
            let gs = of(img, &|e| matches!(e, El::Group { .. }));
            let k = pick(&gs)?;
            let El::Group { objs, cell } = &mut img.elems[k].el else { return None };
            if objs.is_empty() {
                return None;
            }
            let with: Vec<usize> = (0..objs.len()).filter(|i| objs[*i].blob.is_some()).collect();
            let (i, q) = if with.is_empty() || choose(F, 3) == 0 {
                (choose(F, objs.len()), [1u8, 2, 3, 4, 7, 9, 10][choose(F, 7)])
            } else {
                (with[choose(F, with.len())], [8u8, 11][choose(F, 2)])
            };
            objs[i].quirk = q;
            ctx::count("fault.lost_object_part");
            let part = match q {
                1 => "all metadata",
                2 => "all data",
                3 => "data (excluded)",
                4 => "data",
                7 => "metadata declaration",
                8 => "payload declaration",
                9 => "data declaration",
                10 => "metadata",
                _ => "payload reference",
            };
            format!("{part} of object {} of {cell:?} lost", objs[i].oid)
        }
        // only one: another one could make the same reference lead to a valid place again
        11 | 12 if log.iter().any(|l| l.contains("of kind")) => return None,
        11 | 12 => wrong_kind(img)?,
        _ => {
            // everything of one kind
            let m = choose(F, 5);
            let keep = choose(F, 3) == 0;
            let mut first = true;
            let before = img.elems.len();
            img.elems.retain(|e| {
                let hit = match m {
                    0 => matches!(e.el, El::Blob(_)),
                    1 => matches!(e.el, El::CellMan(_)),
                    2 => matches!(e.el, El::Rev { .. }),
                    3 => matches!(e.el, El::Group { .. }),
                    _ => e.serial % 3 == 0,
                };
                if hit && keep && first {
                    first = false;
                    return true;
                }
                !hit
            });
            if before == img.elems.len() || img.elems.is_empty() {
                return None;
            }
            ctx::count("fault.lost_many_records");
            format!("{} records lost (kind {m})", before - img.elems.len())
        }
    };
    ctx::trace(|| format!("  [loss] {what}"));
    Some(what)
}
fn intact_or_error(want: &str, got: &Got, log: &[String]) -> Result<(), Violation> {
    ctx::ctx().evals += 1;
    match got {
        Got::Err(_) => {
            ctx::count("losses_reported");
            Ok(())
        }
        Got::Doc(d) if d == want => {
            ctx::count("losses_harmless");
            Ok(())
        }
        Got::Doc(d) => {
            let (c, t) = difference(want, d);
            let k = strip_digits(log.last().map(|s| s.as_str()).unwrap_or(""));
            fail(format!("silently different after a loss: {c} [{k}]"), format!("{}: {t}", log.join(" + ")))
        }
        Got::Panic(p) => fail(format!("panic at {}", site(p)), format!("{}: {p}", log.join(" + "))),
    }
}
pub fn c18() -> Result<(), Violation> {
    if choose(D, 5) == 4 {
        return loss_in_notebook();
    }
    let mut g = swarm(["", "C07", "C06", "C09"][choose(D, 4)], [3, 8, 16, 30][choose(D, 4)]);
    bulky(&mut g, 80, 300);
    let cfg = HistCfg { pages: 1 + choose(D, 3), steps: choose(D, 6), versions: choose(D, 3) == 2, crashes: choose(D, 4) == 3, stale: choose(D, 4) == 3 };
    let h = run_history(&mut g, &cfg);
    let img = h.store.image();
    let mut want = String::new();
    dump_section(&h.doc, "s.one", 0, &mut want);
    note_state(want.as_bytes(), format!("{} records: {}", img.elems.len(), h.log.join("; ")));
    let n = if ctx::ctx().tier_thorough { 24 } else { 10 };
    for _ in 0..n {
        let mut i = img.clone();
        let k = [1, 1, 1, 2, 3, 6][choose(F, 6)];
        let mut log = vec![];
        for _ in 0..k {
            if i.elems.len() > 1 && let Some(l) = lose(&mut i, &log) {
                log.push(l);
            }
        }
        if log.is_empty() {
            continue;
        }
        let b = encode(&i, &mut Lay::new(seed()), false).bytes;
        let r = if choose(S, 3) == 2 {
            put("/w/s.one", b);
            fresh();
            read_section(hseed(), "/w/s.one")
        } else {
            read_buffer(hseed(), &b, "s.one")
        };
        intact_or_error(&want, &r, &log)?;
    }
    Ok(())
}
fn loss_in_notebook() -> Result<(), Violation> {
    let mut g = swarm("", 3);
    let n = nb::notebook(&mut g, choose(D, 2));
    let files = n.write("/w/nb");
    let path = format!("/w/nb/{}", n.toc_name);
    let want = n.dump();
    note_state(want.as_bytes(), format!("notebook of {} files", files.len()));
    let mut all: Vec<(String, FileImg, bool)> = vec![];
    fn walk(dir: &str, n: &Nb, out: &mut Vec<(String, FileImg, bool)>) {
        out.push((format!("{dir}/{}", n.toc_name), n.store.image(), true));
        for (name, i) in &n.files {
            match i {
                Item::Section(h) => out.push((n.place(dir, name), h.store.image(), false)),
                Item::Group(x) => walk(&n.place(dir, name), x, out),
            }
        }
    }
    walk("/w/nb", &n, &mut all);
    for _ in 0..8 {
        let (p, img, toc) = &all[choose(F, all.len())];
        let mut i = img.clone();
        let mut log = vec![];
        for _ in 0..1 + choose(F, 2) {
            if i.elems.len() > 1 && let Some(l) = lose(&mut i, &log) {
                log.push(format!("{} in {p}", l));
            }
        }
        if log.is_empty() {
            continue;
        }
        let old = files.iter().find(|f| f.path == *p).unwrap().bytes.clone();
        put(p, encode(&i, &mut Lay::new(seed()), *toc).bytes);
        vfs().fresh(Plan { dir_seed: choose(S, 1 << 12) as u64, ..Plan::default() });
        let r = read_notebook(hseed(), &path);
        vfs().put_file(p, old);
        intact_or_error(&want, &r, &log)?;
    }
    Ok(())
}
