//! Damage: semantic corruption of the record image and storage faults on the bytes.
//! Every decision is drawn from the fault stream.

use crate::ctx::{self, choose};
use crate::ctx::F;
use crate::model::{Cell, ObjRec, Props, SPECS, UNKNOWN_JCIDS, Val};
use crate::write::*;
use std::sync::Arc;

fn note(log: &mut Vec<String>, kind: &str, detail: String) {
    ctx::count(&format!("fault.{kind}"));
    ctx::trace(|| format!("  [damage] {kind}: {detail}"));
    log.push(kind.to_string());
}
const EVIL32: &[u32] = &[
    0, 1, 2, 3, 7, 8, 16, 31, 32, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x1_0000, 0xFF_FFFF, 0x100_0000, 0x7FFF_FFFF,
    0x8000_0000, 0x8000_0001, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 1000, 65000,
];
pub fn evil32() -> u32 {
    let k = choose(F, EVIL32.len() + 4);
    if k < EVIL32.len() { EVIL32[k] } else { (choose(F, 1 << 16) as u32) << 16 | choose(F, 1 << 16) as u32 }
}
pub fn evil_bytes() -> Vec<u8> {
    match choose(F, 8) {
        0 => vec![],
        1 => vec![0],
        2 => vec![0xFF; 1 + choose(F, 9)],
        3 => vec![0, 0xD8, 0x41, 0],
        4 => vec![0x41, 0, 0],
        5 => (0..choose(F, 40)).map(|_| choose(F, 256) as u8).collect(),
        6 => vec![0; choose(F, 70)],
        _ => {
            let mut v = (choose(F, 300) as u32).to_le_bytes().to_vec();
            v.extend((0..choose(F, 20)).map(|_| choose(F, 256) as u8));
            v
        }
    }
}
/// Every (record, object) of the image.
fn objects(img: &FileImg) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, e) in img.elems.iter().enumerate() {
        if let El::Group { objs, .. } = &e.el {
            v.extend((0..objs.len()).map(|k| (i, k)));
        }
    }
    v
}
fn obj(img: &mut FileImg, at: (usize, usize)) -> &mut ObjRec {
    match &mut img.elems[at.0].el {
        El::Group { objs, .. } => &mut objs[at.1],
        _ => unreachable!(),
    }
}
fn refs(p: &Props, out: &mut Vec<u32>) {
    for (_, v) in p {
        match v {
            Val::Oid(x) => out.push(*x),
            Val::Oids(x) => out.extend(x),
            Val::Sets(_, s) => s.iter().for_each(|q| refs(q, out)),
            Val::Set(s) => refs(s, out),
            _ => {}
        }
    }
}
/// A pointer to each property value, nested ones included.
fn slots<'a>(p: &'a mut Props, out: &mut Vec<*mut (u32, Val)>) {
    for x in p.iter_mut() {
        out.push(x as *mut _);
        match &mut x.1 {
            Val::Sets(_, s) => s.iter_mut().for_each(|q| slots(q, out)),
            Val::Set(s) => slots(s, out),
            _ => {}
        }
    }
}
fn pick_slot(p: &mut Props, want: impl Fn(&Val) -> bool) -> Option<&mut (u32, Val)> {
    let mut v = vec![];
    slots(p, &mut v);
    // SAFETY: pointers into `p`, only one becomes a reference
    v.retain(|x| want(unsafe { &(**x).1 }));
    if v.is_empty() {
        return None;
    }
    let k = choose(F, v.len());
    Some(unsafe { &mut *v[k] })
}
fn any_jcid() -> u32 {
    let k = choose(F, SPECS.len() + 6);
    match k.checked_sub(SPECS.len()) {
        None => SPECS[k].jcid,
        Some(0) => 0x60037,
        Some(1) => 0x20031,
        Some(2) => 0x20030,
        Some(3) => 0x60007,
        Some(4) => 0x60008,
        _ => UNKNOWN_JCIDS[choose(F, UNKNOWN_JCIDS.len())],
    }
}
fn deep() -> Val {
    let n = [60, 63, 64, 65, 66, 200, 3000, 30_000, 120_000];
    Val::Deep(n[choose(F, n.len())], choose(F, 2) == 1)
}
fn any_val(oids: &[u32]) -> Val {
    let o = || oids.get(choose(F, oids.len().max(1))).copied().unwrap_or(7);
    match choose(F, 14) {
        0 => Val::Empty,
        1 => Val::Bool(choose(F, 2) == 1),
        2 => Val::U8(evil32() as u8),
        3 => Val::U16(evil32() as u16),
        4 => Val::U32(evil32()),
        5 => Val::U64((evil32() as u64) << 32 | evil32() as u64),
        6 | 7 => Val::Vec(evil_bytes()),
        8 => Val::Oid(o()),
        9 => Val::Oids((0..choose(F, 5)).map(|_| o()).collect()),
        10 => Val::Osids((0..choose(F, 3)).map(|k| Cell { ctx: 0, space: 1 + k as u32 }).collect()),
        11 => Val::Sets(0x4400_0000 | 0x34D4, (0..choose(F, 3)).map(|_| vec![(0x1400_1234, Val::U32(evil32()))]).collect()),
        12 => deep(),
        _ => Val::Osid(Cell { ctx: 0, space: evil32() }),
    }
}

/// One semantic corruption of the image.
pub fn semantic_one(img: &mut FileImg, log: &mut Vec<String>) {
    let all = objects(img);
    if all.is_empty() {
        return;
    }
    let oids: Vec<u32> = all.iter().map(|&a| obj(img, a).oid).collect();
    let at = all[choose(F, all.len())];
    let any = |oids: &[u32]| oids[choose(F, oids.len())];
    match choose(F, 22) {
        0..=2 => {
            // redirect a reference
            let me = obj(img, at).oid;
            let how = choose(F, 5);
            let mut parent = None;
            for &a in &all {
                let mut r = vec![];
                refs(&obj(img, a).props, &mut r);
                if r.contains(&me) {
                    parent = Some(obj(img, a).oid);
                    break;
                }
            }
            let to = match how {
                0 => any(&oids),
                1 => me,
                2 => parent.unwrap_or(me),
                3 => 0x7000_0000 + choose(F, 3) as u32,
                _ => any(&oids),
            };
            if let Some((id, v)) = pick_slot(&mut obj(img, at).props, |v| matches!(v, Val::Oid(_) | Val::Oids(_))) {
                let d = format!("object {me} property {id:08X} -> object {to}");
                match v {
                    Val::Oid(x) => *x = to,
                    Val::Oids(x) => {
                        let i = choose(F, x.len() + 1);
                        if i < x.len() {
                            x[i] = to
                        } else {
                            for _ in 0..1 + choose(F, 3) {
                                x.push(to)
                            }
                        }
                    }
                    _ => {}
                }
                note(log, "redirected_reference", d);
            }
        }
        3 => {
            let o = obj(img, at);
            let me = o.oid;
            if !o.props.is_empty() {
                let i = choose(F, o.props.len());
                let (id, _) = o.props.remove(i);
                note(log, "lost_property", format!("object {me} property {id:08X}"));
            }
        }
        4 => {
            let o = obj(img, at);
            let me = o.oid;
            if !o.props.is_empty() {
                let mut p = o.props[choose(F, o.props.len())].clone();
                if choose(F, 2) == 1 {
                    p.1 = any_val(&oids);
                }
                note(log, "duplicated_property", format!("object {me} property {:08X}", p.0));
                o.props.push(p);
            }
        }
        5..=7 => {
            let o = obj(img, at);
            let me = o.oid;
            if let Some((id, v)) = pick_slot(&mut o.props, |_| true) {
                *v = any_val(&oids);
                let d = format!("object {me} property {id:08X} = {v:?}");
                note(log, "wrong_property_type", d);
            }
        }
        8..=10 => {
            let o = obj(img, at);
            let me = o.oid;
            if let Some((id, v)) =
                pick_slot(&mut o.props, |v| matches!(v, Val::U8(_) | Val::U16(_) | Val::U32(_) | Val::U64(_) | Val::Vec(_)))
            {
                match v {
                    Val::U8(x) => *x = evil32() as u8,
                    Val::U16(x) => *x = evil32() as u16,
                    Val::U32(x) => *x = evil32(),
                    Val::U64(x) => *x = (evil32() as u64) << 32 | evil32() as u64,
                    Val::Vec(x) => match choose(F, 5) {
                        0 => *x = evil_bytes(),
                        1 => {
                            let n = choose(F, x.len() + 1);
                            x.truncate(n)
                        }
                        2 => x.extend(evil_bytes()),
                        3 => {
                            if !x.is_empty() {
                                let i = choose(F, x.len());
                                x[i] = evil32() as u8;
                            }
                        }
                        _ => {
                            // a single byte of a counted structure
                            if !x.is_empty() {
                                x[0] = evil32() as u8;
                            }
                        }
                    },
                    _ => {}
                }
                note(log, "corrupt_value", format!("object {me} property {id:08X} = {v:?}"));
            }
        }
        11 => {
            let o = obj(img, at);
            let me = o.oid;
            if let Some((id, v)) = pick_slot(&mut o.props, |v| matches!(v, Val::Vec(_) | Val::Oids(_) | Val::Sets(..))) {
                let n = evil32();
                *v = match std::mem::replace(v, Val::Empty) {
                    Val::Vec(x) => Val::VecLie(n, x),
                    Val::Oids(x) => Val::OidsLie(n, x),
                    Val::Sets(p, x) => Val::SetsLie(n, p, x),
                    x => x,
                };
                note(log, "lying_count", format!("object {me} property {id:08X} claims {n}"));
            }
        }
        12 => {
            let j = if choose(F, 6) == 5 { evil32() } else { any_jcid() };
            let o = obj(img, at);
            note(log, "wrong_object_type", format!("object {} {:08X} -> {j:08X}", o.oid, o.jcid));
            obj(img, at).jcid = j;
        }
        13 => {
            let q = 1 + choose(F, 9) as u8;
            let o = obj(img, at);
            o.quirk = q;
            note(log, "malformed_object", format!("object {} quirk {q}", o.oid));
        }
        14 => {
            if let El::Group { objs, .. } = &mut img.elems[at.0].el {
                let o = objs.remove(at.1);
                note(log, "lost_object", format!("object {}", o.oid));
            }
        }
        15 => {
            let mut o = obj(img, at).clone();
            if choose(F, 2) == 1 {
                o.jcid = any_jcid();
            }
            if choose(F, 3) == 2 {
                o.oid = any(&oids);
            }
            let to = all[choose(F, all.len())].0;
            note(log, "duplicated_object", format!("object {} in another group", o.oid));
            if let El::Group { objs, .. } = &mut img.elems[to].el {
                objs.push(o);
            }
        }
        16 => {
            // sharing: a chain of objects that each list the next one several times
            let n = 3 + choose(F, 60);
            let k = 2 + choose(F, 4);
            let fitting: Vec<_> = all.iter().copied().filter(|&a| obj(img, a).oid != crate::doc::HDR_OID && matches!(obj(img, a).jcid & 0xFFFFF, 0x6000C | 0x6000D | 0x60019 | 0x20001)).collect();
            if fitting.is_empty() {
                return structure_one(img, log);
            }
            let at = fitting[choose(F, fitting.len())];
            let toc = obj(img, at).jcid & 0xFFFFF == 0x20001;
            // (a second chain has identifiers of its own)
            let base = 0x5000_0000 + 0x1000 * all.iter().filter(|&&a| obj(img, a).oid >= 0x5000_0000).count() as u32;
            // an end that is fine by itself lets all of the ways to it be walked
            let leaf = if choose(F, 3) == 0 { Some(any(&oids)) } else { None };
            let some = choose(F, 2) == 0;
            let shape = if toc { 3 } else { choose(F, 3) };
            let mut rec = |oid: u32, jcid: u32, slot: u32, to: Vec<u32>, more: Props| {
                let mut props: Props = vec![(slot, Val::Oids(to))];
                props.extend(more);
                if let El::Group { objs, .. } = &mut img.elems[at.0].el {
                    objs.push(ObjRec { oid, jcid, props, blob: None, quirk: 0 });
                }
            };
            for i in 0..n {
                let me = base + 4 * i as u32;
                let next = if i + 1 == n { leaf } else { Some(me + 4) };
                let many = next.map(|t| vec![t; k]).unwrap_or_default();
                let level = (0x0C001C03, Val::U8(1));
                // any object does as the author
                let made = vec![(0x14001D09, Val::U32(1)), (0x20001D78, Val::Oid(me)), (0x20001D79, Val::Oid(me)), level.clone()];
                let edited = (0x14001D7A, Val::U32(1));
                match shape {
                    3 => rec(me, 0x20001, 0x24001CF6, many, vec![]),
                    0 => rec(me, 0x60019, 0x24001C20, many, vec![level, edited]),
                    1 => rec(me, 0x6000D, 0x24001C20, many, [made, vec![edited]].concat()),
                    _ => {
                        // an element with a table whose cell has the next element
                        rec(me, 0x6000D, 0x24001C1F, vec![me + 1], [made, vec![edited.clone()]].concat());
                        rec(me + 1, 0x60022, 0x24001C20, vec![me + 2], vec![edited, (0x14001D57, Val::U32(1)), (0x14001D58, Val::U32(1))]);
                        rec(me + 2, 0x60023, 0x24001C20, vec![me + 3], vec![]);
                        rec(me + 3, 0x60024, 0x24001C20, many, vec![(0x1C001C12, Val::Vec(vec![0; 4]))]);
                    }
                }
            }
            let home = match &img.elems[at.0].el {
                El::Group { cell, .. } => Some(*cell),
                _ => None,
            };
            for &a in &all {
                let here = matches!(&img.elems[a.0].el, El::Group { cell, .. } if Some(*cell) == home);
                let o = obj(img, a);
                let fits = here && matches!(o.jcid & 0xFFFFF, 0x6000C | 0x6000D | 0x60019 | 0x20001);
                let list = if toc { 0x24001CF6 } else { 0x24001C20 };
                if o.oid < base
                    && (fits || !some)
                    && let Some((_, Val::Oids(x))) = o.props.iter_mut().find(|p| p.0 == list)
                {
                    x.push(base);
                }
            }
            note(log, "shared_substructure", format!("{n} levels, {k} references each"));
        }
        _ => structure_one(img, log),
    }
}
fn any_id(img: &FileImg) -> Id {
    let e = &img.elems[choose(F, img.elems.len())];
    match choose(F, 5) {
        0 => Id::Nil,
        1 => Id::Bogus(choose(F, 9) as u32),
        2 => match &e.el {
            El::Rev { rid, .. } => *rid,
            _ => e.id,
        },
        _ => e.id,
    }
}
fn any_oid(img: &mut FileImg) -> Id {
    let all = objects(img);
    if all.is_empty() || choose(F, 5) == 4 {
        return Id::Nil;
    }
    Id::Oid(obj(img, all[choose(F, all.len())]).oid)
}
/// Corruption of the records above objects.
pub fn structure_one(img: &mut FileImg, log: &mut Vec<String>) {
    let k = choose(F, img.elems.len());
    // prefer revision manifests and indexes
    let k = match choose(F, 3) {
        0 => k,
        m => {
            let v: Vec<usize> = img
                .elems
                .iter()
                .enumerate()
                .filter(|(_, e)| {
                    if m == 1 { matches!(e.el, El::Rev { .. }) } else { matches!(e.el, El::Index { .. } | El::Manifest { .. } | El::CellMan(_)) }
                })
                .map(|x| x.0)
                .collect();
            if v.is_empty() { k } else { v[choose(F, v.len())] }
        }
    };
    let id = any_id(img);
    let oid = any_oid(img);
    let what = choose(F, 6);
    let name = img.elems[k].el.name();
    match what {
        4 => {
            let e = img.elems.remove(k);
            note(log, "lost_record", format!("{name} {:?}", e.id));
            return;
        }
        5 => {
            let mut e = img.elems[k].clone();
            if choose(F, 2) == 1 {
                e.id = id;
            } else if let Some(d) = img.elems.get(choose(F, img.elems.len())) {
                e.el = d.el.clone();
            }
            note(log, "duplicated_record", format!("{name} as {:?}", e.id));
            let at = choose(F, img.elems.len() + 1);
            img.elems.insert(at, e);
            return;
        }
        _ => {}
    }
    match &mut img.elems[k].el {
        El::Index { manifests, cells, revs } => match choose(F, 7) {
            0 if !cells.is_empty() => {
                let i = choose(F, cells.len());
                cells[i].1 = id
            }
            1 if !cells.is_empty() => {
                let i = choose(F, cells.len());
                cells.remove(i);
            }
            2 if !revs.is_empty() => {
                let i = choose(F, revs.len());
                revs[i].1 = id
            }
            3 if !revs.is_empty() => {
                let i = choose(F, revs.len());
                revs.remove(i);
            }
            4 => manifests.push((id, 9)),
            5 if !cells.is_empty() => {
                let c = cells[choose(F, cells.len())];
                cells.push((c.0, id, evil32()));
            }
            _ => revs.push((id, any_id_like(id), evil32())),
        },
        El::Manifest { schema, roots } => match choose(F, 4) {
            0 => schema[choose(F, 16)] ^= 1 << choose(F, 8),
            1 if !roots.is_empty() => {
                let i = choose(F, roots.len());
                roots.remove(i);
            }
            2 if roots.len() > 1 => {
                let c = roots[0].1;
                roots[0].1 = roots[1].1;
                roots[1].1 = c;
            }
            _ => {
                if let Some(r) = roots.last_mut() {
                    r.1 = (Id::Ctx(choose(F, 3) as u32), Id::Space(choose(F, 4) as u32));
                }
            }
        },
        El::CellMan(r) => *r = id,
        El::Rev { rid, base, roots, groups } => match choose(F, 9) {
            0 => *base = id,
            1 => *base = *rid,
            2 => *rid = id,
            3 => groups.push(id),
            4 if !groups.is_empty() => {
                let i = choose(F, groups.len());
                groups[i] = id
            }
            5 if !groups.is_empty() => {
                let i = choose(F, groups.len());
                groups.remove(i);
            }
            6 if !roots.is_empty() => {
                let i = choose(F, roots.len());
                roots[i].1 = oid
            }
            7 if !roots.is_empty() => {
                let i = choose(F, roots.len());
                if choose(F, 2) == 1 { roots[i].0 = Id::Role(choose(F, 5) as u32) } else { drop(roots.remove(i)) }
            }
            _ => {
                let g = groups.clone();
                groups.extend(g);
            }
        },
        El::Group { cell, objs } => match choose(F, 3) {
            0 => *cell = Cell { ctx: choose(F, 3) as u32, space: choose(F, 200) as u32 },
            1 => objs.reverse(),
            _ => {
                let d = objs.clone();
                objs.extend(d)
            }
        },
        El::Blob(b) => *b = Arc::new(evil_bytes()),
        El::Frag(b) => *b = evil_bytes(),
    }
    note(log, "corrupt_record", format!("{name} {:?}", img.elems[k].id));
}
fn any_id_like(id: Id) -> Id {
    match choose(F, 3) {
        0 => id,
        1 => Id::Nil,
        _ => Id::Bogus(3),
    }
}
/// Make base revisions, cell manifests and mappings lead in circles.
pub fn cycle_revisions(img: &mut FileImg, log: &mut Vec<String>) {
    let revs: Vec<usize> = (0..img.elems.len()).filter(|i| matches!(img.elems[*i].el, El::Rev { .. })).collect();
    if revs.is_empty() {
        return;
    }
    let a = revs[choose(F, revs.len())];
    let b = revs[choose(F, revs.len())];
    let to = match &img.elems[b].el {
        El::Rev { rid, .. } => [*rid, img.elems[b].id][choose(F, 2)],
        _ => return,
    };
    if let El::Rev { base, .. } = &mut img.elems[a].el {
        *base = to;
    }
    note(log, "revision_cycle", format!("base of {:?} -> {to:?}", img.elems[a].id));
}

const EVIL_SEQ: &[&[u8]] = &[
    &[0xFF, 0xFF, 0xFF, 0xFF],
    &[0xFF; 8],
    &[0x80, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F],
    &[0x80, 0, 0, 0, 0, 1, 0, 0, 0],
    &[0, 0, 0, 0x80],
    &[0xFF, 0xFF, 0xFF, 0x7F],
    &[0],
    &[0xFE, 0xFF],
    &[0, 0],
    &[1, 0, 0, 0],
];
/// One storage fault on the bytes of a file. `old` are earlier contents of the same file.
pub fn bytes_one(b: &mut Vec<u8>, spans: &[(usize, usize)], old: &[Arc<Vec<u8>>], log: &mut Vec<String>) {
    if b.is_empty() {
        return;
    }
    let n = b.len();
    let sect = [512, 64, 16, 4096, 128][choose(F, 5)];
    // small faults spread evenly over records rather than bytes
    let spot = |n: usize| -> usize {
        if choose(F, 2) == 1 && !spans.is_empty() {
            let s = spans[choose(F, spans.len())];
            if s.1 > s.0 && s.1 <= n {
                return s.0 + choose(F, s.1 - s.0);
            }
        }
        choose(F, n)
    };
    match choose(F, 15) {
        0 | 1 => {
            let i = spot(n);
            let k = choose(F, 8);
            b[i] ^= 1 << k;
            note(log, "bit_flip", format!("byte {i} bit {k}"));
        }
        2 | 3 => {
            let i = spot(n);
            b[i] = evil32() as u8;
            note(log, "byte_changed", format!("byte {i} = {}", b[i]));
        }
        4 | 5 => {
            let s = EVIL_SEQ[choose(F, EVIL_SEQ.len())];
            let i = spot(n);
            for (k, x) in s.iter().enumerate() {
                if i + k < n {
                    b[i + k] = *x;
                }
            }
            note(log, "overwritten_field", format!("{} bytes at {i}", s.len()));
        }
        6 => {
            let i = choose(F, n.div_ceil(sect)) * sect;
            let e = (i + sect).min(n);
            let v = if choose(F, 4) == 3 { 0xFF } else { 0 };
            b[i..e].fill(v);
            note(log, "zeroed_sector", format!("{i}..{e}"));
        }
        7 => {
            if let Some(o) = old.get(choose(F, old.len().max(1))) {
                let i = choose(F, n.div_ceil(sect)) * sect;
                let e = (i + sect).min(n).min(o.len());
                if i < e {
                    b[i..e].copy_from_slice(&o[i..e]);
                    note(log, "stale_sector", format!("{i}..{e}"));
                }
            }
        }
        8 => {
            let k = n / sect;
            if k >= 2 {
                let i = choose(F, k) * sect;
                let j = choose(F, k) * sect;
                let t: Vec<u8> = b[i..i + sect].to_vec();
                b.copy_within(j..j + sect, i);
                if choose(F, 2) == 1 {
                    b[j..j + sect].copy_from_slice(&t);
                }
                note(log, "misplaced_sector", format!("{j} written to {i}"));
            }
        }
        9 => {
            let k = spot(n);
            b.truncate(k);
            note(log, "truncated", format!("at {k}"));
        }
        10 => {
            let i = spot(n);
            let e = (i + 1 + choose(F, sect)).min(n);
            b.drain(i..e);
            note(log, "lost_bytes", format!("{i}..{e}"));
        }
        11 => {
            let i = spot(n);
            let len = 1 + choose(F, sect);
            let v: Vec<u8> = if choose(F, 2) == 1 { vec![evil32() as u8; len] } else { b[i..(i + len).min(n)].to_vec() };
            note(log, "inserted_bytes", format!("{} at {i}", v.len()));
            b.splice(i..i, v);
        }
        12 => {
            // one record written twice or lost in place
            if !spans.is_empty() {
                let s = spans[choose(F, spans.len())];
                let t = spans[choose(F, spans.len())];
                if s.1 <= n && t.1 <= n {
                    let v = b[s.0..s.1].to_vec();
                    if choose(F, 2) == 1 {
                        b.splice(t.0..t.0, v);
                        note(log, "duplicated_record", format!("bytes {}..{}", s.0, s.1));
                    } else {
                        b.drain(s.0..s.1);
                        note(log, "lost_record", format!("bytes {}..{}", s.0, s.1));
                    }
                }
            }
        }
        13 => {
            let i = spot(n);
            let k = 1 + choose(F, 8);
            for x in b.iter_mut().skip(i).take(k) {
                *x = choose(F, 256) as u8;
            }
            note(log, "garbled_bytes", format!("{k} at {i}"));
        }
        _ => {
            let i = spot(n);
            let x = evil32();
            for (k, y) in x.to_le_bytes().iter().enumerate() {
                if i + k < n {
                    b[i + k] = *y;
                }
            }
            note(log, "overwritten_field", format!("{x:08X} at {i}"));
        }
    }
}
