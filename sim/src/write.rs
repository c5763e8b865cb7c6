//! Encoder: a logical file image (records with logical ids) to bytes. All physical freedom the
//! format leaves (widths, orders, identifiers, packaging) comes from one layout seed; 0 = canonical.

use crate::ctx::{Rng, mix};
use crate::model::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Id {
    Nil,
    Oid(u32),
    Ctx(u32),
    Space(u32),
    El(u32),
    Rid(u32),
    HeaderRoot,
    DataRoot,
    Role(u32),
    Bogus(u32),
}
pub type CellRef = (Id, Id);
pub fn cref(c: Cell) -> CellRef {
    (Id::Ctx(c.ctx), Id::Space(c.space))
}

#[derive(Clone, Debug)]
pub enum El {
    Index { manifests: Vec<(Id, u32)>, cells: Vec<(CellRef, Id, u32)>, revs: Vec<(Id, Id, u32)> },
    Manifest { schema: [u8; 16], roots: Vec<(Id, CellRef)> },
    CellMan(Id),
    Rev { rid: Id, base: Id, roots: Vec<(Id, Id)>, groups: Vec<Id> },
    Group { cell: Cell, objs: Vec<ObjRec> },
    Blob(Arc<Vec<u8>>),
    Frag(Vec<u8>),
}
impl El {
    pub fn name(&self) -> &'static str {
        match self {
            El::Index { .. } => "storage index",
            El::Manifest { .. } => "storage manifest",
            El::CellMan(_) => "cell manifest",
            El::Rev { .. } => "revision manifest",
            El::Group { .. } => "object group",
            El::Blob(_) => "data blob",
            El::Frag(_) => "fragment",
        }
    }
}
#[derive(Clone, Debug)]
pub struct Elem {
    pub id: Id,
    pub serial: u32,
    pub el: El,
}
#[derive(Clone, Debug)]
pub struct FileImg {
    pub elems: Vec<Elem>,
    pub index: Id,
}
pub struct Encoded {
    pub bytes: Vec<u8>,
    /// byte range of every record, in file order
    pub spans: Vec<(usize, usize)>,
    pub package_start: usize,
}

pub fn guid(s: &str) -> [u8; 16] {
    let h: Vec<u8> = s.bytes().filter(|b| *b != b'-').collect();
    let b: Vec<u8> = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    [b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]]
}
pub const SCHEMA_TOC: &str = "E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F";
pub const SCHEMA_ONE: &str = "1F937CB4-B26F-445F-B9F8-17E20160E461";
pub const FMT_PACKAGE: &str = "638DE92F-A6D4-4BC1-9A36-B3FC2511A5B7";
pub const FMT_REVSTORE: &str = "109ADD3F-911B-49F5-A5D0-1791EDC8AED8";

#[derive(Clone, Debug)]
pub struct Lay {
    pub seed: u64,
    pub rng: Rng,
    /// 0 package format, 1 revision store with legacy version, 2 revision store header
    pub packaging: u8,
    pub cid: u8,
    pub ids: u8,
    pub width: u8,
    pub shuffle_props: bool,
    pub shuffle_elems: bool,
    pub hdr: u8,
    pub part_order: u8,
    pub tail: usize,
    pub pad: usize,
    pub osid_stream: u8,
    pub meta_blocks: bool,
    pub nil_serials: bool,
    /// null references among children and in place of absent ones
    pub nil_refs: bool,
    /// whether null references are listed with the referenced objects
    pub nil_listed: bool,
}
impl Lay {
    pub fn new(seed: u64) -> Lay {
        let mut r = Rng::new(seed ^ 0x1A70);
        if seed == 0 {
            return Lay {
                seed,
                rng: r,
                packaging: 0,
                cid: 0,
                ids: 0,
                width: 0,
                shuffle_props: false,
                shuffle_elems: false,
                hdr: 0,
                part_order: 0,
                tail: 0,
                pad: 0,
                osid_stream: 0,
                meta_blocks: false,
                nil_serials: false,
                nil_refs: false,
                nil_listed: false,
            };
        }
        Lay {
            seed,
            packaging: r.below(3) as u8,
            cid: r.below(6) as u8,
            ids: r.below(4) as u8,
            width: r.below(3) as u8,
            shuffle_props: r.chance(2, 3),
            shuffle_elems: r.chance(2, 3),
            hdr: r.below(3) as u8,
            part_order: r.below(4) as u8,
            tail: if r.chance(1, 3) { 1 + r.below(40) } else { 0 },
            pad: r.below(4) * r.below(50),
            osid_stream: r.below(2) as u8,
            meta_blocks: META_BLOCKS && r.chance(1, 3),
            nil_serials: r.chance(1, 8),
            nil_refs: r.chance(1, 5),
            nil_listed: r.chance(1, 2),
            rng: r,
        }
    }
}
/// The null reference.
pub const NIL: u32 = 0;
pub const META_BLOCKS: bool = true;

pub struct W<'a> {
    pub b: Vec<u8>,
    pub lay: &'a mut Lay,
}
impl W<'_> {
    fn u8(&mut self, v: u8) {
        self.b.push(v)
    }
    fn u32(&mut self, v: u32) {
        self.b.extend_from_slice(&v.to_le_bytes())
    }
    fn u64(&mut self, v: u64) {
        self.b.extend_from_slice(&v.to_le_bytes())
    }
    fn slot(&mut self, min: usize, max: usize) -> usize {
        match self.lay.width {
            0 => min,
            1 => max.min(min + self.lay.rng.below(2)),
            _ => min + self.lay.rng.below(max - min + 1),
        }
    }
    fn cu64(&mut self, v: u64) {
        // forms 0..=8: zero, 7, 14, 21, 28, 35, 42, 49 bits, full
        let bits = 64 - v.leading_zeros() as usize;
        let min = if v == 0 { 0 } else if bits > 49 { 8 } else { bits.div_ceil(7) };
        let f = self.slot(min, 8);
        match f {
            0 => self.u8(0),
            8 => {
                self.u8(0x80);
                self.u64(v);
            }
            k => {
                let x = (v << k) | 1 << (k - 1);
                self.b.extend_from_slice(&x.to_le_bytes()[..k]);
            }
        }
    }
    pub fn exguid_raw(&mut self, g: &[u8; 16], v: u32) {
        let min = if v < 32 { 0 } else if v < 1 << 10 { 1 } else if v < 1 << 17 { 2 } else { 3 };
        match self.slot(min, 3) {
            0 => self.u8((v as u8) << 3 | 4),
            1 => self.b.extend_from_slice(&(((v as u16) << 6) | 32).to_le_bytes()),
            2 => self.b.extend_from_slice(&((v << 7) | 64).to_le_bytes()[..3]),
            _ => {
                self.u8(0x80);
                self.u32(v);
            }
        }
        self.b.extend_from_slice(g);
    }
    pub fn id(&mut self, id: Id) {
        match resolve(self.lay, id) {
            None => self.u8(0),
            Some((g, v)) => self.exguid_raw(&g, v),
        }
    }
    fn cell(&mut self, c: CellRef) {
        self.id(c.0);
        self.id(c.1);
    }
    fn serial(&mut self, s: u32) {
        if s == 0 || self.lay.nil_serials && s < 0x8000_0000 {
            self.u8(0);
            return;
        }
        let m = self.lay.rng.below(2) as u8;
        self.u8(if self.lay.width == 0 { 0x80 } else { 0x80 | m });
        let mut g = [0x5E; 16];
        g[0] = (s >> 24) as u8;
        // Serial numbers may differ in their identifier only, or only past 32 bits
        let how = if self.lay.seed == 0 { 0 } else { self.lay.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 62 };
        if how == 1 {
            g[12..].copy_from_slice(&s.to_le_bytes());
        }
        self.b.extend_from_slice(&g);
        self.u64(match how {
            1 => 7,
            2 => (s as u64) << 32 | 1,
            _ => s as u64,
        });
    }
    /// Stream object header with the true length of its own fields.
    fn hdr(&mut self, ty: u16, compound: bool, len: usize, force16: bool) {
        let wide = ty > 0x3F || !force16 && (len > 126 || self.lay.hdr == 2 || self.lay.hdr == 1 && self.lay.rng.chance(1, 2));
        if wide {
            let l = if len >= 0x7FFF { 0x7FFF } else { len as u32 };
            self.u32(l << 17 | (ty as u32) << 3 | (compound as u32) << 2 | 2);
            if l == 0x7FFF {
                self.cu64(len as u64);
            }
        } else {
            let v = ((len as u16).min(127) << 9) | ty << 3 | (compound as u16) << 2;
            self.b.extend_from_slice(&v.to_le_bytes());
        }
    }
    fn end8(&mut self, ty: u8) {
        self.u8(ty << 2 | 1)
    }
    fn end16(&mut self, ty: u16) {
        self.b.extend_from_slice(&(ty << 2 | 3).to_le_bytes())
    }
    fn body(&mut self, ty: u16, compound: bool, force16: bool, f: impl FnOnce(&mut W)) {
        let mut w = W { b: vec![], lay: self.lay };
        f(&mut w);
        let b = w.b;
        self.hdr(ty, compound, b.len(), force16);
        self.b.extend_from_slice(&b);
    }
    fn bin(&mut self, d: &[u8]) {
        self.cu64(d.len() as u64);
        self.b.extend_from_slice(d);
    }
    fn elem(&mut self, e: &Elem) {
        let ty = match &e.el {
            El::Index { .. } => 1,
            El::Manifest { .. } => 2,
            El::CellMan(_) => 3,
            El::Rev { .. } => 4,
            El::Group { .. } => 5,
            El::Frag(_) => 6,
            El::Blob(_) => 10,
        };
        self.body(1, true, true, |w| {
            w.id(e.id);
            w.serial(e.serial);
            w.cu64(ty);
        });
        match &e.el {
            El::Index { manifests, cells, revs } => {
                let mut parts: Vec<(u8, usize)> = vec![];
                parts.extend((0..manifests.len()).map(|i| (0, i)));
                parts.extend((0..cells.len()).map(|i| (1, i)));
                parts.extend((0..revs.len()).map(|i| (2, i)));
                if self.lay.shuffle_elems {
                    shuffle(&mut self.lay.rng, &mut parts);
                }
                for (k, i) in parts {
                    match k {
                        0 => self.body(0x11, false, true, |w| {
                            w.id(manifests[i].0);
                            w.serial(manifests[i].1);
                        }),
                        1 => self.body(0x0E, false, true, |w| {
                            w.cell(cells[i].0);
                            w.id(cells[i].1);
                            w.serial(cells[i].2);
                        }),
                        _ => self.body(0x0D, false, true, |w| {
                            w.id(revs[i].0);
                            w.id(revs[i].1);
                            w.serial(revs[i].2);
                        }),
                    }
                }
            }
            El::Manifest { schema, roots } => {
                self.body(0x0C, false, true, |w| w.b.extend_from_slice(schema));
                let mut order: Vec<usize> = (0..roots.len()).collect();
                if self.lay.shuffle_elems {
                    shuffle(&mut self.lay.rng, &mut order);
                }
                for i in order {
                    self.body(7, false, true, |w| {
                        w.id(roots[i].0);
                        w.cell(roots[i].1);
                    });
                }
            }
            El::CellMan(r) => self.body(0x0B, false, true, |w| w.id(*r)),
            El::Rev { rid, base, roots, groups } => {
                self.body(0x1A, false, true, |w| {
                    w.id(*rid);
                    w.id(*base);
                });
                let mut parts: Vec<(u8, usize)> = (0..roots.len()).map(|i| (0, i)).collect();
                parts.extend((0..groups.len()).map(|i| (1, i)));
                if self.lay.shuffle_elems {
                    shuffle(&mut self.lay.rng, &mut parts);
                }
                for (k, i) in parts {
                    if k == 0 {
                        self.body(0x0A, false, true, |w| {
                            w.id(roots[i].0);
                            w.id(roots[i].1);
                        })
                    } else {
                        self.body(0x19, false, true, |w| w.id(groups[i]))
                    }
                }
            }
            El::Group { cell, objs } => self.group(*cell, objs),
            El::Blob(b) => self.body(2, false, false, |w| w.bin(b)),
            El::Frag(d) => {
                self.body(0x6A, false, false, |w| {
                    w.id(Id::Bogus(4));
                    w.cu64(d.len() as u64 * 2);
                    w.cu64(0);
                    w.cu64(d.len() as u64);
                    w.b.extend_from_slice(d);
                });
            }
        }
        self.end8(1);
    }
    fn group(&mut self, cell: Cell, objs: &[ObjRec]) {
        // (object, partition)
        let mut parts: Vec<(usize, u8)> = vec![];
        match self.lay.part_order {
            1 => {
                for p in [4u8, 1, 2] {
                    parts.extend((0..objs.len()).map(|i| (i, p)));
                }
            }
            2 => {
                for i in 0..objs.len() {
                    parts.extend([(i, 1u8), (i, 2), (i, 4)]);
                }
            }
            _ => {
                for i in 0..objs.len() {
                    parts.extend([(i, 4u8), (i, 1), (i, 2)]);
                }
            }
        }
        if self.lay.part_order == 3 {
            shuffle(&mut self.lay.rng, &mut parts);
        }
        parts.retain(|(i, p)| match objs[*i].quirk {
            1 => *p != 4,
            2 => *p != 1,
            _ => true,
        });
        parts.retain(|(i, p)| *p != 2 || objs[*i].blob.is_some());
        let mut datas: BTreeMap<(usize, u8), (Vec<u8>, Vec<u32>, Vec<Cell>)> = BTreeMap::new();
        for (i, p) in &parts {
            if *p == 1 {
                datas.insert((*i, 1), self.propset(cell, &objs[*i]));
            }
        }
        self.hdr(0x1D, true, 0, false);
        for (i, p) in &parts {
            let o = &objs[*i];
            // a declaration that got lost
            if matches!((o.quirk, p), (7, 4) | (8, 2) | (9, 1)) {
                continue;
            }
            if *p == 2 && o.quirk != 6 {
                self.body(5, false, false, |w| {
                    w.id(Id::Oid(o.oid));
                    w.id(Id::El(o.blob.as_ref().unwrap().0));
                    w.cu64(2);
                    w.cu64(0);
                    w.cu64(0);
                });
            } else {
                let (sz, r, c) = datas.get(&(*i, *p)).map(|d| (d.0.len(), d.1.len(), d.2.len())).unwrap_or((4, 0, 0));
                self.body(0x18, false, false, |w| {
                    w.id(Id::Oid(o.oid));
                    w.cu64(*p as u64);
                    w.cu64(sz as u64);
                    w.cu64(r as u64);
                    w.cu64(c as u64);
                });
            }
        }
        self.end8(0x1D);
        if self.lay.meta_blocks {
            self.hdr32(0x79, true, 0);
            for _ in &parts {
                let f = self.lay.rng.below(5) as u64;
                let mut w = W { b: vec![], lay: self.lay };
                w.cu64(f);
                let b = w.b;
                self.hdr32(0x78, false, b.len());
                self.b.extend_from_slice(&b);
            }
            self.end16(0x79);
        }
        self.hdr(0x1E, true, 0, false);
        for (i, p) in &parts {
            let o = &objs[*i];
            // declared, but the data got lost
            if matches!((o.quirk, p), (10, 4) | (11, 2)) {
                continue;
            }
            match p {
                4 => self.body(0x16, false, false, |w| {
                    w.cu64(0);
                    w.cu64(0);
                    w.bin(&o.jcid.to_le_bytes());
                }),
                2 => self.body(0x1C, false, false, |w| {
                    w.cu64(0);
                    w.cu64(0);
                    w.id(Id::El(o.blob.as_ref().unwrap().0));
                }),
                _ => {
                    let (data, refs, cells) = datas.remove(&(*i, 1)).unwrap();
                    if o.quirk == 3 {
                        // data left out of the group
                        self.body(3, false, false, |w| {
                            w.cu64(0);
                            w.cu64(0);
                            w.cu64(data.len() as u64);
                        });
                        continue;
                    }
                    if o.quirk == 4 {
                        continue; // declaration without data
                    }
                    self.body(0x16, false, false, |w| {
                        w.cu64(refs.len() as u64);
                        for r in &refs {
                            w.id(if *r == NIL { Id::Nil } else { Id::Oid(*r) });
                        }
                        w.cu64(cells.len() as u64);
                        for c in &cells {
                            w.cell(cref(*c));
                        }
                        w.bin(&data);
                    });
                }
            }
        }
        self.end8(0x1E);
    }
    fn hdr32(&mut self, ty: u32, compound: bool, len: usize) {
        self.u32((len as u32) << 17 | ty << 3 | (compound as u32) << 2 | 2);
    }
    /// References that lead to no object by intention.
    fn null_references(&mut self, jcid: u32, props: &mut Props) {
        let r = &mut self.lay.rng;
        let mut n = 0;
        for (p, v) in props.iter_mut() {
            if let (0x24001C20 | 0x24001C1F, Val::Oids(x)) = (*p, v) {
                while r.chance(1, 3) {
                    x.insert(r.below(x.len() + 1), NIL);
                    n += 1;
                }
            }
        }
        if let Some(s) = crate::model::SPECS.iter().find(|s| s.jcid == jcid) {
            for x in s.slots {
                if x.one && x.p >> 24 == 0x20 && !props.iter().any(|p| p.0 & 0x03FF_FFFF == x.p & 0x03FF_FFFF) && r.chance(1, 2) {
                    props.push((x.p, Val::Oid(NIL)));
                    n += 1;
                }
            }
        }
        if n > 0 {
            crate::ctx::count("gen.null_references");
        }
    }
    /// (stream bytes, object references, cell references)
    fn propset(&mut self, cell: Cell, o: &ObjRec) -> (Vec<u8>, Vec<u32>, Vec<Cell>) {
        let mut props = o.props.clone();
        if self.lay.shuffle_props {
            shuffle_props(&mut self.lay.rng, &mut props);
        }
        if self.lay.nil_refs {
            self.null_references(o.jcid, &mut props);
        }
        let mut oids = vec![];
        let mut osids = vec![];
        let mut ctxs = vec![];
        let mut body = vec![];
        put_set(&props, &mut body, &mut oids, &mut osids, &mut ctxs);
        let style = self.lay.cid;
        let cid = |i: usize, k: usize, off: u32| -> u32 {
            let s = match style {
                0 => k as u32,
                1 => i as u32,
                2 => 1,
                3 => (i % 3) as u32,
                4 => k as u32 * 7 + 1,
                _ => (k % 5) as u32,
            };
            (s % 255 + 1) | (s / 255 & 0xFFF) << 8 | off << 20
        };
        let mut b = vec![];
        let no_osid = osids.is_empty() && ctxs.is_empty() && self.lay.osid_stream == 0;
        let put = |b: &mut Vec<u8>, v: u32| b.extend_from_slice(&v.to_le_bytes());
        put(&mut b, oids.len() as u32 | if no_osid { 1 << 31 } else { 0 });
        let mut seen: BTreeMap<u32, usize> = BTreeMap::new();
        for (i, t) in oids.iter().enumerate() {
            if *t == NIL {
                put(&mut b, 0);
                continue;
            }
            let n = seen.len();
            let k = *seen.entry(*t).or_insert(n);
            put(&mut b, cid(i, k, 0));
        }
        if !self.lay.nil_listed {
            oids.retain(|t| *t != NIL);
        }
        if !no_osid {
            put(&mut b, osids.len() as u32 | if ctxs.is_empty() { 0 } else { 1 << 30 });
            let mut seen: BTreeMap<Cell, usize> = BTreeMap::new();
            for (i, t) in osids.iter().enumerate() {
                let n = seen.len();
                let k = *seen.entry(*t).or_insert(n);
                put(&mut b, cid(i, k, 1));
            }
            if !ctxs.is_empty() {
                put(&mut b, ctxs.len() as u32);
                for i in 0..ctxs.len() {
                    put(&mut b, (i as u32 + 1) | 2 << 20);
                }
            }
        }
        b.extend_from_slice(&body);
        // cell references: spaces and contexts in any interleaving
        let mut cells = vec![];
        let (mut a, mut c) = (osids.into_iter().peekable(), ctxs.into_iter().peekable());
        loop {
            let take_a = if a.peek().is_none() {
                false
            } else {
                c.peek().is_none() || self.lay.seed == 0 || self.lay.rng.chance(1, 2)
            };
            match if take_a { a.next() } else { c.next() } {
                Some(x) => cells.push(x),
                None => break,
            }
        }
        // contexts are those of the object's own space
        for c in cells.iter_mut().filter(|c| c.space == 0) {
            c.space = cell.space;
        }
        match o.quirk {
            5 => {
                oids.pop();
            }
            7 => oids.push(o.oid),
            8 => {
                cells.pop();
            }
            9 => cells.push(Cell { ctx: 0, space: 1 }),
            _ => {}
        }
        (b, oids, cells)
    }
}
fn put_set(props: &Props, b: &mut Vec<u8>, oids: &mut Vec<u32>, osids: &mut Vec<Cell>, ctxs: &mut Vec<Cell>) {
    b.extend_from_slice(&(props.len() as u16).to_le_bytes());
    for (id, v) in props {
        let low = id & 0x03FF_FFFF;
        let ty: u32 = match v {
            Val::Empty => 1,
            Val::Bool(_) => 2,
            Val::U8(_) => 3,
            Val::U16(_) => 4,
            Val::U32(_) => 5,
            Val::U64(_) => 6,
            Val::Vec(_) | Val::VecLie(..) => 7,
            Val::Oid(_) => 8,
            Val::Oids(_) | Val::OidsLie(..) => 9,
            Val::Osid(_) => 0xA,
            Val::Osids(_) => 0xB,
            Val::Ctx(_) => 0xC,
            Val::Ctxs(_) => 0xD,
            Val::Sets(..) | Val::SetsLie(..) => 0x10,
            Val::Set(_) | Val::Deep(_, false) => 0x11,
            Val::Deep(_, true) => 0x10,
        };
        let bit = if let Val::Bool(true) = v { 1 << 31 } else { 0 };
        b.extend_from_slice(&(ty << 26 | low | bit).to_le_bytes());
    }
    let u32 = |b: &mut Vec<u8>, v: u32| b.extend_from_slice(&v.to_le_bytes());
    for (_, v) in props {
        match v {
            Val::Empty | Val::Bool(_) => {}
            Val::U8(x) => b.push(*x),
            Val::U16(x) => b.extend_from_slice(&x.to_le_bytes()),
            Val::U32(x) => u32(b, *x),
            Val::U64(x) => b.extend_from_slice(&x.to_le_bytes()),
            Val::Vec(x) => {
                u32(b, x.len() as u32);
                b.extend_from_slice(x);
            }
            Val::VecLie(n, x) => {
                u32(b, *n);
                b.extend_from_slice(x);
            }
            Val::Oid(x) => oids.push(*x),
            Val::Oids(x) => {
                u32(b, x.len() as u32);
                oids.extend_from_slice(x);
            }
            Val::OidsLie(n, x) => {
                u32(b, *n);
                oids.extend_from_slice(x);
            }
            Val::Osid(x) => osids.push(*x),
            Val::Osids(x) => {
                u32(b, x.len() as u32);
                osids.extend_from_slice(x);
            }
            Val::Ctx(x) => ctxs.push(*x),
            Val::Ctxs(x) => {
                u32(b, x.len() as u32);
                ctxs.extend_from_slice(x);
            }
            Val::Sets(pid, sets) => {
                u32(b, sets.len() as u32);
                u32(b, *pid);
                for s in sets {
                    put_set(s, b, oids, osids, ctxs);
                }
            }
            Val::SetsLie(n, pid, sets) => {
                u32(b, *n);
                u32(b, *pid);
                for s in sets {
                    put_set(s, b, oids, osids, ctxs);
                }
            }
            Val::Set(s) => put_set(s, b, oids, osids, ctxs),
            Val::Deep(n, sets) => {
                for k in 0..=*n {
                    if *sets {
                        u32(b, 1);
                        u32(b, 0x4400_1111);
                    }
                    b.extend_from_slice(&1u16.to_le_bytes());
                    u32(b, if k == *n { 0x1400_1234 } else if *sets { 0x4000_1111 } else { 0x4400_1111 });
                }
                u32(b, 7);
            }
        }
    }
}
fn shuffle_props(r: &mut Rng, p: &mut Props) {
    shuffle(r, p);
    for (_, v) in p.iter_mut() {
        match v {
            Val::Sets(_, s) => s.iter_mut().for_each(|x| shuffle_props(r, x)),
            Val::Set(s) => shuffle_props(r, s),
            _ => {}
        }
    }
}
pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
}
fn resolve(lay: &Lay, id: Id) -> Option<([u8; 16], u32)> {
    let (k, n) = match id {
        Id::Nil => return None,
        Id::HeaderRoot => return Some((guid("1A5A319C-C26B-41AA-B9C5-9BD8C44E07D4"), 1)),
        Id::DataRoot => return Some((guid("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"), 2)),
        Id::Role(r) => return Some((guid("4A3717F8-1C14-49E7-9526-81D942DE1741"), r)),
        Id::Oid(n) => (1u8, n),
        Id::Ctx(n) => (2, n),
        Id::Space(n) => (3, n),
        Id::El(n) => (4, n),
        Id::Rid(n) => (5, n),
        Id::Bogus(n) => (6, n),
    };
    let h = mix(lay.seed.wrapping_mul(31) ^ (k as u64) << 40 ^ n as u64);
    let hk = mix(lay.seed.wrapping_mul(77) ^ (k as u64) << 40);
    let mut g = [k; 16];
    Some(match lay.ids {
        0 => {
            g[1] = 0xAA;
            (g, n.wrapping_add(1))
        }
        1 => {
            // one guid for every object id kind, scattered values
            g[..8].copy_from_slice(&hk.to_le_bytes());
            (g, n.wrapping_add(hk as u32 & 0x1_FFFF))
        }
        2 => {
            // unique guid per id, same value everywhere
            g[..8].copy_from_slice(&h.to_le_bytes());
            g[8..12].copy_from_slice(&n.to_le_bytes());
            (g, 1 + (hk as u32 & 3))
        }
        _ => {
            // values of any magnitude; guid shared by a few ids
            g[..8].copy_from_slice(&mix(hk ^ (n / 4) as u64).to_le_bytes());
            g[8..12].copy_from_slice(&(n / 4).to_le_bytes());
            (g, (n % 4) + [0, 30, 1020, 131070][(hk & 3) as usize])
        }
    })
}

pub fn encode(img: &FileImg, lay: &mut Lay, toc: bool) -> Encoded {
    let mut order: Vec<usize> = (0..img.elems.len()).collect();
    if lay.shuffle_elems {
        shuffle(&mut lay.rng, &mut order);
    }
    let mut w = W { b: vec![], lay };
    let file_type = if toc { guid("43FF2FA1-EFD9-4C76-9EE2-10EA5722765F") } else { guid("7B5C52E4-D88C-4DA7-AEB1-5378D02996D3") };
    let head = |w: &mut W, legacy: [u8; 16], fmt: &str| {
        w.b.extend_from_slice(&file_type);
        w.b.extend_from_slice(&[0x77; 16]);
        w.b.extend_from_slice(&legacy);
        w.b.extend_from_slice(&guid(fmt));
    };
    match w.lay.packaging {
        0 => head(&mut w, [0; 16], FMT_PACKAGE),
        1 => head(&mut w, [0x33; 16], FMT_REVSTORE),
        _ => {
            head(&mut w, [0; 16], FMT_REVSTORE);
            let vs = [0x2Au32, 0x1B];
            for _ in 0..4 {
                let v = vs[w.lay.rng.below(2)];
                w.u32(v);
            }
            w.u64(1);
            w.u64(2);
            w.u32(3);
            w.u32(4);
            w.u64(5);
            w.u64(6);
            w.u32(7);
            w.b.extend_from_slice(&[0, 1, 0, 1]);
            w.b.extend_from_slice(&[0x44; 16]);
            w.u32(0xC0FFEE);
            w.u64(0x400);
            w.u32(0x20);
            let pad = w.lay.pad;
            let at = w.b.len() + 12;
            let cb = pad.min(9);
            w.u64((at + pad - cb) as u64);
            w.u32(cb as u32);
            w.b.extend(std::iter::repeat_n(0xEE, pad));
            let alt = w.lay.rng.below(2);
            head(&mut w, [0; 16], if alt == 0 { FMT_PACKAGE } else { FMT_REVSTORE });
        }
    }
    let package_start = w.b.len();
    w.u32(0);
    let mut t = W { b: vec![], lay: w.lay };
    t.id(img.index);
    t.b.extend_from_slice(&[0x99; 16]);
    let tb = t.b;
    w.hdr32(0x7A, true, tb.len());
    w.b.extend_from_slice(&tb);
    w.hdr(0x15, true, 1, true);
    w.u8(0);
    let mut spans = vec![];
    for i in order {
        let s = w.b.len();
        w.elem(&img.elems[i]);
        spans.push((s, w.b.len()));
    }
    w.end8(0x15);
    w.end16(0x7A);
    let tail = w.lay.tail;
    w.b.extend(std::iter::repeat_n(0xDD, tail));
    Encoded { bytes: w.b, spans, package_start }
}
