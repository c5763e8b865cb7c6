//! Section documents, tables of contents and notebooks: the reference model above single pages,
//! what a reader must show for them, and their stored form (objects per object space).

use crate::ctx::{D, chance, choose};
use crate::model::*;
use std::collections::BTreeMap;

/// The committed content of one object space.
#[derive(Clone, Debug, PartialEq)]
pub struct SpaceState {
    pub cell: Cell,
    pub objs: BTreeMap<u32, ObjRec>,
    /// (role, object)
    pub roots: Vec<(u32, u32)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PageDoc {
    pub space: u32,
    pub node: Node,
    pub sh: Shared,
    pub level: Option<u32>,
    pub manifest: u32,
    pub meta: u32,
    pub meta_props: Props,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Series {
    pub oid: u32,
    pub pages: Vec<PageDoc>,
    pub with_meta: bool,
    pub guid: Vec<u8>,
    pub extra_ctx: bool,
    /// an unread property: type bits and value
    pub extra: Option<(u32, Val)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SectionDoc {
    pub node: u32,
    pub meta: u32,
    pub name: Option<String>,
    pub name_tail: u8,
    pub color: Option<FV>,
    pub series: Vec<Series>,
    pub guid: Vec<u8>,
    pub time: u64,
}

pub const ROOT: Cell = Cell { ctx: 0, space: 1 };
pub const HEADER: Cell = Cell { ctx: 0, space: 2 };
pub const HDR_OID: u32 = 1;

pub fn guid16() -> Vec<u8> {
    match gen_val(T::Guid).val {
        Val::Vec(v) => v,
        _ => unreachable!(),
    }
}
pub fn gen_page(g: &mut Gen, space: u32) -> PageDoc {
    let mut sh = Shared::default();
    let node = gen_page_node(g, &mut sh);
    let mut p = PageDoc { space, node, sh, level: None, manifest: g.oid(), meta: g.oid(), meta_props: vec![] };
    p.level = gen_level();
    p.meta_props = gen_meta_props();
    p
}
pub fn gen_level() -> Option<u32> {
    [None, Some(1), Some(0), Some(2), Some(3), Some(0x7FFF_FFFF), Some(0xFFFF_FFFF)][choose(D, 7)]
}
pub fn gen_meta_props() -> Props {
    let mut v: Props = vec![
        (0x1C001C30, Val::Vec(guid16())),
        (0x1C001CF3, Val::Vec(utf16(&gen_string()))),
        (0x18001C65, Val::U64(choose(D, 1 << 20) as u64)),
    ];
    if choose(D, 2) == 1 {
        v.push((0x14001D82, Val::U32(gen_u32())));
        v.push((0x1400348B, Val::U32(gen_u32())));
    }
    v
}
pub fn gen_section(g: &mut Gen, pages: usize, next_space: &mut u32) -> SectionDoc {
    let mut s = SectionDoc {
        node: g.oid(),
        meta: g.oid(),
        name: None,
        name_tail: 0,
        color: None,
        series: vec![],
        guid: guid16(),
        time: choose(D, 1 << 20) as u64,
    };
    if choose(D, 3) == 1 {
        s.name = Some(gen_name_text());
        s.name_tail = choose(D, 3) as u8;
    }
    if choose(D, 2) == 1 {
        s.color = Some(gen_val(T::Color));
    }
    for _ in 0..pages {
        let fresh = s.series.is_empty() || choose(D, 2) == 0;
        *next_space += 1;
        let p = gen_page(g, *next_space);
        if fresh {
            let sr = gen_series(g);
            s.series.push(sr);
        }
        s.series.last_mut().unwrap().pages.push(p);
    }
    s
}
fn gen_name_text() -> String {
    let mut s = gen_string();
    while s.ends_with(".one") || s.ends_with('.') || s.contains('\0') {
        s.push('x');
    }
    s
}
pub fn gen_series(g: &mut Gen) -> Series {
    Series { oid: g.oid(), pages: vec![], with_meta: choose(D, 2) == 1, guid: guid16(), extra_ctx: choose(D, 3) == 2, extra: if choose(D, 3) == 2 { Some(gen_unread(0)) } else { None } }
}
/// One random change of the document; returns a description.
pub fn edit_section(g: &mut Gen, s: &mut SectionDoc, next_space: &mut u32) -> String {
    let n: usize = s.series.iter().map(|x| x.pages.len()).sum();
    let what = choose(D, 14);
    match what {
        8 => {
            *next_space += 1;
            g.budget += 6;
            let p = gen_page(g, *next_space);
            if s.series.is_empty() || choose(D, 2) == 0 {
                let sr = gen_series(g);
                let at = choose(D, s.series.len() + 1);
                s.series.insert(at, sr);
                s.series[at].pages.push(p);
            } else {
                let i = choose(D, s.series.len());
                let at = choose(D, s.series[i].pages.len() + 1);
                s.series[i].pages.insert(at, p);
            }
            return format!("add page in space {next_space}");
        }
        9 if n > 0 => {
            let (i, j) = nth_page(s, choose(D, n));
            let p = s.series[i].pages.remove(j);
            if s.series[i].pages.is_empty() && choose(D, 2) == 0 {
                s.series.remove(i);
            }
            return format!("delete page in space {}", p.space);
        }
        10 if n > 1 => {
            let (i, j) = nth_page(s, choose(D, n));
            let p = s.series[i].pages.remove(j);
            let sp = p.space;
            let i = choose(D, s.series.len());
            let at = choose(D, s.series[i].pages.len() + 1);
            s.series[i].pages.insert(at, p);
            return format!("move page in space {sp}");
        }
        11 if n > 0 => {
            let (i, j) = nth_page(s, choose(D, n));
            let p = &mut s.series[i].pages[j];
            p.level = gen_level();
            p.meta_props = gen_meta_props();
            return format!("change level of page in space {}", p.space);
        }
        12 if n > 0 => {
            let (i, j) = nth_page(s, choose(D, n));
            let p = &mut s.series[i].pages[j];
            match choose(D, 3) {
                0 => p.manifest = g.oid(),
                1 => p.meta = g.oid(),
                _ => {
                    p.manifest = g.oid();
                    p.meta = g.oid();
                }
            }
            return format!("re-root page in space {}", p.space);
        }
        13 => {
            match choose(D, 4) {
                0 => s.name = None,
                1 => s.name = Some(gen_name_text()),
                2 => s.color = Some(gen_val(T::Color)),
                _ => s.color = None,
            }
            return "change section metadata".into();
        }
        _ => {}
    }
    if n > 0 {
        let (i, j) = nth_page(s, choose(D, n));
        let p = &mut s.series[i].pages[j];
        g.budget += 3;
        let mut sh = std::mem::take(&mut p.sh);
        let t = edit(g, &mut p.node, &mut sh);
        p.sh = sh;
        return format!("page in space {}: {t}", p.space);
    }
    String::from("nothing")
}
fn nth_page(s: &SectionDoc, mut k: usize) -> (usize, usize) {
    for (i, x) in s.series.iter().enumerate() {
        if k < x.pages.len() {
            return (i, k);
        }
        k -= x.pages.len();
    }
    unreachable!()
}
pub fn pages(s: &SectionDoc) -> impl Iterator<Item = &PageDoc> {
    s.series.iter().flat_map(|x| x.pages.iter())
}

fn rec(oid: u32, jcid: u32, props: Props) -> ObjRec {
    ObjRec { oid, jcid, props, blob: None, quirk: 0 }
}
fn header_state() -> SpaceState {
    let props = vec![
        (0x1C001D94, Val::Vec(vec![0x11; 16])),
        (0x1C001D95, Val::Vec(vec![0x22; 16])),
        (0x14001D93, Val::U32(77)),
        (0x14001D99, Val::U32(1)),
    ];
    let mut objs = BTreeMap::new();
    objs.insert(HDR_OID, rec(HDR_OID, 0x20001 + 0x40, props));
    SpaceState { cell: HEADER, objs, roots: vec![(1, HDR_OID)] }
}
pub fn page_state(p: &PageDoc) -> SpaceState {
    let mut v = vec![];
    compile(&p.node, &p.sh, &mut v);
    for n in p.sh.all() {
        compile(n, &p.sh, &mut v);
    }
    let mut mp = p.meta_props.clone();
    if let Some(l) = p.level {
        mp.push((0x14001DFF, Val::U32(l)));
    }
    v.push(rec(p.meta, 0x20030, mp));
    v.push(rec(p.manifest, 0x60037, vec![(0x24001C1F, Val::Oids(vec![p.node.oid]))]));
    let objs = v.into_iter().map(|o| (o.oid, o)).collect();
    SpaceState { cell: Cell { ctx: 0, space: p.space }, objs, roots: vec![(1, p.manifest), (2, p.meta)] }
}
pub fn section_states(s: &SectionDoc) -> Vec<SpaceState> {
    let mut v = vec![];
    for sr in &s.series {
        let mut props: Props = vec![
            (0x1C001C30, Val::Vec(sr.guid.clone())),
            (0x2C001D63, Val::Osids(sr.pages.iter().map(|p| Cell { ctx: 0, space: p.space }).collect())),
        ];
        if sr.with_meta {
            let mut ids = vec![];
            for p in &sr.pages {
                // a copy of the page's metadata, above the page's space
                let oid = 0x4000_0000 + p.space;
                let mut mp = p.meta_props.clone();
                mp.push((0x14001DFF, Val::U32(99)));
                v.push(rec(oid, 0x20030, mp));
                ids.push(oid);
            }
            props.push((0x24003442, Val::Oids(ids)));
            props.push((0x18001C65, Val::U64(3)));
        }
        if sr.extra_ctx {
            props.push((0x3400347B, Val::Ctxs(vec![Cell { ctx: 1, space: ROOT.space }, Cell { ctx: 2, space: ROOT.space }])));
        }
        if let Some((t, x)) = &sr.extra {
            // in front of the properties that are read
            props.insert(0, (t << 24 | 0x3F40, x.clone()));
        }
        v.push(rec(sr.oid, 0x60008, props));
    }
    v.push(rec(
        s.node,
        0x60007,
        vec![
            (0x1C001C30, Val::Vec(s.guid.clone())),
            (0x18001C65, Val::U64(s.time)),
            (0x24001C20, Val::Oids(s.series.iter().map(|x| x.oid).collect())),
        ],
    ));
    let mut mp: Props = vec![(0x14001D82, Val::U32(0x2A)), (0x1400348B, Val::U32(0x2A))];
    if let Some(n) = &s.name {
        let mut b = utf16(n);
        match s.name_tail {
            1 => b.extend_from_slice(&[0, 0]),
            2 => b.extend_from_slice(&[0, 0, 0x41, 0x00, 0x42, 0]),
            _ => {}
        }
        mp.push((0x1C00349B, Val::Vec(b)));
    }
    if let Some(c) = &s.color {
        mp.push((0x14001CBE, c.val.clone()));
    }
    v.push(rec(s.meta, 0x20031, mp));
    let objs = v.into_iter().map(|o| (o.oid, o)).collect();
    let mut out = vec![header_state(), SpaceState { cell: ROOT, objs, roots: vec![(1, s.node), (2, s.meta)] }];
    for p in pages(s) {
        out.push(page_state(p));
    }
    out
}
pub fn dump_page(p: &PageDoc, ind: usize, out: &mut String) {
    line(out, ind, &format!("level={}", p.level.unwrap_or(0) as i32));
    line(out, ind, &format!("title_text={:?}", title_text(&p.node)));
    dump(&p.node, &p.sh, ind, out);
}
pub fn dump_section(s: &SectionDoc, filename: &str, ind: usize, out: &mut String) {
    line(out, ind, "section");
    let name = s.name.as_deref().unwrap_or(filename).trim_end_matches(".one").to_string();
    line(out, ind + 1, &format!("name={name:?}"));
    line(out, ind + 1, &format!("color={}", s.color.as_ref().map(|c| c.dump.clone()).unwrap_or("-".into())));
    line(out, ind + 1, &format!("series {}", s.series.len()));
    for sr in &s.series {
        line(out, ind + 2, &format!("pages {}", sr.pages.len()));
        for p in &sr.pages {
            dump_page(p, ind + 3, out);
        }
    }
}

// ---------------------------------------------------------------- table of contents
#[derive(Clone, Debug, PartialEq)]
pub struct TocNode {
    pub oid: u32,
    pub color: Option<FV>,
    /// leaf: (name, order); otherwise an inner container
    pub leaf: Option<(String, u32)>,
    pub kids: Vec<TocNode>,
    pub extra: bool,
}
pub fn toc_states(root: &TocNode) -> Vec<SpaceState> {
    fn walk(n: &TocNode, out: &mut BTreeMap<u32, ObjRec>) {
        let mut p: Props = vec![];
        if let Some((name, ord)) = &n.leaf {
            let stored = name.replace('+', "^M").replace(',', "^J");
            p.push((0x1C001D6B, Val::Vec(utf16(&stored))));
            p.push((0x14001CB9, Val::U32(*ord)));
        }
        if let Some(c) = &n.color {
            p.push((0x14001CBE, c.val.clone()));
        }
        if n.extra {
            p.push((0x1C001D94, Val::Vec(vec![3; 16])));
            p.push((0x20003F80, Val::Oid(n.oid)));
        }
        if !n.kids.is_empty() || n.leaf.is_none() {
            p.push((0x24001CF6, Val::Oids(n.kids.iter().map(|k| k.oid).collect())));
        }
        out.insert(n.oid, rec(n.oid, 0x20001, p));
        for k in &n.kids {
            walk(k, out);
        }
    }
    let mut objs = BTreeMap::new();
    walk(root, &mut objs);
    vec![header_state(), SpaceState { cell: ROOT, objs, roots: vec![(1, root.oid)] }]
}
/// Names in the order a reader lists them, without duplicates.
pub fn toc_names(root: &TocNode) -> Vec<String> {
    fn walk(n: &TocNode, out: &mut Vec<(u32, String)>) {
        match &n.leaf {
            Some((name, o)) => out.push((*o, name.clone())),
            None => n.kids.iter().for_each(|k| walk(k, out)),
        }
    }
    let mut v = vec![];
    walk(root, &mut v);
    v.sort_by_key(|x| x.0);
    let mut out: Vec<String> = vec![];
    for (_, n) in v {
        if !out.contains(&n) {
            out.push(n);
        }
    }
    out
}
const NAME_AL: &[&str] = &[
    "A", "b", "1", " x", "+", ",", "é", "漢", "-", "_", "(z)", "&", "#", "Ω", "😀", "o", "  y", "\u{3000}k", ".d", "%20", "'", "^", ";",
    "~", "=", "[q]", "e\u{301}", "++", ",,", "$", "@", "!", "\u{3000}", "\u{a0}",
];
const NAME_START: &[&str] = &["s", "\u{3000}s", "\u{a0}", "_", "-", "9", "Ü", "+", ",", "(", "~$", " s", ".s", ". s"];
/// A legal name of a file or directory.
pub fn gen_fs_name() -> String {
    let n = 1 + choose(D, 5);
    let mut s = String::from(NAME_START[if choose(D, 3) == 2 { choose(D, NAME_START.len()) } else { 0 }]);
    for _ in 0..n {
        s.push_str(NAME_AL[choose(D, NAME_AL.len())]);
    }
    if choose(D, 24) == 23 {
        // close to the one name that has a meaning of its own
        return match choose(D, 4) {
            0 => format!("OneNote_RecycleBin {s}"),
            1 => format!("{s}OneNote_RecycleBin"),
            2 => format!("onenote_recyclebin{s}"),
            _ => format!("OneNote_RecycleBin_{s}"),
        };
    }
    if choose(D, 24) == 23 {
        // a long name, up to the limit of 255 bytes less an extension
        while s.len() < 240 {
            s.push('w');
        }
    }
    s
}
pub fn gen_color_opt() -> Option<FV> {
    if chance(D, 1, 2) { Some(gen_val(T::Color)) } else { None }
}
