//! Bulky documents: one dimension of a document is made far larger than the others, so that
//! counts, lengths and sizes pass the limits of narrow integers and of fixed tables.

use crate::ctx::{self, D, choose};
use crate::doc::*;
use crate::model::*;
use std::sync::Arc;

pub const DIMS: usize = 25;
/// A payload of up to a dozen megabytes.
pub const PAYLOAD: usize = 21;
/// Many revisions of a page.
pub const REVS: usize = 23;
/// Every object in a group of its own (for a while).
pub const GROUPS: usize = 24;

fn rich(g: &mut Gen, sh: &mut Shared, text: String) -> Node {
    let mut n = new_node(g, K::Rich);
    let style = gen_style(g, sh, 0);
    n.ext = Ext::Rich(Box::new(Rich {
        unicode: Some(text),
        ascii: None,
        nul_tail: false,
        style,
        runs: vec![],
        indices: vec![],
        trim_data: false,
    }));
    n
}
/// A small element that is unlike its siblings.
fn element(g: &mut Gen, sh: &mut Shared, k: usize) -> Node {
    let mut e = new_node(g, K::Element);
    if sh.authors.is_empty() {
        let a = new_node(g, K::Author);
        sh.authors.push(a);
    }
    e.author = sh.authors[0].oid;
    if k % 3 != 2 {
        let r = rich(g, sh, format!("{k}"));
        e.kids[0].push(r);
    }
    e
}
fn outline(g: &mut Gen, sh: &mut Shared, items: usize) -> Node {
    let mut o = new_node(g, K::Outline);
    for k in 0..items {
        let e = element(g, sh, k);
        o.kids[0].push(e);
    }
    o
}
fn in_outline(g: &mut Gen, sh: &mut Shared, content: Node) -> Node {
    let mut o = outline(g, sh, 1);
    o.kids[0][0].kids[0].push(content);
    o
}
fn table(g: &mut Gen, sh: &mut Shared, rows: usize, cols: usize) -> Node {
    let mut t = new_node(g, K::Table);
    for r in 0..rows {
        let mut row = new_node(g, K::Row);
        for c in 0..cols {
            let mut cell = new_node(g, K::Cell);
            if (r + c) % 2 == 0 {
                let e = element(g, sh, r * cols + c);
                cell.kids[0].push(e);
            }
            row.kids[0].push(cell);
        }
        t.kids[0].push(row);
    }
    t
}
fn drawing(g: &mut Gen, sh: &mut Shared, strokes: usize, points: usize) -> Node {
    let mut p = new_node(g, K::StrokeProps);
    p.ext = Ext::Dims(vec![1, 0]);
    let props = p.oid;
    sh.strokes.push(p);
    let mut d = new_node(g, K::InkData);
    d.ext = Ext::BBox(None);
    for s in 0..strokes {
        let mut n = new_node(g, K::Stroke);
        let v = (0..2).map(|d| (0..points).map(|i| ((i * 37 + s * 5 + d * 11) % 900) as i64 - 450).collect()).collect();
        n.ext = Ext::Stroke(v, props);
        d.kids[0].push(n);
    }
    let mut n = new_node(g, K::Ink);
    n.f[3] = None;
    n.f[4] = None;
    n.kids[0].push(d);
    n
}
/// Make one dimension of the document bulky; returns a description.
pub fn bulk(g: &mut Gen, s: &mut SectionDoc, next_space: &mut u32, dim: usize, cap: usize) -> String {
    let n = ([33, 70, 130, 260, 300, 520, 1100][choose(D, 7)] + choose(D, 9)).min(cap);
    // past twelve, and now and then past sixteen bits
    let wide = cap > 1000 && matches!(dim, 2 | 3 | 4 | 5 | 6 | 7 | 8 | 10 | 11 | 14 | 15 | 17 | 20);
    let n = match if wide { choose(D, 240) } else { 0 } {
        236..=238 => 4200,
        // (a property set counts its properties with sixteen bits)
        239 => [66000, 60000][(dim == 14) as usize],
        _ => n,
    };
    g.wide |= n > 2000;
    let (density, budget) = (g.density, g.budget);
    g.density = [0, 1][choose(D, 2)];
    g.budget = 0;
    ctx::count("gen.bulky");
    let what = add(g, s, next_space, dim, n);
    g.density = density;
    g.budget = budget;
    format!("{n} {what}")
}
fn add(g: &mut Gen, s: &mut SectionDoc, next_space: &mut u32, dim: usize, n: usize) -> &'static str {
    if s.series.is_empty() || s.series[0].pages.is_empty() || dim <= 1 {
        let pages = if dim == 0 { n.min(300) } else { 1 };
        let series = if dim == 1 { n.min(300) } else { 1 };
        for _ in 0..series {
            let mut sr = gen_series(g);
            for _ in 0..pages {
                *next_space += 1;
                let p = gen_page(g, *next_space);
                sr.pages.push(p);
            }
            let at = choose(D, s.series.len() + 1);
            s.series.insert(at, sr);
        }
        if dim <= 1 {
            return ["pages", "page series"][dim];
        }
    }
    let i = s.series.iter().position(|x| !x.pages.is_empty()).expect("a page");
    let p = &mut s.series[i].pages[0];
    let (page, sh) = (&mut p.node, &mut p.sh);
    let (new, what) = match dim {
        2 => (outline(g, sh, n), "outline items"),
        3 => {
            let mut o = outline(g, sh, 1);
            for k in 0..n {
                let e = element(g, sh, k);
                o.kids[0][0].kids[2].push(e);
            }
            (o, "nested items")
        }
        4 => {
            for k in 0..n {
                let o = outline(g, sh, k % 2);
                page.kids[1].push(o);
            }
            return "page contents";
        }
        5 => {
            let mut o = outline(g, sh, 1);
            for k in 0..n {
                let r = rich(g, sh, format!("p{k}"));
                o.kids[0][0].kids[0].push(r);
            }
            (o, "contents of an element")
        }
        6 => {
            let t = table(g, sh, n, 1 + choose(D, 2));
            (in_outline(g, sh, t), "table rows")
        }
        7 => {
            let t = table(g, sh, 1 + choose(D, 2), n);
            (in_outline(g, sh, t), "table columns")
        }
        8 | 9 => {
            let mut r = rich(g, sh, "x".repeat(n));
            if let Ext::Rich(x) = &mut r.ext {
                for k in 0..n {
                    let run = if dim == 8 { (gen_style(g, sh, 0), Run::Plain) } else { gen_run(g, sh) };
                    x.runs.push(run);
                    x.indices.push(k as u32);
                }
            }
            (in_outline(g, sh, r), if dim == 8 { "text runs" } else { "text runs of all kinds" })
        }
        10 => {
            let mut r = rich(g, sh, "tagged".into());
            for _ in 0..n {
                let t = gen_tag(g, sh);
                r.tags.push(t);
            }
            (in_outline(g, sh, r), "note tags")
        }
        11 => (drawing(g, sh, n, 2), "ink strokes"),
        12 => (drawing(g, sh, 2, n * 40), "times 40 ink points"),
        13 | 22 => {
            let mut t = String::new();
            for k in 0..n * if dim == 13 { 30 } else { 700 } {
                t.push_str(["wörd ", "a", "漢字 ", "😀", "line\r", "zz "][(k * k + k / 7) % 6]);
            }
            let r = rich(g, sh, t);
            (in_outline(g, sh, r), if dim == 13 { "times 30 words of text" } else { "times 700 words of text" })
        }
        14 => {
            let mut o = outline(g, sh, 2);
            for k in 0..n as u32 {
                let (t, v) = gen_unread(o.oid);
                o.extra.push((t << 24 | (0x4000 + k), v));
            }
            (o, "unread properties")
        }
        15 => {
            let mut o = outline(g, sh, 1);
            for _ in 0..n {
                let l = new_node(g, K::List);
                o.kids[0][0].kids[1].push(l);
            }
            (o, "list specifications")
        }
        16 | 21 => {
            let mut c = new_node(g, K::FileBlob);
            let len = n * if dim == 16 { 3000 } else { 12000 };
            c.ext = Ext::Blob(Some(Arc::new((0..len).map(|i| (i * 7 + i / 251) as u8).collect())));
            let mut f = new_node(g, K::File);
            f.kids[0].push(c);
            (in_outline(g, sh, f), if dim == 16 { "times 3000 payload bytes" } else { "times 12000 payload bytes" })
        }
        17 => {
            let mut f = new_node(g, K::Image);
            for _ in 0..n {
                let e = new_node(g, K::IFrame);
                f.kids[1].push(e);
            }
            (in_outline(g, sh, f), "web embeds")
        }
        18 => {
            let depth = n % 96;
            let mode = choose(D, 3);
            deepen(g, sh, page, depth, &mut |k| if mode == 2 { k % 2 } else { mode });
            return "mod 96 nested levels";
        }
        19 => {
            // before and after references that matter
            let mut o = outline(g, sh, 2);
            let many = n * 64;
            let (a, b) = (o.oid, o.kids[0][0].oid);
            let ids: Vec<u32> = (0..many).map(|k| if k % 3 == 0 { b } else { a }).collect();
            let id = [0x24000001, 0x24004001][choose(D, 2)];
            o.extra.push((id, Val::Oids(ids)));
            (o, "times 64 unread references")
        }
        _ => {
            let mut t = new_node(g, K::Title);
            for k in 0..n {
                let o = outline(g, sh, k % 2);
                t.kids[0].push(o);
            }
            page.kids[0] = vec![t];
            return "title outlines";
        }
    };
    let at = choose(D, page.kids[1].len() + 1);
    page.kids[1].insert(at, new);
    what
}
