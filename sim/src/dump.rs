//! What the real reader returned, through its public accessors, in the model's dump format.

use crate::model::{blob_dump, dump_f32s, fbits, line, opt};
use onenote_parser::contents::*;
use onenote_parser::notebook::Notebook;
use onenote_parser::page::{Page, PageContent, Title};
use onenote_parser::property::common::{Color, ColorRef};
use onenote_parser::section::{Section, SectionEntry, SectionGroup};
use std::fmt::{Debug, Write};

fn kv(o: &mut String, ind: usize, k: &str, v: &str) {
    for _ in 0..ind {
        o.push(' ');
    }
    o.push_str(k);
    o.push('=');
    o.push_str(v);
    o.push('\n');
}
fn of(v: Option<f32>) -> String {
    v.map(fbits).unwrap_or("-".into())
}
fn os(v: Option<&str>) -> String {
    v.map(|s| format!("{s:?}")).unwrap_or("-".into())
}
fn odbg<T: Debug>(v: Option<T>) -> String {
    v.map(|s| format!("{s:?}")).unwrap_or("-".into())
}
pub fn color(v: Option<Color>) -> String {
    v.map(|c| format!("argb {} {} {} {}", c.alpha(), c.r(), c.g(), c.b())).unwrap_or("-".into())
}
fn cref(v: Option<ColorRef>) -> String {
    match v {
        None => "-".into(),
        Some(ColorRef::Auto) => "auto".into(),
        Some(ColorRef::Manual { r, g, b }) => format!("rgb {r} {g} {b}"),
    }
}
macro_rules! align {
    ($a:expr) => {
        match $a {
            None => "-".to_string(),
            Some(a) => format!(
                "{:?},{:?},{:?},{:?}",
                a.alignment_horizontal(),
                a.alignment_margin_horizontal(),
                a.alignment_vertical(),
                a.alignment_margin_vertical()
            ),
        }
    };
}

pub fn notebook(n: &Notebook) -> String {
    let mut o = String::new();
    line(&mut o, 0, "notebook");
    kv(&mut o, 1, "color", &color(n.color()));
    entries(n.entries(), 1, &mut o);
    o
}
fn entries(e: &[SectionEntry], ind: usize, o: &mut String) {
    line(o, ind, &format!("entries {}", e.len()));
    for x in e {
        match x {
            SectionEntry::Section(s) => section_at(s, ind + 1, o),
            SectionEntry::SectionGroup(g) => group(g, ind + 1, o),
        }
    }
}
fn group(g: &SectionGroup, ind: usize, o: &mut String) {
    line(o, ind, "group");
    kv(o, ind + 1, "name", &format!("{:?}", g.display_name()));
    entries(g.entries(), ind + 1, o);
}
pub fn section(s: &Section) -> String {
    let mut o = String::new();
    section_at(s, 0, &mut o);
    o
}
fn section_at(s: &Section, ind: usize, o: &mut String) {
    line(o, ind, "section");
    kv(o, ind + 1, "name", &format!("{:?}", s.display_name()));
    kv(o, ind + 1, "color", &color(s.color()));
    line(o, ind + 1, &format!("series {}", s.page_series().len()));
    for sr in s.page_series() {
        line(o, ind + 2, &format!("pages {}", sr.pages().len()));
        for p in sr.pages() {
            page(p, ind + 3, o);
        }
    }
}
fn page(p: &Page, ind: usize, o: &mut String) {
    kv(o, ind, "level", &p.level().to_string());
    kv(o, ind, "title_text", &format!("{:?}", p.title_text()));
    line(o, ind, "page");
    kv(o, ind + 1, "author", &os(p.author()));
    kv(o, ind + 1, "height", &of(p.height()));
    line(o, ind + 1, &format!("title {}", p.title().is_some() as u8));
    if let Some(t) = p.title() {
        title(t, ind + 2, o);
    }
    line(o, ind + 1, &format!("contents {}", p.contents().len()));
    for c in p.contents() {
        match c {
            PageContent::Outline(x) => outline(x, ind + 2, o),
            PageContent::Image(x) => image(x, ind + 2, o),
            PageContent::EmbeddedFile(x) => file(x, ind + 2, o),
            PageContent::Ink(x) => ink(x, ind + 2, o),
            _ => line(o, ind + 2, "unknown"),
        }
    }
}
fn title(t: &Title, ind: usize, o: &mut String) {
    line(o, ind, "title");
    kv(o, ind + 1, "offset_horizontal", &fbits(t.offset_horizontal()));
    kv(o, ind + 1, "offset_vertical", &fbits(t.offset_vertical()));
    kv(o, ind + 1, "layout_alignment_in_parent", &align!(t.layout_alignment_in_parent()));
    kv(o, ind + 1, "layout_alignment_self", &align!(t.layout_alignment_self()));
    line(o, ind + 1, &format!("contents {}", t.contents().len()));
    for x in t.contents() {
        outline(x, ind + 2, o);
    }
}
fn outline(x: &Outline, ind: usize, o: &mut String) {
    line(o, ind, "outline");
    let i = ind + 1;
    kv(o, i, "child_level", &x.child_level().to_string());
    kv(o, i, "list_spacing", &of(x.list_spacing()));
    kv(o, i, "indents", &dump_f32s(x.indents()));
    kv(o, i, "layout_alignment_in_parent", &align!(x.alignment_in_parent()));
    kv(o, i, "layout_alignment_self", &align!(x.alignment_self()));
    kv(o, i, "layout_max_height", &of(x.layout_max_height()));
    kv(o, i, "layout_max_width", &of(x.layout_max_width()));
    kv(o, i, "reserved_width", &of(x.layout_reserved_width()));
    kv(o, i, "minimum_width", &of(x.layout_minimum_outline_width()));
    kv(o, i, "size_set_by_user", &x.is_layout_size_set_by_user().to_string());
    kv(o, i, "offset_horizontal", &of(x.offset_horizontal()));
    kv(o, i, "offset_vertical", &of(x.offset_vertical()));
    items("items", x.items(), i, o);
}
fn items(n: &str, v: &[OutlineItem], ind: usize, o: &mut String) {
    line(o, ind, &format!("{n} {}", v.len()));
    for x in v {
        match x {
            OutlineItem::Group(g) => {
                line(o, ind + 1, "group");
                kv(o, ind + 2, "child_level", &g.child_level().to_string());
                items("items", g.outlines(), ind + 2, o);
            }
            OutlineItem::Element(e) => element(e, ind + 1, o),
        }
    }
}
fn element(e: &OutlineElement, ind: usize, o: &mut String) {
    line(o, ind, "element");
    let i = ind + 1;
    kv(o, i, "list_spacing", &of(e.list_spacing()));
    kv(o, i, "child_level", &e.child_level().to_string());
    line(o, i, &format!("contents {}", e.contents().len()));
    for c in e.contents() {
        match c {
            Content::RichText(x) => text(x, i + 1, o),
            Content::Table(x) => table(x, i + 1, o),
            Content::Image(x) => image(x, i + 1, o),
            Content::EmbeddedFile(x) => file(x, i + 1, o),
            Content::Ink(x) => ink(x, i + 1, o),
            _ => line(o, i + 1, "unknown"),
        }
    }
    line(o, i, &format!("list {}", e.list_contents().len()));
    for l in e.list_contents() {
        list(l, i + 1, o);
    }
    items("children", e.children(), i, o);
}
fn list(l: &List, ind: usize, o: &mut String) {
    line(o, ind, "list");
    let i = ind + 1;
    kv(o, i, "list_font", &os(l.list_font()));
    kv(o, i, "restart", &opt(l.list_restart()));
    kv(o, i, "format", &format!("{:?}", l.list_format()));
    kv(o, i, "bold", &l.bold().to_string());
    kv(o, i, "italic", &l.italic().to_string());
    kv(o, i, "font", &os(l.font()));
    kv(o, i, "font_size", &opt(l.font_size()));
    kv(o, i, "font_color", &cref(l.font_color()));
}
fn tags(v: &[NoteTag], ind: usize, o: &mut String) {
    line(o, ind, &format!("tags {}", v.len()));
    for t in v {
        let done = t.completed_at().map(|c| format!("{c:?}").chars().filter(|c| c.is_ascii_digit()).collect::<String>());
        let s = t.item_status();
        line(
            o,
            ind + 1,
            &format!(
                "tag completed={} status={}{}{}",
                done.unwrap_or("-".into()),
                s.completed() as u8,
                s.disabled() as u8,
                s.task_tag() as u8
            ),
        );
        match t.definition() {
            None => line(o, ind + 2, "def -"),
            Some(d) => {
                let s = d.status();
                let bits: String = [
                    s.has_label(),
                    s.has_font_color(),
                    s.has_highlight_color(),
                    s.has_icon(),
                    s.due_today(),
                    s.due_tomorrow(),
                    s.due_this_week(),
                    s.due_next_week(),
                    s.due_later(),
                    s.due_custom(),
                ]
                .iter()
                .map(|b| if *b { '1' } else { '0' })
                .collect();
                line(o, ind + 2, &format!("def {:?} {bits} {:?}", d.shape(), d.action_item_type()));
                kv(o, ind + 3, "label", &format!("{:?}", d.label()));
                kv(o, ind + 3, "highlight", &cref(d.highlight_color()));
                kv(o, ind + 3, "text_color", &cref(d.text_color()));
            }
        }
    }
}
fn style(s: &ParagraphStyling, ind: usize, o: &mut String) {
    line(o, ind, "style");
    let i = ind + 1;
    kv(o, i, "charset", &odbg(s.charset()));
    kv(o, i, "bold", &s.bold().to_string());
    kv(o, i, "italic", &s.italic().to_string());
    kv(o, i, "underline", &s.underline().to_string());
    kv(o, i, "strike", &s.strikethrough().to_string());
    kv(o, i, "super", &s.superscript().to_string());
    kv(o, i, "sub", &s.subscript().to_string());
    kv(o, i, "font", &os(s.font()));
    kv(o, i, "font_size", &opt(s.font_size()));
    kv(o, i, "font_color", &cref(s.font_color()));
    kv(o, i, "highlight", &cref(s.highlight()));
    kv(o, i, "next_style", &os(s.next_style()));
    kv(o, i, "style_id", &os(s.style_id()));
    kv(o, i, "paragraph_alignment", &odbg(s.paragraph_alignment()));
    kv(o, i, "space_before", &of(s.paragraph_space_before()));
    kv(o, i, "space_after", &of(s.paragraph_space_after()));
    kv(o, i, "line_spacing", &of(s.paragraph_line_spacing_exact()));
    kv(o, i, "lang", &opt(s.language_code()));
    kv(o, i, "hyperlink", &s.hyperlink().to_string());
    kv(o, i, "math", &s.math_formatting().to_string());
}
fn text(t: &RichText, ind: usize, o: &mut String) {
    line(o, ind, "text");
    let i = ind + 1;
    kv(o, i, "space_before", &fbits(t.paragraph_space_before()));
    kv(o, i, "space_after", &fbits(t.paragraph_space_after()));
    kv(o, i, "line_spacing", &of(t.paragraph_line_spacing_exact()));
    kv(o, i, "paragraph_alignment", &format!("{:?}", t.paragraph_alignment()));
    kv(o, i, "layout_alignment_in_parent", &align!(t.layout_alignment_in_parent()));
    kv(o, i, "layout_alignment_self", &align!(t.layout_alignment_self()));
    kv(o, i, "text", &format!("{:?}", t.text()));
    kv(o, i, "indices", &format!("{:?}", t.text_run_indices()));
    style(t.paragraph_style(), i, o);
    line(o, i, &format!("runs {}", t.text_run_formatting().len()));
    for s in t.text_run_formatting() {
        style(s, i + 1, o);
    }
    for m in t.math_inline_objects() {
        line(
            o,
            i,
            &format!(
                "math {:?} {} {} {} {} {} {}",
                m.object_type(),
                m.arg_count(),
                opt(m.column()),
                opt(m.align()),
                odbg(m.char()),
                odbg(m.char1()),
                odbg(m.char2())
            ),
        );
    }
    for e in t.embedded_objects() {
        match e {
            EmbeddedObject::Ink(c) => {
                let bb = match c.bounding_box() {
                    None => "-".into(),
                    Some(b) => format!("{} {} {} {}", fbits(b.x()), fbits(b.y()), fbits(b.height()), fbits(b.width())),
                };
                line(
                    o,
                    i,
                    &format!("embedded ink {bb} offset {} {}", of(c.ink().offset_horizontal()), of(c.ink().offset_vertical())),
                );
                strokes(c.ink(), i + 1, o);
            }
            EmbeddedObject::InkSpace(s) => line(o, i, &format!("embedded space {} {}", fbits(s.width()), fbits(s.height()))),
            EmbeddedObject::InkLineBreak => line(o, i, "embedded break"),
        }
    }
    tags(t.note_tags(), i, o);
}
fn strokes(k: &Ink, ind: usize, o: &mut String) {
    line(o, ind, &format!("strokes {}", k.ink_strokes().len()));
    for s in k.ink_strokes() {
        line(o, ind + 1, "stroke");
        kv(o, ind + 2, "pen_tip", &opt(s.pen_tip()));
        kv(o, ind + 2, "transparency", &opt(s.transparency()));
        kv(o, ind + 2, "height", &fbits(s.height()));
        kv(o, ind + 2, "width", &fbits(s.width()));
        kv(o, ind + 2, "color", &opt(s.color()));
        let mut t = String::from("path");
        for p in s.path() {
            let _ = write!(t, " {:08x},{:08x}", p.x().to_bits(), p.y().to_bits());
        }
        line(o, ind + 2, &t);
    }
    match k.bounding_box() {
        None => line(o, ind, "bbox -"),
        Some(b) => line(o, ind, &format!("bbox {} {} {} {}", fbits(b.x()), fbits(b.y()), fbits(b.width()), fbits(b.height()))),
    }
}
fn ink(k: &Ink, ind: usize, o: &mut String) {
    line(o, ind, "ink");
    kv(o, ind + 1, "offset_horizontal", &of(k.offset_horizontal()));
    kv(o, ind + 1, "offset_vertical", &of(k.offset_vertical()));
    strokes(k, ind + 1, o);
}
fn image(m: &Image, ind: usize, o: &mut String) {
    line(o, ind, "image");
    let i = ind + 1;
    kv(o, i, "layout_max_width", &of(m.layout_max_width()));
    kv(o, i, "layout_max_height", &of(m.layout_max_height()));
    kv(o, i, "alt_text", &os(m.alt_text()));
    kv(o, i, "layout_alignment_in_parent", &align!(m.layout_alignment_in_parent()));
    kv(o, i, "layout_alignment_self", &align!(m.layout_alignment_self()));
    kv(o, i, "filename", &os(m.image_filename()));
    kv(o, i, "page_number", &opt(m.displayed_page_number()));
    kv(o, i, "text", &os(m.text()));
    kv(o, i, "text_lang", &opt(m.text_language_code()));
    kv(o, i, "picture_width", &of(m.picture_width()));
    kv(o, i, "picture_height", &of(m.picture_height()));
    kv(o, i, "hyperlink", &os(m.hyperlink_url()));
    kv(o, i, "offset_horizontal", &of(m.offset_horizontal()));
    kv(o, i, "offset_vertical", &of(m.offset_vertical()));
    kv(o, i, "is_background", &m.is_background().to_string());
    tags(m.note_tags(), i, o);
    line(o, i, &format!("container {}", m.data().is_some() as u8));
    match m.data() {
        Some(d) => {
            line(o, i + 1, "picture");
            kv(o, i + 2, "ext", &os(m.extension()));
            kv(o, i + 2, "data", &blob_dump(d));
        }
        None => {
            if let Some(e) = m.extension() {
                line(o, i + 1, &format!("extension {e:?} without data"));
            }
        }
    }
    line(o, i, &format!("embeds {}", m.embeds().len()));
    for f in m.embeds() {
        line(o, i + 1, "iframe");
        kv(o, i + 2, "url", &format!("{:?}", f.source_url()));
        kv(o, i + 2, "type", &opt(f.embed_type()));
    }
}
fn file(f: &EmbeddedFile, ind: usize, o: &mut String) {
    line(o, ind, "file");
    let i = ind + 1;
    kv(o, i, "filename", &format!("{:?}", f.filename()));
    kv(o, i, "file_type", &format!("{:?}", f.file_type()));
    kv(o, i, "layout_max_width", &of(f.layout_max_width()));
    kv(o, i, "layout_max_height", &of(f.layout_max_height()));
    kv(o, i, "offset_horizontal", &of(f.offset_horizontal()));
    kv(o, i, "offset_vertical", &of(f.offset_vertical()));
    tags(f.note_tags(), i, o);
    line(o, i, "container 1");
    line(o, i + 1, "payload");
    kv(o, i + 2, "data", &blob_dump(f.data()));
}
fn table(t: &Table, ind: usize, o: &mut String) {
    line(o, ind, "table");
    let i = ind + 1;
    kv(o, i, "rows", &t.rows().to_string());
    kv(o, i, "cols", &t.cols().to_string());
    kv(o, i, "cols_locked", &format!("{:?}", t.cols_locked()));
    kv(o, i, "col_widths", &dump_f32s(t.col_widths()));
    kv(o, i, "borders_visible", &t.borders_visible().to_string());
    kv(o, i, "layout_alignment_in_parent", &align!(t.layout_alignment_in_parent()));
    kv(o, i, "layout_alignment_self", &align!(t.layout_alignment_self()));
    tags(t.note_tags(), i, o);
    line(o, i, &format!("contents {}", t.contents().len()));
    for r in t.contents() {
        line(o, i + 1, "row");
        line(o, i + 2, &format!("cells {}", r.contents().len()));
        for c in r.contents() {
            line(o, i + 3, "cell");
            kv(o, i + 4, "layout_max_width", &of(c.layout_max_width()));
            kv(o, i + 4, "indents", &dump_f32s(c.outline_indent_distance().value()));
            kv(o, i + 4, "background", &color(c.background_color()));
            line(o, i + 4, &format!("contents {}", c.contents().len()));
            for e in c.contents() {
                element(e, i + 5, o);
            }
        }
    }
}
