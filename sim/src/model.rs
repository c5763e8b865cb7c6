//! Executable reference model of a OneNote document: a generic node tree driven by a field table.
//! A node knows (a) what it stores (typed properties) and (b) what a reader must show for it.

use crate::ctx::{D, chance, choose, hash_bytes};
use std::fmt::Write;

// ---------------------------------------------------------------- stored values
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Empty,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Vec(Vec<u8>),
    Oid(u32),
    Oids(Vec<u32>),
    Osid(Cell),
    Osids(Vec<Cell>),
    Ctx(Cell),
    Ctxs(Vec<Cell>),
    Sets(u32, Vec<Props>),
    Set(Props),
    /// corruption only: value bytes of a vector whose declared length lies
    VecLie(u32, Vec<u8>),
    /// corruption only: reference array whose declared count lies
    OidsLie(u32, Vec<u32>),
    /// corruption only: array of property sets whose declared count lies
    SetsLie(u32, u32, Vec<Props>),
    /// corruption only: property sets nested that many levels, each through a set or an array of sets
    Deep(u32, bool),
}
pub type Props = Vec<(u32, Val)>;

/// A logical object space (context, space); context 0 is the current one.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Cell {
    pub ctx: u32,
    pub space: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ObjRec {
    pub oid: u32,
    pub jcid: u32,
    pub props: Props,
    /// payload id and bytes
    pub blob: Option<(u32, std::sync::Arc<Vec<u8>>)>,
    /// corruption only: which part of the record is malformed
    pub quirk: u8,
}

// ---------------------------------------------------------------- field table
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Bool,
    U8,
    U16,
    U32,
    U64,
    F32,
    Str,
    Align,
    PAlign,
    Charset,
    ColorRef,
    Color,
    FileType,
    Indents,
    Widths,
    Locked,
    I32,
    ListFmt,
    Guid,
    Level,
    Bias,
    PageSize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum R {
    /// optional, shown as "-" when absent
    Opt,
    /// always stored and shown
    Must,
    /// optional, shown as the documented default when absent
    Def(&'static str),
    /// stored, but not part of what a reader shows
    Hid,
    HidMust,
}
pub struct F {
    pub n: &'static str,
    pub p: u32,
    pub t: T,
    pub r: R,
}
const fn f(n: &'static str, p: u32, t: T, r: R) -> F {
    F { n, p, t, r }
}
pub struct Slot {
    pub n: &'static str,
    pub p: u32,
    pub one: bool,
    pub hidden: bool,
}
const fn sl(n: &'static str, p: u32, one: bool, hidden: bool) -> Slot {
    Slot { n, p, one, hidden }
}
pub struct Spec {
    pub n: &'static str,
    pub jcid: u32,
    pub fields: &'static [F],
    pub slots: &'static [Slot],
    pub tags: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(usize)]
pub enum K {
    Page,
    Title,
    Outline,
    Group,
    Element,
    Rich,
    Table,
    Row,
    Cell,
    Image,
    Picture,
    IFrame,
    File,
    FileBlob,
    Ink,
    InkData,
    Stroke,
    StrokeProps,
    List,
    Style,
    TagDef,
    Author,
    Unknown,
}

const LAP: F = f("layout_alignment_in_parent", 0x14001C3E, T::Align, R::Opt);
const LAS: F = f("layout_alignment_self", 0x14001C84, T::Align, R::Opt);
const LMW: F = f("layout_max_width", 0x14001C1B, T::F32, R::Opt);
const LMH: F = f("layout_max_height", 0x14001C1C, T::F32, R::Opt);
const OFH: F = f("offset_horizontal", 0x14001C14, T::F32, R::Opt);
const OFV: F = f("offset_vertical", 0x14001C15, T::F32, R::Opt);
const LM: F = f("last_modified", 0x14001D7A, T::U32, R::HidMust);
const LMO: F = f("last_modified", 0x14001D7A, T::U32, R::Hid);
const F0: &str = "00000000";

pub static SPECS: &[Spec] = &[
    Spec {
        n: "page",
        jcid: 0x6000B,
        fields: &[
            f("author", 0x1C001D75, T::Str, R::Opt),
            f("height", 0x14001C02, T::F32, R::Opt),
            LMO,
            f("cached_title", 0x1C001D3C, T::Str, R::Hid),
            f("portrait", 0x08001C8E, T::Bool, R::Hid),
            f("width", 0x14001C01, T::F32, R::Hid),
            f("margin_x", 0x14001D0F, T::F32, R::Hid),
            f("margin_left", 0x14001C4E, T::F32, R::Hid),
            f("page_size", 0x14001C8B, T::PageSize, R::Hid),
            f("rtl", 0x08001C92, T::Bool, R::Hid),
        ],
        slots: &[sl("title", 0x24001D5F, true, false), sl("contents", 0x24001C20, false, false)],
        tags: false,
    },
    Spec {
        n: "title",
        jcid: 0x6002C,
        fields: &[
            f("offset_horizontal", 0x14001C14, T::F32, R::Must),
            f("offset_vertical", 0x14001C15, T::F32, R::Must),
            LAP,
            LAS,
            LM,
        ],
        slots: &[sl("contents", 0x24001C20, false, false)],
        tags: false,
    },
    Spec {
        n: "outline",
        jcid: 0x6000C,
        fields: &[
            f("child_level", 0x0C001C03, T::Level, R::Must),
            f("list_spacing", 0x14001CCB, T::F32, R::Opt),
            f("indents", 0x1C001C12, T::Indents, R::Must),
            LAP,
            LAS,
            LMH,
            LMW,
            f("reserved_width", 0x14001CDB, T::F32, R::Opt),
            f("minimum_width", 0x14001CEC, T::F32, R::Opt),
            f("size_set_by_user", 0x08001CBD, T::Bool, R::Def("false")),
            OFH,
            OFV,
            LM,
            f("tight_alignment", 0x08001CFF, T::Bool, R::Hid),
            f("deletable", 0x08001D0C, T::Bool, R::Hid),
            f("title_date", 0x08001CB5, T::Bool, R::Hid),
            f("cannot_select", 0x08001CB2, T::Bool, R::Hid),
            f("read_only", 0x08001CDE, T::Bool, R::Hid),
            f("cannot_move", 0x08001CF9, T::Bool, R::Hid),
        ],
        slots: &[sl("items", 0x24001C20, false, false)],
        tags: false,
    },
    Spec {
        n: "group",
        jcid: 0x60019,
        fields: &[f("child_level", 0x0C001C03, T::Level, R::Must), LM],
        slots: &[sl("items", 0x24001C20, false, false)],
        tags: false,
    },
    Spec {
        n: "element",
        jcid: 0x6000D,
        fields: &[
            f("list_spacing", 0x14001CCB, T::F32, R::Opt),
            f("child_level", 0x0C001C03, T::Level, R::Must),
            f("created", 0x14001D09, T::U32, R::HidMust),
            LM,
            f("rtl", 0x08001C34, T::Bool, R::Hid),
            f("deletable", 0x08001D0C, T::Bool, R::Hid),
            f("title_text", 0x08001CB4, T::Bool, R::Hid),
        ],
        slots: &[
            sl("contents", 0x24001C1F, false, false),
            sl("list", 0x24001C26, false, false),
            sl("children", 0x24001C20, false, false),
        ],
        tags: false,
    },
    Spec {
        n: "text",
        jcid: 0x6000E,
        fields: &[
            f("space_before", 0x1400342E, T::F32, R::Def(F0)),
            f("space_after", 0x1400342F, T::F32, R::Def(F0)),
            f("line_spacing", 0x14003430, T::F32, R::Opt),
            f("paragraph_alignment", 0x0C003477, T::PAlign, R::Def("Left")),
            LAP,
            LAS,
            LM,
            f("tight_layout", 0x08001C00, T::Bool, R::Hid),
            f("title_time", 0x08001C87, T::Bool, R::Hid),
            f("boiler", 0x08001C88, T::Bool, R::Hid),
            f("lang", 0x10001CFE, T::U16, R::Hid),
            f("rtl", 0x08003476, T::Bool, R::Hid),
        ],
        slots: &[],
        tags: true,
    },
    Spec {
        n: "table",
        jcid: 0x60022,
        fields: &[
            f("rows", 0x14001D57, T::U32, R::Must),
            f("cols", 0x14001D58, T::U32, R::Must),
            f("cols_locked", 0x1C001D7D, T::Locked, R::Def("[]")),
            f("col_widths", 0x1C001D66, T::Widths, R::Def("[]")),
            f("borders_visible", 0x08001D5E, T::Bool, R::Def("true")),
            LAP,
            LAS,
            LM,
        ],
        slots: &[sl("contents", 0x24001C20, false, false)],
        tags: true,
    },
    Spec { n: "row", jcid: 0x60023, fields: &[LMO], slots: &[sl("cells", 0x24001C20, false, false)], tags: false },
    Spec {
        n: "cell",
        jcid: 0x60024,
        fields: &[
            LMW,
            f("indents", 0x1C001C12, T::Indents, R::Must),
            f("background", 0x14001E26, T::Color, R::Opt),
            LMO,
        ],
        slots: &[sl("contents", 0x24001C20, false, false)],
        tags: false,
    },
    Spec {
        n: "image",
        jcid: 0x60011,
        fields: &[
            LMW,
            LMH,
            f("alt_text", 0x1C001E58, T::Str, R::Opt),
            LAP,
            LAS,
            f("filename", 0x1C001DD7, T::Str, R::Opt),
            f("page_number", 0x14003480, T::U32, R::Opt),
            f("text", 0x1C001C22, T::Str, R::Opt),
            f("text_lang", 0x10001CFE, T::U16, R::Opt),
            f("picture_width", 0x140034CD, T::F32, R::Opt),
            f("picture_height", 0x140034CE, T::F32, R::Opt),
            f("hyperlink", 0x1C001E20, T::Str, R::Opt),
            OFH,
            OFV,
            f("is_background", 0x08001D13, T::Bool, R::Def("false")),
            LMO,
            f("size_set_by_user", 0x08001CBD, T::Bool, R::Hid),
            f("lang", 0x14001C3B, T::U32, R::Hid),
            f("upload_state", 0x140034CB, T::U32, R::Hid),
        ],
        slots: &[
            sl("container", 0x20001C3F, true, false),
            sl("embeds", 0x24001C1F, false, false),
            sl("web_container", 0x200034C8, true, true),
        ],
        tags: true,
    },
    Spec { n: "picture", jcid: 0x80039, fields: &[f("ext", 0x1C003424, T::Str, R::Opt)], slots: &[], tags: false },
    Spec {
        n: "iframe",
        jcid: 0x60058,
        fields: &[f("url", 0x1C0035F3, T::Str, R::Must), f("type", 0x140035F2, T::U32, R::Opt)],
        slots: &[],
        tags: false,
    },
    Spec {
        n: "file",
        jcid: 0x60035,
        fields: &[
            f("filename", 0x1C001D9C, T::Str, R::Must),
            f("file_type", 0x14001D24, T::FileType, R::Def("Unknown")),
            LMW,
            LMH,
            OFH,
            OFV,
            LM,
            f("size_set_by_user", 0x08001CBD, T::Bool, R::Hid),
            f("text", 0x1C001C22, T::Str, R::Hid),
            f("lang", 0x10001CFE, T::U16, R::Hid),
            f("source", 0x1C001D9D, T::Str, R::Hid),
            f("lap", 0x14001C3E, T::Align, R::Hid),
            f("pw", 0x140034CD, T::F32, R::Hid),
        ],
        slots: &[sl("container", 0x20001D9B, true, false), sl("icon", 0x20001C3F, true, true)],
        tags: true,
    },
    Spec { n: "payload", jcid: 0x80036, fields: &[], slots: &[], tags: false },
    Spec {
        n: "ink",
        jcid: 0x60014,
        fields: &[
            OFH,
            OFV,
            LMO,
            f("scale_x", 0x14001C46, T::F32, R::Hid),
            f("scale_y", 0x14001C47, T::F32, R::Hid),
        ],
        slots: &[sl("data", 0x20003415, true, true)],
        tags: false,
    },
    Spec { n: "inkdata", jcid: 0x2003B, fields: &[], slots: &[sl("strokes", 0x24003416, false, true)], tags: false },
    Spec {
        n: "stroke",
        jcid: 0x20047,
        fields: &[f("bias", 0x0C00341C, T::Bias, R::HidMust), f("lang", 0x14001C3B, T::U32, R::Hid)],
        slots: &[],
        tags: false,
    },
    Spec {
        n: "strokeprops",
        jcid: 0x120048,
        fields: &[
            f("pen_tip", 0x0C003412, T::U8, R::Opt),
            f("transparency", 0x0C003414, T::U8, R::Opt),
            f("height", 0x1400340D, T::F32, R::Must),
            f("width", 0x1400340C, T::F32, R::Must),
            f("color", 0x1400340F, T::U32, R::Opt),
            f("ignore_pressure", 0x08003411, T::Bool, R::Hid),
            f("raster", 0x0C003413, T::U8, R::Hid),
        ],
        slots: &[],
        tags: false,
    },
    Spec {
        n: "list",
        jcid: 0x60012,
        fields: &[
            f("list_font", 0x1C001C52, T::Str, R::Opt),
            f("restart", 0x14001CB7, T::I32, R::Opt),
            f("format", 0x1C001C1A, T::ListFmt, R::Must),
            f("bold", 0x08001C04, T::Bool, R::Def("false")),
            f("italic", 0x08001C05, T::Bool, R::Def("false")),
            f("font", 0x1C001C0A, T::Str, R::Opt),
            f("font_size", 0x10001C0B, T::U16, R::Opt),
            f("font_color", 0x14001C0C, T::ColorRef, R::Opt),
            LM,
            f("lang", 0x14001C3B, T::U32, R::Hid),
            f("msaa", 0x10001D0E, T::U16, R::Hid),
        ],
        slots: &[],
        tags: false,
    },
    Spec {
        n: "style",
        jcid: 0x12004D,
        fields: &[
            f("charset", 0x0C001D01, T::Charset, R::Opt),
            f("bold", 0x08001C04, T::Bool, R::Def("false")),
            f("italic", 0x08001C05, T::Bool, R::Def("false")),
            f("underline", 0x08001C06, T::Bool, R::Def("false")),
            f("strike", 0x08001C07, T::Bool, R::Def("false")),
            f("super", 0x08001C08, T::Bool, R::Def("false")),
            f("sub", 0x08001C09, T::Bool, R::Def("false")),
            f("font", 0x1C001C0A, T::Str, R::Opt),
            f("font_size", 0x10001C0B, T::U16, R::Opt),
            f("font_color", 0x14001C0C, T::ColorRef, R::Opt),
            f("highlight", 0x14001C0D, T::ColorRef, R::Opt),
            f("next_style", 0x1C00348A, T::Str, R::Opt),
            f("style_id", 0x1C00345A, T::Str, R::Opt),
            f("paragraph_alignment", 0x0C003477, T::PAlign, R::Opt),
            f("space_before", 0x1400342E, T::F32, R::Opt),
            f("space_after", 0x1400342F, T::F32, R::Opt),
            f("line_spacing", 0x14003430, T::F32, R::Opt),
            f("lang", 0x14001C3B, T::U32, R::Opt),
            f("hyperlink", 0x08001E14, T::Bool, R::Def("false")),
            f("hyperlink_protected", 0x08001E19, T::Bool, R::Hid),
            f("hidden", 0x08001E16, T::Bool, R::Hid),
            f("underline_type", 0x0C001E15, T::U8, R::Hid),
        ],
        slots: &[],
        tags: false,
    },
    Spec {
        n: "tagdef",
        jcid: 0x120043,
        fields: &[
            f("label", 0x1C003468, T::Str, R::Must),
            f("highlight", 0x14003465, T::ColorRef, R::Opt),
            f("text_color", 0x14003466, T::ColorRef, R::Opt),
        ],
        slots: &[],
        tags: false,
    },
    Spec { n: "author", jcid: 0x120001, fields: &[f("author", 0x1C001D75, T::Str, R::Hid)], slots: &[], tags: false },
    Spec { n: "unknown", jcid: 0x2000F, fields: &[LMO], slots: &[], tags: false },
];
pub fn spec(k: K) -> &'static Spec {
    &SPECS[k as usize]
}

// ---------------------------------------------------------------- nodes
#[derive(Clone, Debug, PartialEq)]
pub struct FV {
    pub val: Val,
    pub dump: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tag {
    pub def: Option<u32>, // shared tag definition oid
    pub created: u32,
    pub completed: Option<u32>,
    pub status: u16,
    pub extra: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Run {
    Plain,
    Math { ty: Option<u32>, count: Option<u32>, col: Option<u8>, align: Option<u8>, ch: [Option<u16>; 3] },
    /// dims: start_x, start_y, height, width, offset_h, offset_v
    Ink { data: Box<Node>, dims: [Option<u32>; 6] },
    Space { w: u32, h: u32 },
    Break,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Rich {
    pub unicode: Option<String>,
    pub ascii: Option<Vec<u8>>,
    pub nul_tail: bool,
    pub style: u32,
    pub runs: Vec<(u32, Run)>, // style oid, data
    pub indices: Vec<u32>,
    /// trailing plain runs carry no data entry
    pub trim_data: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ext {
    None,
    Rich(Box<Rich>),
    /// style category: 0 plain, 1 math, 2 ink, 3 ink space, 4 ink line break
    Style(u8),
    Blob(Option<std::sync::Arc<Vec<u8>>>),
    BBox(Option<[u32; 4]>),
    /// points per dimension, shared stroke properties oid
    Stroke(Vec<Vec<i64>>, u32),
    /// dimension order: indexes 0 = x, 1 = y, 2.. = other
    Dims(Vec<u8>),
    /// shape, status bits, action item type
    TagDef(u16, u32, u16),
    UnknownJcid(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub oid: u32,
    pub k: K,
    pub f: Vec<Option<FV>>,
    pub kids: Vec<Vec<Node>>,
    pub tags: Vec<Tag>,
    pub ext: Ext,
    /// properties the reader does not know
    pub extra: Props,
    pub author: u32,
}

// ---------------------------------------------------------------- generation
pub struct Gen {
    pub next_oid: u32,
    /// remaining node budget
    pub budget: i32,
    /// relative weights of rich, table, image, file, ink, unknown, empty
    pub w: [usize; 7],
    /// density of optional fields: 0 none .. 4 all
    pub density: usize,
    pub tag_p: usize,
    pub run_p: usize,
    pub extra_p: usize,
    pub group_p: usize,
    pub list_p: usize,
    pub big_blobs: bool,
    pub deep: usize,
    /// the bulky dimension, if any, and the most of it
    pub bulk: Option<(usize, usize)>,
    /// Something is so large that the history ends here.
    pub wide: bool,
}
impl Gen {
    pub fn oid(&mut self) -> u32 {
        self.next_oid += 1;
        self.next_oid
    }
    pub fn pick(&self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut k = choose(D, t.max(1));
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                return i;
            }
            k -= x;
        }
        0
    }
}
pub fn fbits(v: f32) -> String {
    format!("{:08x}", v.to_bits())
}
const FLOATS: &[f32] = &[
    1.0, 0.0, -1.5, 36.0, 0.5, 13.427_734, -0.0, 1.0e-40, 3.4e38, 100000.25, 0.1, 4.233_333_3, f32::INFINITY, -7.0, 2.5,
    f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::EPSILON, 16_777_216.0, -1.0e-40, f32::MAX, -36.0, 0.03125,
];
pub fn gen_f32() -> f32 {
    FLOATS[choose(D, FLOATS.len())]
}
/// Single bytes, with the ends of the range more often than chance would have them.
fn gen_byte() -> u8 {
    match choose(D, 6) {
        0 => 0,
        1 => 255,
        2 => [1, 127, 128, 254][choose(D, 4)],
        _ => choose(D, 256) as u8,
    }
}
/// Three colour bytes: arbitrary ones, black, white, a grey, one channel only.
fn gen_rgb() -> [u8; 3] {
    match choose(D, 8) {
        0 => [0; 3],
        1 => [255; 3],
        2 => [gen_byte(); 3],
        3 => {
            let mut c = [0; 3];
            c[choose(D, 3)] = gen_byte();
            c
        }
        _ => [gen_byte(), gen_byte(), gen_byte()],
    }
}
pub fn gen_u32() -> u32 {
    match choose(D, 8) {
        0 => 1,
        1 => 0,
        2 => 0xFFFF_FFFF,
        3 => 0x8000_0000,
        4 => choose(D, 100) as u32,
        5 => choose(D, 0x10000) as u32,
        6 => 0x00FF_FF00 | choose(D, 256) as u32,
        _ => (choose(D, 0x10000) as u32) << 16 | choose(D, 0x10000) as u32,
    }
}
pub fn gen_string() -> String {
    const AL: &[&str] = &["a", "B", "7", " ", "é", "ß", "漢", "字", "𝒳", "😀", "\u{fffd}", "\u{200f}", "\t", "\u{1}", "-", "\u{ffff}", "\r", "Ω",
        "\u{feff}", "\n", "\u{b}", "\u{a0}", "\u{ad}", "e\u{301}", "\u{2028}", "\u{85}", "\u{7f}", "\u{10ffff}", "\u{e000}", "\u{fffe}", "&amp;", "<", "\\", "\"", "'", "İ", "\u{fdea}", "\u{fddf}"];
    let len = match choose(D, 6) {
        0 => 1,
        1 => 0,
        2 => 2 + choose(D, 4),
        3 => 6 + choose(D, 20),
        4 => 3,
        _ => 30 + choose(D, 60),
    };
    const SPACE: &[&str] = &[" ", "\t", "\u{a0}", "\n", "\u{3000}", "\u{200b}", "\r"];
    let wide = choose(D, 4);
    // white space at the ends, a byte order mark in front, nothing but white space
    let pad = chance(D, 1, 5);
    let mut s = String::new();
    if pad {
        s.push_str([" ", "\t ", "\u{feff}", "\n", "\u{a0}"][choose(D, 5)]);
    }
    for _ in 0..len {
        let k = match wide {
            0 => AL[choose(D, 4)],
            1 => AL[choose(D, AL.len())],
            2 => AL[4 + choose(D, 8)],
            _ if pad => SPACE[choose(D, SPACE.len())],
            _ => AL[choose(D, AL.len())],
        };
        s.push_str(k);
    }
    if pad {
        s.push_str([" ", "\t", "\u{feff}", " \n", "\u{a0}"][choose(D, 5)]);
    }
    s
}
pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}
fn gen_str_val() -> FV {
    let s = gen_string();
    let mut b = utf16(&s);
    match choose(D, 4) {
        0 | 1 => {}
        2 => b.extend_from_slice(&[0, 0]),
        _ => b.extend_from_slice(&[0, 0, 0x41, 0, 0, 0]),
    }
    FV { val: Val::Vec(b), dump: format!("{s:?}") }
}
pub fn dump_f32s(v: &[f32]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        let _ = write!(s, "{:08x}", x.to_bits());
    }
    s.push(']');
    s
}
/// How many entries a list with a one byte count has.
fn gen_few() -> usize {
    match choose(D, 16) {
        15 => [127, 128, 254, 255][choose(D, 4)],
        k => k % 5,
    }
}
pub const CHARSETS: &[(u8, &str)] = &[
    (0, "Ansi"),
    (1, "Default"),
    (2, "Symbol"),
    (77, "Mac"),
    (128, "ShiftJis"),
    (129, "Hangul"),
    (130, "Johab"),
    (134, "Gb2312"),
    (136, "ChineseBig5"),
    (161, "Greek"),
    (162, "Turkish"),
    (163, "Vietnamese"),
    (177, "Hebrew"),
    (178, "Arabic"),
    (186, "Baltic"),
    (204, "Russian"),
    (222, "Thai"),
    (238, "EastEurope"),
    (255, "Oem"),
];
pub fn gen_val(t: T) -> FV {
    match t {
        T::Bool => {
            let b = choose(D, 2) == 0;
            FV { val: Val::Bool(b), dump: b.to_string() }
        }
        T::U8 => {
            let v = match choose(D, 4) {
                0 => 1,
                1 => choose(D, 12) as u8,
                2 => 42,
                _ => gen_byte(),
            };
            FV { val: Val::U8(v), dump: v.to_string() }
        }
        T::Level => {
            let v = [1u8, 0, 2, 3, 9, 255][choose(D, 6)];
            FV { val: Val::U8(v), dump: v.to_string() }
        }
        T::Bias => {
            let v = choose(D, 3) as u8;
            FV { val: Val::U8(v), dump: String::new() }
        }
        T::PageSize => {
            let v = choose(D, 16) as u32;
            FV { val: Val::U32(v), dump: String::new() }
        }
        T::U16 => {
            let v = gen_u32() as u16;
            FV { val: Val::U16(v), dump: v.to_string() }
        }
        T::U32 => {
            let v = gen_u32();
            FV { val: Val::U32(v), dump: v.to_string() }
        }
        T::I32 => {
            let v = gen_u32();
            FV { val: Val::U32(v), dump: (v as i32).to_string() }
        }
        T::U64 => {
            let v = (gen_u32() as u64) << 32 | gen_u32() as u64;
            FV { val: Val::U64(v), dump: v.to_string() }
        }
        T::F32 => {
            let v = gen_f32();
            FV { val: Val::U32(v.to_bits()), dump: fbits(v) }
        }
        T::Str => gen_str_val(),
        T::Align => {
            let h = choose(D, 6) as u32;
            let hm = choose(D, 2) as u32;
            let v = choose(D, 2) as u32;
            let vm = choose(D, 2) as u32;
            let none = chance(D, 1, 6);
            let junk = if chance(D, 1, 4) { 0x7F000000 & gen_u32() | 0x0006FFF0 & gen_u32() } else { 0 };
            let w = h | hm << 3 | v << 16 | vm << 19 | junk | if none { 1 << 31 } else { 0 };
            let dump = if none {
                "-".into()
            } else {
                format!(
                    "{},{},{},{}",
                    ["Unknown", "Left", "Center", "Right", "BiDiNormal", "BiDiReverse"][h as usize],
                    ["Right", "Left"][hm as usize],
                    ["Bottom", "Top"][v as usize],
                    ["Bottom", "Top"][vm as usize]
                )
            };
            FV { val: Val::U32(w), dump }
        }
        T::PAlign => {
            let v = [0u8, 1, 2, 3, 200][choose(D, 5)];
            FV { val: Val::U8(v), dump: ["Left", "Center", "Right", "Unknown", "Unknown"][v.min(3) as usize].into() }
        }
        T::Charset => {
            let (v, n) = CHARSETS[choose(D, CHARSETS.len())];
            FV { val: Val::U8(v), dump: n.into() }
        }
        T::ColorRef => {
            let c = gen_rgb();
            if chance(D, 1, 4) {
                FV { val: Val::U32(u32::from_le_bytes([c[0], c[1], c[2], 0xFF])), dump: "auto".into() }
            } else {
                FV { val: Val::U32(u32::from_le_bytes([c[0], c[1], c[2], 0])), dump: format!("rgb {} {} {}", c[0], c[1], c[2]) }
            }
        }
        T::Color => {
            let [r, g, b] = gen_rgb();
            let c = [r, g, b, gen_byte()];
            FV { val: Val::U32(u32::from_le_bytes(c)), dump: format!("argb {} {} {} {}", 255 - c[3], c[0], c[1], c[2]) }
        }
        T::FileType => {
            let k = choose(D, 2);
            FV { val: Val::U32(1 + k as u32), dump: ["Audio", "Video"][k].into() }
        }
        T::Indents => {
            let n = [1, 0, 2, 5, 40, [127, 128, 254, 255][choose(D, 4)]][choose(D, 6)];
            let v: Vec<f32> = (0..n).map(|_| gen_f32()).collect();
            let mut b = vec![n as u8, 0, 0, 0];
            if chance(D, 1, 4) {
                b[1] = 9;
                b[3] = 255;
            }
            for x in &v {
                b.extend_from_slice(&x.to_le_bytes());
            }
            FV { val: Val::Vec(b), dump: dump_f32s(&v) }
        }
        T::Widths => {
            let n = gen_few();
            let v: Vec<f32> = (0..n).map(|_| gen_f32()).collect();
            let mut b = vec![n as u8];
            for x in &v {
                b.extend_from_slice(&x.to_le_bytes());
            }
            FV { val: Val::Vec(b), dump: dump_f32s(&v) }
        }
        T::Locked => {
            let n = gen_few();
            let v: Vec<u8> = (0..n).map(|_| gen_byte()).collect();
            let mut b = vec![n as u8];
            b.extend_from_slice(&v);
            FV { val: Val::Vec(b), dump: format!("{v:?}") }
        }
        T::ListFmt => {
            let n = if chance(D, 1, 8) { [40, 255, 256, 300][choose(D, 4)] } else { choose(D, 6) };
            const AL: &[char] = &['.', '\u{0}', '1', '\u{fffd}', '(', '漢', '\u{2022}', '😀', '\u{3}', '\u{4}', ' ', '\u{feff}', '\n', '\u{1}', 'A'];
            let v: Vec<char> = (0..n).map(|_| AL[choose(D, AL.len())]).collect();
            let s: String = v.iter().collect();
            let u = utf16(&s);
            let mut b = ((u.len() / 2) as u16).to_le_bytes().to_vec();
            b.extend_from_slice(&u);
            FV { val: Val::Vec(b), dump: format!("{v:?}") }
        }
        T::Guid => {
            let k = choose(D, 256) as u8;
            FV { val: Val::Vec((0..16).map(|i| k.wrapping_mul(7).wrapping_add(i * 3)).collect()), dump: String::new() }
        }
    }
}

/// Everything a page shares between its objects.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Shared {
    pub styles: Vec<Node>,
    pub defs: Vec<Node>,
    pub authors: Vec<Node>,
    pub strokes: Vec<Node>,
}
impl Shared {
    pub fn all(&self) -> impl Iterator<Item = &Node> {
        self.styles.iter().chain(&self.defs).chain(&self.authors).chain(&self.strokes)
    }
    pub fn find<'a>(v: &'a [Node], oid: u32) -> &'a Node {
        v.iter().find(|n| n.oid == oid).expect("shared node")
    }
}

pub fn new_node(g: &mut Gen, k: K) -> Node {
    let s = spec(k);
    let dens = match g.density {
        0 => 0,
        4 => 4,
        _ => choose(D, 5),
    };
    let mut n = Node {
        oid: g.oid(),
        k,
        f: vec![],
        kids: s.slots.iter().map(|_| vec![]).collect(),
        tags: vec![],
        ext: Ext::None,
        extra: vec![],
        author: 0,
    };
    for fl in s.fields {
        let must = matches!(fl.r, R::Must | R::HidMust);
        let present = must
            || match dens {
                0 => false,
                1 => choose(D, 6) == 5,
                2 | 3 => choose(D, 2) == 1,
                _ => true,
            };
        n.f.push(if present { Some(gen_val(fl.t)) } else { None });
    }
    g.budget -= 1;
    n
}
/// (type bits, value) of a property the reader has no use for.
pub fn gen_unread(oid: u32) -> (u32, Val) {
    const NIL: u32 = crate::write::NIL;
    let nowhere = |k: usize| Cell { ctx: 0, space: 0x00E0_0000 + k as u32 };
    match choose(D, 16) {
        0 => (0x14, Val::U32(gen_u32())),
        1 => (0x20, Val::Oid(oid)),
        2 => (0x24, Val::Oids(vec![oid; choose(D, 4)])),
        3 => (0x1C, Val::Vec(vec![7; choose(D, 9)])),
        4 => (0x18, Val::U64(5)),
        5 => (0x40, Val::Sets(0x44000900, vec![vec![(0x20003F01, Val::Oid(oid)), (0x0C003F02, Val::U8(1))], vec![]])),
        6 => (0x44, Val::Set(vec![(0x14003F03, Val::U32(9)), (0x24003F04, Val::Oids(vec![oid, oid]))])),
        7 => (0x04, Val::Empty),
        8 => (0x10, Val::U16(3)),
        9 => (0x0C, Val::U8(200)),
        10 => (0x20, Val::Oid(NIL)),
        11 => (0x24, Val::Oids([vec![NIL], vec![oid, NIL], vec![NIL, NIL, oid], vec![NIL, oid, NIL]][choose(D, 4)].clone())),
        12 => (0x28, Val::Osid(nowhere(choose(D, 3)))),
        13 => (0x2C, Val::Osids((0..choose(D, 4)).map(nowhere).collect())),
        // contexts of the object's own space
        14 => (0x30, Val::Ctx(Cell { ctx: 1 + choose(D, 3) as u32, space: 0 })),
        _ => (0x34, Val::Ctxs((0..choose(D, 4)).map(|k| Cell { ctx: 1 + k as u32, space: 0 }).collect())),
    }
}
pub fn gen_extra(g: &mut Gen, n: &mut Node) {
    if g.extra_p == 0 || !chance(D, g.extra_p, 12) {
        return;
    }
    let cnt = 1 + choose(D, 2);
    for i in 0..cnt {
        let id = 0x3F00 + (choose(D, 64) as u32) * 4 + i as u32;
        let (t, v) = gen_unread(n.oid);
        n.extra.push((t << 24 | id, v));
    }
}

fn gen_tags(g: &mut Gen, sh: &mut Shared, n: &mut Node) {
    if g.tag_p == 0 || !chance(D, g.tag_p, 12) {
        return;
    }
    let cnt = 1 + choose(D, 3);
    for _ in 0..cnt {
        let t = gen_tag(g, sh);
        n.tags.push(t);
    }
}
pub fn gen_tag(g: &mut Gen, sh: &mut Shared) -> Tag {
    let def = match choose(D, 4) {
        0 => None,
        1 if !sh.defs.is_empty() => Some(sh.defs[choose(D, sh.defs.len())].oid),
        _ => Some(gen_def(g, sh)),
    };
    Tag {
        def,
        created: gen_u32(),
        completed: if choose(D, 2) == 1 { Some(gen_u32()) } else { None },
        status: choose(D, 8) as u16 | if chance(D, 1, 3) { 0xFFF8 & gen_u32() as u16 } else { 0 },
        extra: chance(D, 1, 3),
    }
}
pub fn gen_def(g: &mut Gen, sh: &mut Shared) -> u32 {
    let mut d = new_node(g, K::TagDef);
    let shape = choose(D, 144) as u16;
    let st = (choose(D, 16) | choose(D, 64) << 6) as u32 | if chance(D, 1, 4) { 0xFFFF_F030 & gen_u32() } else { 0 };
    let ty = match choose(D, 5) {
        0 => 0,
        1 => choose(D, 100) as u16,
        2 => 99,
        3 => 100 + choose(D, 6) as u16,
        _ => 106 + choose(D, 1000) as u16,
    };
    d.ext = Ext::TagDef(shape, st, ty);
    let o = d.oid;
    sh.defs.push(d);
    o
}
pub fn gen_style(g: &mut Gen, sh: &mut Shared, cat: u8) -> u32 {
    let have: Vec<u32> = sh.styles.iter().filter(|s| s.ext == Ext::Style(cat)).map(|s| s.oid).collect();
    if !have.is_empty() && (choose(D, 3) != 2 || g.budget <= 0) {
        return have[choose(D, have.len())];
    }
    let mut s = new_node(g, K::Style);
    s.ext = Ext::Style(cat);
    gen_extra(g, &mut s);
    let o = s.oid;
    sh.styles.push(s);
    o
}
fn gen_author(g: &mut Gen, sh: &mut Shared) -> u32 {
    if !sh.authors.is_empty() && (choose(D, 4) != 3 || g.budget <= 0) {
        return sh.authors[choose(D, sh.authors.len())].oid;
    }
    let a = new_node(g, K::Author);
    let o = a.oid;
    sh.authors.push(a);
    o
}
pub fn gen_run(g: &mut Gen, sh: &mut Shared) -> (u32, Run) {
    let k = choose(D, 10);
    match k {
        5 | 6 => {
            let st = gen_style(g, sh, 1);
            const TY: &[u32] = &[0, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 0x9000_0000];
            let o16 = |x: usize| -> Option<u16> {
                match x {
                    0 => None,
                    1 => Some(b'(' as u16),
                    2 => Some(0x222B),
                    _ => Some(0xE000 + x as u16),
                }
            };
            let run = Run::Math {
                ty: if choose(D, 4) == 0 { None } else { Some(TY[choose(D, TY.len())]) },
                count: if choose(D, 2) == 0 { None } else { Some(gen_u32()) },
                col: if choose(D, 2) == 0 { None } else { Some(choose(D, 256) as u8) },
                align: if choose(D, 2) == 0 { None } else { Some(choose(D, 256) as u8) },
                ch: [o16(choose(D, 5)), o16(choose(D, 5)), o16(choose(D, 5))],
            };
            (st, run)
        }
        7 => {
            let st = gen_style(g, sh, 2);
            let data = Box::new(gen_inkdata(g, sh));
            let mut dims = [None; 6];
            let full = choose(D, 2) == 0;
            for (i, d) in dims.iter_mut().enumerate() {
                if (i < 4 && full) || choose(D, 2) == 1 {
                    *d = Some(gen_f32().to_bits());
                }
            }
            (st, Run::Ink { data, dims })
        }
        8 => (gen_style(g, sh, 3), Run::Space { w: gen_f32().to_bits(), h: gen_f32().to_bits() }),
        9 => (gen_style(g, sh, 4), Run::Break),
        _ => (gen_style(g, sh, 0), Run::Plain),
    }
}
fn gen_rich_node(g: &mut Gen, sh: &mut Shared) -> Node {
    let mut n = new_node(g, K::Rich);
    let style = gen_style(g, sh, 0);
    let mut r = Rich { unicode: None, ascii: None, nul_tail: false, style, runs: vec![], indices: vec![], trim_data: false };
    match choose(D, 6) {
        0..=2 => r.unicode = Some(gen_string()),
        3 => r.ascii = Some((0..choose(D, 12)).map(|_| if chance(D, 1, 3) { gen_byte().max(1) } else { (33 + choose(D, 222)) as u8 }).collect()),
        4 => {
            r.unicode = Some(gen_string());
            r.ascii = Some(vec![b'x'; choose(D, 3)]);
        }
        _ => {}
    }
    r.nul_tail = chance(D, 1, 4);
    if g.run_p > 0 && chance(D, g.run_p, 12) {
        let cnt = 1 + choose(D, 5);
        let plain_only = choose(D, 3) == 0;
        for _ in 0..cnt {
            let run = if plain_only { (gen_style(g, sh, 0), Run::Plain) } else { gen_run(g, sh) };
            r.runs.push(run);
        }
        let mut at = 0;
        for _ in 0..cnt {
            at += choose(D, 9) as u32;
            r.indices.push(at);
        }
        r.trim_data = choose(D, 2) == 1;
    }
    n.ext = Ext::Rich(Box::new(r));
    gen_tags(g, sh, &mut n);
    gen_extra(g, &mut n);
    n
}
pub fn gen_payload(g: &Gen) -> std::sync::Arc<Vec<u8>> {
    let len = match choose(D, if g.big_blobs { 10 } else { 6 }) {
        0 => 5,
        1 => 0,
        2 => 1,
        3 => 127 + choose(D, 3),
        4 => choose(D, 300),
        5 => 64,
        6 => 16383 + choose(D, 3),
        7 => 4000 + choose(D, 9000),
        // around the largest length that a record header holds without an extension
        8 => 32750 + choose(D, 20),
        _ => 65536 + choose(D, 3),
    };
    let seed = choose(D, 1 << 16) as u64;
    let mut r = crate::ctx::Rng::new(seed ^ 0xB10B);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(len);
    shape_payload(&mut v);
    std::sync::Arc::new(v)
}
/// Gives some of the payloads contents a reader could be tempted to interpret: runs of zeros, white
/// space and line ends, byte order marks, the magic numbers of other formats.
fn shape_payload(v: &mut [u8]) {
    let n = v.len();
    if n == 0 {
        return;
    }
    match choose(D, 8) {
        0 => v.fill(0),
        1 => {
            let k = 1 + choose(D, n.min(40));
            v[n - k..].fill(0);
        }
        2 => {
            let k = 1 + choose(D, n.min(40));
            v[..k].fill([0, b' ', 0xFF][choose(D, 3)]);
        }
        3 => {
            const HEADS: &[&[u8]] = &[
                b"\x89PNG\r\n\x1a\n",
                b"PK\x03\x04",
                b"%PDF-1.7\n",
                b"\x1f\x8b\x08",
                b"\xef\xbb\xbf",
                b"\xff\xfe",
                b"\xff\xd8\xff\xe0",
                b"GIF89a",
                b"<?xml version=\"1.0\"?>",
                b"<ifndf>{",
                b"\xe4\x52\x5c\x7b\x8c\xd8\xa7\x4d\xae\xb1\x53\x78\xd0\x29\x96\xd3",
                b"\xe7\x16\xe3\xbd\x65\x26\x11\x45\xa4\xc4\x8d\x4d\x0b\x7a\x9e\xac",
            ];
            let h = HEADS[choose(D, HEADS.len())];
            let k = h.len().min(n);
            v[..k].copy_from_slice(&h[..k]);
        }
        4 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = b"line\r\n \t\n"[i % 9];
            }
        }
        _ => {}
    }
}
fn gen_blob_node(g: &mut Gen, k: K, must: bool) -> Node {
    let mut n = new_node(g, k);
    let b = if must || choose(D, 8) != 7 { Some(gen_payload(g)) } else { None };
    n.ext = Ext::Blob(b);
    n
}
fn gen_strokeprops(g: &mut Gen, sh: &mut Shared) -> u32 {
    if !sh.strokes.is_empty() && (choose(D, 2) == 0 || g.budget <= 0) {
        return sh.strokes[choose(D, sh.strokes.len())].oid;
    }
    let mut p = new_node(g, K::StrokeProps);
    p.ext = Ext::Dims([vec![0, 1], vec![1, 0], vec![0, 1, 2], vec![2, 0, 1], vec![1, 3, 0, 2], vec![0, 2, 1]][choose(D, 6)].clone());
    let o = p.oid;
    sh.strokes.push(p);
    o
}
fn gen_coord() -> i64 {
    match choose(D, 9) {
        0 => 1,
        1 => 0,
        2 => -1,
        3 => choose(D, 200) as i64 - 100,
        4 => 63 + choose(D, 3) as i64,
        5 => -(63 + choose(D, 3) as i64),
        6 => choose(D, 1 << 20) as i64 - (1 << 19),
        7 => 8191 + choose(D, 3) as i64,
        _ => [1i64 << 40, -(1i64 << 40), 1 << 62, -(1 << 61)][choose(D, 4)],
    }
}
fn gen_stroke(g: &mut Gen, sh: &mut Shared) -> Node {
    let mut s = new_node(g, K::Stroke);
    let p = gen_strokeprops(g, sh);
    let dims = match &Shared::find(&sh.strokes, p).ext {
        Ext::Dims(d) => d.len(),
        _ => 2,
    };
    let pts = [1, 0, 2, 3, 7, 30][choose(D, 6)];
    let v = (0..dims).map(|_| (0..pts).map(|_| gen_coord()).collect()).collect();
    s.ext = Ext::Stroke(v, p);
    s
}
fn gen_inkdata(g: &mut Gen, sh: &mut Shared) -> Node {
    let mut d = new_node(g, K::InkData);
    d.ext = Ext::BBox(if choose(D, 4) == 3 {
        None
    } else {
        // large values are chosen so that single precision holds them and their differences exactly
        let unit = if choose(D, 8) == 7 { 1 << 19 } else { 1 };
        let x = if chance(D, 1, 6) { 0 } else { choose(D, 5000) as u32 };
        let y = if chance(D, 1, 6) { 0 } else { choose(D, 5000) as u32 };
        let w = if chance(D, 1, 4) { 0 } else { choose(D, 3000) as u32 };
        let h = if chance(D, 1, 4) { 0 } else { choose(D, 3000) as u32 };
        Some([x * unit, y * unit, (x + w) * unit, (y + h) * unit])
    });
    let cnt = choose(D, 4);
    for _ in 0..cnt {
        let s = gen_stroke(g, sh);
        d.kids[0].push(s);
    }
    d
}
pub const UNKNOWN_JCIDS: &[u32] = &[0x20044, 0x8003A, 0x60012, 0x6002C, 0x80039, 0x6000B];

pub fn gen_content(g: &mut Gen, sh: &mut Shared, depth: usize, on_page: bool) -> Node {
    let w = g.w;
    let mut kind = g.pick(&w);
    if depth > g.deep && kind == 1 {
        kind = 0;
    }
    if on_page && kind <= 1 {
        return gen_outline(g, sh, depth);
    }
    let mut n = match kind {
        0 => return gen_rich_node(g, sh),
        1 => {
            let mut t = new_node(g, K::Table);
            let rows = choose(D, 4);
            let cols = choose(D, 4);
            for _ in 0..rows {
                let mut r = new_node(g, K::Row);
                for _ in 0..cols {
                    let mut c = new_node(g, K::Cell);
                    let els = [1, 0, 1, 2][choose(D, 4)];
                    for _ in 0..els {
                        let e = gen_element(g, sh, depth + 1);
                        c.kids[0].push(e);
                    }
                    gen_extra(g, &mut c);
                    r.kids[0].push(c);
                }
                t.kids[0].push(r);
            }
            // stored dimensions normally agree with the content
            if choose(D, 4) != 3 {
                t.f[0] = Some(FV { val: Val::U32(rows as u32), dump: rows.to_string() });
                t.f[1] = Some(FV { val: Val::U32(cols as u32), dump: cols.to_string() });
            }
            gen_tags(g, sh, &mut t);
            t
        }
        2 => {
            let mut n = new_node(g, K::Image);
            if choose(D, 5) != 4 {
                let c = gen_blob_node(g, K::Picture, false);
                n.kids[0].push(c);
            }
            let e = choose(D, 4);
            for _ in 0..e.saturating_sub(1) {
                let i = new_node(g, K::IFrame);
                n.kids[1].push(i);
            }
            if chance(D, 1, 4) {
                let c = gen_blob_node(g, K::Picture, false);
                n.kids[2].push(c);
            }
            gen_tags(g, sh, &mut n);
            n
        }
        3 => {
            let mut n = new_node(g, K::File);
            let c = gen_blob_node(g, K::FileBlob, true);
            n.kids[0].push(c);
            if chance(D, 1, 3) {
                let c = gen_blob_node(g, K::Picture, false);
                n.kids[1].push(c);
            }
            gen_tags(g, sh, &mut n);
            n
        }
        4 => {
            let mut n = new_node(g, K::Ink);
            // scales: keep them ordinary numbers
            for i in [3, 4] {
                if n.f[i].is_some() || choose(D, 2) == 1 {
                    let v = [1.0f32, 2.0, 0.5, 0.037_795_275, 3.25][choose(D, 5)];
                    n.f[i] = Some(FV { val: Val::U32(v.to_bits()), dump: String::new() });
                }
            }
            if choose(D, 6) != 5 {
                let d = gen_inkdata(g, sh);
                n.kids[0].push(d);
            }
            n
        }
        _ => {
            let mut n = new_node(g, K::Unknown);
            n.ext = Ext::UnknownJcid(UNKNOWN_JCIDS[choose(D, if on_page { 5 } else { UNKNOWN_JCIDS.len() })]);
            n
        }
    };
    gen_extra(g, &mut n);
    n
}
pub fn gen_element(g: &mut Gen, sh: &mut Shared, depth: usize) -> Node {
    let mut e = new_node(g, K::Element);
    e.author = gen_author(g, sh);
    let cnt = [1, 0, 1, 2, 1, 3][choose(D, 6)];
    for _ in 0..cnt {
        if g.budget <= 0 {
            break;
        }
        let c = gen_content(g, sh, depth, false);
        e.kids[0].push(c);
    }
    if g.list_p > 0 && chance(D, g.list_p, 12) {
        let m = 1 + choose(D, 2);
        for _ in 0..m {
            let l = new_node(g, K::List);
            e.kids[1].push(l);
        }
    }
    if depth < g.deep + 2 && g.budget > 0 && choose(D, 3) == 2 {
        let m = 1 + choose(D, 2);
        for _ in 0..m {
            let i = gen_item(g, sh, depth + 1);
            e.kids[2].push(i);
        }
    }
    gen_extra(g, &mut e);
    e
}
pub fn gen_item(g: &mut Gen, sh: &mut Shared, depth: usize) -> Node {
    if g.group_p > 0 && depth < g.deep + 2 && chance(D, g.group_p, 12) {
        let mut gr = new_node(g, K::Group);
        let m = choose(D, 3);
        for _ in 0..m {
            let i = gen_item(g, sh, depth + 1);
            gr.kids[0].push(i);
        }
        return gr;
    }
    gen_element(g, sh, depth)
}
pub fn gen_outline(g: &mut Gen, sh: &mut Shared, depth: usize) -> Node {
    let mut o = new_node(g, K::Outline);
    let m = [1, 2, 0, 3][choose(D, 4)];
    for _ in 0..m {
        if g.budget <= 0 {
            break;
        }
        let i = gen_item(g, sh, depth + 1);
        o.kids[0].push(i);
    }
    gen_extra(g, &mut o);
    o
}
pub fn gen_title(g: &mut Gen, sh: &mut Shared) -> Node {
    let mut t = new_node(g, K::Title);
    let m = [1, 0, 1, 2][choose(D, 4)];
    for _ in 0..m {
        let o = gen_outline(g, sh, 2);
        t.kids[0].push(o);
    }
    gen_extra(g, &mut t);
    t
}
pub fn gen_page_node(g: &mut Gen, sh: &mut Shared) -> Node {
    let mut p = new_node(g, K::Page);
    if choose(D, 4) != 0 {
        let t = gen_title(g, sh);
        p.kids[0].push(t);
    }
    let m = choose(D, 4);
    for _ in 0..m {
        if g.budget <= 0 {
            break;
        }
        let c = gen_content(g, sh, 0, true);
        p.kids[1].push(c);
    }
    gen_extra(g, &mut p);
    p
}
/// A fresh child suitable for the given slot.
pub fn gen_kid(g: &mut Gen, sh: &mut Shared, parent: K, slot: usize) -> Option<Node> {
    Some(match (parent, slot) {
        (K::Page, 0) => gen_title(g, sh),
        (K::Page, 1) => gen_content(g, sh, 0, true),
        (K::Title, 0) => gen_outline(g, sh, 2),
        (K::Outline, 0) | (K::Group, 0) | (K::Element, 2) => gen_item(g, sh, 3),
        (K::Element, 0) => gen_content(g, sh, 2, false),
        (K::Element, 1) => new_node(g, K::List),
        (K::Table, 0) => new_node(g, K::Row),
        (K::Row, 0) => {
            let mut c = new_node(g, K::Cell);
            let e = gen_element(g, sh, 3);
            c.kids[0].push(e);
            c
        }
        (K::Cell, 0) => gen_element(g, sh, 3),
        (K::Image, 0) | (K::Image, 2) | (K::File, 1) => gen_blob_node(g, K::Picture, false),
        (K::Image, 1) => new_node(g, K::IFrame),
        (K::File, 0) => gen_blob_node(g, K::FileBlob, true),
        (K::Ink, 0) => gen_inkdata(g, sh),
        (K::InkData, 0) => gen_stroke(g, sh),
        _ => return None,
    })
}

// ---------------------------------------------------------------- edits
fn count_nodes(n: &Node) -> usize {
    1 + n.kids.iter().flatten().map(count_nodes).sum::<usize>()
}
pub fn tree_size(n: &Node) -> usize {
    count_nodes(n)
}
fn nth_mut(n: &mut Node, k: &mut usize) -> Option<*mut Node> {
    if *k == 0 {
        return Some(n as *mut Node);
    }
    *k -= 1;
    for s in n.kids.iter_mut() {
        for c in s.iter_mut() {
            if let Some(p) = nth_mut(c, k) {
                return Some(p);
            }
        }
    }
    None
}
/// One random edit somewhere in the page; returns a short description.
pub fn edit(g: &mut Gen, root: &mut Node, sh: &mut Shared) -> String {
    let total = count_nodes(root);
    // shared objects are edited too
    let shared_n = sh.styles.len() + sh.defs.len() + sh.strokes.len();
    let pick = choose(D, total + shared_n.min(total));
    if pick >= total {
        let mut i = pick - total;
        let n = if i < sh.styles.len() {
            &mut sh.styles[i]
        } else {
            i -= sh.styles.len();
            if i < sh.defs.len() {
                &mut sh.defs[i]
            } else {
                i -= sh.defs.len();
                &mut sh.strokes[i]
            }
        };
        edit_field(n);
        return format!("change a field of {} {}", spec(n.k).n, n.oid);
    }
    let mut k = pick;
    let p = nth_mut(root, &mut k).unwrap();
    let n: &mut Node = unsafe { &mut *p };
    let what = choose(D, 8);
    let slots = n.kids.len();
    match what {
        1 | 2 | 3 if slots > 0 => {
            let s = choose(D, slots);
            let one = spec(n.k).slots[s].one;
            let len = n.kids[s].len();
            match what {
                1 => {
                    if let Some(c) = gen_kid(g, sh, n.k, s) {
                        if one {
                            n.kids[s] = vec![c];
                            return format!("replace {} of {} {}", spec(n.k).slots[s].n, spec(n.k).n, n.oid);
                        }
                        let at = choose(D, len + 1);
                        n.kids[s].insert(len - at, c);
                        return format!("insert into {} of {} {}", spec(n.k).slots[s].n, spec(n.k).n, n.oid);
                    }
                }
                2 if len > 0 && !(n.k == K::File && s == 0) => {
                    let at = choose(D, len);
                    n.kids[s].remove(at);
                    return format!("delete from {} of {} {}", spec(n.k).slots[s].n, spec(n.k).n, n.oid);
                }
                _ if len > 1 => {
                    let a = choose(D, len);
                    let b = choose(D, len);
                    n.kids[s].swap(a, b);
                    return format!("reorder {} of {} {}", spec(n.k).slots[s].n, spec(n.k).n, n.oid);
                }
                _ => {}
            }
        }
        4 | 5 if spec(n.k).tags && g.tag_p > 0 => {
            let len = n.tags.len();
            match choose(D, 4) {
                0 => {
                    let t = gen_tag(g, sh);
                    let at = choose(D, len + 1);
                    n.tags.insert(at, t);
                }
                1 if len > 0 => {
                    n.tags.remove(choose(D, len));
                }
                2 if len > 1 => n.tags.swap(choose(D, len), choose(D, len)),
                _ if len > 0 => {
                    let t = gen_tag(g, sh);
                    let at = choose(D, len);
                    n.tags[at] = t;
                }
                _ => {}
            }
            return format!("change tags of {} {}", spec(n.k).n, n.oid);
        }
        _ => {}
    }
    // payload / runs / path edits
    match &mut n.ext {
        Ext::Blob(b) => {
            *b = Some(gen_payload(g));
            return format!("replace payload of {}", n.oid);
        }
        Ext::Rich(r) if choose(D, 2) == 1 => {
            let len = r.runs.len();
            match choose(D, 5) {
                0 if g.run_p > 0 => {
                    let run = gen_run(g, sh);
                    r.runs.insert(choose(D, len + 1), run);
                    r.indices.push(len as u32 * 3);
                }
                1 if len > 0 => {
                    r.runs.remove(choose(D, len));
                    r.indices.pop();
                }
                2 if len > 1 => {
                    let a = choose(D, len);
                    let b = choose(D, len);
                    r.runs.swap(a, b)
                }
                _ => r.unicode = Some(gen_string()),
            }
            return format!("edit text {}", n.oid);
        }
        Ext::Stroke(v, _) => {
            for d in v.iter_mut() {
                d.push(gen_coord());
            }
            return format!("extend stroke {}", n.oid);
        }
        _ => {}
    }
    edit_field(n);
    format!("change a field of {} {}", spec(n.k).n, n.oid)
}
fn edit_field(n: &mut Node) {
    let s = spec(n.k);
    if s.fields.is_empty() {
        return;
    }
    let cnt = 1 + choose(D, 2);
    for _ in 0..cnt {
        let i = choose(D, s.fields.len());
        let fl = &s.fields[i];
        if n.k == K::Ink && i >= 3 {
            continue;
        }
        let must = matches!(fl.r, R::Must | R::HidMust);
        n.f[i] = if !must && choose(D, 3) == 2 { None } else { Some(gen_val(fl.t)) };
    }
}

// ---------------------------------------------------------------- stored form
const GUID_X: [u8; 16] = [0x8f, 0x6a, 0x8a, 0x59, 0xc0, 0x52, 0xa0, 0x4b, 0x93, 0xaf, 0xaf, 0x35, 0x74, 0x11, 0xa5, 0x61];
const GUID_Y: [u8; 16] = [0x75, 0x9f, 0x3f, 0xb5, 0xe0, 0x04, 0x98, 0x44, 0xa7, 0xee, 0xc3, 0x0d, 0xbb, 0x5a, 0x90, 0x11];

fn varint(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn f32p(p: u32, v: &Option<u32>, out: &mut Props) {
    if let Some(x) = v {
        out.push((p, Val::U32(*x)));
    }
}
fn run_props(r: &Run) -> Props {
    let mut p = vec![];
    match r {
        Run::Plain | Run::Break => {}
        Run::Math { ty, count, col, align, ch } => {
            f32p(0x1400344F, ty, &mut p);
            f32p(0x14003450, count, &mut p);
            if let Some(x) = col {
                p.push((0x0C003451, Val::U8(*x)));
            }
            if let Some(x) = align {
                p.push((0x0C003452, Val::U8(*x)));
            }
            for (i, c) in ch.iter().enumerate() {
                if let Some(x) = c {
                    p.push((0x10003453 + i as u32, Val::U16(*x)));
                }
            }
        }
        Run::Ink { dims, .. } => {
            for (d, id) in dims.iter().zip([0x1400349Eu32, 0x1400349F, 0x140034A1, 0x140034A0, 0x140034A2, 0x140034A3]) {
                f32p(id, d, &mut p);
            }
        }
        Run::Space { w, h } => {
            p.push((0x14001C27, Val::U32(*w)));
            p.push((0x14001C28, Val::U32(*h)));
        }
    }
    p
}
/// Append the stored records of the node and everything below it.
pub fn compile(n: &Node, sh: &Shared, out: &mut Vec<ObjRec>) {
    let s = spec(n.k);
    let mut props: Props = vec![];
    for (fl, v) in s.fields.iter().zip(&n.f) {
        if let Some(v) = v {
            props.push((fl.p, v.val.clone()));
        }
    }
    let mut blob = None;
    let mut jcid = s.jcid;
    if n.k == K::Picture && n.oid % 5 == 2 {
        // a printout: the same container under the XPS type
        jcid = 0x8003A;
        crate::ctx::count("gen.xps_container");
    }
    for (i, slot) in s.slots.iter().enumerate() {
        let kids = &n.kids[i];
        let req = matches!(
            (n.k, i),
            (K::Table, 0) | (K::Row, 0) | (K::Cell, 0) | (K::Title, 0) | (K::InkData, 0)
        );
        if kids.is_empty() && !req {
            continue;
        }
        if slot.one && slot.p >> 24 == 0x20 {
            props.push((slot.p, Val::Oid(kids[0].oid)));
        } else {
            props.push((slot.p, Val::Oids(kids.iter().map(|k| k.oid).collect())));
        }
    }
    if n.k == K::Element {
        props.push((0x20001D78, Val::Oid(n.author)));
        props.push((0x20001D79, Val::Oid(n.author)));
    }
    match &n.ext {
        Ext::Rich(r) => {
            props.push((0x2000342C, Val::Oid(r.style)));
            if let Some(u) = &r.unicode {
                let mut b = utf16(u);
                if r.nul_tail {
                    b.extend_from_slice(&[0, 0]);
                }
                props.push((0x1C001C22, Val::Vec(b)));
            }
            if let Some(a) = &r.ascii {
                props.push((0x1C003498, Val::Vec(a.clone())));
            }
            if !r.runs.is_empty() {
                props.push((0x24001E13, Val::Oids(r.runs.iter().map(|x| x.0).collect())));
                let inks: Vec<u32> =
                    r.runs.iter().filter_map(|x| if let Run::Ink { data, .. } = &x.1 { Some(data.oid) } else { None }).collect();
                if !inks.is_empty() {
                    props.push((0x24003458, Val::Oids(inks)));
                }
                let mut sets: Vec<Props> = r.runs.iter().map(|x| run_props(&x.1)).collect();
                if r.trim_data {
                    while r.runs.get(sets.len().wrapping_sub(1)).is_some_and(|x| x.1 == Run::Plain) {
                        sets.pop();
                    }
                }
                if !sets.is_empty() {
                    props.push((0x40003499, Val::Sets(0x44000811, sets)));
                }
            }
            if !r.indices.is_empty() {
                props.push((0x1C001E12, Val::Vec(r.indices.iter().flat_map(|i| i.to_le_bytes()).collect())));
            }
        }
        Ext::Style(c) => match c {
            1 => props.push((0x08003401, Val::Bool(true))),
            2..=4 => {
                props.push((0x08001E22, Val::Bool(true)));
                if *c > 2 {
                    props.push((0x14003457, Val::U32(if *c == 3 { 0x20026 } else { 0x20027 })));
                }
            }
            _ => {}
        },
        Ext::Blob(b) => blob = b.clone().map(|b| (n.oid, b)),
        Ext::BBox(b) => {
            if let Some(b) = b {
                props.push((0x1C003418, Val::Vec(b.iter().flat_map(|i| i.to_le_bytes()).collect())));
            }
        }
        Ext::Stroke(v, p) => {
            let total: usize = v.iter().map(|d| d.len()).sum();
            let mut b = vec![];
            varint(&mut b, (total as u64) << 1);
            for x in v.iter().flatten() {
                varint(&mut b, x.unsigned_abs() << 1 | if *x < 0 { 1 } else { 0 });
            }
            props.push((0x1C00340B, Val::Vec(b)));
            props.push((0x20003409, Val::Oid(*p)));
        }
        Ext::Dims(d) => {
            let mut b = vec![];
            for k in d {
                match k {
                    0 => b.extend_from_slice(&GUID_X),
                    1 => b.extend_from_slice(&GUID_Y),
                    k => b.extend_from_slice(&[*k; 16]),
                }
                b.extend_from_slice(&(-1000i32).to_le_bytes());
                b.extend_from_slice(&90000i32.to_le_bytes());
                b.extend_from_slice(&[0; 8]);
            }
            props.push((0x1C00340A, Val::Vec(b)));
        }
        Ext::TagDef(sh, st, ty) => {
            props.push((0x10003464, Val::U16(*sh)));
            props.push((0x14003467, Val::U32(*st)));
            props.push((0x10003463, Val::U16(*ty)));
        }
        Ext::UnknownJcid(j) => jcid = *j,
        Ext::None => {}
    }
    if !n.tags.is_empty() {
        let sets = n
            .tags
            .iter()
            .map(|t| {
                let mut p: Props = vec![(0x1400346E, Val::U32(t.created)), (0x10003470, Val::U16(t.status))];
                if let Some(c) = t.completed {
                    p.push((0x1400346F, Val::U32(c)));
                }
                if let Some(d) = t.def {
                    p.push((0x20003488, Val::Oid(d)));
                }
                if t.extra {
                    p.push((0x0C003473, Val::U8(2)));
                    p.push((0x1400346B, Val::U32(77)));
                }
                p
            })
            .collect();
        props.push((0x40003489, Val::Sets(0x44000811, sets)));
    }
    props.extend(n.extra.iter().cloned());
    out.push(ObjRec { oid: n.oid, jcid, props, blob, quirk: 0 });
    for k in n.kids.iter().flatten() {
        compile(k, sh, out);
    }
    if let Ext::Rich(r) = &n.ext {
        for (_, run) in &r.runs {
            if let Run::Ink { data, .. } = run {
                compile(data, sh, out);
            }
        }
    }
}

// ---------------------------------------------------------------- what a reader must show
pub fn line(out: &mut String, ind: usize, s: &str) {
    for _ in 0..ind {
        out.push(' ');
    }
    out.push_str(s);
    out.push('\n');
}
fn field(out: &mut String, ind: usize, name: &str, v: &str) {
    for _ in 0..ind {
        out.push(' ');
    }
    out.push_str(name);
    out.push('=');
    out.push_str(v);
    out.push('\n');
}
pub fn blob_dump(b: &[u8]) -> String {
    format!("{}:{:016x}", b.len(), hash_bytes(b))
}
fn fields(n: &Node, ind: usize, out: &mut String) {
    for (fl, v) in spec(n.k).fields.iter().zip(&n.f) {
        match (fl.r, v) {
            (R::Hid | R::HidMust, _) => {}
            (_, Some(v)) => field(out, ind, fl.n, &v.dump),
            (R::Def(d), None) => field(out, ind, fl.n, d),
            (_, None) => field(out, ind, fl.n, "-"),
        }
    }
}
pub fn shapes() -> &'static [&'static str] {
    crate::tables::SHAPES
}
fn dump_tags(n: &Node, sh: &Shared, ind: usize, out: &mut String) {
    line(out, ind, &format!("tags {}", n.tags.len()));
    for t in &n.tags {
        line(
            out,
            ind + 1,
            &format!(
                "tag completed={} status={}{}{}",
                t.completed.map(|c| c.to_string()).unwrap_or("-".into()),
                t.status & 1,
                t.status >> 1 & 1,
                t.status >> 2 & 1
            ),
        );
        match t.def {
            None => line(out, ind + 2, "def -"),
            Some(d) => {
                let d = Shared::find(&sh.defs, d);
                if let Ext::TagDef(s, st, ty) = d.ext {
                    let bits: String =
                        [0, 1, 2, 3, 6, 7, 8, 9, 10, 11].iter().map(|b| if st >> b & 1 == 1 { '1' } else { '0' }).collect();
                    let ty = match ty {
                        0..=99 => format!("Numeric({ty})"),
                        100 => "DueToday".into(),
                        101 => "DueTomorrow".into(),
                        102 => "DueThisWeek".into(),
                        103 => "DueNextWeek".into(),
                        104 => "NoDueDate".into(),
                        105 => "CustomDueDate".into(),
                        _ => "Unknown".into(),
                    };
                    line(out, ind + 2, &format!("def {} {bits} {ty}", shapes()[s as usize]));
                }
                fields(d, ind + 3, out);
            }
        }
    }
}
pub fn math_name(t: u32) -> &'static str {
    match t {
        0 => "SimpleText",
        0x9000_0000 => "PlainText",
        10..=33 => {
            [
                "Accent", "Box", "BoxedFormula", "Brackets", "BracketsWithSeps", "EquationArray", "Fraction", "FunctionApply",
                "LeftSubSup", "LowerLimit", "Matrix", "Nary", "OpChar", "Overbar", "Phantom", "Radical", "SlashedFraction", "Stack",
                "StretchStack", "Subscript", "SubSup", "Superscript", "Underbar", "UpperLimit",
            ][t as usize - 10]
        }
        _ => "?",
    }
}
pub fn opt<T: ToString>(v: Option<T>) -> String {
    v.map(|x| x.to_string()).unwrap_or("-".into())
}
fn ochar(v: Option<u16>) -> String {
    v.map(|c| format!("{:?}", char::from_u32(c as u32).unwrap())).unwrap_or("-".into())
}
fn obits(v: Option<u32>) -> String {
    v.map(|b| format!("{b:08x}")).unwrap_or("-".into())
}
fn dump_style(s: &Node, ind: usize, out: &mut String) {
    line(out, ind, "style");
    fields(s, ind + 1, out);
    field(out, ind + 1, "math", if s.ext == Ext::Style(1) { "true" } else { "false" });
}
fn dump_strokes(d: Option<&Node>, sh: &Shared, sx: f32, sy: f32, ind: usize, out: &mut String) {
    let Some(d) = d else {
        line(out, ind, "strokes 0");
        line(out, ind, "bbox -");
        return;
    };
    line(out, ind, &format!("strokes {}", d.kids[0].len()));
    for s in &d.kids[0] {
        if let Ext::Stroke(v, p) = &s.ext {
            let p = Shared::find(&sh.strokes, *p);
            line(out, ind + 1, "stroke");
            fields(p, ind + 2, out);
            let (ix, iy) = match &p.ext {
                Ext::Dims(d) => (d.iter().position(|x| *x == 0).unwrap(), d.iter().position(|x| *x == 1).unwrap()),
                _ => unreachable!(),
            };
            let mut s = String::from("path");
            for (x, y) in v[ix].iter().zip(&v[iy]) {
                let _ = write!(s, " {:08x},{:08x}", (*x as f32 * sx).to_bits(), (*y as f32 * sy).to_bits());
            }
            line(out, ind + 2, &s);
        }
    }
    match &d.ext {
        Ext::BBox(Some([a, b, c, e])) => line(
            out,
            ind,
            &format!(
                "bbox {} {} {} {}",
                fbits(*a as f32 * sx),
                fbits(*b as f32 * sy),
                fbits((c - a) as f32 * sx),
                fbits((e - b) as f32 * sy)
            ),
        ),
        _ => line(out, ind, "bbox -"),
    }
}
pub fn rich_text(r: &Rich) -> String {
    if r.runs.iter().any(|x| matches!(x.1, Run::Ink { .. } | Run::Space { .. } | Run::Break)) {
        return String::new();
    }
    match (&r.unicode, &r.ascii) {
        (Some(u), _) => u.clone(),
        (None, Some(a)) => a.iter().map(|b| *b as char).collect(),
        _ => String::new(),
    }
}
/// `path` is where the node is shown: unknown kinds show as just "unknown".
pub fn dump(n: &Node, sh: &Shared, ind: usize, out: &mut String) {
    let s = spec(n.k);
    line(out, ind, s.n);
    if n.k == K::Unknown {
        return;
    }
    fields(n, ind + 1, out);
    match &n.ext {
        Ext::Blob(b) => field(out, ind + 1, "data", &blob_dump(b.as_deref().map(|v| &v[..]).unwrap_or(&[]))),
        Ext::Rich(r) => {
            field(out, ind + 1, "text", &format!("{:?}", rich_text(r)));
            field(out, ind + 1, "indices", &format!("{:?}", r.indices));
            dump_style(Shared::find(&sh.styles, r.style), ind + 1, out);
            line(out, ind + 1, &format!("runs {}", r.runs.len()));
            for (st, _) in &r.runs {
                dump_style(Shared::find(&sh.styles, *st), ind + 2, out);
            }
            for (_, run) in &r.runs {
                if let Run::Math { ty, count, col, align, ch } = run {
                    line(
                        out,
                        ind + 1,
                        &format!(
                            "math {} {} {} {} {} {} {}",
                            math_name(ty.unwrap_or(0)),
                            count.unwrap_or(0),
                            opt(*col),
                            opt(*align),
                            ochar(ch[0]),
                            ochar(ch[1]),
                            ochar(ch[2])
                        ),
                    );
                }
            }
            for (_, run) in &r.runs {
                match run {
                    Run::Ink { data, dims } => {
                        let bb = if dims[..4].iter().all(|d| d.is_some()) {
                            format!("{} {} {} {}", obits(dims[0]), obits(dims[1]), obits(dims[2]), obits(dims[3]))
                        } else {
                            "-".into()
                        };
                        line(out, ind + 1, &format!("embedded ink {bb} offset {} {}", obits(dims[4]), obits(dims[5])));
                        dump_strokes(Some(data), sh, 1.0, 1.0, ind + 2, out);
                    }
                    Run::Space { w, h } => line(out, ind + 1, &format!("embedded space {w:08x} {h:08x}")),
                    Run::Break => line(out, ind + 1, "embedded break"),
                    _ => {}
                }
            }
        }
        _ => {}
    }
    if n.k == K::Ink {
        let sc = |i: usize| match &n.f[i] {
            Some(FV { val: Val::U32(b), .. }) => f32::from_bits(*b),
            _ => 1.0,
        };
        dump_strokes(n.kids[0].first(), sh, sc(3), sc(4), ind + 1, out);
        return;
    }
    if s.tags {
        dump_tags(n, sh, ind + 1, out);
    }
    for (i, slot) in s.slots.iter().enumerate() {
        if slot.hidden {
            continue;
        }
        line(out, ind + 1, &format!("{} {}", slot.n, n.kids[i].len()));
        for k in &n.kids[i] {
            dump(k, sh, ind + 2, out);
        }
    }
}
/// The title a page shows.
pub fn title_text(page: &Node) -> Option<String> {
    fn outline_text(o: &Node) -> Option<String> {
        let it = o.kids[0].first().filter(|i| i.k == K::Element)?;
        let c = it.kids[0].first().filter(|c| c.k == K::Rich)?;
        match &c.ext {
            Ext::Rich(r) => Some(rich_text(r)).filter(|s| !s.is_empty()),
            _ => None,
        }
    }
    page.kids[0]
        .first()
        .and_then(|t| t.kids[0].first())
        .and_then(outline_text)
        .or_else(|| page.kids[1].iter().filter(|c| c.k == K::Outline).find_map(outline_text))
}

/// Wrap `inner` (an outline item) once more: 0 as a child of an element, 1 in a group,
/// 2 as the content of a table cell.
pub fn wrap_item(g: &mut Gen, sh: &mut Shared, inner: Node, how: usize) -> Node {
    match how {
        0 => {
            let mut e = new_node(g, K::Element);
            e.author = gen_author(g, sh);
            e.kids[2].push(inner);
            e
        }
        1 => {
            let mut e = new_node(g, K::Group);
            e.kids[0].push(inner);
            e
        }
        _ => {
            let mut c = new_node(g, K::Cell);
            c.kids[0].push(inner);
            let mut r = new_node(g, K::Row);
            r.kids[0].push(c);
            let mut t = new_node(g, K::Table);
            t.kids[0].push(r);
            let mut e = new_node(g, K::Element);
            e.author = gen_author(g, sh);
            e.kids[0].push(t);
            e
        }
    }
}
/// The page's single outline nested `n` levels deep.
pub fn deepen(g: &mut Gen, sh: &mut Shared, page: &mut Node, n: usize, how: &mut dyn FnMut(usize) -> usize) {
    let mut item = gen_element(g, sh, 9);
    for i in 0..n {
        let mut h = how(i);
        if h == 2 && item.k == K::Group {
            h = 0;
        }
        item = wrap_item(g, sh, item, h);
    }
    let mut o = new_node(g, K::Outline);
    o.kids[0].push(item);
    page.kids[1].push(o);
}
