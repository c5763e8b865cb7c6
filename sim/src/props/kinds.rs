//! C19: kinds, versions and packaging of files against the entry points.

use super::*;
use crate::ctx::F;
use crate::doc::dump_section;
use crate::nb::{self, Item, Nb};
use crate::vfs::Event;
use crate::write::{El, FMT_PACKAGE, FMT_REVSTORE, FileImg, SCHEMA_ONE, SCHEMA_TOC, guid};

const VERSIONS: [u32; 2] = [0x2A, 0x1B];
const GUIDS: &[&str] = &[
    SCHEMA_ONE,
    SCHEMA_TOC,
    FMT_PACKAGE,
    FMT_REVSTORE,
    "43FF2FA1-EFD9-4C76-9EE2-10EA5722765F",
    "7B5C52E4-D88C-4DA7-AEB1-5378D02996D3",
    "00000000-0000-0000-0000-000000000000",
    "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF",
];
/// Some guid that is none of `not`.
fn other_guid(is: [u8; 16], not: &[&str]) -> [u8; 16] {
    loop {
        let g = match choose(F, 3) {
            0 => guid(GUIDS[choose(F, GUIDS.len())]),
            1 => {
                let mut g = is;
                g[choose(F, 16)] ^= 1 << choose(F, 8);
                g
            }
            _ => {
                let mut g = [0; 16];
                g.iter_mut().for_each(|b| *b = choose(F, 256) as u8);
                g
            }
        };
        if !not.iter().any(|n| guid(n) == g) {
            return g;
        }
    }
}
fn lay_with(packaging: Option<u8>) -> Lay {
    let mut l = Lay::new(choose(L, 1 << 20) as u64);
    if let Some(p) = packaging {
        l.packaging = p;
        if p == 2 {
            l.pad = choose(L, 120);
        }
    }
    l
}
/// Bytes no reader can take for a OneDrive OneNote file.
fn foreign(good: &[u8]) -> (Vec<u8>, &'static str) {
    let rnd = |n: usize| -> Vec<u8> { (0..n).map(|_| choose(F, 256) as u8).collect() };
    match choose(F, 12) {
        0 => (vec![], "empty"),
        1 => (vec![0; 1 + choose(F, 3000)], "zeros"),
        2 => {
            let magic: &[&[u8]] = &[b"MSCF\0\0\0\0", b"PK\x03\x04", b"%PDF-1.7\n", b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1", b"<html>", b"{}", b"\xFF\xFE"];
            let mut v = magic[choose(F, magic.len())].to_vec();
            let n = choose(F, 400);
            v.extend(rnd(n));
            (v, "another format")
        }
        3 => {
            // a desktop file: revision store header, then its own structures
            let mut v = good[..16].to_vec();
            v.extend([0x55; 16]);
            v.extend([0; 16]);
            v.extend(guid(FMT_REVSTORE));
            for _ in 0..4 {
                v.extend(VERSIONS[choose(F, 2)].to_le_bytes());
            }
            v.resize(160, 0);
            v[72 + choose(F, 8)] = choose(F, 256) as u8;
            v.resize(1024, 0);
            for _ in 0..1 + choose(F, 4) {
                v.extend(0xA456_7AB1_F5F7_F4C4u64.to_le_bytes());
                let n = choose(F, 200);
                v.extend(rnd(n));
            }
            (v, "desktop revision store")
        }
        4 => {
            // as above, with the place of the transaction log filled in
            let mut v = good[..16].to_vec();
            v.extend([0x55; 16]);
            v.extend([0; 16]);
            v.extend(guid(FMT_REVSTORE));
            for _ in 0..4 {
                v.extend(VERSIONS[choose(F, 2)].to_le_bytes());
            }
            v.resize(160, 0);
            let n = v.len();
            v.extend((1024u64).to_le_bytes());
            v.extend((choose(F, 600) as u32).to_le_bytes());
            let _ = n;
            let fill = choose(F, 256) as u8;
            v.resize(1024 + choose(F, 1500), fill);
            (v, "desktop revision store with a log")
        }
        5 => (good[..16.min(good.len())].to_vec(), "only the file type"),
        6 => (good[..64.min(good.len())].to_vec(), "only the header"),
        7 => {
            let mut v = rnd(1 + choose(F, 20));
            if choose(F, 3) == 0 {
                v = vec![0xEF, 0xBB, 0xBF];
            }
            v.extend(good);
            (v, "something in front of the file")
        }
        8 => (good[1 + choose(F, 60)..].to_vec(), "beginning missing"),
        9 => {
            let v = good.iter().map(|b| if *b == b'\n' { b' ' } else { b ^ 0x20 }).collect();
            (v, "transcoded")
        }
        10 => {
            let n = 1 + choose(F, 2000);
            (rnd(n), "noise")
        }
        _ => {
            let mut v = good.to_vec();
            let at = [0usize, 48, 16, 32][choose(F, 2)];
            if at == 48 {
                v[48..64].copy_from_slice(&other_guid(guid(FMT_PACKAGE), &[FMT_PACKAGE, FMT_REVSTORE]));
                (v, "unknown file format")
            } else {
                v[..64].fill(0);
                (v, "blank header")
            }
        }
    }
}
fn refused(what: &str, r: &Got) -> Result<(), Violation> {
    ctx::ctx().evals += 1;
    match r {
        Got::Err(_) => {
            ctx::count("refused");
            Ok(())
        }
        Got::Doc(_) => fail(format!("accepted: {}", strip_digits(what)), what),
        Got::Panic(p) => fail(format!("panic at {}", site(p)), format!("{what}: {p}")),
    }
}
/// The section entry points agree.
fn agree(what: &str, bytes: &[u8]) -> Result<Got, Violation> {
    put("/w/k/f.one", bytes.to_vec());
    fresh();
    let a = read_section(hseed(), "/w/k/f.one");
    let b = read_buffer(hseed(), bytes, "f.one");
    ctx::ctx().evals += 1;
    let same = match (&a, &b) {
        (Got::Doc(x), Got::Doc(y)) => x == y,
        (Got::Err(_), Got::Err(_)) | (Got::Panic(_), Got::Panic(_)) => true,
        _ => false,
    };
    if !same {
        return fail("path and buffer disagree", format!("{what}: {} / {}", a.short(), b.short()));
    }
    Ok(a)
}
fn schema_of(img: &mut FileImg, s: [u8; 16]) {
    for e in img.elems.iter_mut() {
        if let El::Manifest { schema, .. } = &mut e.el {
            *schema = s;
        }
    }
}
pub fn c19() -> Result<(), Violation> {
    let mut g = swarm("", [2, 4, 10][choose(D, 3)]);
    let h = run_history(&mut g, &HistCfg { pages: choose(D, 3), steps: choose(D, 2), versions: false, crashes: false, stale: false });
    let mut want = String::new();
    dump_section(&h.doc, "f.one", 0, &mut want);
    let n = nb::notebook(&mut g, 0);
    let files = n.write("/w/nb");
    let top = format!("/w/nb/{}", n.toc_name);
    let nwant = n.dump();
    let c = ctx::ctx();
    c.states.insert(ctx::hash_bytes(nwant.as_bytes()) ^ ctx::hash_bytes(want.as_bytes()));
    c.nontrivial += 1;
    if c.sample.is_empty() {
        c.sample.push(format!("run {}: section with {} records, notebook of {} files", c.run, h.store.image().elems.len(), files.len()));
    }
    // the right kind, in every packaging
    for p in 0..3u8 {
        let mut b = encode(&h.store.image(), &mut lay_with(Some(p)), false).bytes;
        if p == 2 {
            for i in 0..4 {
                b[64 + 4 * i..68 + 4 * i].copy_from_slice(&VERSIONS[choose(L, 2)].to_le_bytes());
            }
        }
        let r = agree("healthy section", &b)?;
        expect("section in another packaging", &want, &r)?;
        ctx::count("packagings_accepted");
        // unsupported versions
        if p == 2 {
            for _ in 0..3 {
                let mut x = b.clone();
                let v = match choose(F, 3) {
                    0 => crate::corrupt::evil32(),
                    1 => VERSIONS[choose(F, 2)] ^ 1 << choose(F, 32),
                    _ => choose(F, 64) as u32,
                };
                let at = choose(F, 4);
                if VERSIONS.contains(&v) {
                    continue;
                }
                x[64 + 4 * at..68 + 4 * at].copy_from_slice(&v.to_le_bytes());
                ctx::count("fault.unsupported_version");
                let r = agree("unsupported version", &x)?;
                refused(&format!("version {v:x} in field {at}"), &r)?;
            }
        }
    }
    // the toc as a section, the section as a toc
    let toc = encode(&n.store.image(), &mut lay_with(None), true).bytes;
    let sec = encode(&h.store.image(), &mut lay_with(None), false).bytes;
    ctx::count("fault.other_kind");
    let r = agree("table of contents as a section", &toc)?;
    refused("table of contents as a section", &r)?;
    put("/w/k/f.onetoc2", sec.clone());
    fresh();
    refused("section as a notebook", &read_notebook(hseed(), "/w/k/f.onetoc2"))?;
    // other schemas
    for is_toc in [false, true] {
        let mut img = if is_toc { n.store.image() } else { h.store.image() };
        let right = if is_toc { SCHEMA_TOC } else { SCHEMA_ONE };
        let s = other_guid(guid(right), &[right]);
        schema_of(&mut img, s);
        ctx::count("fault.other_schema");
        let b = encode(&img, &mut lay_with(None), is_toc).bytes;
        if is_toc {
            put("/w/nb/x.onetoc2", b);
            fresh();
            let r = read_notebook(hseed(), "/w/nb/x.onetoc2");
            vfs().remove("/w/nb/x.onetoc2");
            refused("notebook with another schema", &r)?;
        } else {
            let r = agree("section with another schema", &b)?;
            refused("section with another schema", &r)?;
        }
    }
    // foreign files, directly
    for _ in 0..3 {
        let (b, what) = foreign(if choose(F, 2) == 0 { &sec } else { &toc });
        ctx::count("fault.foreign_file");
        let r = agree(what, &b)?;
        refused(what, &r)?;
        put("/w/k/f.onetoc2", b);
        fresh();
        refused(what, &read_notebook(hseed(), "/w/k/f.onetoc2"))?;
    }
    in_notebook(&n, &files, &top, &nwant, &sec, &toc)
}
/// Every file that a read of the notebook must look at.
fn needed(dir: &str, n: &Nb, out: &mut Vec<(String, bool)>) {
    out.push((format!("{dir}/{}", n.toc_name), true));
    for name in n.listed() {
        if name == nb::BIN {
            continue;
        }
        match n.files.get(&name) {
            Some(Item::Section(_)) => out.push((n.place(dir, &name), false)),
            Some(Item::Group(x)) => needed(&n.place(dir, &name), x, out),
            None => {}
        }
    }
}
fn in_notebook(n: &Nb, files: &[nb::Written], top: &str, nwant: &str, sec: &[u8], toc: &[u8]) -> Result<(), Violation> {
    let mut need = vec![];
    needed("/w/nb", n, &mut need);
    for _ in 0..4 {
        let (p, is_toc) = need[choose(F, need.len())].clone();
        let old = files.iter().find(|f| f.path == p).unwrap().bytes.clone();
        let (b, what) = match choose(F, 3) {
            0 => foreign(&old),
            _ => (if is_toc { sec.to_vec() } else { toc.to_vec() }, "file of the other kind"),
        };
        ctx::trace(|| format!("  {p} becomes a {what}"));
        if choose(F, 3) == 0 {
            // while the notebook is read
            ctx::count("fault.replaced_during_read");
            let e = Event::Replace { path: p.clone(), data: Arc::new(b) };
            let back = Event::Replace { path: p.clone(), data: old.clone() };
            let k = choose(F, 60) as u64;
            let mut events = vec![(k, e)];
            if choose(F, 2) == 1 {
                events.push((k + 1 + choose(F, 20) as u64, back));
            }
            vfs().fresh(Plan { events, ..Plan::default() });
            let r = read_notebook(hseed(), top);
            vfs().put_file(&p, old);
            ctx::ctx().evals += 1;
            match &r {
                Got::Err(_) => {}
                Got::Doc(d) if d == nwant => {}
                Got::Doc(d) => {
                    let (c, t) = difference(nwant, d);
                    return fail(format!("file replaced by another kind changes the notebook: {c}"), format!("{p}: {what}: {t}"));
                }
                Got::Panic(x) => return fail(format!("panic at {}", site(x)), format!("{p}: {what}: {x}")),
            }
        } else {
            ctx::count("fault.replaced_between_reads");
            put(&p, b);
            fresh();
            let r = read_notebook(hseed(), top);
            vfs().put_file(&p, old);
            refused(&format!("notebook in which a {} is a {what}", if is_toc { "table of contents" } else { "section" }), &r)?;
        }
    }
    fresh();
    expect("notebook after all files are back", nwant, &read_notebook(hseed(), top))
}
