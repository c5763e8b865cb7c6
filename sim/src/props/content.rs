//! C04-C09: what was committed is what is read, for every history.

use super::*;
use crate::doc::{dump_section, pages};

pub fn run(p: &str) -> Result<(), Violation> {
    let thorough = ctx::ctx().tier_thorough;
    let big = if thorough && choose(D, 6) == 5 { 4 } else { 1 };
    let budget = [4, 8, 14, 25, 45][choose(D, 5)] * big;
    let mut g = swarm(p, budget);
    bulky(&mut g, 40, 1200);
    let cfg = if p == "C04" {
        HistCfg { pages: choose(D, 4), steps: choose(D, 10), versions: choose(D, 2) == 1, crashes: choose(D, 2) == 1, stale: choose(D, 3) == 2 }
    } else {
        HistCfg { pages: 1 + choose(D, 2), steps: [0, 1, 2, 4][choose(D, 4)], versions: false, crashes: choose(D, 4) == 3, stale: false }
    };
    let h = run_history(&mut g, &cfg);
    for l in &h.log {
        ctx::trace(|| format!("  {l}"));
    }
    let enc = lay_out(&h.store);
    let name = file_name();
    let path = format!("/w/{name}");
    put(&path, enc.bytes);
    fresh();
    let mut want = String::new();
    dump_section(&h.doc, &name, 0, &mut want);
    let c = ctx::ctx();
    c.states.insert(ctx::hash_bytes(want.as_bytes()));
    c.nontrivial += (h.store.commits > 1) as u64;
    ctx::count_n("pages", pages(&h.doc).count() as u64);
    ctx::count_n("commits", h.store.commits as u64);
    if c.sample.is_empty() {
        c.sample.push(format!("run {}: {}", c.run, h.log.iter().take(6).cloned().collect::<Vec<_>>().join("; ")));
    }
    let r = read_section(hseed(), &path);
    if c.verbose && let Got::Doc(d) = &r && std::env::var("SIM_DUMP").is_ok() {
        ctx::trace(|| format!("--- want\n{want}--- got\n{d}"));
    }
    expect("section", &want, &r)
}
