//! C10: a notebook read lists exactly what the table of contents and the directory hold.

use super::*;
use crate::nb;

pub fn run(_: &str) -> Result<(), Violation> {
    let mut g = swarm("", 3);
    bulky(&mut g, 150, 700);
    let big = if ctx::ctx().tier_thorough { 2 } else { 1 };
    let mut nb = nb::notebook(&mut g, choose(D, 2) + big - 1);
    if choose(D, 120) == 119 {
        for _ in 0..[3, 12, 50, 110][choose(D, 4)] {
            nb = nb::wrap(&mut g, nb);
        }
        ctx::count("gen.deep_notebook");
    }
    nb.write("/w/nb");
    ctx::count_n("entries_listed", nb.shown() as u64);
    let plan = Plan { dir_seed: choose(S, 1 << 12) as u64, dt_unknown: choose(S, 4) == 3, ..Plan::default() };
    vfs().fresh(plan);
    let want = nb.dump();
    let c = ctx::ctx();
    c.states.insert(ctx::hash_bytes(want.as_bytes()));
    c.nontrivial += (nb.store.commits > 1) as u64;
    if c.sample.is_empty() {
        c.sample.push(format!("run {}: {}", c.run, nb.log.iter().take(6).cloned().collect::<Vec<_>>().join("; ")));
    }
    let path = format!("/w/nb/{}", nb.toc_name);
    expect("notebook", &want, &read_notebook(hseed(), &path))
}
