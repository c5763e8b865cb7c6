//! Deterministic simulation of OneNote file readers: see /verif/DESIGN.md.
#![allow(clippy::too_many_arguments)]
mod alloc;
mod bulk;
mod corrupt;
mod ctx;
mod doc;
mod dump;
mod model;
mod nb;
mod props;
mod sched;
mod shim;
mod store;
mod sup;
mod tables;
mod vfs;
mod write;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

pub fn say(s: &str) {
    let b = s.as_bytes();
    let mut off = 0;
    while off < b.len() {
        let r = unsafe { shim::raw6(libc::SYS_write, 1, b.as_ptr() as usize + off, b.len() - off, 0, 0, 0) };
        if r <= 0 {
            break;
        }
        off += r as usize;
    }
}

/// Diagnostic: keep what a replayed run writes and reads as real files below $SIM_EXPORT.
pub fn export(name: &str, bytes: &[u8]) {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if let Ok(d) = std::env::var("SIM_EXPORT") {
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let _ = std::fs::create_dir_all(&d);
        let _ = std::fs::write(format!("{d}/{n:03}{}", name.replace('/', "_")), bytes);
    }
}

/// A violation that the process cannot survive (budget overrun, deadlock).
pub fn die(what: &str) -> ! {
    say(&format!("\nW {what}\n"));
    unsafe { libc::_exit(77) }
}

/// Arm the CPU-time watchdog for one run (the process dies with SIGPROF when it fires).
fn watchdog(secs: i64) {
    let it = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
    };
    unsafe { libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut()) };
}
pub const CPU_LIMIT: i64 = 25;

fn one_run(prop: &str, seed: u64, run: u64, replay: Option<[Vec<u32>; 4]>) -> Result<(), ctx::Violation> {
    ctx::begin(seed, prop, run, replay);
    vfs::reset();
    alloc::reset();
    watchdog(CPU_LIMIT);
    let r = props::run(prop);
    watchdog(0);
    r
}

fn worker(prop: &str, w: u64, n: u64, seed: u64, thorough: bool, start: u64, end: u64, secs: f64) {
    ctx::ctx().tier_thorough = thorough;
    let t0 = std::time::Instant::now();
    let mut i = start;
    while i % n != w {
        i += 1;
    }
    let mut done = 0u64;
    while i < end && t0.elapsed().as_secs_f64() < secs {
        say(&format!("B {i}\n"));
        let r = one_run(prop, seed, i, None);
        let c = ctx::ctx();
        match r {
            Ok(()) => say(&format!("E {i} {:016x}\n", c.evhash)),
            Err(v) => say(&format!("V {i} {}\t{}\n", v.class, v.detail.replace('\n', "\\n"))),
        }
        if c.sample.len() > 0 && done < 4 {
            for s in c.sample.iter().take(2) {
                say(&format!("X {}\n", s.replace('\n', " ")));
            }
        }
        done += 1;
        i += n;
        if done % 64 == 0 {
            stats();
        }
    }
    stats();
    say("Z\n");
}
fn stats() {
    let c = ctx::ctx();
    let mut o = String::new();
    for (k, v) in &c.counters {
        o.push_str(&format!("C {k} {v}\n"));
    }
    o.push_str(&format!("N {} {} {}\n", c.evals, c.nontrivial, c.sim_ns));
    for chunk in c.states.iter().collect::<Vec<_>>().chunks(64) {
        o.push('H');
        for h in chunk {
            o.push_str(&format!(" {h:x}"));
        }
        o.push('\n');
    }
    for chunk in c.interleavings.iter().collect::<Vec<_>>().chunks(64) {
        o.push('I');
        for h in chunk {
            o.push_str(&format!(" {h:x}"));
        }
        o.push('\n');
    }
    say(&o);
    c.counters.clear();
    c.states.clear();
    c.interleavings.clear();
    c.evals = 0;
    c.nontrivial = 0;
    c.sim_ns = 0;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = |i: usize| a.get(i).cloned().unwrap_or_default();
    let u = |i: usize| p(i).parse::<u64>().unwrap_or(0);
    ctx::init();
    sched::install_panic_hook();
    match p(1).as_str() {
        // worker PROP w n seed tier start end secs
        "worker" => worker(&p(2), u(3), u(4), u(5), p(6) == "thorough", u(7), u(8), p(9).parse().unwrap_or(10.0)),
        // exec PROP seed run tier (choices file | -) (dump file | -) verbose?
        "exec" => {
            ctx::ctx().tier_thorough = p(5) == "thorough";
            let rep = if p(6) != "-" && p(6) != "" { Some(sup::load_choices(&p(6))) } else { None };
            if p(7) != "-" && p(7) != "" {
                ctx::ctx().dump = sup::map_dump(&p(7));
            }
            ctx::ctx().verbose = p(8) == "v";
            if p(8) == "v" && std::env::var("SIM_EXPORT").is_ok() {
                props::EXPORT.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            let r = one_run(&p(2), u(3), u(4), rep);
            let c = ctx::ctx();
            for t in &c.trace {
                say(&format!("T {}\n", t.replace('\n', "\nT ")));
            }
            match r {
                Ok(()) => say(&format!("E {} {:016x}\n", u(4), c.evhash)),
                Err(v) => say(&format!("V {} {}\t{}\n", u(4), v.class, v.detail.replace('\n', "\\n"))),
            }
            say(&format!("Q {:016x}\nZ\n", c.evhash));
        }
        "deep" => props::deep_file(u(2) as usize, u(3) as usize, &p(4)),
        "check" => std::process::exit(sup::check(&p(2), &p(3))),
        "replay" => std::process::exit(sup::replay(&p(2))),
        "selftest" => std::process::exit(sup::selftest(u(2).max(50))),
        _ => {
            eprintln!("usage: sim check PROP [quick|thorough] | replay FILE | selftest N");
            std::process::exit(2);
        }
    }
}
