//! Cooperative scheduler over real OS threads: exactly one simulated thread runs at a time and the
//! choice of who runs next is a recorded decision. Switch points: every intercepted libc call, a
//! seeded subset of allocations, futex waits, thread exit.

use crate::alloc::{self, SIM, YIELD_IN};
use crate::ctx::{self, S, choose};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering::*};

const MAXT: usize = 8;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize),
    Done,
}

struct Sched {
    n: usize,
    cur: usize,
    st: [St; MAXT],
    preempt: bool,
    ilv: u64,
    switches: u64,
}
struct C(UnsafeCell<Sched>);
unsafe impl Sync for C {}
static SCHED: C = C(UnsafeCell::new(Sched { n: 0, cur: 0, st: [St::Done; MAXT], preempt: false, ilv: 0, switches: 0 }));
static TOKENS: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

#[allow(clippy::mut_from_ref)]
fn s() -> &'static mut Sched {
    unsafe { &mut *SCHED.0.get() }
}

thread_local! {
    pub static HSEED: Cell<u64> = const { Cell::new(0) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn futex(addr: &AtomicU32, op: i32, val: u32) {
    unsafe { crate::shim::raw6(libc::SYS_futex, addr as *const _ as usize, op as usize, val as usize, 0, 0, 0) };
}
fn wait_token(i: usize) {
    loop {
        if TOKENS[i].compare_exchange(1, 0, Acquire, Relaxed).is_ok() {
            return;
        }
        futex(&TOKENS[i], libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0);
    }
}
fn give_token(i: usize) {
    TOKENS[i].store(1, Release);
    futex(&TOKENS[i], libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        alloc::harness(|| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if SIM.with(|x| x.get()) != 0 {
                PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
            } else {
                crate::shim::raw_err(&format!("harness panic at {loc}: {msg}\n"));
            }
        })
    }));
}

fn runnable_others(cur: usize) -> Vec<usize> {
    let sc = s();
    (0..sc.n).filter(|&i| i != cur && sc.st[i] == St::Ready).collect()
}

fn switch_to(next: usize, me: usize) {
    let sc = s();
    sc.cur = next;
    sc.switches += 1;
    give_token(next);
    wait_token(me);
}

/// Scheduling point at an intercepted call (harness mode, current thread holds the CPU).
pub fn point(kind: u64) {
    let sc = s();
    if !sc.preempt || sc.n < 2 {
        return;
    }
    let me = sc.cur;
    let others = runnable_others(me);
    if others.is_empty() {
        return;
    }
    // 0 = keep running
    let k = choose(S, 2 * others.len() + 2);
    let next = if k == 0 || k > 2 * others.len() { me } else { others[(k - 1) / 2] };
    sc.ilv = ctx::mix(sc.ilv ^ ((me as u64) << 32) ^ ((next as u64) << 40) ^ kind);
    if next != me {
        ctx::trace(|| format!("    [sched] t{me} -> t{next}"));
        switch_to(next, me);
    }
}

/// Scheduling point at an allocation.
pub fn alloc_point() {
    let sc = s();
    if !sc.preempt || sc.n < 2 {
        return;
    }
    arm_alloc();
    point(0xA110C);
}
fn arm_alloc() {
    let k = choose(S, 6);
    let d = [u64::MAX, 400, 150, 50, 15, 3][k];
    YIELD_IN.store(d, Relaxed);
}

/// SUT futex wait on a simulated thread: block in the simulation, never in the kernel.
pub fn block_on(addr: usize) {
    let sc = s();
    let me = sc.cur;
    sc.st[me] = St::Blocked(addr);
    let o = runnable_others(me);
    if o.is_empty() {
        crate::die("deadlock");
    }
    let next = o[choose(S, o.len())];
    switch_to(next, me);
}
pub fn wake(addr: usize, n: usize) -> usize {
    let sc = s();
    let mut k = 0;
    for i in 0..sc.n {
        if k < n && sc.st[i] == St::Blocked(addr) {
            sc.st[i] = St::Ready;
            k += 1;
        }
    }
    k
}

fn finish(me: usize) {
    let sc = s();
    sc.st[me] = St::Done;
    let o = runnable_others(me);
    if o.is_empty() {
        if (0..sc.n).any(|i| matches!(sc.st[i], St::Blocked(_))) {
            crate::die("deadlock");
        }
        give_token(MAXT);
    } else {
        let next = o[choose(S, o.len())];
        sc.cur = next;
        give_token(next);
    }
}

pub fn current() -> usize {
    SIM.with(|x| x.get()).wrapping_sub(1)
}

pub struct Task<'a, T> {
    pub hseed: u64,
    pub f: Box<dyn FnOnce() -> T + Send + 'a>,
}

pub struct Outcome<T> {
    pub value: Result<T, String>, // Err = panic text
}

/// Run the tasks as simulated threads to completion.
pub fn run_tasks<'a, T: Send>(tasks: Vec<Task<'a, T>>, preempt: bool) -> Vec<Outcome<T>> {
    let n = tasks.len();
    assert!(n >= 1 && n <= MAXT);
    let sc = s();
    sc.n = n;
    sc.preempt = preempt;
    sc.ilv = 0;
    for i in 0..n {
        sc.st[i] = St::Ready;
        TOKENS[i].store(0, Relaxed);
    }
    TOKENS[MAXT].store(0, Relaxed);
    let mut out = Vec::new();
    std::thread::scope(|scope| {
        let mut hs = vec![];
        for (i, t) in tasks.into_iter().enumerate() {
            let h = std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(scope, move || {
                    SIM.with(|x| x.set(i + 1));
                    HSEED.with(|x| x.set(t.hseed));
                    wait_token(i);
                    let f = t.f;
                    // the call frees the box, which the harness allocated
                    alloc::LIVE.fetch_add(std::mem::size_of_val(&*f) as i64, Relaxed);
                    let r = alloc::as_sut(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
                    let r = match r {
                        Ok(v) => Ok(v),
                        Err(p) => {
                            std::mem::forget(p);
                            Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
                        }
                    };
                    SIM.with(|x| x.set(0));
                    finish(i);
                    Outcome { value: r }
                })
                .expect("spawn");
            hs.push(h);
        }
        let first = if n > 1 { choose(S, n) } else { 0 };
        s().cur = first;
        if preempt && n > 1 {
            arm_alloc();
        } else {
            YIELD_IN.store(u64::MAX, Relaxed);
        }
        give_token(first);
        wait_token(MAXT);
        YIELD_IN.store(u64::MAX, Relaxed);
        for h in hs {
            out.push(h.join().expect("join"));
        }
    });
    let sc = s();
    if n > 1 {
        let c = ctx::ctx();
        c.interleavings.insert(sc.ilv);
        ctx::count_n("thread_switches", sc.switches);
        sc.switches = 0;
    }
    sc.n = 0;
    out
}

pub fn run_one<'a, T: Send>(hseed: u64, f: impl FnOnce() -> T + Send + 'a) -> Result<T, String> {
    run_tasks(vec![Task { hseed, f: Box::new(f) }], false).pop().unwrap().value
}
