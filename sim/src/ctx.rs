//! The run context: every decision of a run is one `choose(n)` on one of four recorded streams.
//! Only the thread that holds the simulated CPU touches it.

use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet};

pub const D: usize = 0; // document + history
pub const L: usize = 1; // physical layout
pub const F: usize = 2; // faults
pub const S: usize = 3; // schedule + environment
pub const STREAM_NAMES: [&str; 4] = ["D", "L", "F", "S"];

#[derive(Clone)]
#[derive(Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x9E37_79B9_7F4A_7C15))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    for &c in it.remainder() {
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub struct Stream {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pos: usize,
    pub log: Vec<u32>,
}

#[derive(Clone)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub struct Ctx {
    pub streams: Vec<Stream>,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub evhash: u64,
    pub run: u64,
    pub counters: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub interleavings: BTreeSet<u64>,
    pub sim_ns: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub sample: Vec<String>,
    pub dump: *mut u32, // shared choice dump (exec mode), 4 regions
    pub tier_thorough: bool,
}

struct Cell_(UnsafeCell<Option<Ctx>>);
unsafe impl Sync for Cell_ {}
static CTX: Cell_ = Cell_(UnsafeCell::new(None));

pub fn init() {
    unsafe {
        *CTX.0.get() = Some(Ctx {
            streams: vec![],
            verbose: false,
            trace: vec![],
            evhash: 0,
            run: 0,
            counters: BTreeMap::new(),
            states: BTreeSet::new(),
            interleavings: BTreeSet::new(),
            sim_ns: 0,
            evals: 0,
            nontrivial: 0,
            sample: vec![],
            dump: std::ptr::null_mut(),
            tier_thorough: false,
        })
    }
}
#[allow(clippy::mut_from_ref)]
pub fn ctx() -> &'static mut Ctx {
    unsafe { (*CTX.0.get()).as_mut().unwrap() }
}
pub const DUMP_REGION: usize = 1 << 18;

pub fn begin(seed: u64, prop: &str, run: u64, replay: Option<[Vec<u32>; 4]>) {
    let c = ctx();
    c.run = run;
    c.trace.clear();
    c.evhash = 0;
    c.sample.clear();
    c.streams.clear();
    let mut rep = replay.map(|r| r.into_iter().map(Some).collect::<Vec<_>>()).unwrap_or(vec![None; 4]);
    for s in 0..4 {
        let h = mix(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ hash_bytes(prop.as_bytes()))
            ^ mix(run.wrapping_mul(4).wrapping_add(s as u64) ^ 0xABCD);
        c.streams.push(Stream { rng: Rng::new(h), replay: rep[s].take(), pos: 0, log: vec![] });
    }
    if !c.dump.is_null() {
        for s in 0..4 {
            unsafe { *c.dump.add(s * DUMP_REGION) = 0 }
        }
    }
}

/// One recorded decision: a value in 0..n; 0 is always the simplest alternative.
pub fn choose(stream: usize, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let c = ctx();
    let st = &mut c.streams[stream];
    let v = match &st.replay {
        Some(r) => {
            let raw = r.get(st.pos).copied().unwrap_or(0) as usize;
            st.pos += 1;
            raw % n
        }
        None => (st.rng.next() >> 11) as usize % n,
    };
    st.log.push(v as u32);
    c.evhash = mix(c.evhash ^ ((v as u64) << 8) ^ stream as u64 ^ ((n as u64) << 32));
    if !c.dump.is_null() {
        let len = c.streams[stream].log.len();
        if len < DUMP_REGION {
            unsafe {
                *c.dump.add(stream * DUMP_REGION + len) = v as u32;
                *c.dump.add(stream * DUMP_REGION) = len as u32;
            }
        }
    }
    v
}
pub fn chance(stream: usize, num: usize, den: usize) -> bool {
    // value 0 must mean "no"
    choose(stream, den) >= den - num
}
pub fn count(name: &str) {
    count_n(name, 1)
}
pub fn count_n(name: &str, n: u64) {
    let c = ctx();
    if let Some(v) = c.counters.get_mut(name) {
        *v += n;
    } else {
        c.counters.insert(name.to_string(), n);
    }
}
pub fn state(h: u64) {
    let c = ctx();
    if c.states.len() < 400_000 {
        c.states.insert(h);
    }
}
pub fn event(h: u64) {
    let c = ctx();
    c.evhash = mix(c.evhash ^ h);
}
pub fn verbose() -> bool {
    ctx().verbose
}
pub fn trace(s: impl FnOnce() -> String) {
    let c = ctx();
    if c.verbose && c.trace.len() < 4000 {
        let t = s();
        c.trace.push(t);
    }
}
pub fn fail<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}
