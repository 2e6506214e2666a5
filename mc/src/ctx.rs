//! Exploration context: work sharding, counters, crash and hang attribution, violation collection.

use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

use crate::c::long;
use crate::refm::{self, RP};

pub const SLOT_CASE: usize = 256;

/// What a worker is doing, for the signal handler and the watchdog.
pub struct Slot {
    pub case: [AtomicU64; SLOT_CASE],
    pub len: AtomicUsize,
    pub in_call: AtomicBool,
    pub seq: AtomicU64,
}

pub static SLOTS: [Slot; 64] = {
    const Z: AtomicU64 = AtomicU64::new(0);
    const S: Slot = Slot { case: [Z; SLOT_CASE], len: AtomicUsize::new(0), in_call: AtomicBool::new(false), seq: AtomicU64::new(0) };
    [S; 64]
};

thread_local! {
    pub static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[derive(Clone)]
pub struct Violation {
    pub case: Vec<u64>,
    pub msg: String,
}

pub struct Cx {
    pub thorough: bool,
    pub worker: usize,
    pub nworkers: usize,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub viol: Vec<Violation>,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    tables: HashMap<(RPKey, usize, usize), Vec<Vec<u8>>>,
    slot: &'static Slot,
    seen: HashSet<u64>,
}

type RPKey = (Vec<u8>, Vec<u8>, bool);

pub const MAX_VIOL: usize = 16;
pub static STOP: AtomicBool = AtomicBool::new(false);

pub fn hash64(data: &[u64]) -> u64 {
    let mut h: u64 = 0x9E3779B97F4A7C15;
    for &x in data {
        h ^= x;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
    h ^ (h >> 29)
}

pub fn hash_bytes(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ (data.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
    for c in data.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h ^= u64::from_le_bytes(b);
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

impl Cx {
    pub fn new(worker: usize, nworkers: usize, thorough: bool) -> Cx {
        MY_SLOT.with(|s| s.set(worker));
        Cx {
            thorough,
            worker,
            nworkers,
            states: 0,
            transitions: 0,
            traces: 0,
            outcomes: HashSet::new(),
            viol: vec![],
            samples: vec![],
            notes: BTreeMap::new(),
            tables: HashMap::new(),
            slot: &SLOTS[worker],
            seen: HashSet::new(),
        }
    }

    pub fn set_case(&mut self, case: &[u64]) {
        self.slot.in_call.store(false, Relaxed);
        let n = case.len().min(SLOT_CASE);
        for i in 0..n {
            self.slot.case[i].store(case[i], Relaxed);
        }
        self.slot.len.store(n, Relaxed);
        self.slot.seq.fetch_add(1, Relaxed);
    }

    /// Is this case new, and does it belong to this worker?
    pub fn mine(&mut self, case: &[u64]) -> bool {
        let h = hash64(case);
        if (h % self.nworkers as u64) as usize != self.worker {
            return false;
        }
        self.seen.insert(h)
    }

    /// A call into the code under test. A panic is reported as an error.
    #[inline]
    pub fn op<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        self.transitions += 1;
        self.slot.seq.fetch_add(1, Relaxed);
        self.slot.in_call.store(true, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.slot.in_call.store(false, Relaxed);
        r.map_err(|e| format!("{} panicked: {}", what, panic_msg(&*e)))
    }

    /// A call that must panic.
    pub fn must_panic<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<(), String> {
        self.transitions += 1;
        self.slot.seq.fetch_add(1, Relaxed);
        self.slot.in_call.store(true, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.slot.in_call.store(false, Relaxed);
        self.traces += 1;
        match r {
            Ok(_) => Err(format!("{} was accepted, but must panic", what)),
            Err(_) => Ok(()),
        }
    }

    #[inline]
    pub fn eq(&mut self, what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
        self.traces += 1;
        self.outcome(got);
        if got == want {
            Ok(())
        } else {
            Err(format!("{}: got {} want {}", what, hex(got), hex(want)))
        }
    }

    #[inline]
    pub fn outcome(&mut self, b: &[u8]) {
        if self.outcomes.len() < 400_000 {
            self.outcomes.insert(hash_bytes(b));
        }
    }

    pub fn violation(&mut self, case: &[u64], msg: String) {
        if self.viol.len() < MAX_VIOL {
            self.viol.push(Violation { case: case.to_vec(), msg });
        }
        if self.viol.len() >= MAX_VIOL {
            STOP.store(true, Relaxed);
        }
    }

    pub fn stopped(&self) -> bool {
        STOP.load(Relaxed) || late()
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // Cases 0, 1, 10, 100, ... of each worker.
        let n = self.states;
        let mut p = 1;
        while p < n {
            p *= 10;
        }
        if (n <= 1 || p == n) && self.samples.len() < 8 {
            self.samples.push(f());
        }
    }

    pub fn note(&mut self, k: &str, n: u64) {
        *self.notes.entry(k.to_string()).or_insert(0) += n;
    }

    /// Digest of data[off..off+n] under p, through a cached table of all prefixes up to `max`.
    pub fn prefix(&mut self, p: &RP, off: usize, max: usize, n: usize) -> Vec<u8> {
        let k = ((p.block().to_vec(), p.key.clone(), p.last), off, max);
        if !self.tables.contains_key(&k) {
            let t = refm::prefix_table(p, &data()[off..off + max]);
            self.tables.insert(k.clone(), t);
        }
        self.tables[&k][n].clone()
    }

    pub fn sp_prefix(&mut self, out: u8, key: &[u8], off: usize, max: usize, n: usize) -> Vec<u8> {
        let k = ((vec![out], key.to_vec(), true), off, max);
        if !self.tables.contains_key(&k) {
            let t = refm::sp_prefix_table(out, key, &data()[off..off + max]);
            self.tables.insert(k.clone(), t);
        }
        self.tables[&k][n].clone()
    }
}

pub fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

/// MC_UNTIL=seconds since 1970: the time from which on no further case is begun. A run that stops for it says so.
static UNTIL: AtomicU64 = AtomicU64::new(u64::MAX);
pub static LATE: AtomicBool = AtomicBool::new(false);

pub fn set_until() {
    if let Some(t) = std::env::var("MC_UNTIL").ok().and_then(|x| x.parse().ok()) {
        UNTIL.store(t, Relaxed);
    }
}

pub fn late() -> bool {
    if LATE.load(Relaxed) {
        return true;
    }
    if unsafe { libc::time(std::ptr::null_mut()) } as u64 > UNTIL.load(Relaxed) {
        LATE.store(true, Relaxed);
        return true;
    }
    false
}

/// Shared message bytes: no two aligned windows alike.
pub fn data() -> &'static [u8] {
    use std::sync::OnceLock;
    static D: OnceLock<Vec<u8>> = OnceLock::new();
    D.get_or_init(|| {
        let mut v = vec![0u8; 1 << 21];
        let mut x: u64 = 0x0123456789abcdef;
        for c in v.chunks_mut(8) {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^= z >> 31;
            c.copy_from_slice(&z.to_le_bytes());
        }
        v
    })
}

pub trait Check: Sync {
    /// Emit every case of the space. `emit` returns false to stop.
    fn enumerate(&self, thorough: bool, emit: &mut dyn FnMut(&[u64]) -> bool);
    /// Run one case against the real code and the reference.
    fn run(&self, case: &[u64], cx: &mut Cx) -> Result<(), String>;
    fn describe(&self, case: &[u64]) -> String {
        format!("{:?}", case)
    }
    /// Override for state-space searches.
    fn explore(&self, cx: &mut Cx) {
        let thorough = cx.thorough;
        self.enumerate(thorough, &mut |c| {
            if cx.stopped() {
                return false;
            }
            if cx.mine(c) {
                cx.states += 1;
                cx.set_case(c);
                cx.sample(|| self.describe(c));
                if let Err(m) = guarded(self, c, cx) {
                    let m = format!("{}: {}", self.describe(c), m);
                    cx.violation(c, m);
                }
            }
            true
        });
    }
    /// Families of long histories (c/long.rs) that this check explores too, and whether they are about counts.
    fn long(&self) -> (&'static [u64], crate::bfs::Mode) {
        (&[], crate::bfs::Mode::Digest)
    }
    /// Seconds a single call may take.
    fn call_limit(&self) -> u64 {
        60
    }
    fn max_workers(&self) -> usize {
        64
    }
}

/// A panic outside the calls is the harness's own: not a verdict.
pub fn guarded<C: Check + ?Sized>(ck: &C, c: &[u64], cx: &mut Cx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| if c.first() == Some(&long::TAG) { long::run(c, ck.long().1, cx) } else { ck.run(c, cx) })) {
        Ok(r) => r,
        Err(e) => {
            println!("HARNESS-PANIC case={:?} {}", c, panic_msg(&*e));
            unsafe { libc::_exit(72) }
        }
    }
}

pub fn describe<C: Check + ?Sized>(ck: &C, c: &[u64]) -> String {
    if c.first() == Some(&long::TAG) {
        long::describe(c)
    } else {
        ck.describe(c)
    }
}

static NEXT_LONG: AtomicUsize = AtomicUsize::new(0);

fn explore_long(ck: &dyn Check, cx: &mut Cx) {
    let mut all = vec![];
    long::emit(ck.long().0, &mut |c| {
        all.push(c.to_vec());
        true
    });
    loop {
        let i = NEXT_LONG.fetch_add(1, Relaxed);
        if i >= all.len() || cx.stopped() {
            return;
        }
        let c = &all[i];
        cx.set_case(c);
        let t = std::time::Instant::now();
        if let Err(m) = guarded(ck, c, cx) {
            let m = format!("{}: {}", long::describe(c), m);
            cx.violation(c, m);
        }
        cx.note(&format!("long histories: {}", long::describe(&[c[0], c[1], 0]).split(", variant").next().unwrap()), 1);
        cx.note("long histories, ms", t.elapsed().as_millis() as u64);
    }
}

pub struct Merged {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: u64,
    pub viol: Vec<Violation>,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
}

pub fn run_parallel(check: &dyn Check, thorough: bool, nworkers: usize) -> Merged {
    let n = nworkers.min(check.max_workers()).min(SLOTS.len());
    let results: Mutex<Vec<Cx>> = Mutex::new(vec![]);
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for i in 0..n {
            let results = &results;
            let done = &done;
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    crate::sig::alt_stack();
                    let mut cx = Cx::new(i, n, thorough);
                    explore_long(check, &mut cx);
                    check.explore(&mut cx);
                    results.lock().unwrap().push(cx);
                    done.fetch_add(1, Relaxed);
                })
                .unwrap();
        }
        // Watchdog. It ends when all workers are done.
        let done = &done;
        s.spawn(move || {
            let mut last = vec![(0u64, 0u64); n];
            let mut ticks = 0u64;
            while done.load(Relaxed) < n {
                std::thread::sleep(std::time::Duration::from_millis(20));
                ticks += 20;
                for i in 0..n {
                    let seq = SLOTS[i].seq.load(Relaxed);
                    if !SLOTS[i].in_call.load(Relaxed) || last[i].0 != seq {
                        last[i] = (seq, ticks);
                    } else if ticks - last[i].1 > check.call_limit() * 1000 {
                        crate::sig::report_crash(i, "hang");
                    }
                }
            }
        });
    });
    let mut m = Merged { states: 0, transitions: 0, traces: 0, outcomes: 0, viol: vec![], samples: vec![], notes: BTreeMap::new() };
    let mut out: HashSet<u64> = HashSet::new();
    for cx in results.into_inner().unwrap() {
        m.states += cx.states;
        m.transitions += cx.transitions;
        m.traces += cx.traces;
        out.extend(cx.outcomes);
        m.viol.extend(cx.viol);
        m.samples.extend(cx.samples);
        for (k, v) in cx.notes {
            *m.notes.entry(k).or_insert(0) += v;
        }
    }
    m.outcomes = out.len() as u64;
    m.viol.sort_by_key(|v| (v.case.len(), v.case.clone()));
    m
}
