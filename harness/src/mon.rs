//! The monitor runtime: observes every library call at the API boundary, runs cases on worker threads, collects
//! events, coverage and violations, and writes the result for the runner.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- allocation monitor
pub struct CountingAlloc;
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn note_alloc() {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        }
    });
}
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note_alloc();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note_alloc();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note_alloc();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note_alloc();
        System.dealloc(p, l)
    }
}
#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: CountingAlloc = CountingAlloc;

// ---------------------------------------------------------------- call boundary
thread_local! {
    static OPS: RefCell<HashMap<&'static str, (u64, u64)>> = RefCell::new(HashMap::new());
    static CUR_OP: Cell<&'static str> = const { Cell::new("") };
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_ALLOCS: Cell<u64> = const { Cell::new(0) };
    static CASE_ALLOC: Cell<(u64, &'static str)> = const { Cell::new((0, "")) };
}
struct Slot {
    progress: AtomicU64,
    in_lib: AtomicBool,
    case: AtomicU64,
    tid: AtomicU64,
}
const NSLOT: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    progress: AtomicU64::new(0),
    in_lib: AtomicBool::new(false),
    case: AtomicU64::new(0),
    tid: AtomicU64::new(0),
};
static SLOTS: [Slot; NSLOT] = [SLOT0; NSLOT];

// ---------------------------------------------------------------- stack monitor
/// How much stack below the call the monitor watches.
pub const STACK_WINDOW: usize = 128 * 1024;
const STACK_SKIP: usize = 2048;
const STACK_MARK: u64 = 0xA5C3_5A3C_96E1_1E69;
thread_local! {
    static STACK_ON: Cell<bool> = const { Cell::new(false) };
    static STACK_TOP: Cell<usize> = const { Cell::new(0) };
    static STACK_MAX: Cell<usize> = const { Cell::new(0) };
}
/// watch the stack use of the library calls of this thread from now on
pub fn stack_watch(on: bool) {
    STACK_ON.with(|s| s.set(on));
}
/// largest use seen since the last question
pub fn stack_used() -> usize {
    STACK_MAX.with(|s| s.replace(0))
}
/// Fill the free stack below this frame with a mark. The window is inside the thread's stack: workers have 2 MiB and
/// the monitor itself needs little of it.
#[cfg(all(target_arch = "x86_64", not(miri)))]
#[inline(always)]
fn stack_mark() {
    unsafe {
        let sp: usize;
        std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags));
        STACK_TOP.with(|s| s.set(sp));
        let lo = (sp - STACK_WINDOW) & !7;
        let n = (sp - STACK_SKIP - lo) / 8;
        std::arch::asm!("rep stosq", inout("rdi") lo => _, inout("rcx") n => _, in("rax") STACK_MARK, options(nostack, preserves_flags));
    }
}
/// The lowest address written since `stack_mark`, as a depth below it.
#[cfg(all(target_arch = "x86_64", not(miri)))]
#[inline(always)]
fn stack_scan() {
    unsafe {
        let sp = STACK_TOP.with(|s| s.get());
        let lo = (sp - STACK_WINDOW) & !7;
        let n = (sp - STACK_SKIP - lo) / 8;
        let end: usize;
        // stops one past the first word that is not the mark
        std::arch::asm!("repe scasq", inout("rdi") lo => end, inout("rcx") n => _, in("rax") STACK_MARK, options(nostack, readonly));
        let used = sp - (end - 8);
        STACK_MAX.with(|s| s.set(s.get().max(used)));
    }
}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn stack_mark() {}
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
fn stack_scan() {}

#[inline(never)]
fn enter(op: &'static str) {
    OPS.with(|o| o.borrow_mut().entry(op).or_insert((0, 0)).0 += 1);
    CUR_OP.with(|c| c.set(op));
    IN_LIB.with(|c| c.set(true));
    let slot = SLOT.with(|s| s.get());
    if slot < NSLOT {
        SLOTS[slot].in_lib.store(true, Ordering::Relaxed);
    }
    ALLOCS.with(|c| c.set(0));
    if STACK_ON.with(|s| s.get()) {
        stack_mark();
    }
    ARMED.with(|a| a.set(true));
}
#[inline(never)]
fn leave(op: &'static str) {
    if STACK_ON.with(|s| s.get()) {
        stack_scan();
    }
    ARMED.with(|a| a.set(false));
    let n = ALLOCS.with(|c| c.get());
    LAST_ALLOCS.with(|c| c.set(n));
    if n > 0 {
        OPS.with(|o| o.borrow_mut().get_mut(op).unwrap().1 += n);
        CASE_ALLOC.with(|c| c.set((c.get().0 + n, op)));
    }
    IN_LIB.with(|c| c.set(false));
    let slot = SLOT.with(|s| s.get());
    if slot < NSLOT {
        SLOTS[slot].in_lib.store(false, Ordering::Relaxed);
        SLOTS[slot].progress.fetch_add(1, Ordering::Relaxed);
    }
}
#[inline(never)]
fn caught(e: Box<dyn std::any::Any + Send>) -> String {
    let in_lib = IN_LIB.with(|c| c.get());
    ARMED.with(|a| a.set(false));
    if !in_lib {
        std::panic::resume_unwind(e);
    }
    IN_LIB.with(|c| c.set(false));
    let slot = SLOT.with(|s| s.get());
    if slot < NSLOT {
        SLOTS[slot].in_lib.store(false, Ordering::Relaxed);
    }
    PANIC_MSG.with(|m| m.borrow().clone())
}
/// Run one library operation under observation. A panic in `f` is attributed to the library.
#[inline(always)]
pub fn lib_call<T>(op: &'static str, f: impl FnOnce() -> T) -> T {
    enter(op);
    let r = f();
    leave(op);
    r
}
/// Like `lib_call` but returns the panic message instead of unwinding.
#[inline(never)]
pub fn lib_try<T>(op: &'static str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(|| lib_call(op, f))).map_err(caught)
}
/// heap events seen during the last library call
pub fn last_allocs() -> u64 {
    LAST_ALLOCS.with(|c| c.get())
}

/// the worker this thread belongs to
pub fn slot() -> usize {
    SLOT.with(|s| s.get())
}
const WORKERS: usize = 8;
static SUB_OPS: Mutex<BTreeMap<&'static str, (u64, u64)>> = Mutex::new(BTreeMap::new());
/// Run `f` on a thread a case has started: watched like a worker, its calls counted, a panic in the library returned.
pub fn sub_thread<T>(parent: usize, i: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = WORKERS * (i + 1) + parent;
    if parent < WORKERS && slot < NSLOT {
        SLOT.with(|s| s.set(slot));
        SLOTS[slot].case.store(SLOTS[parent].case.load(Ordering::Relaxed), Ordering::Relaxed);
        SLOTS[slot].progress.fetch_add(1, Ordering::Relaxed);
        SLOTS[slot].tid.store(tid(), Ordering::Relaxed);
    }
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        ARMED.with(|x| x.set(false));
        format!("{} after {}", PANIC_MSG.with(|m| m.borrow().clone()), CUR_OP.with(|o| o.get()))
    });
    if slot < NSLOT {
        SLOTS[slot].tid.store(0, Ordering::Relaxed);
        SLOTS[slot].in_lib.store(false, Ordering::Relaxed);
    }
    OPS.with(|o| {
        let mut t = SUB_OPS.lock().unwrap();
        for (k, v) in o.borrow().iter() {
            let e = t.entry(k).or_insert((0, 0));
            e.0 += v.0;
            e.1 += v.1;
        }
    });
    r
}

// ---------------------------------------------------------------- cases
pub struct Fail {
    pub idx: u64,
    pub class: String,
    pub detail: String,
}
/// digests of the cases of this run, written beside the result when asked for
static DIGESTS: std::sync::OnceLock<Vec<(AtomicU64, AtomicU64)>> = std::sync::OnceLock::new();
pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub verbose: bool,
    cov: HashMap<&'static str, u64>,
    fails: Vec<Fail>,
    distinct: HashSet<u64>,
    evals: u64,
    samples: Vec<String>,
    want: bool,
}
impl Case {
    #[inline]
    pub fn cover(&mut self, k: &'static str) {
        *self.cov.entry(k).or_insert(0) += 1;
    }
    /// one oracle decision
    #[inline]
    pub fn eval1(&mut self) {
        self.evals += 1;
    }
    pub fn nontrivial(&mut self, h: u64) {
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn want_sample(&self) -> bool {
        self.want
    }
    pub fn sample(&mut self, s: String) {
        if self.want {
            self.samples.push(s);
            self.want = false;
        }
    }
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.verbose {
            println!("  FAIL {} {}", class, detail);
        }
        if self.fails.len() < 40 {
            self.fails.push(Fail { idx: self.idx, class: class.to_string(), detail });
        }
    }
    pub fn n_fails(&self) -> usize {
        self.fails.len()
    }
    /// what this case was asked and what it answered, for comparison between builds
    pub fn digest(&mut self, input: u64, answer: u64) {
        if let Some(d) = DIGESTS.get() {
            if let Some(x) = d.get(self.idx as usize) {
                x.0.store(input, Ordering::Relaxed);
                x.1.store(answer, Ordering::Relaxed);
            }
        }
    }
    /// violation if `!ok`
    #[inline]
    pub fn check(&mut self, ok: bool, class: &str, detail: impl FnOnce() -> String) {
        self.evals += 1;
        if !ok {
            self.fail(class, detail());
        }
    }
}

pub struct Spec {
    pub prop: &'static str,
    /// number of cases in the quick tier for (f64, f32)
    pub quick: u64,
    /// thorough = quick * this
    pub mult: u64,
    pub rule: &'static str,
    /// events that have to be observed for the run to count (name, minimum)
    pub need: &'static [(&'static str, u64)],
    /// report heap use during library calls as a violation
    pub no_alloc: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub struct Args {
    pub thorough: bool,
    pub seed: u64,
    pub out: Option<String>,
    pub replay: Option<u64>,
    pub cases: Option<u64>,
    pub threads: usize,
    pub max_secs: Option<u64>,
    pub digests: Option<String>,
}
pub fn args() -> Args {
    let mut a = Args { thorough: false, seed: 1, out: None, replay: None, cases: None, threads: 8, max_secs: None, digests: None };
    let v: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < v.len() {
        let val = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--tier" => a.thorough = val == "thorough",
            "--seed" => a.seed = val.parse().unwrap(),
            "--out" => a.out = Some(val),
            "--replay" => a.replay = Some(val.parse().unwrap()),
            "--cases" => a.cases = Some(val.parse().unwrap()),
            "--max-secs" => a.max_secs = Some(val.parse().unwrap()),
            "--digests" => a.digests = Some(val),
            "--threads" => a.threads = val.parse().unwrap(),
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(3)
            }
        }
        i += 2;
    }
    a
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        ARMED.with(|a| a.set(false));
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
struct Totals {
    cov: BTreeMap<&'static str, u64>,
    ops: BTreeMap<&'static str, (u64, u64)>,
    fails: Vec<Fail>,
    nfail: u64,
    distinct: HashSet<u64>,
    evals: u64,
    cases: u64,
    samples: Vec<(u64, String)>,
    errors: Vec<String>,
}

#[cfg(not(miri))]
fn tid() -> u64 {
    // "/proc/thread-self" -> "<pid>/task/<tid>"
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}
#[cfg(miri)]
fn tid() -> u64 {
    0
}
fn thread_cpu_ticks(tid: u64) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    // utime and stime are fields 14 and 15 of the line, 11 and 12 after the command name
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
fn write_out(path: &Option<String>, spec: &Spec, a: &Args, t: &Totals) {
    let mut s = String::from("{\n");
    s += &format!("\"property\": {}, \"config\": {}, \"seed\": {}, \"tier\": \"{}\",\n", esc(spec.prop), esc(crate::CONFIG), a.seed, if a.thorough { "thorough" } else { "quick" });
    s += &format!("\"cases\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n", t.cases, t.evals, t.distinct.len(), esc(spec.rule));
    s += "\"events\": {";
    s += &t.cov.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    s += "},\n\"library_calls\": {";
    s += &t.ops.iter().map(|(k, v)| format!("{}: {}", esc(k), v.0)).collect::<Vec<_>>().join(", ");
    s += "},\n\"samples\": [";
    s += &t.samples.iter().take(6).map(|(i, x)| format!("{{\"case\": {}, \"what\": {}}}", i, esc(x))).collect::<Vec<_>>().join(", ");
    s += &format!("],\n\"n_violations\": {},\n\"violations\": [", t.nfail);
    s += &t.fails.iter().take(20).map(|f| format!("{{\"case\": {}, \"class\": {}, \"detail\": {}}}", f.idx, esc(&f.class), esc(&f.detail))).collect::<Vec<_>>().join(",\n ");
    s += "],\n\"errors\": [";
    s += &t.errors.iter().take(5).map(|x| esc(x)).collect::<Vec<_>>().join(", ");
    s += "]\n}\n";
    match path {
        Some(p) => std::fs::write(p, s).expect("write result"),
        None => print!("{s}"),
    }
}

/// Run the property's workload; never returns.
pub fn drive(spec: Spec, f: impl Fn(&mut Case) + Sync) -> ! {
    if std::env::var_os("VERIF_BARE").is_some() {
        // the workload of the freestanding programs, hosted
        crate::bare::run(&mut |name, h| println!("{name} {h:016x}"));
        std::process::exit(0);
    }
    let a = args();
    install_hook();
    let stream = {
        let mut h = 0xcbf29ce484222325u64;
        for b in spec.prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h
    };
    let n = a.cases.unwrap_or(spec.quick * if a.thorough { spec.mult } else { 1 });
    let run_case = |idx: u64, c: &mut Case| -> Result<(), String> {
        c.rng = Rng::new(a.seed, stream, idx);
        c.idx = idx;
        CASE_ALLOC.with(|x| x.set((0, "")));
        let r = catch_unwind(AssertUnwindSafe(|| f(c)));
        ARMED.with(|x| x.set(false));
        if r.is_err() {
            let msg = PANIC_MSG.with(|m| m.borrow().clone());
            let op = CUR_OP.with(|o| o.get());
            if IN_LIB.with(|x| x.replace(false)) {
                c.fail("panic", format!("{op} panicked: {msg}"));
            } else {
                // the oracles accept every answer the library can rightly give, so an answer they stumble over is wrong
                c.fail("unexpected", format!("the monitor could not interpret the answers of this case (after {op}): {msg}"));
            }
        }
        if spec.no_alloc {
            let (k, op) = CASE_ALLOC.with(|x| x.get());
            c.check(k == 0, "heap", || format!("{k} heap event(s) during library calls of this case, last in {op}"));
        }
        Ok(())
    };
    let new_case = |verbose: bool| Case {
        rng: Rng::new(0, 0, 0),
        idx: 0,
        thorough: a.thorough,
        verbose,
        cov: HashMap::new(),
        fails: Vec::new(),
        distinct: HashSet::new(),
        evals: 0,
        samples: Vec::new(),
        want: false,
    };
    if let Some(idx) = a.replay {
        let mut c = new_case(true);
        c.want = true;
        let r = run_case(idx, &mut c);
        println!("replay of {} [{}] seed {} case {}: {} violation(s)", spec.prop, crate::CONFIG, a.seed, idx, c.fails.len());
        for s in &c.samples {
            println!("  input {s}");
        }
        for x in &c.fails {
            println!("  {}: {}", x.class, x.detail);
        }
        if let Err(e) = r {
            println!("  {e}");
            std::process::exit(3);
        }
        std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
    }
    let tot = Mutex::new(Totals {
        cov: BTreeMap::new(),
        ops: BTreeMap::new(),
        fails: Vec::new(),
        nfail: 0,
        distinct: HashSet::new(),
        evals: 0,
        cases: 0,
        samples: Vec::new(),
        errors: Vec::new(),
    });
    if spec.no_alloc && cfg!(not(miri)) {
        // the monitor has to see an allocation made inside an observed call
        let b = lib_call("self-test", || std::hint::black_box(Box::new(std::hint::black_box(7u64))));
        let seen = last_allocs();
        lib_call("self-test", move || drop(std::hint::black_box(b)));
        if seen == 0 || last_allocs() == 0 {
            eprintln!("error: the allocation monitor is blind");
            std::process::exit(3);
        }
        OPS.with(|o| o.borrow_mut().clear());
    }
    if a.digests.is_some() {
        let _ = DIGESTS.set((0..n).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    }
    let begun = std::time::Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let nth = if cfg!(miri) { 1 } else { a.threads.clamp(1, WORKERS) };
    let chunk = if cfg!(miri) { 1 << 40 } else { 64 };
    let worker = |slot: usize| {
        SLOT.with(|s| s.set(slot));
        SLOTS[slot].tid.store(tid(), Ordering::Relaxed);
        let mut c = new_case(false);
        let mut samples: Vec<(u64, String)> = Vec::new();
        let mut fails: Vec<Fail> = Vec::new();
        let mut nfail = 0u64;
        let mut errors = Vec::new();
        let mut cases = 0;
        'outer: loop {
            let base = next.fetch_add(chunk, Ordering::Relaxed);
            if base >= n || stop.load(Ordering::Relaxed) {
                break;
            }
            for idx in base..base.saturating_add(chunk).min(n) {
                if let Some(m) = a.max_secs {
                    if begun.elapsed().as_secs() >= m {
                        break 'outer;
                    }
                }
                SLOTS[slot].case.store(idx, Ordering::Relaxed);
                SLOTS[slot].progress.fetch_add(1, Ordering::Relaxed);
                c.want = idx % (n / 6).max(1) == 0;
                let r = run_case(idx, &mut c);
                cases += 1;
                for s in c.samples.drain(..) {
                    samples.push((idx, s));
                }
                nfail += c.fails.len() as u64;
                for x in c.fails.drain(..) {
                    if fails.len() < 200 {
                        fails.push(x);
                    }
                }
                if let Err(e) = r {
                    errors.push(e);
                    if errors.len() > 3 {
                        stop.store(true, Ordering::Relaxed);
                        break 'outer;
                    }
                }
                if nfail > 400 {
                    stop.store(true, Ordering::Relaxed);
                    break 'outer;
                }
            }
        }
        let mut t = tot.lock().unwrap();
        for (k, v) in &c.cov {
            *t.cov.entry(k).or_insert(0) += v;
        }
        OPS.with(|o| {
            for (k, v) in o.borrow().iter() {
                let e = t.ops.entry(k).or_insert((0, 0));
                e.0 += v.0;
                e.1 += v.1;
            }
        });
        t.distinct.extend(c.distinct.iter());
        t.evals += c.evals;
        t.cases += cases;
        t.nfail += nfail;
        t.fails.extend(fails);
        t.samples.extend(samples);
        t.errors.extend(errors);
        SLOTS[slot].tid.store(0, Ordering::Relaxed);
    };
    if nth == 1 {
        worker(0);
    } else {
        std::thread::scope(|s| {
            let worker = &worker;
            let hs: Vec<_> = (0..nth).map(|i| s.spawn(move || worker(i))).collect();
            let (a2, spec2, done2) = (&a, &spec, &done);
            // watchdog: one library call that burns 40 s of its own thread's CPU time never returns
            let wd = s.spawn(move || {
                let mut last = vec![(0u64, 0u64); NSLOT];
                while !done2.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(200));
                    for i in 0..NSLOT {
                        let t = SLOTS[i].tid.load(Ordering::Relaxed);
                        if t == 0 {
                            continue;
                        }
                        let p = SLOTS[i].progress.load(Ordering::Relaxed);
                        let cpu = thread_cpu_ticks(t);
                        if p != last[i].0 {
                            last[i] = (p, cpu);
                        } else if cpu > last[i].1 + 4000 {
                            let case = SLOTS[i].case.load(Ordering::Relaxed);
                            let in_lib = SLOTS[i].in_lib.load(Ordering::Relaxed);
                            let mut t = Totals { cov: BTreeMap::new(), ops: BTreeMap::new(), fails: vec![], nfail: 0, distinct: HashSet::new(), evals: case, cases: case, samples: vec![], errors: vec![] };
                            if in_lib {
                                t.nfail = 1;
                                t.fails.push(Fail { idx: case, class: "hang".into(), detail: "a library call used more than 40 s of CPU time without returning".into() });
                            } else {
                                t.errors.push(format!("harness stuck in case {case}"));
                            }
                            write_out(&a2.out, spec2, a2, &t);
                            std::process::exit(if in_lib { 1 } else { 3 });
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Ordering::Relaxed);
            let _ = wd.join();
        });
    }
    let mut t = tot.into_inner().unwrap();
    for (k, v) in SUB_OPS.lock().unwrap().iter() {
        let e = t.ops.entry(k).or_insert((0, 0));
        e.0 += v.0;
        e.1 += v.1;
    }
    t.fails.sort_by_key(|f| f.idx);
    t.samples.sort();
    if t.nfail == 0 && !cfg!(miri) && a.cases.is_none() {
        for (k, min) in spec.need {
            let got = t.cov.get(k).copied().unwrap_or(0);
            if got < *min {
                t.errors.push(format!("too few events '{k}': {got} < {min}"));
            }
        }
    }
    if let (Some(p), Some(d)) = (&a.digests, DIGESTS.get()) {
        let b: Vec<u8> = d.iter().flat_map(|x| [x.0.load(Ordering::Relaxed).to_le_bytes(), x.1.load(Ordering::Relaxed).to_le_bytes()].concat()).collect();
        std::fs::write(p, b).expect("write digests");
    }
    write_out(&a.out, &spec, &a, &t);
    let code = if t.nfail > 0 {
        1
    } else if !t.errors.is_empty() {
        3
    } else {
        0
    };
    for e in t.errors.iter().take(3) {
        eprintln!("error: {e}");
    }
    std::process::exit(code)
}
