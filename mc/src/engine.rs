//! Exhaustive stateless explorer.
//!
//! A *space* is a function over a `Case`; every call to `Case::pick(n)` is a
//! free choice point with `n` alternatives, every call to `Case::dev(n)` a
//! choice point whose alternatives other than 0 cost one deviation. The
//! explorer runs the function once for every choice vector (all alternatives of
//! every free point, at most `max_dev` deviations), depth first, on all cores.
//! There is no randomness and no sampling: a space is done when the tree is
//! exhausted. Runs of the same vector must meet the same choice points, and a
//! difference is a hard error.

use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }

    pub fn sel<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// A failed check.
#[derive(Debug, Clone)]
pub struct Fail {
    /// Short stable name of the clause which failed.
    pub what: String,
    /// Identity of the failing input or history (what known findings match).
    pub case: String,
    /// What was observed and what was expected.
    pub detail: String,
}

pub type Res = Result<(), Fail>;

/// Exit code for a checker which contradicts itself.
pub const INTERNAL: i32 = 98;

/// The checker is wrong: nothing it would report can be believed.
pub fn internal(what: &str) {
    static SEEN: AtomicUsize = AtomicUsize::new(0);
    if SEEN.fetch_add(1, Ordering::Relaxed) < 20 {
        eprintln!("{what}");
    }
    if std::env::var_os("NDMC_ALL").is_none() {
        std::process::exit(INTERNAL);
    }
}

pub fn fail<T>(
    what: impl Into<String>,
    case: impl Into<String>,
    detail: impl Into<String>,
) -> Result<T, Fail> {
    Err(Fail {
        what: what.into(),
        case: case.into(),
        detail: detail.into(),
    })
}

pub struct Space {
    pub name: String,
    pub max_dev: u32,
    pub run: Box<dyn Fn(&mut Case<'_>) -> Res + Sync + Send>,
}

impl Space {
    pub fn new(
        name: impl Into<String>,
        max_dev: u32,
        run: impl Fn(&mut Case<'_>) -> Res + Sync + Send + 'static,
    ) -> Self {
        Self {
            name: name.into(),
            max_dev,
            run: Box::new(run),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Point {
    arity: u32,
    dev: bool,
}

/// Statistics of a run.
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub transitions: u64,
    pub validated: u64,
    pub nontrivial: HashSet<u64>,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<&'static str, u64>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.transitions += o.transitions;
        self.validated += o.validated;
        if self.nontrivial.is_empty() {
            self.nontrivial = o.nontrivial;
        } else {
            self.nontrivial.extend(o.nontrivial);
        }
        if self.states.is_empty() {
            self.states = o.states;
        } else {
            self.states.extend(o.states);
        }
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

pub struct Case<'w> {
    cur: &'w mut Vec<u32>,
    lim: &'w mut Vec<u32>,
    points: &'w mut Vec<Point>,
    pos: usize,
    changed: usize,
    devs: u32,
    max_dev: u32,
    sample: bool,
    pub stats: &'w mut Stats,
    diverged: bool,
}

/// Unwound to when a prefix diverges; never raised by the code under test.
struct Diverged;

impl Case<'_> {
    fn point(&mut self, arity: u32, dev: bool) -> usize {
        let p = Point { arity, dev };
        let i = self.pos;
        self.pos += 1;

        if i < self.cur.len() {
            if i < self.points.len() {
                if self.points[i] != p {
                    self.diverged = true;
                    std::panic::panic_any(Diverged);
                }
            } else {
                self.points.push(p);
                self.lim.push(arity);
            }

            let c = self.cur[i];

            if c >= arity {
                self.diverged = true;
                std::panic::panic_any(Diverged);
            }

            if dev && c != 0 {
                self.devs += 1;
            }

            return c as usize;
        }

        self.cur.push(0);
        self.points.push(p);
        self.lim.push(arity);
        0
    }

    /// Free choice between `n` alternatives.
    #[inline]
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.point(n as u32, false)
    }

    /// Free choice of an element.
    #[inline]
    pub fn of<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.pick(items.len())].clone()
    }

    /// Choice where every alternative except 0 costs one deviation.
    #[inline]
    pub fn dev(&mut self, n: usize) -> usize {
        if n <= 1 || self.devs >= self.max_dev {
            return 0;
        }
        self.point(n as u32, true)
    }

    #[inline]
    pub fn dev_of<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.dev(items.len())].clone()
    }

    /// Whether anything chosen so far differs from the previous run of this
    /// worker, i.e. whether the state reached here has not been checked before.
    #[inline]
    pub fn fresh(&self) -> bool {
        self.pos > self.changed
    }

    pub fn position(&self) -> usize {
        self.pos
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample {
            self.sample = false;
            let s = f();
            if self.stats.samples.len() < 12 {
                self.stats.samples.push(s);
            }
        }
    }

    pub fn outcome(&mut self, name: &str) {
        if let Some(n) = self.stats.outcomes.get_mut(name) {
            *n += 1;
        } else {
            self.stats.outcomes.insert(name.to_owned(), 1);
        }
    }

    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.stats.counters.entry(name).or_default() += n;
    }

    pub fn nontrivial(&mut self, bytes: &[u8]) {
        self.stats.nontrivial.insert(hash(bytes));
    }

    pub fn state(&mut self, bytes: &[u8]) {
        self.stats.states.insert(hash(bytes));
    }

    pub fn transition(&mut self) {
        self.stats.transitions += 1;
    }
}

pub fn hash(bytes: &[u8]) -> u64 {
    // FNV-1a with a final avalanche, 64 bit.
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &b in bytes {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8_feb8_6659_fd93);
    h ^= h >> 32;
    h
}

// ---------------------------------------------------------------------------
// Slots: what every worker is running, in memory shared with the supervisor.

pub const SLOTS: usize = 8;
const SLOT_WORDS: usize = 512;

pub struct Slots {
    ptr: *mut u32,
}

unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

pub const SLOT_BYTES: usize = SLOTS * SLOT_WORDS * 4;

impl Slots {
    pub fn open(path: &str) -> std::io::Result<Self> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)?;
        f.set_len(SLOT_BYTES as u64)?;
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT_BYTES,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if ptr == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Self { ptr: ptr.cast() })
    }

    /// Slot layout: busy flag, space index, flag (1 hang, 2 memory), len, choices.
    fn words(&self, slot: usize) -> *mut u32 {
        unsafe { self.ptr.add(slot * SLOT_WORDS) }
    }

    fn enter(&self, slot: usize, space: usize, cur: &[u32]) {
        let n = cur.len().min(SLOT_WORDS - 4);
        unsafe {
            let w = self.words(slot);
            w.add(1).write_volatile(space as u32);
            w.add(2).write_volatile(0);
            w.add(3).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(cur.as_ptr(), w.add(4), n);
            w.write_volatile(1);
        }
    }

    fn leave(&self, slot: usize) {
        unsafe { self.words(slot).write_volatile(0) }
    }

    pub fn flag(&self, slot: usize, flag: u32) {
        unsafe { self.words(slot).add(2).write_volatile(flag) }
    }

    pub fn busy(&self) -> Vec<(usize, Vec<u32>, u32)> {
        let mut out = Vec::new();
        for s in 0..SLOTS {
            unsafe {
                let w = self.words(s);
                if w.read_volatile() == 1 {
                    let n = (w.add(3).read_volatile() as usize).min(SLOT_WORDS - 4);
                    let v = (0..n).map(|i| w.add(4 + i).read_volatile()).collect();
                    out.push((
                        w.add(1).read_volatile() as usize,
                        v,
                        w.add(2).read_volatile(),
                    ));
                }
            }
        }
        out
    }
}

// ---------------------------------------------------------------------------
// Memory guard: one allocation of more than LIMIT bytes inside a case means
// that the code under test is running away.

pub const ALLOC_LIMIT: usize = 256 << 20;
pub const EXIT_HANG: i32 = 97;
pub const EXIT_MEMORY: i32 = 96;

thread_local! {
    static IN_CASE: Cell<usize> = const { Cell::new(usize::MAX) };
}

static GLOBAL_SLOTS: std::sync::OnceLock<Slots> = std::sync::OnceLock::new();

pub fn slots() -> Option<&'static Slots> {
    GLOBAL_SLOTS.get()
}

pub fn install_slots(s: Slots) {
    let _ = GLOBAL_SLOTS.set(s);
}

pub struct Guard;

#[cold]
fn runaway() -> ! {
    let slot = IN_CASE.try_with(Cell::get).unwrap_or(usize::MAX);
    if let Some(s) = slots() {
        if slot < SLOTS {
            s.flag(slot, 2);
        }
    }
    unsafe { libc::_exit(EXIT_MEMORY) }
}

fn in_case() -> bool {
    IN_CASE.try_with(|c| c.get() != usize::MAX).unwrap_or(false)
}

unsafe impl std::alloc::GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT && in_case() {
            runaway();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > ALLOC_LIMIT && in_case() {
            runaway();
        }
        std::alloc::System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------------------
// Panics of the code under test.

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if in_case() {
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
        } else {
            eprintln!("harness panic: {msg} (at {loc})");
        }
    }));
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Failure {
    pub space: String,
    pub space_index: usize,
    pub choices: Vec<u32>,
    pub fail: Fail,
}

struct Shared {
    queue: Mutex<Queue>,
    cond: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    failures: Mutex<HashMap<String, (u64, Failure)>>,
    nfail: AtomicU64,
    first_fail: Mutex<Option<Instant>>,
    errors: Mutex<Vec<String>>,
    case_no: [AtomicU64; SLOTS],
    started: [AtomicBool; SLOTS],
    clocks: Mutex<[libc::clockid_t; SLOTS]>,
}

struct Queue {
    tasks: Vec<Vec<u32>>,
    waiting: usize,
    done: bool,
}

pub struct Options {
    pub threads: usize,
    /// Seconds of CPU one case may take.
    pub case_cpu: u64,
    /// Keep going after failures and keep one per (clause, ...) cluster.
    pub all: bool,
    /// Identities of known findings: not counted as failures for stopping.
    pub known: HashSet<String>,
}

pub struct Outcome {
    pub stats: Stats,
    pub failures: Vec<(u64, Failure)>,
    pub errors: Vec<String>,
    pub capped: bool,
}

enum Ran {
    Ok,
    Fail(Fail),
    Diverged,
}

fn run_once(space: &Space, case: &mut Case<'_>, slot: usize) -> Ran {
    IN_CASE.with(|c| c.set(slot));
    let r = catch_unwind(AssertUnwindSafe(|| (space.run)(case)));
    IN_CASE.with(|c| c.set(usize::MAX));
    if case.diverged {
        return Ran::Diverged;
    }
    match r {
        Ok(Ok(())) => Ran::Ok,
        Ok(Err(f)) => Ran::Fail(f),
        Err(_) => {
            let msg = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
            Ran::Fail(Fail {
                what: "panic".into(),
                case: case_note(),
                detail: msg,
            })
        }
    }
}

thread_local! {
    static NOTE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Print the notes of cases (when a single case is run).
pub static VERBOSE: AtomicBool = AtomicBool::new(false);

/// Remember what the current case is about, for panics.
pub fn note(s: impl FnOnce(&mut String)) {
    NOTE.with(|n| {
        let mut n = n.borrow_mut();
        n.clear();
        s(&mut n);
        if VERBOSE.load(Ordering::Relaxed) {
            use std::io::Write;
            println!("case: {n}");
            let _ = std::io::stdout().flush();
        }
    });
}

fn case_note() -> String {
    NOTE.with(|n| n.borrow().clone())
}

fn thread_cpu_ms(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    if unsafe { libc::clock_gettime(clock, &mut ts) } != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

/// Run exactly one choice vector and report what happened.
pub fn run_one(space: &Space, choices: &[u32]) -> (Result<(), Fail>, Vec<u32>) {
    let mut stats = Stats::default();
    let mut cur = choices.to_vec();
    let (mut lim, mut points) = (Vec::new(), Vec::new());
    let mut case = Case {
        cur: &mut cur,
        lim: &mut lim,
        points: &mut points,
        pos: 0,
        changed: 0,
        devs: 0,
        max_dev: space.max_dev,
        sample: true,
        stats: &mut stats,
        diverged: false,
    };
    let r = run_once(space, &mut case, SLOTS);
    for s in &stats.samples {
        println!("sample: {s}");
    }
    match r {
        Ran::Ok => (Ok(()), cur),
        Ran::Fail(f) => (Err(f), cur),
        Ran::Diverged => (
            fail(
                "replay",
                "",
                "the recorded choices do not fit this space any more",
            ),
            cur,
        ),
    }
}

pub fn explore(index: usize, space: &Space, opts: &Options) -> Outcome {
    let shared = Shared {
        queue: Mutex::new(Queue {
            tasks: vec![Vec::new()],
            waiting: 0,
            done: false,
        }),
        cond: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        failures: Mutex::new(HashMap::new()),
        nfail: AtomicU64::new(0),
        first_fail: Mutex::new(None),
        errors: Mutex::new(Vec::new()),
        case_no: Default::default(),
        started: Default::default(),
        clocks: Mutex::new([0; SLOTS]),
    };

    let finished = AtomicBool::new(false);
    let mut total = Stats::default();

    std::thread::scope(|scope| {
        let shared = &shared;
        let finished = &finished;

        let watchdog = scope.spawn(move || {
            let mut last: [(u64, u64); SLOTS] = [(u64::MAX, 0); SLOTS];
            let mut tick = 0u64;
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(5));
                tick += 1;
                if tick % 40 != 0 {
                    continue;
                }
                let clocks = *shared.clocks.lock().unwrap();
                for s in 0..opts.threads {
                    if !shared.started[s].load(Ordering::Relaxed) {
                        continue;
                    }
                    let no = shared.case_no[s].load(Ordering::Relaxed);
                    let cpu = thread_cpu_ms(clocks[s]);
                    // Odd: inside a case.
                    if no % 2 == 1 && last[s].0 == no {
                        if cpu.saturating_sub(last[s].1) > opts.case_cpu * 1000 {
                            if let Some(sl) = slots() {
                                sl.flag(s, 1);
                            }
                            unsafe { libc::_exit(EXIT_HANG) }
                        }
                    } else {
                        last[s] = (no, cpu);
                    }
                }
            }
        });

        let workers: Vec<_> = (0..opts.threads)
            .map(|slot| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || worker(index, space, opts, shared, slot))
                    .expect("spawn")
            })
            .collect();

        for w in workers {
            match w.join() {
                Ok(s) => total.merge(s),
                Err(_) => shared
                    .errors
                    .lock()
                    .unwrap()
                    .push("a worker of the harness panicked".into()),
            }
        }

        finished.store(true, Ordering::Relaxed);
        let _ = watchdog.join();
    });

    let mut failures: Vec<_> = shared
        .failures
        .into_inner()
        .unwrap()
        .into_values()
        .collect();
    failures.sort_by_key(|(_, f)| (f.fail.case.len(), f.choices.clone()));

    Outcome {
        stats: total,
        failures,
        errors: shared.errors.into_inner().unwrap(),
        capped: shared.stop.load(Ordering::Relaxed),
    }
}

fn worker(index: usize, space: &Space, opts: &Options, shared: &Shared, slot: usize) -> Stats {
    {
        let mut clock: libc::clockid_t = 0;
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
        shared.clocks.lock().unwrap()[slot] = clock;
        shared.started[slot].store(true, Ordering::Relaxed);
    }

    let mut stats = Stats::default();
    let (mut cur, mut lim, mut points) = (Vec::new(), Vec::new(), Vec::new());

    loop {
        let task = {
            let mut q = shared.queue.lock().unwrap();
            loop {
                if q.done || shared.stop.load(Ordering::Relaxed) {
                    shared.started[slot].store(false, Ordering::Relaxed);
                    return stats;
                }
                if let Some(t) = q.tasks.pop() {
                    break t;
                }
                q.waiting += 1;
                if q.waiting == opts.threads {
                    q.done = true;
                    shared.cond.notify_all();
                    shared.started[slot].store(false, Ordering::Relaxed);
                    return stats;
                }
                shared.idle.fetch_add(1, Ordering::Relaxed);
                q = shared.cond.wait(q).unwrap();
                shared.idle.fetch_sub(1, Ordering::Relaxed);
                q.waiting -= 1;
            }
        };

        let base = task.len();
        cur.clear();
        cur.extend_from_slice(&task);
        lim.clear();
        points.clear();
        // Everything up to the last choice of the task was checked by the donor.
        let mut changed = base.saturating_sub(1);

        loop {
            if shared.stop.load(Ordering::Relaxed) {
                break;
            }

            let n = stats.evaluations + 1;
            stats.evaluations = n;
            let sample = n.is_power_of_two() && (slot == 0 || n >= 64);

            if let Some(s) = slots() {
                s.enter(slot, index, &cur);
            }
            shared.case_no[slot].fetch_add(1, Ordering::Relaxed);

            let (ran, used) = {
                let mut case = Case {
                    cur: &mut cur,
                    lim: &mut lim,
                    points: &mut points,
                    pos: 0,
                    changed,
                    devs: 0,
                    max_dev: space.max_dev,
                    sample,
                    stats: &mut stats,
                    diverged: false,
                };
                let r = run_once(space, &mut case, slot);
                (r, case.pos)
            };

            shared.case_no[slot].fetch_add(1, Ordering::Relaxed);
            if let Some(s) = slots() {
                s.leave(slot);
            }

            let shorter = used < cur.len();

            match ran {
                Ran::Ok if !shorter => {}
                Ran::Ok | Ran::Diverged => {
                    let mut e = shared.errors.lock().unwrap();
                    if e.len() < 8 {
                        e.push(format!(
                            "space {}: the run diverged while replaying {:?}",
                            space.name, cur
                        ));
                    }
                    shared.stop.store(true, Ordering::Relaxed);
                }
                Ran::Fail(f) => record(index, space, opts, shared, &cur, f),
            }

            if shorter {
                // A failed run stops early; the choice points after the failure
                // have not been met. Treat the failing prefix as a leaf.
                cur.truncate(used.max(base));
                lim.truncate(used.max(base));
                points.truncate(used.max(base));
            }

            // Give work away when someone is waiting for it.
            if shared.idle.load(Ordering::Relaxed) > 0 {
                donate(space, shared, base, &cur, &mut lim, &points);
            }

            // Next vector.
            let mut next = None;
            let mut devs: u32 = (0..cur.len())
                .map(|i| u32::from(points[i].dev && cur[i] != 0))
                .sum();

            for i in (base..cur.len()).rev() {
                if points[i].dev && cur[i] != 0 {
                    devs -= 1;
                }
                if cur[i] + 1 < lim[i] && (!points[i].dev || devs + 1 <= space.max_dev) {
                    next = Some(i);
                    break;
                }
            }

            let Some(i) = next else { break };
            cur.truncate(i + 1);
            lim.truncate(i + 1);
            points.truncate(i + 1);
            cur[i] += 1;
            changed = i;
        }
    }
}

fn donate(
    space: &Space,
    shared: &Shared,
    base: usize,
    cur: &[u32],
    lim: &mut [u32],
    points: &[Point],
) {
    let mut devs = 0;
    for i in 0..cur.len() {
        if i >= base && cur[i] + 1 < lim[i] && (!points[i].dev || devs + 1 <= space.max_dev) {
            let mut q = shared.queue.lock().unwrap();
            if q.tasks.len() > 64 {
                return;
            }
            for alt in (cur[i] + 1..lim[i]).rev() {
                let mut t = cur[..i].to_vec();
                t.push(alt);
                q.tasks.push(t);
            }
            lim[i] = cur[i] + 1;
            shared.cond.notify_all();
            return;
        }
        if points[i].dev && cur[i] != 0 {
            devs += 1;
        }
    }
}

fn record(index: usize, space: &Space, opts: &Options, shared: &Shared, cur: &[u32], f: Fail) {
    let is_known = opts.known.contains(&f.case);
    let key = if is_known {
        format!("known\0{}", f.case)
    } else if opts.all {
        let d: String = f
            .detail
            .chars()
            .take_while(|c| *c != ':')
            .take(60)
            .collect();
        format!("{}\0{}", f.what, d)
    } else {
        f.what.clone()
    };

    let failure = Failure {
        space: space.name.clone(),
        space_index: index,
        choices: cur.to_vec(),
        fail: f,
    };

    {
        let mut m = shared.failures.lock().unwrap();
        match m.get_mut(&key) {
            Some((n, old)) => {
                *n += 1;
                if (failure.fail.case.len(), &failure.choices)
                    < (old.fail.case.len(), &old.choices)
                {
                    *old = failure;
                }
            }
            None => {
                m.insert(key, (1, failure));
            }
        }
    }

    if is_known || opts.all {
        return;
    }

    let n = shared.nfail.fetch_add(1, Ordering::Relaxed) + 1;
    let mut first = shared.first_fail.lock().unwrap();
    let first = first.get_or_insert_with(Instant::now);
    if n > 20_000 || first.elapsed() > Duration::from_secs(3) {
        shared.stop.store(true, Ordering::Relaxed);
    }
}
