//! Deterministic simulation runtime.
//!
//! One *simulation* = one OS thread (the scheduler thread, which runs the patched tokio
//! current-thread scheduler) plus any number of *fibers* (OS threads of which exactly one, or the
//! scheduler, holds the baton at any time). Everything the simulated program can observe that is
//! not a function of its inputs is decided here: the next task or fiber to run, preemption inside
//! a fiber, the outcome of `select!`, the clocks, random bytes.
//!
//! Every decision is either drawn from a PRNG seeded by the run seed and recorded on a tape, or
//! read back from a tape (replay); an exhausted tape yields 0, the "do nothing unusual" choice.
use std::cell::{Cell, UnsafeCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

pub mod sys;

thread_local! {
    static CTX: Cell<*const Sim> = const { Cell::new(std::ptr::null()) };
    static FIBER: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Kinds of decisions, each with its own tape.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Sched = 0,
    Select = 1,
    Preempt = 2,
    Net = 3,
}
pub const KINDS: usize = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Uniform,
    MostlyFifo,
    MostlyLifo,
    Pct,
    Starve,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    /// Some: replay these tapes. None: draw from the PRNG and record.
    pub tapes: Option<Vec<Vec<u32>>>,
    pub policy: Policy,
    /// Run every task poll on a fiber that can be preempted at yield points (models a
    /// multi-threaded tokio runtime).
    pub mt: bool,
    /// Probability (per 1000) of preempting at a yield point.
    pub preempt_permille: u32,
    /// Max virtual nanoseconds consumed by one scheduling step.
    pub cost_ns: u64,
    pub max_steps: u64,
    /// Real time at virtual time zero, nanoseconds since the epoch.
    pub epoch_ns: u64,
    pub trace: bool,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            seed: 1,
            tapes: None,
            policy: Policy::Uniform,
            mt: false,
            preempt_permille: 300,
            cost_ns: 2_000,
            max_steps: 400_000,
            epoch_ns: 1_709_251_200_000_000_000,
            trace: false,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub steps: u64,
    pub fiber_switches: u64,
    pub preemptions: u64,
    pub choices: u64,
    pub nontrivial_choices: u64,
    pub virtual_ns: u64,
    pub sched_hash: u64,
    pub step_limit_hit: bool,
    pub deadlock: bool,
    pub tapes: Vec<Vec<u32>>,
    pub tasks_spawned: u64,
    pub leaked_fibers: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum FState {
    Idle,
    Ready,
    Running,
    /// Waits until *addr != val or the deadline passes.
    Blocked { addr: usize, val: u32, deadline: Option<u64> },
}

struct Fiber {
    sem: AtomicU32,
    slot: UnsafeCell<FiberSlot>,
}
struct FiberSlot {
    state: FState,
    node: u32,
    ordinal: u64,
    work: Option<Box<dyn FnOnce() + Send>>,
    thread: Option<std::thread::JoinHandle<()>>,
}
unsafe impl Sync for Fiber {}
unsafe impl Send for Fiber {}

struct Inner {
    cfg: Config,
    rng: Rng,
    cost_rng: Rng,
    bytes_rng: Rng,
    tapes: Vec<Vec<u32>>,
    pos: Vec<usize>,
    replay: bool,
    now_ns: u64,
    driven_ns: u64,
    fibers: Vec<Arc<Fiber>>,
    cur_node: u32,
    cur_ordinal: u64,
    task_info: HashMap<u64, (u32, u64), BuildFx>,
    next_ordinal: u64,
    next_task_id: u64,
    dead: HashSet<u32, BuildFx>,
    paused: HashSet<u32, BuildFx>,
    skew: BTreeMap<u32, i64>,
    realtime_shift: i64,
    report: Report,
    exiting: bool,
    draining: bool,
    prio: HashMap<u64, u32, BuildFx>,
    pct_changes: Vec<u64>,
    starve_mod: u64,
    stop_faults: bool,
    trace_log: Vec<String>,
    user: Option<Arc<dyn std::any::Any + Send + Sync>>,
    no_preempt: u32,
    deadlock_cb: Option<Box<dyn FnOnce(Report) + Send>>,
}

/// A `HashMap` hasher without random state.
#[derive(Default, Clone, Copy)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0.rotate_left(5) ^ *b as u64).wrapping_mul(0x517cc1b727220a95);
        }
    }
}

pub struct Sim {
    inner: UnsafeCell<Inner>,
    main_sem: AtomicU32,
}
unsafe impl Sync for Sim {}
unsafe impl Send for Sim {}

/// splitmix64 / xorshift style generator.
#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next_u64();
        r
    }
    pub fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next_u64() % n
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, permille: u64) -> bool {
        self.below(1000) < permille
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

fn ctx() -> Option<&'static Sim> {
    let p = CTX.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() {
        None
    } else {
        // The Sim outlives every thread that has it in its TLS.
        Some(unsafe { &*p })
    }
}

/// Only the baton holder calls this.
#[allow(clippy::mut_from_ref)]
fn inner(sim: &Sim) -> &mut Inner {
    unsafe { &mut *sim.inner.get() }
}

pub fn active() -> bool {
    ctx().is_some()
}

pub fn on_fiber() -> bool {
    FIBER.with(|f| f.get()) != usize::MAX
}

impl Inner {
    fn choose(&mut self, kind: Kind, n: usize, draw: impl FnOnce(&mut Inner) -> usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.report.choices += 1;
        let k = kind as usize;
        let v = if self.replay {
            let p = self.pos[k];
            self.pos[k] += 1;
            self.tapes[k].get(p).copied().unwrap_or(0) as usize % n
        } else {
            let v = draw(self) % n;
            self.tapes[k].push(v as u32);
            v
        };
        if v != 0 {
            self.report.nontrivial_choices += 1;
        }
        self.report.sched_hash = (self.report.sched_hash.rotate_left(7) ^ (v as u64 + 1 + ((k as u64) << 32)))
            .wrapping_mul(0x9E37_79B9_7F4A_7C15);
        v
    }
    fn spend(&mut self) {
        if self.cfg.cost_ns > 0 {
            let c = 1 + self.cost_rng.below(self.cfg.cost_ns);
            self.now_ns += c;
        }
    }
    fn fiber_ready(&self, i: usize) -> bool {
        let f = unsafe { &*self.fibers[i].slot.get() };
        if self.dead.contains(&f.node) || self.paused.contains(&f.node) {
            return false;
        }
        match f.state {
            FState::Ready => true,
            FState::Blocked { addr, val, deadline } => {
                let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
                cur != val || deadline.is_some_and(|d| d <= self.now_ns)
            }
            _ => false,
        }
    }
    fn ready_fibers(&self) -> Vec<usize> {
        (0..self.fibers.len()).filter(|i| self.fiber_ready(*i)).collect()
    }
    fn earliest_fiber_deadline(&self) -> Option<u64> {
        self.fibers
            .iter()
            .filter_map(|f| match unsafe { &*f.slot.get() }.state {
                FState::Blocked { deadline, .. } => deadline,
                _ => None,
            })
            .min()
    }
    /// Pick the index of one of the candidates given their ordinals.
    fn pick_policy(&mut self, ords: &[u64]) -> usize {
        let n = ords.len();
        match self.cfg.policy {
            Policy::Uniform => self.rng.below(n as u64) as usize,
            Policy::MostlyFifo => {
                if self.rng.chance(120) {
                    self.rng.below(n as u64) as usize
                } else {
                    0
                }
            }
            Policy::MostlyLifo => {
                if self.rng.chance(150) {
                    self.rng.below(n as u64) as usize
                } else {
                    n - 1
                }
            }
            Policy::Pct => {
                let step = self.report.steps;
                let mut best = 0;
                let mut bp = 0;
                for (i, o) in ords.iter().enumerate() {
                    let p = match self.prio.get(o) {
                        Some(p) => *p,
                        None => {
                            let p = 1000 + self.rng.below(1_000_000) as u32;
                            self.prio.insert(*o, p);
                            p
                        }
                    };
                    if p > bp {
                        bp = p;
                        best = i;
                    }
                }
                if self.pct_changes.contains(&step) {
                    let low = self.rng.below(1000) as u32 + 1;
                    self.prio.insert(ords[best], low);
                }
                // never starve completely: a hot loop at top priority would freeze the run
                if self.rng.chance(30) {
                    self.rng.below(n as u64) as usize
                } else {
                    best
                }
            }
            Policy::Starve => {
                let m = self.starve_mod;
                let cands: Vec<usize> = (0..n).filter(|i| ords[*i] % 5 != m).collect();
                if cands.is_empty() || self.rng.chance(15) {
                    self.rng.below(n as u64) as usize
                } else {
                    cands[self.rng.below(cands.len() as u64) as usize]
                }
            }
        }
    }
}

/// Run `f` as a simulation on the current thread (which should be freshly spawned, so that
/// thread-local state of libraries starts from scratch).
pub fn run<R>(cfg: Config, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Report, Vec<String>) {
    assert!(ctx().is_none());
    let mut rng = Rng::new(cfg.seed);
    let replay = cfg.tapes.is_some();
    let tapes = match &cfg.tapes {
        Some(t) => {
            let mut t = t.clone();
            t.resize(KINDS, vec![]);
            t
        }
        None => vec![vec![]; KINDS],
    };
    let pct_changes = (0..4).map(|_| rng.below(600)).collect();
    let starve_mod = rng.below(5);
    let sim = Box::new(Sim {
        inner: UnsafeCell::new(Inner {
            cost_rng: Rng::new(cfg.seed ^ 0xC057),
            bytes_rng: Rng::new(cfg.seed ^ 0xB17E5),
            rng,
            tapes,
            pos: vec![0; KINDS],
            replay,
            now_ns: 0,
            driven_ns: 0,
            fibers: vec![],
            cur_node: 0,
            cur_ordinal: 0,
            task_info: Default::default(),
            next_ordinal: 1,
            next_task_id: 0,
            dead: Default::default(),
            paused: Default::default(),
            skew: Default::default(),
            realtime_shift: 0,
            report: Report::default(),
            exiting: false,
            draining: false,
            prio: Default::default(),
            pct_changes,
            starve_mod,
            stop_faults: false,
            trace_log: vec![],
            user: None,
            no_preempt: 0,
            deadlock_cb: None,
            cfg,
        }),
        main_sem: AtomicU32::new(0),
    });
    let ptr: *const Sim = &*sim;
    CTX.with(|c| c.set(ptr));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    // Let preempted fibers finish without further preemption.
    let inn = inner(&sim);
    inn.draining = true;
    inn.paused.clear();
    let mut guard = 0;
    loop {
        let ready = inner(&sim).ready_fibers();
        if ready.is_empty() || guard > 100_000 {
            break;
        }
        guard += 1;
        resume(&sim, ready[0]);
    }
    CTX.with(|c| c.set(std::ptr::null()));
    let inn = inner(&sim);
    inn.exiting = true;
    for f in inn.fibers.clone() {
        let slot = unsafe { &mut *f.slot.get() };
        if slot.state == FState::Idle {
            post(&f.sem);
            if let Some(t) = slot.thread.take() {
                let _ = t.join();
            }
        } else {
            // Blocked for good (or asleep when the run ended): end the thread where it is.
            inn.report.leaked_fibers += 1;
            post(&f.sem);
            if let Some(t) = slot.thread.take() {
                use std::os::unix::thread::JoinHandleExt;
                unsafe { libc::pthread_join(t.into_pthread_t(), std::ptr::null_mut()) };
            }
        }
    }
    inn.report.virtual_ns = inn.now_ns;
    inn.report.tapes = std::mem::take(&mut inn.tapes);
    let report = inn.report.clone();
    let log = std::mem::take(&mut inn.trace_log);
    (r, report, log)
}

fn post(sem: &AtomicU32) {
    sem.fetch_add(1, Ordering::SeqCst);
    sys::raw_futex_wake(sem);
}
fn wait(sem: &AtomicU32) {
    loop {
        let v = sem.load(Ordering::SeqCst);
        if v > 0 {
            sem.fetch_sub(1, Ordering::SeqCst);
            return;
        }
        for _ in 0..200 {
            std::hint::spin_loop();
            if sem.load(Ordering::SeqCst) > 0 {
                break;
            }
        }
        if sem.load(Ordering::SeqCst) == 0 {
            sys::raw_futex_wait(sem, 0);
        }
    }
}

/// Hand the baton to fiber `i` until it yields, blocks or finishes.
fn resume(sim: &Sim, i: usize) {
    let inn = inner(sim);
    let f = inn.fibers[i].clone();
    let slot = unsafe { &mut *f.slot.get() };
    slot.state = FState::Running;
    let (pn, po) = (inn.cur_node, inn.cur_ordinal);
    inn.cur_node = slot.node;
    inn.cur_ordinal = slot.ordinal;
    inn.report.fiber_switches += 1;
    post(&f.sem);
    wait(&sim.main_sem);
    let inn = inner(sim);
    inn.cur_node = pn;
    inn.cur_ordinal = po;
}

/// Called on a fiber: give the baton back with the given state, return when resumed.
fn fiber_yield(sim: &Sim, state: FState) {
    let me = FIBER.with(|f| f.get());
    let f = inner(sim).fibers[me].clone();
    unsafe { &mut *f.slot.get() }.state = state;
    post(&sim.main_sem);
    wait(&f.sem);
    if inner(sim).exiting {
        unsafe { sys::raw_syscall(libc::SYS_exit, 0, 0, 0, 0, 0, 0) };
    }
}

fn start_on_fiber(sim: &Sim, node: u32, ordinal: u64, work: Box<dyn FnOnce() + Send>) -> usize {
    let inn = inner(sim);
    for (i, f) in inn.fibers.iter().enumerate() {
        let slot = unsafe { &mut *f.slot.get() };
        if slot.state == FState::Idle {
            slot.node = node;
            slot.ordinal = ordinal;
            slot.work = Some(work);
            slot.state = FState::Ready;
            return i;
        }
    }
    let idx = inn.fibers.len();
    let fiber = Arc::new(Fiber {
        sem: AtomicU32::new(0),
        slot: UnsafeCell::new(FiberSlot { state: FState::Ready, node, ordinal, work: Some(work), thread: None }),
    });
    inn.fibers.push(fiber.clone());
    let simp = sim as *const Sim as usize;
    let f2 = fiber.clone();
    // The spawn itself must see real OS behaviour.
    let saved = CTX.with(|c| c.replace(std::ptr::null()));
    let th = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let sim: &Sim = unsafe { &*(simp as *const Sim) };
            wait(&f2.sem);
            CTX.with(|c| c.set(sim));
            FIBER.with(|f| f.set(idx));
            loop {
                if inner(sim).exiting {
                    CTX.with(|c| c.set(std::ptr::null()));
                    return;
                }
                let work = unsafe { &mut *f2.slot.get() }.work.take();
                if let Some(w) = work {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(w));
                }
                unsafe { &mut *f2.slot.get() }.state = FState::Idle;
                post(&sim.main_sem);
                wait(&f2.sem);
            }
        })
        .expect("fiber thread");
    CTX.with(|c| c.set(saved));
    unsafe { &mut *fiber.slot.get() }.thread = Some(th);
    idx
}

// ---------------------------------------------------------------------------------------------
// Seam used by the patched tokio
// ---------------------------------------------------------------------------------------------

/// What the scheduler should do next.
pub enum Next {
    /// Run the task at this index of the run queue.
    Task(usize),
    /// A fiber was resumed; look again.
    Again,
    /// Nothing is runnable.
    Idle,
}

/// Task ids count per simulation.
pub fn next_task_id() -> Option<u64> {
    let inn = inner(ctx()?);
    inn.next_task_id += 1;
    // far from the ids given outside a simulation
    Some((1 << 40) + inn.next_task_id)
}

/// A task was spawned: it belongs to the node of its spawner.
pub fn on_spawn(task_id: u64) {
    if let Some(sim) = ctx() {
        let inn = inner(sim);
        let ord = inn.next_ordinal;
        inn.next_ordinal += 1;
        inn.report.tasks_spawned += 1;
        let node = inn.cur_node;
        inn.task_info.insert(task_id, (node, ord));
    }
}

/// True if virtual time moved since timers were last processed.
pub fn timers_due() -> bool {
    match ctx() {
        Some(sim) => {
            let inn = inner(sim);
            let r = inn.driven_ns / 1_000_000 != inn.now_ns / 1_000_000;
            inn.driven_ns = inn.now_ns;
            r
        }
        None => false,
    }
}

/// Decide which of the queued tasks (given by id) or fibers runs next.
pub fn next(ids: &[u64], out_dead: &mut Vec<usize>) -> Next {
    let sim = ctx().expect("simulation");
    let inn = inner(sim);
    let mut cand: Vec<(u64, usize, bool)> = vec![];
    for (i, id) in ids.iter().enumerate() {
        let (node, ord) = inn.task_info.get(id).copied().unwrap_or((0, 0));
        if inn.dead.contains(&node) {
            out_dead.push(i);
            continue;
        }
        if inn.paused.contains(&node) {
            continue;
        }
        cand.push((ord, i, false));
    }
    if !out_dead.is_empty() {
        return Next::Again;
    }
    for i in inn.ready_fibers() {
        let f = unsafe { &*inn.fibers[i].slot.get() };
        cand.push((f.ordinal, i, true));
    }
    if cand.is_empty() {
        return Next::Idle;
    }
    inn.report.steps += 1;
    if inn.report.steps > inn.cfg.max_steps {
        inn.report.step_limit_hit = true;
    }
    inn.spend();
    let ords: Vec<u64> = cand.iter().map(|c| c.0).collect();
    let pick = inn.choose(Kind::Sched, cand.len(), |inn| inn.pick_policy(&ords));
    let (ord, idx, fiber) = cand[pick];
    inn.report.sched_hash = (inn.report.sched_hash ^ ord).wrapping_mul(0x100000001b3);
    if inn.cfg.trace {
        let l = format!("t={} step={} run {} ord={} of {}", inn.now_ns, inn.report.steps, if fiber { "fiber" } else { "task" }, ord, cand.len());
        inn.trace_log.push(l);
    }
    if fiber {
        resume(sim, idx);
        Next::Again
    } else {
        Next::Task(idx)
    }
}

/// Run a task poll, inline or on a fiber.
pub fn run_task(task_id: u64, work: Box<dyn FnOnce() + Send + '_>) {
    let sim = ctx().expect("simulation");
    let inn = inner(sim);
    let (node, ord) = inn.task_info.get(&task_id).copied().unwrap_or((0, 0));
    if inn.cfg.mt && !inn.draining {
        // The closure only borrows things owned by the runtime, which outlives the fiber: `run`
        // drains all fibers before returning.
        let work: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(work) };
        let i = start_on_fiber(sim, node, ord, work);
        resume(sim, i);
    } else {
        let (pn, po) = (inn.cur_node, inn.cur_ordinal);
        inn.cur_node = node;
        inn.cur_ordinal = ord;
        work();
        let inn = inner(sim);
        inn.cur_node = pn;
        inn.cur_ordinal = po;
    }
}

pub fn mt() -> bool {
    ctx().is_some_and(|s| inner(s).cfg.mt && !inner(s).draining)
}

/// Start blocking work on its own fiber (tokio::task::spawn_blocking).
pub fn spawn_blocking(work: Box<dyn FnOnce() + Send>) {
    let sim = ctx().expect("simulation");
    let inn = inner(sim);
    let ord = inn.next_ordinal;
    inn.next_ordinal += 1;
    let node = inn.cur_node;
    start_on_fiber(sim, node, ord, work);
}

/// Nothing is runnable: advance virtual time by `dur` (to the next timer), or to the next fiber
/// deadline if that is earlier. Without timers and fibers the simulation is stuck.
pub fn idle(dur: Option<std::time::Duration>) {
    let sim = ctx().expect("simulation");
    let inn = inner(sim);
    let fd = inn.earliest_fiber_deadline();
    let t = dur.map(|d| inn.now_ns + d.as_nanos().min(1 << 62) as u64);
    let target = match (t, fd) {
        (Some(a), Some(b)) => a.min(b),
        (Some(a), None) => a,
        (None, Some(b)) => b,
        (None, None) => {
            inn.report.deadlock = true;
            panic!("simulation stuck: nothing runnable and no timer");
        }
    };
    if target > inn.now_ns {
        inn.now_ns = target;
    }
    inn.driven_ns = inn.now_ns;
}

/// Random decision of `select!`.
pub fn select_n(n: u32) -> Option<u32> {
    let sim = ctx()?;
    let inn = inner(sim);
    Some(inn.choose(Kind::Select, n as usize, |inn| inn.rng.below(n as u64) as usize) as u32)
}

// ---------------------------------------------------------------------------------------------
// Seam used by harness and hooks
// ---------------------------------------------------------------------------------------------

/// A point where a thread of the simulated program may be preempted.
pub fn yield_point() {
    let Some(sim) = ctx() else { return };
    if !on_fiber() {
        return;
    }
    let inn = inner(sim);
    if inn.draining || inn.no_preempt > 0 {
        return;
    }
    inn.spend();
    let p = inn.cfg.preempt_permille as u64;
    let c = inn.choose(Kind::Preempt, 2, |inn| inn.rng.chance(p) as usize);
    if c == 1 {
        inn.report.preemptions += 1;
        fiber_yield(sim, FState::Ready);
    }
}

/// A lock acquisition that would block: let others run. Returns false if nobody can run
/// (deadlock).
pub fn block_on_word(addr: *const AtomicU32, val: u32, deadline_ns: Option<u64>) -> bool {
    let Some(sim) = ctx() else { return true };
    if on_fiber() {
        fiber_yield(sim, FState::Blocked { addr: addr as usize, val, deadline: deadline_ns });
        true
    } else {
        let mut spins = 0;
        loop {
            if unsafe { (*addr).load(Ordering::SeqCst) } != val {
                return true;
            }
            let inn = inner(sim);
            if deadline_ns.is_some_and(|d| d <= inn.now_ns) {
                return true;
            }
            let ready = inn.ready_fibers();
            if ready.is_empty() {
                if let Some(d) = deadline_ns {
                    inn.now_ns = inn.now_ns.max(d);
                    return true;
                }
                inn.report.deadlock = true;
                return false;
            }
            spins += 1;
            if spins > 1_000_000 {
                return false;
            }
            let n = ready.len();
            let k = inn.choose(Kind::Sched, n, |inn| inn.rng.below(n as u64) as usize);
            resume(sim, ready[k]);
        }
    }
}

/// Attach the harness' per-run state.
pub fn set_user(u: Arc<dyn std::any::Any + Send + Sync>) {
    if let Some(s) = ctx() {
        inner(s).user = Some(u);
    }
}
pub fn user() -> Option<Arc<dyn std::any::Any + Send + Sync>> {
    ctx().and_then(|s| inner(s).user.clone())
}
/// Run harness code without preemption points.
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    if let Some(s) = ctx() {
        inner(s).no_preempt += 1;
    }
    let r = f();
    if let Some(s) = ctx() {
        inner(s).no_preempt -= 1;
    }
    r
}
/// Called (once) when every thread of the simulated program is blocked for good and the scheduler
/// thread itself cannot continue; the calling thread is parked for ever afterwards.
pub fn on_deadlock(cb: Box<dyn FnOnce(Report) + Send>) {
    if let Some(s) = ctx() {
        inner(s).deadlock_cb = Some(cb);
    }
}
pub(crate) fn deadlocked() -> ! {
    if let Some(s) = ctx() {
        let inn = inner(s);
        let cb = inn.deadlock_cb.take();
        let mut rep = inn.report.clone();
        rep.deadlock = true;
        rep.virtual_ns = inn.now_ns;
        rep.tapes = inn.tapes.clone();
        CTX.with(|c| c.set(std::ptr::null()));
        if let Some(cb) = cb {
            cb(rep);
        }
    }
    let w = AtomicU32::new(0);
    loop {
        sys::raw_futex_wait(&w, 0);
    }
}

pub fn now_ns() -> u64 {
    ctx().map(|s| inner(s).now_ns).unwrap_or(0)
}
/// Wall clock of the current node.
pub fn realtime_ns() -> u64 {
    let Some(sim) = ctx() else { return 0 };
    let inn = inner(sim);
    let skew = inn.skew.get(&inn.cur_node).copied().unwrap_or(0) + inn.realtime_shift;
    (inn.cfg.epoch_ns + inn.now_ns).wrapping_add_signed(skew)
}
pub fn epoch_ns() -> u64 {
    ctx().map(|s| inner(s).cfg.epoch_ns).unwrap_or(0)
}
pub fn set_skew(node: u32, ns: i64) {
    if let Some(s) = ctx() {
        inner(s).skew.insert(node, ns);
    }
}
pub fn advance(ns: u64) {
    if let Some(s) = ctx() {
        inner(s).now_ns += ns;
    }
}
pub fn choose(kind: Kind, n: usize) -> usize {
    match ctx() {
        Some(s) => inner(s).choose(kind, n, |inn| inn.rng.below(n as u64) as usize),
        None => 0,
    }
}
/// Biased choice: true with the given probability; recorded on the tape (false = 0).
pub fn flip(kind: Kind, permille: u64) -> bool {
    match ctx() {
        Some(s) => inner(s).choose(kind, 2, |inn| inn.rng.chance(permille) as usize) == 1,
        None => false,
    }
}
pub fn cur_node() -> u32 {
    ctx().map(|s| inner(s).cur_node).unwrap_or(0)
}
pub fn with_node<R>(node: u32, f: impl FnOnce() -> R) -> R {
    let Some(s) = ctx() else { return f() };
    let old = inner(s).cur_node;
    inner(s).cur_node = node;
    let r = f();
    inner(s).cur_node = old;
    r
}
pub fn kill_node(node: u32) {
    if let Some(s) = ctx() {
        inner(s).dead.insert(node);
    }
}
pub fn is_dead(node: u32) -> bool {
    ctx().is_some_and(|s| inner(s).dead.contains(&node))
}
pub fn pause_node(node: u32, paused: bool) {
    if let Some(s) = ctx() {
        if paused {
            inner(s).paused.insert(node);
        } else {
            inner(s).paused.remove(&node);
        }
    }
}
pub fn step_limit_hit() -> bool {
    ctx().is_some_and(|s| inner(s).report.step_limit_hit)
}
pub fn steps() -> u64 {
    ctx().map(|s| inner(s).report.steps).unwrap_or(0)
}
/// Extra steps for the closing phase of a run that hit its step limit.
pub fn extend_steps(n: u64) {
    if let Some(s) = ctx() {
        let i = inner(s);
        i.cfg.max_steps = i.report.steps + n;
        i.report.step_limit_hit = false;
    }
}
pub fn set_stop_faults(v: bool) {
    if let Some(s) = ctx() {
        inner(s).stop_faults = v;
    }
}
pub fn stop_faults() -> bool {
    ctx().is_some_and(|s| inner(s).stop_faults)
}
pub fn fill_bytes(buf: &mut [u8]) -> bool {
    let Some(s) = ctx() else { return false };
    let inn = inner(s);
    for c in buf.chunks_mut(8) {
        let v = inn.bytes_rng.next_u64().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    true
}
