//! Per-run state: the recorded history, the simulated executors and the backend wrapper that
//! records every call and injects faults.
use crate::model::{ns_at, Ns};
use crate::scen::*;
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::{Stream, StreamExt};
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError, Job as BJob, Query};
use rexecutor::backoff::{BackoffStrategy, Jitter, Strategy};
use rexecutor::executor::{ExecutionResult, Executor, ExecutorIdentifier};
use rexecutor::job::{Job, JobId};
use rexecutor::pruner::PruneSpec;
use simrt::Kind as Tape;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// The last one has uniqueness criteria of its own.
pub const NEX: usize = 9;
pub const SOLO: usize = 8;
pub const SOLO_UNIQ: rexecutor::job::uniqueness_criteria::UniquenessCriteria<'static> =
    rexecutor::job::uniqueness_criteria::UniquenessCriteria::by_executor().and_statuses(&rexecutor::job::JobStatus::ALL);
pub const NAMES: [&str; NEX] = ["plain", "one", "two", "blk1", "blk", "three", "blk2", "we\"ird 'é\\n$1,{}", "solo"];
pub const LIMIT: [Option<usize>; NEX] = [None, Some(1), Some(2), Some(1), None, Some(3), Some(2), None, None];
pub const BLOCKING: [bool; NEX] = [false, false, false, true, true, false, true, false, false];
pub const MAXATT: [u16; NEX] = [5, 3, 4, 5, 2, 5, 3, 1, 4];

pub fn ex_index(name: &str) -> Option<usize> {
    NAMES.iter().position(|n| *n == name)
}

#[derive(Clone, Debug)]
pub enum Call {
    Enqueue { executor: String, data: serde_json::Value, metadata: serde_json::Value, max: i32, prio: i32, tags: Vec<String>, sched: Ns, uniq: Option<UqOwned> },
    Complete { id: i32 },
    Retry { id: i32, next: Ns, err: ExecutionError },
    Discard { id: i32, err: ExecutionError },
    Cancel { id: i32, err: ExecutionError },
    Snooze { id: i32, next: Ns },
    Prune { spec: PruneSpec },
    Rerun { id: i32 },
    Update { job: BJob },
    Query,
}
impl Call {
    pub fn name(&self) -> &'static str {
        match self {
            Call::Enqueue { .. } => "enqueue",
            Call::Complete { .. } => "complete",
            Call::Retry { .. } => "retry",
            Call::Discard { .. } => "discard",
            Call::Cancel { .. } => "cancel",
            Call::Snooze { .. } => "snooze",
            Call::Prune { .. } => "prune",
            Call::Rerun { .. } => "rerun",
            Call::Update { .. } => "update",
            Call::Query => "query",
        }
    }
    pub fn job_id(&self) -> Option<i32> {
        match self {
            Call::Complete { id } | Call::Retry { id, .. } | Call::Discard { id, .. } | Call::Cancel { id, .. } | Call::Snooze { id, .. } | Call::Rerun { id } => Some(*id),
            Call::Update { job } => Some(job.id),
            _ => None,
        }
    }
    pub fn is_mark(&self) -> bool {
        matches!(self, Call::Complete { .. } | Call::Retry { .. } | Call::Discard { .. } | Call::Cancel { .. } | Call::Snooze { .. })
    }
}

#[derive(Clone, Debug)]
pub struct UqOwned {
    pub key: Option<i64>,
    pub executor: bool,
    pub within: Option<Ns>,
    pub statuses: Vec<crate::model::St>,
    pub replace: Option<Repl2>,
}
#[derive(Clone, Debug)]
pub struct Repl2 {
    pub scheduled_at: bool,
    pub data: bool,
    pub metadata: bool,
    pub priority: bool,
    pub max_attempts: bool,
    pub for_statuses: Vec<crate::model::St>,
}

#[derive(Clone, Debug)]
pub enum Res {
    Ok,
    Id(i32),
    Jobs(Vec<BJob>),
    NotFound(i32),
    Err(String),
}
impl Res {
    pub fn ok(&self) -> bool {
        matches!(self, Res::Ok | Res::Id(_) | Res::Jobs(_))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inj {
    /// The call reported an error and had no effect.
    Before,
    /// The call reported an error although it took effect.
    After,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Role {
    Instance(u32),
    /// A client operation.
    Client(u32),
}

#[derive(Clone, Debug)]
pub enum How {
    Returned(Out),
    Panicked(String),
    /// The future was dropped before it finished.
    Dropped,
}

#[derive(Clone, Debug)]
pub enum EvK {
    Call { cid: u64, role: Role, call: Arc<Call> },
    Ret { cid: u64, res: Res, inj: Option<Inj> },
    /// A ready job left the backend's stream. `from`: event number before the poll (in-memory).
    Claim { node: u32, inc: u32, reg: u64, from: u64, job: Arc<BJob>, decodable: bool },
    /// Postgres: a transaction of this connection turned a waiting job into an executing one.
    DbClaim { sid: u32, node: u32, began: i64, job: Arc<BJob> },
    /// Postgres: the connection was broken by a fault.
    ConnBroken { sid: u32 },
    StreamErr { node: u32 },
    Backoff { id: i32, attempt: i32, ms: i64, b: Backoff },
    ExecStart { xid: u64, ex: usize, job: Arc<BJob> },
    Seg { xid: u64, i: usize },
    ExecEnd { xid: u64, how: How },
    Snap { from: u64, jobs: Arc<Vec<BJob>> },
    NodeUp { node: u32 },
    Shutdown { node: u32 },
    Crash { node: u32 },
    ClientOp { op: u32, what: String },
    UserQuery { op: u32, from: u64, q: Arc<MQ>, jobs: Option<Arc<Vec<BJob>>> },
    /// A committed change of a row (Postgres).
    Row { id: i32, old: Option<Arc<BJob>>, new: Option<Arc<BJob>>, claim: bool, tx: u64 },
    Note(String),
}

/// A query with concrete values.
#[derive(Clone, Debug)]
pub enum MQ {
    Not(Box<MQ>),
    And(Vec<MQ>),
    Or(Vec<MQ>),
    Executor(String),
    Data(serde_json::Value),
    Meta(serde_json::Value),
    Id(i32),
    IdIn(Vec<i32>),
    Status(rexecutor::job::JobStatus),
    TagsAll(Vec<String>),
    TagsOne(Vec<String>),
    Before(DateTime<Utc>),
    After(DateTime<Utc>),
    Equal(DateTime<Utc>),
    /// Scheduled longer ago than this (ns); when it was asked (earliest, latest).
    Older(i64, (i64, i64)),
    /// Scheduled within the last (ns).
    Within(i64, (i64, i64)),
}

#[derive(Clone, Debug)]
pub struct Ev {
    /// Virtual time.
    pub t: u64,
    /// Wall clock of the node.
    pub rt: Ns,
    pub node: u32,
    pub k: EvK,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: String,
    /// Stable short text identifying the kind of violation.
    pub class: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Cap {
    pub regs: usize,
    pub occ: i64,
    /// Virtual time since when a slot has been free.
    pub free_since: Option<u64>,
    pub alive: bool,
}

/// Far above what any run with a step limit of 150 000 records.
pub const EV_LIMIT: u64 = 250_000;
pub const EV_LIMIT_MSG: &str = "event limit reached";

#[derive(Default)]
pub struct Hist {
    pub ev: Vec<Ev>,
    pub next_cid: u64,
    pub next_xid: u64,
    pub next_reg: u64,
    pub exec_count: BTreeMap<i32, usize>,
    pub live_exec: BTreeMap<i32, i64>,
    /// Claimed by an instance and its result not recorded yet: job -> (node, incarnation, executor).
    pub held: BTreeMap<i32, (u32, u32, usize)>,
    /// Current incarnation of each instance; incarnations are numbered from 1.
    pub inc: BTreeMap<u32, u32>,
    pub next_inc: u32,
    pub rerun_inflight: BTreeMap<i32, u32>,
    /// By incarnation and executor.
    pub cap: BTreeMap<(u32, usize), Cap>,
    pub faults: BTreeMap<String, u64>,
    pub unsupported: Option<String>,
    pub probes: BTreeMap<String, u64>,
    pub viol: Vec<Viol>,
    /// Result of Enq ops: op id -> job id.
    pub enq: BTreeMap<u32, i32>,
    pub fault_until: u64,
    pub last_fault_t: u64,
    pub last_notify_t: u64,
    /// Last event concerning a job.
    pub touched: BTreeMap<i32, u64>,
}

pub struct World {
    pub h: Mutex<Hist>,
    pub faults: Faults,
    pub pg: bool,
}

pub fn world() -> Arc<World> {
    simrt::user().expect("simulation state").downcast::<World>().expect("world")
}

impl World {
    pub fn new(faults: Faults, pg: bool) -> Arc<World> {
        Arc::new(World { h: Mutex::new(Hist::default()), faults, pg })
    }
    pub fn push(&self, k: EvK) -> u64 {
        self.push_at(simrt::cur_node(), k)
    }
    pub fn push_at(&self, node: u32, k: EvK) -> u64 {
        let t = simrt::now_ns();
        let rt = simrt::realtime_ns() as Ns;
        let mut h = self.h.lock().unwrap();
        let seq = h.ev.len() as u64;
        if seq >= EV_LIMIT {
            // A loop that never waits: end the run.
            drop(h);
            if !std::thread::panicking() {
                std::panic::panic_any(EV_LIMIT_MSG.to_string());
            }
            return seq;
        }
        h.ev.push(Ev { t, rt, node, k });
        seq
    }
    pub fn seq(&self) -> u64 {
        self.h.lock().unwrap().ev.len() as u64
    }
    pub fn fault(&self, kind: &str) {
        let t = simrt::now_ns();
        let mut h = self.h.lock().unwrap();
        *h.faults.entry(kind.to_string()).or_default() += 1;
        h.last_fault_t = h.last_fault_t.max(t);
    }
    pub fn probe(&self, kind: &str) {
        *self.h.lock().unwrap().probes.entry(kind.to_string()).or_default() += 1;
    }
    pub fn violate(&self, prop: &str, class: &str, msg: String) {
        let t = simrt::now_ns();
        self.h.lock().unwrap().viol.push(Viol { prop: prop.into(), class: class.into(), msg: format!("t={}ms {}", t / 1_000_000, msg) });
    }
    fn fault_active(&self, what: &str) -> bool {
        self.faults.any()
            && simrt::now_ns() < self.faults.until_ms * 1_000_000
            && (self.faults.only.is_empty() || self.faults.only.iter().any(|o| o == what))
    }
    fn occupy(&self, inc: u32, ex: usize, d: i64) {
        let t = simrt::now_ns();
        let mut h = self.h.lock().unwrap();
        let c = h.cap.entry((inc, ex)).or_default();
        c.occ += d;
        let free = match LIMIT[ex] {
            None => true,
            Some(l) => c.occ < (l * c.regs.max(1)) as i64,
        };
        if !free {
            c.free_since = None;
        } else if c.free_since.is_none() {
            c.free_since = Some(t);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Executors
// ---------------------------------------------------------------------------------------------

pub struct Ex<const I: usize>;

#[derive(Debug)]
pub struct SimError(String, &'static str);
impl std::fmt::Display for SimError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SimError {}
pub const ERR_TYPES: [&str; 4] = ["custom", "io_failure", "é \"q\" {}", "Timeout"];
impl rexecutor::executor::ExecutionError for SimError {
    fn error_type(&self) -> &'static str {
        self.1
    }
}

struct Guard {
    w: Arc<World>,
    xid: u64,
    id: i32,
    panic_msg: String,
    done: bool,
}
impl Guard {
    fn end(&mut self, how: How) {
        if !self.done {
            self.done = true;
            self.w.push(EvK::ExecEnd { xid: self.xid, how });
            let mut h = self.w.h.lock().unwrap();
            *h.live_exec.entry(self.id).or_default() -= 1;
        }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        if !self.done {
            let how = if std::thread::panicking() { How::Panicked(self.panic_msg.clone()) } else { How::Dropped };
            if simrt::active() {
                self.end(how);
            }
        }
    }
}

pub fn default_step() -> Step {
    Step { segs: vec![], out: Out::Done, timeout_ms: None, backoff: Backoff::Ms(50) }
}

fn step_of(w: &World, job: &Job<Plan, Meta>, offset: usize) -> Step {
    let n = w.h.lock().unwrap().exec_count.get(&i32::from(job.id)).copied().unwrap_or(0);
    let k = n.saturating_sub(offset);
    job.data.steps.get(k).cloned().unwrap_or_else(default_step)
}

fn full<T: Strategy>(mut s: BackoffStrategy<T>, b: &Backoff, attempt: u16) -> TimeDelta {
    let Backoff::Full { abs_ms, rel_pct, min_ms, .. } = b else { unreachable!() };
    if let Some(m) = min_ms {
        s = s.with_min(TimeDelta::milliseconds(*m));
    }
    if let Some(j) = abs_ms {
        s = s.with_jitter(Jitter::Absolute(TimeDelta::milliseconds(*j)));
    }
    if let Some(j) = rel_pct {
        s = s.with_jitter(Jitter::Relative(*j as f64 / 100.0));
    }
    s.backoff(attempt)
}

pub fn backoff_value(b: &Backoff, attempt: u16) -> TimeDelta {
    let ms = TimeDelta::milliseconds;
    match b {
        Backoff::Ms(m) => ms(*m),
        Backoff::Constant { ms: m, jitter_ms, min_ms } => BackoffStrategy::constant(ms(*m)).with_jitter(Jitter::Absolute(ms(*jitter_ms))).with_min(ms(*min_ms)).backoff(attempt),
        Backoff::Exponential { base_s, max_s, jitter_pct } => BackoffStrategy::exponential(TimeDelta::seconds(*base_s))
            .with_max(TimeDelta::seconds(*max_s))
            .with_jitter(Jitter::Relative(*jitter_pct as f64 / 100.0))
            .backoff(attempt),
        Backoff::Linear { factor_ms, max_ms, jitter_ms } => BackoffStrategy::linear(ms(*factor_ms)).with_max(ms(*max_ms)).with_jitter(Jitter::Absolute(ms(*jitter_ms))).backoff(attempt),
        Backoff::Polynomial { factor_ms, power, max_ms } => BackoffStrategy::polynomial(ms(*factor_ms), *power).with_max(ms(*max_ms)).backoff(attempt),
        Backoff::Full { kind, unit_ms, power, max_ms, .. } => {
            let u = ms(*unit_ms);
            match (kind % 4, max_ms) {
                (0, _) => full(BackoffStrategy::constant(u), b, attempt),
                (1, None) => full(BackoffStrategy::exponential(u), b, attempt),
                (1, Some(m)) => full(BackoffStrategy::exponential(u).with_max(ms(*m)), b, attempt),
                (2, None) => full(BackoffStrategy::linear(u), b, attempt),
                (2, Some(m)) => full(BackoffStrategy::linear(u).with_max(ms(*m)), b, attempt),
                (_, None) => full(BackoffStrategy::polynomial(u, *power), b, attempt),
                (_, Some(m)) => full(BackoffStrategy::polynomial(u, *power).with_max(ms(*m)), b, attempt),
            }
        }
        Backoff::Default => TimeDelta::zero(), // handled by the caller
        Backoff::Huge => TimeDelta::MAX,
    }
}

pub fn to_backend(job: Job<Plan, Meta>) -> BJob {
    BJob::try_from(job).expect("encode")
}

/// Inherits every default of the trait.
pub struct DefaultEx;
#[async_trait]
impl Executor for DefaultEx {
    type Data = Plan;
    type Metadata = Meta;
    const NAME: &'static str = "default";
    async fn execute(_job: Job<Plan, Meta>) -> ExecutionResult {
        ExecutionResult::Done
    }
}

#[async_trait]
impl<const I: usize> Executor for Ex<I> {
    type Data = Plan;
    type Metadata = Meta;
    const NAME: &'static str = NAMES[I];
    const MAX_ATTEMPTS: u16 = MAXATT[I];
    const MAX_CONCURRENCY: Option<usize> = LIMIT[I];
    const BLOCKING: bool = BLOCKING[I];
    const UNIQUENESS_CRITERIA: Option<rexecutor::job::uniqueness_criteria::UniquenessCriteria<'static>> = if I == SOLO { Some(SOLO_UNIQ) } else { None };

    async fn execute(job: Job<Plan, Meta>) -> ExecutionResult {
        let w = world();
        let id = i32::from(job.id);
        let step = {
            let mut h = w.h.lock().unwrap();
            let c = h.exec_count.entry(id).or_default();
            *c += 1;
            drop(h);
            step_of(&w, &job, 1)
        };
        let view = Arc::new(to_backend(job));
        let xid = {
            let mut h = w.h.lock().unwrap();
            let x = h.next_xid;
            h.next_xid += 1;
            *h.live_exec.entry(id).or_default() += 1;
            x
        };
        w.push(EvK::ExecStart { xid, ex: I, job: view });
        let panic_msg = match &step.out {
            Out::Panic(m, 0) => m.clone(),
            Out::Panic(_, 1) => STATIC_PANIC.into(),
            Out::Panic(..) => String::new(),
            _ => "unplanned panic".into(),
        };
        let mut g = Guard { w: w.clone(), xid, id, panic_msg, done: false };
        for (i, ms) in step.segs.iter().enumerate() {
            tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
            w.push(EvK::Seg { xid, i });
        }
        match &step.out {
            Out::Never => {
                futures::future::pending::<()>().await;
                ExecutionResult::Done
            }
            Out::Panic(m, kind) => {
                crate::driver::PLANNED.with(|p| p.set(true));
                match kind {
                    0 => std::panic::panic_any(m.clone()),
                    1 => std::panic::panic_any(STATIC_PANIC),
                    _ => std::panic::panic_any(42u64),
                }
            }
            out => {
                let o = out.clone();
                g.end(How::Returned(o));
                match out {
                    Out::Done => ExecutionResult::Done,
                    Out::Cancel(r) => ExecutionResult::Cancel { reason: Box::new(r.clone()) },
                    Out::SnoozeMs(m) => ExecutionResult::Snooze { delay: TimeDelta::milliseconds(*m) },
                    Out::SnoozeHuge => ExecutionResult::Snooze { delay: TimeDelta::MAX },
                    Out::Err(m, k) => SimError(m.clone(), ERR_TYPES[*k as usize % ERR_TYPES.len()]).into(),
                    _ => unreachable!(),
                }
            }
        }
    }

    fn backoff(job: &Job<Plan, Meta>) -> TimeDelta {
        let w = world();
        let step = step_of(&w, job, 0);
        let d = match &step.backoff {
            Backoff::Default => <DefaultEx as Executor>::backoff(job),
            b => backoff_value(b, job.attempt),
        };
        if let b @ Backoff::Full { unit_ms, .. } = &step.backoff {
            // Attempts that no run reaches
            for k in [7, 31 + (*unit_ms % 40) as u16, 300, 5000, u16::MAX] {
                w.push(EvK::Backoff { id: job.id.into(), attempt: k as i32, ms: backoff_value(b, k).num_milliseconds(), b: b.clone() });
            }
        }
        w.push(EvK::Backoff { id: job.id.into(), attempt: job.attempt as i32, ms: d.num_milliseconds(), b: step.backoff.clone() });
        d
    }

    fn timeout(job: &Job<Plan, Meta>) -> Option<Duration> {
        let w = world();
        step_of(&w, job, 0).timeout_ms.map(|m| Duration::from_millis(m as u64))
    }
}
pub const STATIC_PANIC: &str = "static panic";

/// Dispatch on the executor index.
#[macro_export]
macro_rules! with_ex {
    ($i:expr, $E:ident => $body:expr) => {
        match $i {
            0 => { type $E = $crate::world::Ex<0>; $body }
            1 => { type $E = $crate::world::Ex<1>; $body }
            2 => { type $E = $crate::world::Ex<2>; $body }
            3 => { type $E = $crate::world::Ex<3>; $body }
            4 => { type $E = $crate::world::Ex<4>; $body }
            5 => { type $E = $crate::world::Ex<5>; $body }
            6 => { type $E = $crate::world::Ex<6>; $body }
            7 => { type $E = $crate::world::Ex<7>; $body }
            _ => { type $E = $crate::world::Ex<8>; $body }
        }
    };
}

// ---------------------------------------------------------------------------------------------
// Backend wrapper
// ---------------------------------------------------------------------------------------------

pub type DynBackend = Arc<dyn Backend + Send + Sync>;

#[derive(Clone)]
pub struct SimBackend {
    pub inner: DynBackend,
    pub role: Role,
    pub w: Arc<World>,
    /// Incarnation of the instance.
    pub inc: u32,
}

fn uq_owned(u: &rexecutor::job::uniqueness_criteria::UniquenessCriteria<'_>) -> UqOwned {
    use rexecutor::job::uniqueness_criteria::Resolution;
    UqOwned {
        key: u.key,
        executor: u.executor,
        within: u.duration.map(|d| d.num_nanoseconds().unwrap_or(i64::MAX / 4)),
        statuses: u.statuses.iter().map(|s| (*s).into()).collect(),
        replace: match &u.on_conflict {
            Resolution::DoNothing => None,
            Resolution::Replace(r) => Some(Repl2 {
                scheduled_at: r.scheduled_at,
                data: r.data,
                metadata: r.metadata,
                priority: r.priority,
                max_attempts: r.max_attempts,
                for_statuses: r.for_statuses.iter().map(|s| (*s).into()).collect(),
            }),
        },
    }
}

trait ToRes {
    fn res(&self) -> Res;
}
impl ToRes for () {
    fn res(&self) -> Res {
        Res::Ok
    }
}
impl ToRes for JobId {
    fn res(&self) -> Res {
        Res::Id((*self).into())
    }
}
impl ToRes for Vec<BJob> {
    fn res(&self) -> Res {
        Res::Jobs(self.clone())
    }
}

impl SimBackend {
    async fn call<T: ToRes>(&self, call: Call, f: impl std::future::Future<Output = Result<T, BackendError>>) -> Result<T, BackendError> {
        let w = &self.w;
        let name = call.name();
        let is_runner_mark = matches!(self.role, Role::Instance(_)) && call.is_mark();
        let jid = call.job_id();
        let cid = {
            let mut h = w.h.lock().unwrap();
            let c = h.next_cid;
            h.next_cid += 1;
            c
        };
        w.push(EvK::Call { cid, role: self.role.clone(), call: Arc::new(call) });
        let mut inj = None;
        let active = !w.pg && w.fault_active(name);
        if active {
            if w.faults.delay > 0 && simrt::flip(Tape::Net, w.faults.delay as u64) {
                let ms = 1 + simrt::choose(Tape::Net, w.faults.max_delay_ms.max(1) as usize) as u64;
                w.fault("slow_call");
                tokio::time::sleep(Duration::from_millis(ms)).await;
            }
            if w.faults.err_before > 0 && simrt::flip(Tape::Net, w.faults.err_before as u64) {
                w.fault(&format!("fail_before_{name}"));
                inj = Some(Inj::Before);
            }
        }
        let r = if inj.is_some() { Err(BackendError::BadState) } else { f.await };
        let r = if inj.is_none() && r.is_ok() && active && w.faults.err_after > 0 && simrt::flip(Tape::Net, w.faults.err_after as u64) {
            w.fault(&format!("fail_after_{name}"));
            inj = Some(Inj::After);
            Err(BackendError::Io(std::io::Error::other("lost reply")))
        } else {
            r
        };
        let res = match &r {
            Ok(v) => v.res(),
            Err(BackendError::JobNotFound(id)) => Res::NotFound((*id).into()),
            Err(e) => Res::Err(e.to_string()),
        };
        w.push(EvK::Ret { cid, res, inj });
        if is_runner_mark {
            if let Some(id) = jid {
                let held = w.h.lock().unwrap().held.remove(&id);
                if let Some((_, inc, ex)) = held {
                    w.occupy(inc, ex, -1);
                }
            }
        }
        r
    }
}

#[async_trait]
impl Backend for SimBackend {
    async fn subscribe_ready_jobs(&self, executor_identifier: ExecutorIdentifier) -> Pin<Box<dyn Stream<Item = Result<BJob, BackendError>> + Send>> {
        let name = executor_identifier.as_str();
        let mut inner = self.inner.subscribe_ready_jobs(executor_identifier).await;
        let w = self.w.clone();
        let role = self.role.clone();
        let node = match role {
            Role::Instance(n) => n,
            Role::Client(_) => u32::MAX,
        };
        let inc = self.inc;
        let reg = {
            let mut h = w.h.lock().unwrap();
            h.next_reg += 1;
            h.next_reg
        };
        let ex = ex_index(name);
        let mut pending_err = false;
        let mut pending_delay: Option<Pin<Box<tokio::time::Sleep>>> = None;
        let mut decided = false;
        Box::pin(futures::stream::poll_fn(move |cx| {
            // Faults are injected before a job is claimed, never between claim and delivery.
            if !decided {
                decided = true;
                if !w.pg && w.fault_active("stream") {
                    if w.faults.stream_err > 0 && simrt::flip(Tape::Net, w.faults.stream_err as u64) {
                        pending_err = true;
                    }
                    if w.faults.delay > 0 && simrt::flip(Tape::Net, w.faults.delay as u64) {
                        let ms = 1 + simrt::choose(Tape::Net, w.faults.max_delay_ms.max(1) as usize) as u64;
                        w.fault("slow_claim");
                        pending_delay = Some(Box::pin(tokio::time::sleep(Duration::from_millis(ms))));
                    }
                }
            }
            if let Some(d) = &mut pending_delay {
                match std::future::Future::poll(d.as_mut(), cx) {
                    std::task::Poll::Pending => return std::task::Poll::Pending,
                    std::task::Poll::Ready(()) => pending_delay = None,
                }
            }
            if pending_err {
                pending_err = false;
                decided = false;
                w.fault("stream_error");
                w.push(EvK::StreamErr { node });
                return std::task::Poll::Ready(Some(Err(BackendError::BadState)));
            }
            let from = w.seq();
            match inner.poll_next_unpin(cx) {
                std::task::Poll::Ready(Some(Ok(job))) => {
                    decided = false;
                    let decodable = Job::<Plan, Meta>::try_from(job.clone()).is_ok();
                    w.push(EvK::Claim { node, inc, reg, from, job: Arc::new(job.clone()), decodable });
                    if decodable && node != u32::MAX {
                        if let Some(ex) = ex {
                            w.h.lock().unwrap().held.insert(job.id, (node, inc, ex));
                            w.occupy(inc, ex, 1);
                        }
                    }
                    std::task::Poll::Ready(Some(Ok(job)))
                }
                std::task::Poll::Ready(Some(Err(e))) => {
                    decided = false;
                    w.push(EvK::StreamErr { node });
                    std::task::Poll::Ready(Some(Err(e)))
                }
                std::task::Poll::Ready(None) => {
                    w.push(EvK::Note(format!("stream of {name} on {node} ended")));
                    std::task::Poll::Ready(None)
                }
                std::task::Poll::Pending => std::task::Poll::Pending,
            }
        }))
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        let c = Call::Enqueue {
            executor: job.executor.clone(),
            data: job.data.clone(),
            metadata: job.metadata.clone(),
            max: job.max_attempts as i32,
            prio: job.priority as i32,
            tags: job.tags.clone(),
            sched: ns_at(job.scheduled_at, self.w.pg),
            uniq: job.uniqueness_criteria.as_ref().map(uq_owned),
        };
        self.call(c, self.inner.enqueue(job)).await
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        self.call(Call::Complete { id: id.into() }, self.inner.mark_job_complete(id)).await
    }
    async fn mark_job_retryable(&self, id: JobId, next: DateTime<Utc>, error: ExecutionError) -> Result<(), BackendError> {
        self.call(Call::Retry { id: id.into(), next: ns_at(next, self.w.pg), err: error.clone() }, self.inner.mark_job_retryable(id, next, error)).await
    }
    async fn mark_job_discarded(&self, id: JobId, error: ExecutionError) -> Result<(), BackendError> {
        self.call(Call::Discard { id: id.into(), err: error.clone() }, self.inner.mark_job_discarded(id, error)).await
    }
    async fn mark_job_cancelled(&self, id: JobId, error: ExecutionError) -> Result<(), BackendError> {
        self.call(Call::Cancel { id: id.into(), err: error.clone() }, self.inner.mark_job_cancelled(id, error)).await
    }
    async fn mark_job_snoozed(&self, id: JobId, next: DateTime<Utc>) -> Result<(), BackendError> {
        self.call(Call::Snooze { id: id.into(), next: ns_at(next, self.w.pg) }, self.inner.mark_job_snoozed(id, next)).await
    }
    async fn prune_jobs(&self, spec: &PruneSpec) -> Result<(), BackendError> {
        self.call(Call::Prune { spec: spec.clone() }, self.inner.prune_jobs(spec)).await
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        self.call(Call::Rerun { id: id.into() }, self.inner.rerun_job(id)).await
    }
    async fn update_job(&self, job: BJob) -> Result<(), BackendError> {
        self.call(Call::Update { job: job.clone() }, self.inner.update_job(job)).await
    }
    async fn query<'a>(&self, query: Query<'a>) -> Result<Vec<BJob>, BackendError> {
        self.call(Call::Query, self.inner.query(query)).await
    }
}
