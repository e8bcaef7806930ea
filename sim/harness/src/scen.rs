//! Scenarios: everything that determines a run apart from the schedule tapes.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bk {
    Mem,
    Pg,
}

/// What one execution of a job does.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Step {
    /// Sleeps, in milliseconds; a progress mark is recorded after each.
    pub segs: Vec<u32>,
    pub out: Out,
    pub timeout_ms: Option<u32>,
    pub backoff: Backoff,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Out {
    Done,
    Cancel(String),
    SnoozeMs(i64),
    /// A snooze far beyond what dates can represent.
    SnoozeHuge,
    Err(String, u8),
    Panic(String, u8),
    Never,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Backoff {
    Ms(i64),
    Constant { ms: i64, jitter_ms: i64, min_ms: i64 },
    Exponential { base_s: i64, max_s: i64, jitter_pct: u32 },
    Linear { factor_ms: i64, max_ms: i64, jitter_ms: i64 },
    Polynomial { factor_ms: i64, power: u32, max_ms: i64 },
    /// Every combination of strategy and options.
    Full { kind: u8, unit_ms: i64, power: u32, max_ms: Option<i64>, abs_ms: Option<i64>, rel_pct: Option<u32>, min_ms: Option<i64> },
    Default,
    Huge,
}

/// The data of a job.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Plan {
    pub uid: u64,
    pub ex: usize,
    pub steps: Vec<Step>,
    pub text: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Meta {
    pub m: u64,
    pub s: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Uniq {
    pub key: Option<u32>,
    pub executor: bool,
    pub within_s: Option<i64>,
    /// Indices into JobStatus::ALL.
    pub statuses: Vec<u8>,
    pub replace: Option<Repl>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Repl {
    pub scheduled_at: bool,
    pub data: bool,
    pub metadata: bool,
    pub priority: bool,
    pub max_attempts: bool,
    pub for_statuses: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Enq {
    pub ex: usize,
    /// Relative to the moment of the call; None: leave the default (now).
    pub delay_ms: Option<i64>,
    /// Absolute schedule, ms since the start; overrides the delay.
    pub abs_ms: Option<i64>,
    pub plan: Plan,
    pub max: Option<u16>,
    pub prio: u16,
    pub tags: Vec<String>,
    pub meta: Option<Meta>,
    pub uniq: Option<Uniq>,
    /// Enqueue this raw payload instead of the plan.
    pub raw: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Q {
    Not(Box<Q>),
    And(Vec<Q>),
    Or(Vec<Q>),
    Executor(usize),
    Data(u64),
    Meta(u64),
    Id(i64),
    IdIn(Vec<i64>),
    Status(u8),
    TagsAll(Vec<String>),
    TagsOne(Vec<String>),
    Before(i64),
    After(i64),
    Equal(i64),
    /// Scheduled at least so many seconds ago.
    Older(i64),
    Within(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prune {
    pub status: u8,
    pub max_age_s: Option<i64>,
    pub max_len: Option<u32>,
    pub except: bool,
    pub execs: Vec<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OpK {
    Enq(Enq),
    /// Operations on the job enqueued by the op with this id.
    Cancel { tgt: u32, reason: String },
    Rerun { tgt: u32 },
    /// Read the job, wait, then write it back with some fields changed.
    Update { tgt: u32, stale_ms: u32, delay_ms: Option<i64>, plan: Option<Plan>, max: Option<u16>, prio: Option<u16>, tags: Option<Vec<String>>, meta: Option<Meta> },
    /// Cancel, rerun or update a job that does not exist.
    Missing { kind: u8, id: i32 },
    Query(Q),
    Prune(Prune),
    /// Direct use of the backend: take one ready job of the executor, waiting at most this long.
    Claim { ex: usize, wait_ms: u32 },
    /// Direct use of the backend on the job enqueued by the op.
    Mark { tgt: u32, kind: u8, delay_ms: i64, msg: String },
    /// Instance level faults and events.
    Shutdown { node: u32, guard: bool },
    Crash { node: u32 },
    Restart { node: u32 },
    Pause { node: u32, ms: u32 },
    /// Postgres: break connections of the node (all, or the listening one), or the whole server.
    Reset { node: u32, listener_only: bool },
    Partition { node: u32, ms: u32 },
    DbRestart { ms: u32 },
    /// Postgres: a notification from elsewhere on the channels listened to.
    Foreign { payload: String },
    Notify,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub id: u32,
    /// Not before this time (virtual ms since the start).
    pub at_ms: u64,
    /// The instance whose backend handle is used.
    pub node: u32,
    pub k: OpK,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cron {
    pub ex: usize,
    pub schedule: String,
    pub plan: Plan,
    /// Seconds east of UTC; None: UTC.
    pub offset_s: Option<i32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PrunerCfg {
    pub schedule: String,
    pub max_concurrency: Option<Option<usize>>,
    pub pruners: Vec<Prune>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Node {
    pub start_ms: u64,
    pub skew_ms: i64,
    pub execs: Vec<usize>,
    pub crons: Vec<Cron>,
    pub pruner: Option<PrunerCfg>,
    pub pool: u32,
}

/// Probabilities are per thousand backend calls (in-memory) or messages (Postgres).
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Faults {
    pub until_ms: u64,
    pub err_before: u32,
    pub err_after: u32,
    pub delay: u32,
    pub max_delay_ms: u32,
    pub stream_err: u32,
    /// Restrict call faults to these kinds of calls (empty: all).
    pub only: Vec<String>,
}
impl Faults {
    pub fn any(&self) -> bool {
        self.until_ms > 0
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RunCfg {
    pub policy: u8,
    pub mt: bool,
    pub preempt: u32,
    pub cost_ns: u64,
    pub epoch_s: u64,
    pub epoch_sub_ms: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub backend: Bk,
    /// Backend operations are driven directly, without rexecutor instances.
    pub direct: bool,
    pub nodes: Vec<Node>,
    /// Each client runs its operations one after another.
    pub clients: Vec<Vec<Op>>,
    pub faults: Faults,
    pub horizon_ms: u64,
    pub tick_ms: u64,
    pub run: RunCfg,
    /// Run two-sided checks that assume nothing but the workload touches the jobs.
    pub probe: u32,
    /// The in-memory backend is paused: only `notify_all` wakes its streams.
    #[serde(default)]
    pub paused: bool,
}

impl Scenario {
    pub fn n_ops(&self) -> usize {
        self.clients.iter().map(|c| c.len()).sum()
    }
}
