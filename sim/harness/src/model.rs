//! The sequential reference model of the job table, and the linearizability checker.
use rexecutor::backend::Job;
use rexecutor::job::{ErrorType, JobStatus};
use serde_json::Value;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

/// Nanoseconds since the epoch.
pub type Ns = i64;

thread_local! {
    /// Whether the history being judged comes from a backend that stores microseconds.
    pub static MICROS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// With the precision of the backend.
pub fn ns(t: chrono::DateTime<chrono::Utc>) -> Ns {
    ns_at(t, MICROS.with(|m| m.get()))
}
pub fn ns_at(t: chrono::DateTime<chrono::Utc>, micros: bool) -> Ns {
    match t.timestamp_nanos_opt() {
        Some(n) if !micros => n,
        _ => t.timestamp_micros().saturating_mul(1000),
    }
}

/// A value known to lie in [lo, hi].
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Iv(pub Ns, pub Ns);
impl Iv {
    pub fn exact(t: Ns) -> Self {
        Iv(t, t)
    }
    pub fn has(&self, t: Ns) -> bool {
        // timestamps are stored with microsecond precision by some backends
        self.0.saturating_sub(1000) <= t && t <= self.1.saturating_add(1000)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Complete,
    Executing,
    Scheduled,
    Retryable,
    Cancelled,
    Discarded,
}
impl From<JobStatus> for St {
    fn from(s: JobStatus) -> St {
        match s {
            JobStatus::Complete => St::Complete,
            JobStatus::Executing => St::Executing,
            JobStatus::Scheduled => St::Scheduled,
            JobStatus::Retryable => St::Retryable,
            JobStatus::Cancelled => St::Cancelled,
            JobStatus::Discarded => St::Discarded,
        }
    }
}
impl St {
    pub fn waiting(self) -> bool {
        matches!(self, St::Scheduled | St::Retryable)
    }
    pub fn finished(self) -> bool {
        matches!(self, St::Complete | St::Cancelled | St::Discarded)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Panic,
    Timeout,
    Cancelled,
    Other(String),
}
impl From<&ErrorType> for Kind {
    fn from(e: &ErrorType) -> Kind {
        match e {
            ErrorType::Panic => Kind::Panic,
            ErrorType::Timeout => Kind::Timeout,
            ErrorType::Cancelled => Kind::Cancelled,
            ErrorType::Other(s) => Kind::Other(s.clone()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MErr {
    pub attempt: i32,
    pub kind: Kind,
    /// None: any message (timeouts).
    pub msg: Option<String>,
    pub at: Iv,
}

/// Which fields a comparison looks at.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Mask(pub u32);
impl Mask {
    pub const STATUS: u32 = 1;
    /// Distinguish scheduled from retryable.
    pub const WAITKIND: u32 = 2;
    pub const ATTEMPT: u32 = 4;
    pub const MAX: u32 = 8;
    pub const ERRORS: u32 = 16;
    pub const SCHED: u32 = 32;
    pub const CONTENT: u32 = 64;
    pub const STAMPS: u32 = 128;
    pub const ALL: Mask = Mask(255);
    pub fn has(&self, b: u32) -> bool {
        self.0 & b != 0
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MJob {
    pub id: i32,
    pub executor: String,
    pub data: Value,
    pub metadata: Value,
    pub tags: Vec<String>,
    pub priority: i32,
    pub max: i32,
    pub attempt: i32,
    pub status: St,
    pub sched: Iv,
    pub errors: Vec<MErr>,
    pub attempted: Option<Iv>,
    pub completed: Option<Iv>,
    pub cancelled: Option<Iv>,
    pub discarded: Option<Iv>,
    pub inserted: Iv,
    pub key: Option<i64>,
    /// Hash of the uniqueness criteria it was enqueued with.
    pub crit: Option<u64>,
    /// (attempt, max) at the last claim
    pub claim: (i32, i32),
    /// It may have been removed already.
    pub ghost: bool,
}

fn stamp(m: &Option<Iv>, r: Option<chrono::DateTime<chrono::Utc>>) -> bool {
    match (m, r) {
        (None, None) => true,
        (Some(iv), Some(t)) => iv.has(ns(t)),
        _ => false,
    }
}

impl MJob {
    /// Compare with a job the system returned; Ok(narrowed model) or the differing field.
    pub fn compare(&self, j: &Job, mask: Mask) -> Result<MJob, String> {
        let mut m = self.clone();
        if j.id != self.id {
            return Err(format!("id {} != {}", j.id, self.id));
        }
        if mask.has(Mask::STATUS) {
            let s: St = j.status.into();
            if mask.has(Mask::WAITKIND) {
                if s != self.status {
                    return Err(format!("status {:?}, expected {:?}", s, self.status));
                }
            } else if s != self.status && !(s.waiting() && self.status.waiting()) {
                return Err(format!("status {:?}, expected {:?}", s, self.status));
            }
        }
        if mask.has(Mask::ATTEMPT) && j.attempt != self.attempt {
            return Err(format!("attempt {}, expected {}", j.attempt, self.attempt));
        }
        if mask.has(Mask::MAX) && j.max_attempts != self.max {
            return Err(format!("max_attempts {}, expected {}", j.max_attempts, self.max));
        }
        if mask.has(Mask::SCHED) {
            let t = ns(j.scheduled_at);
            if !self.sched.has(t) {
                return Err(format!("scheduled_at {} not in [{}, {}] (off by {} ms)", t, self.sched.0, self.sched.1,
                    if t < self.sched.0 { t - self.sched.0 } else { t - self.sched.1 } / 1_000_000));
            }
        }
        if self.sched.has(ns(j.scheduled_at)) {
            m.sched = Iv::exact(ns(j.scheduled_at));
        }
        if mask.has(Mask::CONTENT) {
            if j.executor != self.executor {
                return Err(format!("executor {:?}, expected {:?}", j.executor, self.executor));
            }
            if j.data != self.data {
                return Err(format!("data {}, expected {}", j.data, self.data));
            }
            if j.metadata != self.metadata {
                return Err(format!("metadata {}, expected {}", j.metadata, self.metadata));
            }
            if j.tags != self.tags {
                return Err(format!("tags {:?}, expected {:?}", j.tags, self.tags));
            }
            if j.priority != self.priority {
                return Err(format!("priority {}, expected {}", j.priority, self.priority));
            }
        }
        if mask.has(Mask::ERRORS) {
            if j.errors.len() != self.errors.len() {
                return Err(format!("{} error entries, expected {} ({:?})", j.errors.len(), self.errors.len(), self.errors));
            }
            for (k, (e, x)) in j.errors.iter().zip(&self.errors).enumerate() {
                if e.attempt as i32 != x.attempt {
                    return Err(format!("error entry {k}: attempt {}, expected {}", e.attempt, x.attempt));
                }
                if Kind::from(&e.error_type) != x.kind {
                    return Err(format!("error entry {k}: kind {:?}, expected {:?}", e.error_type, x.kind));
                }
                if x.msg.as_ref().is_some_and(|m| *m != e.details) {
                    return Err(format!("error entry {k}: message {:?}, expected {:?}", e.details, x.msg));
                }
                if !x.at.has(ns(e.recorded_at)) {
                    return Err(format!("error entry {k}: recorded at {} not in {:?}", ns(e.recorded_at), x.at));
                }
            }
        }
        if mask.has(Mask::STAMPS) {
            if !stamp(&self.completed, j.completed_at) {
                return Err(format!("completed_at {:?}, expected {:?}", j.completed_at, self.completed));
            }
            if !stamp(&self.cancelled, j.cancelled_at) {
                return Err(format!("cancelled_at {:?}, expected {:?}", j.cancelled_at, self.cancelled));
            }
            if !stamp(&self.discarded, j.discarded_at) {
                return Err(format!("discarded_at {:?}, expected {:?}", j.discarded_at, self.discarded));
            }
            if !stamp(&self.attempted, j.attempted_at) {
                return Err(format!("attempted_at {:?}, expected {:?}", j.attempted_at, self.attempted));
            }
            if !self.inserted.has(ns(j.inserted_at)) {
                return Err(format!("inserted_at {:?}, expected {:?}", j.inserted_at, self.inserted));
            }
        }
        Ok(m)
    }

    pub fn claim(&mut self, at: Iv) {
        self.attempt += 1;
        self.attempted = Some(at);
        self.status = St::Executing;
        self.claim = (self.attempt, self.max);
    }
    pub fn complete(&mut self, at: Iv) {
        self.completed = Some(at);
        self.status = St::Complete;
    }
    pub fn snooze(&mut self, next: Iv) {
        self.status = if self.attempt == 1 { St::Scheduled } else { St::Retryable };
        self.sched = next;
        self.attempt -= 1;
    }
    pub fn retry(&mut self, next: Iv, kind: Kind, msg: Option<String>, at: Iv) {
        self.sched = next;
        self.errors.push(MErr { attempt: self.attempt, kind, msg, at });
        self.status = St::Retryable;
    }
    pub fn discard(&mut self, kind: Kind, msg: Option<String>, at: Iv) {
        self.discarded = Some(at);
        self.errors.push(MErr { attempt: self.attempt, kind, msg, at });
        self.status = St::Discarded;
    }
    pub fn cancel(&mut self, msg: Option<String>, at: Iv) {
        self.cancelled = Some(at);
        self.errors.push(MErr { attempt: self.attempt, kind: Kind::Cancelled, msg, at });
        self.status = St::Cancelled;
    }
    pub fn rerun(&mut self, at: Iv) {
        self.status = if self.attempt == 1 { St::Scheduled } else { St::Retryable };
        self.max += 1;
        self.sched = at;
        self.completed = None;
        self.cancelled = None;
        self.discarded = None;
    }
    pub fn update(&mut self, j: &Job) {
        self.data = j.data.clone();
        self.metadata = j.metadata.clone();
        self.max = j.max_attempts;
        self.sched = Iv::exact(ns(j.scheduled_at));
        self.priority = j.priority;
        self.tags = j.tags.clone();
    }
}

/// One operation of a history.
#[derive(Clone, Debug)]
pub struct LOp<O> {
    /// Event numbers of invocation and response (u64::MAX: never returned).
    pub start: u64,
    pub end: u64,
    /// May or may not have taken effect.
    pub optional: bool,
    pub op: O,
    pub label: String,
}

pub enum Lin {
    Ok,
    /// Not linearizable: the explanation of the deepest failure.
    Fail(String),
    /// Search budget exhausted.
    Unknown,
}

/// Wing–Gong search with memoisation. `apply` returns the possible next states or why the
/// operation cannot happen in this state.
pub fn linearize<S: Clone + Hash + Eq, O>(
    ops: &[LOp<O>],
    init: S,
    apply: &dyn Fn(&S, &O) -> Result<Vec<S>, String>,
    budget: u64,
) -> Lin {
    struct Ctx<'a, S, O> {
        ops: &'a [LOp<O>],
        apply: &'a dyn Fn(&S, &O) -> Result<Vec<S>, String>,
        seen: HashSet<(u64, Vec<u64>)>,
        left: u64,
        best: (usize, String),
    }
    fn h<S: Hash>(s: &S) -> u64 {
        let mut f = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut f);
        f.finish()
    }
    fn go<S: Clone + Hash + Eq, O>(c: &mut Ctx<S, O>, done: &mut Vec<u64>, ndone: usize, max_start: u64, s: &S) -> Option<bool> {
        if c.left == 0 {
            return None;
        }
        c.left -= 1;
        let is = |d: &Vec<u64>, i: usize| d[i / 64] >> (i % 64) & 1 == 1;
        let mut min_end = u64::MAX;
        let mut remaining = false;
        for (i, o) in c.ops.iter().enumerate() {
            if !is(done, i) && !o.optional {
                remaining = true;
                min_end = min_end.min(o.end);
            }
        }
        if !remaining {
            return Some(true);
        }
        if !c.seen.insert((h(s), done.clone())) {
            return Some(false);
        }
        for pass in 0..2 {
            for i in 0..c.ops.len() {
                let o = &c.ops[i];
                if is(done, i) || (o.optional as usize) != pass || o.start > min_end || o.end < max_start {
                    continue;
                }
                match (c.apply)(s, &o.op) {
                    Ok(next) => {
                        let ms = max_start.max(o.start);
                        done[i / 64] |= 1 << (i % 64);
                        for n in next {
                            match go(c, done, ndone + 1, ms, &n) {
                                Some(true) => return Some(true),
                                None => return None,
                                _ => {}
                            }
                        }
                        done[i / 64] &= !(1 << (i % 64));
                    }
                    Err(e) => {
                        if c.best.1.is_empty() || ndone > c.best.0 {
                            c.best = (ndone, format!("{}: {}", o.label, e));
                        } else if ndone == c.best.0 && c.best.1.len() < 600 {
                            let m = format!("{}: {}", o.label, e);
                            if !c.best.1.contains(&m) {
                                c.best.1.push_str("; or ");
                                c.best.1.push_str(&m);
                            }
                        }
                    }
                }
            }
        }
        Some(false)
    }
    let mut c = Ctx { ops, apply, seen: HashSet::new(), left: budget, best: (0, String::new()) };
    let mut done = vec![0u64; ops.len() / 64 + 1];
    match go(&mut c, &mut done, 0, 0, &init) {
        Some(true) => Lin::Ok,
        Some(false) => Lin::Fail(c.best.1),
        None => Lin::Unknown,
    }
}

/// The whole table.
pub type Table = BTreeMap<i32, MJob>;
