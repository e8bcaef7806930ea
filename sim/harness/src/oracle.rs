//! Decides the properties on the recorded history of a run.
use crate::model::*;
use crate::run::RunResult;
use crate::scen::*;
use crate::world::*;
use chrono::{DateTime, FixedOffset, Utc};
use rexecutor::backend::Job as BJob;
use rexecutor::job::JobStatus;
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

const MS: i64 = 1_000_000;
const SEC: i64 = 1_000_000_000;

pub struct CallRec {
    pub cid: u64,
    pub role: Role,
    pub call: Arc<Call>,
    pub start: u64,
    pub end: Option<u64>,
    pub res: Option<Res>,
    pub inj: Option<Inj>,
}
impl CallRec {
    /// Did it take effect? Some(true/false), None: unknown.
    fn applied(&self) -> Option<bool> {
        match (&self.res, self.inj) {
            (None, _) => None,
            (_, Some(Inj::Before)) => Some(false),
            (_, Some(Inj::After)) => Some(true),
            (Some(Res::NotFound(_)), None) => Some(false),
            (Some(Res::Err(_)), None) => None,
            _ => Some(true),
        }
    }
}
pub struct Exec {
    pub xid: u64,
    pub ex: usize,
    pub id: i32,
    pub node: u32,
    pub job: Arc<BJob>,
    pub start: u64,
    pub end: Option<(u64, How)>,
    pub segs: Vec<(u64, usize)>,
}
pub struct ClaimRec {
    pub seq: u64,
    pub from: u64,
    pub node: u32,
    pub inc: u32,
    pub job: Arc<BJob>,
    pub decodable: bool,
}

/// A claim as committed by the simulated server.
pub struct DbClaim {
    pub seq: u64,
    pub sid: u32,
    pub node: u32,
    pub began: i64,
    pub job: Arc<BJob>,
}

pub struct Cx<'a> {
    pub db_claims: Vec<DbClaim>,
    /// Whether any fault was injected in this run.
    pub faulted: bool,
    /// Whether the database had to break a deadlock.
    pub deadlocks: bool,
    /// connection -> event
    pub broken: HashMap<u32, u64>,
    pub sc: &'a Scenario,
    pub ev: &'a [Ev],
    pub epoch: i64,
    pub end_t: u64,
    pub calls: Vec<CallRec>,
    pub execs: Vec<Exec>,
    pub claims: Vec<ClaimRec>,
    pub snaps: Vec<(u64, u64, Arc<Vec<BJob>>)>,
    pub backoffs: HashMap<(i32, i32), Vec<i64>>,
    /// instance -> (event, time) of first shutdown or crash after each start
    pub downs: Vec<(u32, u64, bool)>,
    pub ups: Vec<(u32, u64)>,
    pub viol: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
    pub pg: bool,
}

pub struct Verdict {
    pub viol: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
}

/// Properties for which a job that is never started although it could be is a violation.
const LIVENESS: &[&str] = &["C02", "C05", "C07", "C09", "C10", "C12", "C17", "C18", "C19", "C20", "C22", "C23", "C24"];

pub fn evaluate(sc: &Scenario, r: &RunResult) -> Verdict {
    MICROS.with(|m| m.set(sc.backend == Bk::Pg));
    let mut cx = build(sc, r);
    let p = sc.prop.as_str();
    if let Some(u) = &r.hist.unsupported {
        // SQL the simulated server does not know: the run says nothing
        *cx.stats.entry("discarded_unsupported_sql".into()).or_default() += 1;
        if std::env::var("SIM_DEBUG").is_ok() {
            eprintln!("seed {}: not simulated: {u}", sc.seed);
        }
        return Verdict { viol: vec![], stats: cx.stats };
    }
    for v in &r.hist.viol {
        if v.prop == p || (v.prop == "*starved" && LIVENESS.contains(&p)) || v.prop == "*any" {
            cx.viol.push(v.clone());
        }
    }
    let endless = r.hist.ev.len() as u64 >= crate::world::EV_LIMIT;
    if endless || !r.finished && r.panic.is_none() && !r.deadlock {
        cx.v("livelock", "the system does not come to rest: step limit reached".into());
    } else if let Some(m) = &r.panic {
        cx.v("panic", format!("panic: {m}"));
    }
    if r.deadlock {
        cx.v("deadlock", "all threads are blocked for ever".into());
    }
    if r.finished && r.panic.is_none() && !r.deadlock {
        cx.hung();
        cx.errors();
        match p {
            "C01" => {
                cx.starts_and_overlap();
                cx.histories(Mask(Mask::STATUS));
            }
            "C02" => {
                cx.lost();
                cx.histories(Mask(0));
            }
            "C03" => {
                cx.builders();
                cx.histories(Mask(Mask::SCHED));
            }
            "C04" => {
                cx.lost();
                cx.histories(Mask(Mask::STATUS | Mask::STAMPS | Mask::ATTEMPT | Mask::SCHED));
            }
            "C05" => {
                cx.builders();
                cx.exec_views(Mask(Mask::ATTEMPT | Mask::MAX));
                cx.histories(Mask(Mask::STATUS | Mask::ATTEMPT | Mask::MAX));
            }
            "C06" => {
                cx.exec_views(Mask(Mask::ERRORS));
                cx.histories(Mask(Mask::ERRORS));
            }
            "C07" => cx.limits(),
            "C08" => {
                cx.timeouts();
                cx.histories(Mask(Mask::ERRORS));
            }
            "C09" => {
                cx.lost();
                cx.histories(Mask(Mask::STATUS));
            }
            "C10" => {
                cx.shutdowns();
                cx.lost();
                cx.histories(Mask(Mask::STATUS | Mask::ATTEMPT | Mask::ERRORS | Mask::SCHED | Mask::CONTENT));
            }
            "C11" => {
                cx.builders();
                if sc.direct {
                    cx.table(Mask(Mask::STATUS | Mask::ATTEMPT | Mask::MAX | Mask::ERRORS | Mask::SCHED | Mask::CONTENT | Mask::STAMPS));
                } else {
                    cx.histories(Mask(Mask::STATUS | Mask::ATTEMPT | Mask::SCHED | Mask::CONTENT | Mask::MAX));
                    cx.uniqueness();
                }
            }
            "C12" => {
                cx.builders();
                if sc.direct {
                    cx.table(Mask(Mask::STATUS | Mask::ATTEMPT | Mask::MAX | Mask::ERRORS | Mask::SCHED | Mask::CONTENT | Mask::STAMPS));
                } else {
                    cx.histories(Mask(Mask::STATUS | Mask::ATTEMPT | Mask::MAX | Mask::ERRORS | Mask::SCHED | Mask::CONTENT | Mask::STAMPS));
                }
            }
            "C13" => {
                cx.builders();
                cx.order();
            }
            "C14" => {
                cx.builders();
                cx.exec_views(Mask::ALL);
                cx.routing();
                cx.histories(Mask(Mask::CONTENT | Mask::MAX | Mask::SCHED));
            }
            "C15" => {
                if sc.direct {
                    cx.table(Mask(Mask::STATUS | Mask::ATTEMPT | Mask::MAX | Mask::ERRORS | Mask::SCHED | Mask::CONTENT | Mask::STAMPS));
                } else {
                    cx.prune_safety();
                }
            }
            "C16" => cx.pruner_ticks(),
            "C17" => cx.cron(),
            "C18" => cx.cron(),
            "C19" => {
                cx.not_found();
                cx.starts_and_overlap();
                cx.histories(Mask(Mask::STATUS | Mask::ATTEMPT | Mask::ERRORS | Mask::MAX | Mask::SCHED | Mask::STAMPS));
            }
            "C20" => cx.histories(Mask(Mask::STATUS | Mask::ATTEMPT | Mask::MAX | Mask::ERRORS | Mask::SCHED | Mask::CONTENT | Mask::STAMPS)),
            "C21" => cx.table(Mask::ALL),
            "C22" => {
                cx.backoff_bounds();
                cx.histories(Mask(Mask::SCHED));
            }
            "C23" => {
                cx.lost();
                cx.histories(Mask(Mask::STATUS | Mask::ATTEMPT | Mask::MAX | Mask::ERRORS | Mask::SCHED | Mask::CONTENT | Mask::STAMPS));
            }
            "C24" => cx.lost(),
            _ => {}
        }
    }
    let n = |cx: &mut Cx, k: &str, v: usize| *cx.stats.entry(k.into()).or_default() += v as u64;
    let (a, b, c, d) = (cx.execs.len(), cx.claims.len(), cx.calls.len(), cx.snaps.len());
    n(&mut cx, "executions", a);
    n(&mut cx, "claims", b);
    n(&mut cx, "backend_calls", c);
    n(&mut cx, "snapshots", d);
    Verdict { viol: cx.viol, stats: cx.stats }
}

fn build<'a>(sc: &'a Scenario, r: &'a RunResult) -> Cx<'a> {
    let ev = &r.hist.ev[..];
    let mut cx = Cx {
        db_claims: vec![],
        broken: HashMap::new(),
        sc,
        ev,
        epoch: r.epoch_ns as i64,
        end_t: r.end_t,
        calls: vec![],
        execs: vec![],
        claims: vec![],
        snaps: vec![],
        backoffs: HashMap::new(),
        downs: vec![],
        ups: vec![],
        viol: vec![],
        stats: BTreeMap::new(),
        pg: sc.backend == Bk::Pg,
        faulted: !r.hist.faults.is_empty(),
        deadlocks: r.hist.probes.get("pg_deadlocks").is_some_and(|n| *n > 0),
    };
    let mut by_cid = HashMap::new();
    let mut by_xid = HashMap::new();
    for (s, e) in ev.iter().enumerate() {
        let s = s as u64;
        match &e.k {
            EvK::Call { cid, role, call } => {
                by_cid.insert(*cid, cx.calls.len());
                cx.calls.push(CallRec { cid: *cid, role: role.clone(), call: call.clone(), start: s, end: None, res: None, inj: None });
            }
            EvK::Ret { cid, res, inj } => {
                let c = &mut cx.calls[by_cid[cid]];
                c.end = Some(s);
                c.res = Some(res.clone());
                c.inj = *inj;
            }
            EvK::Claim { node, inc, from, job, decodable, .. } => cx.claims.push(ClaimRec { seq: s, from: *from, node: *node, inc: *inc, job: job.clone(), decodable: *decodable }),
            EvK::DbClaim { sid, node, began, job } => cx.db_claims.push(DbClaim { seq: s, sid: *sid, node: *node, began: *began, job: job.clone() }),
            EvK::ConnBroken { sid } => {
                cx.broken.insert(*sid, s);
            }
            EvK::Backoff { id, attempt, ms, .. } => cx.backoffs.entry((*id, *attempt)).or_default().push(*ms),
            EvK::ExecStart { xid, ex, job } => {
                by_xid.insert(*xid, cx.execs.len());
                cx.execs.push(Exec { xid: *xid, ex: *ex, id: job.id, node: e.node.wrapping_sub(1), job: job.clone(), start: s, end: None, segs: vec![] });
            }
            EvK::Seg { xid, i } => cx.execs[by_xid[xid]].segs.push((s, *i)),
            EvK::ExecEnd { xid, how } => cx.execs[by_xid[xid]].end = Some((s, how.clone())),
            EvK::Snap { from, jobs } => cx.snaps.push((*from, s, jobs.clone())),
            EvK::NodeUp { node } => cx.ups.push((*node, s)),
            EvK::Shutdown { node } => cx.downs.push((*node, s, false)),
            EvK::Crash { node } => cx.downs.push((*node, s, true)),
            _ => {}
        }
    }
    cx
}

/// Operations on one job.
#[derive(Clone, Debug)]
pub enum JOp {
    Enq { call: Arc<Call>, at: Iv },
    Claim { job: Arc<BJob>, at: Iv },
    Result { how: How, timeout: bool, at: Iv, rt: (i64, i64), delays: Vec<i64> },
    Complete { at: Iv },
    Retry { next: Ns, kind: Kind, msg: String, at: Iv },
    Discard { kind: Kind, msg: String, at: Iv },
    Cancel { msg: String, at: Iv },
    Snooze { next: Ns },
    Rerun { at: Iv },
    Update { call: Arc<Call> },
    NotFound,
    Read { job: Arc<BJob> },
    Gone,
}

fn job_changed(a: &BJob, b: &BJob) -> bool {
    a.status != b.status
        || a.attempt != b.attempt
        || a.scheduled_at != b.scheduled_at
        || a.errors.len() != b.errors.len()
        || a.max_attempts != b.max_attempts
        || a.priority != b.priority
        || a.completed_at != b.completed_at
        || a.cancelled_at != b.cancelled_at
        || a.discarded_at != b.discarded_at
        || a.attempted_at != b.attempted_at
        || a.executor != b.executor
        || a.tags != b.tags
        || a.data != b.data
        || a.metadata != b.metadata
        || a.inserted_at != b.inserted_at
}

pub fn create(call: &Call, id: i32, at: Iv) -> MJob {
    let Call::Enqueue { executor, data, metadata, max, prio, tags, sched, uniq, .. } = call else { unreachable!() };
    MJob {
        id,
        executor: executor.clone(),
        data: data.clone(),
        metadata: metadata.clone(),
        tags: tags.clone(),
        priority: *prio,
        max: *max,
        attempt: 0,
        status: St::Scheduled,
        sched: Iv::exact(*sched),
        errors: vec![],
        attempted: None,
        completed: None,
        cancelled: None,
        discarded: None,
        inserted: at,
        key: uniq.as_ref().and_then(|u| u.key),
        crit: criteria(call),
        claim: (0, 0),
        ghost: false,
    }
}

/// Identifies the uniqueness criteria of an enqueue (its window and resolution aside).
fn criteria(call: &Call) -> Option<u64> {
    use std::hash::{Hash, Hasher};
    let Call::Enqueue { executor, uniq: Some(u), .. } = call else { return None };
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (u.key, u.executor.then_some(executor), &u.statuses).hash(&mut h);
    Some(h.finish())
}

/// Apply the replacement of a conflicting enqueue.
pub fn replace(m: &mut MJob, call: &Call) {
    let Call::Enqueue { data, metadata, max, prio, sched, uniq, .. } = call else { unreachable!() };
    let Some(r) = uniq.as_ref().and_then(|u| u.replace.as_ref()) else { return };
    if !r.for_statuses.contains(&m.status) {
        return;
    }
    if r.scheduled_at {
        m.sched = Iv::exact(*sched);
    }
    if r.data {
        m.data = data.clone();
    }
    if r.metadata {
        m.metadata = metadata.clone();
    }
    if r.priority {
        m.priority = *prio;
    }
    if r.max_attempts {
        m.max = *max;
    }
}

fn apply_result(m: &MJob, how: &How, timeout: bool, at: Iv, rt: (i64, i64), delays: &[i64], mask: Mask) -> Result<Vec<MJob>, String> {
    let fail = |kind: Kind, msg: Option<String>| -> Result<Vec<MJob>, String> {
        let (a, mx) = m.claim;
        let mut out = vec![];
        let known = mask.has(Mask::MAX | Mask::ATTEMPT);
        let can_final = a >= mx || m.attempt >= m.max || !known;
        let can_retry = a < mx || m.attempt < m.max || !known;
        if can_final {
            let mut n = m.clone();
            n.discard(kind.clone(), msg.clone(), at);
            out.push(n);
        }
        if can_retry {
            let mut ds: Vec<i64> = delays.to_vec();
            ds.dedup();
            if ds.is_empty() {
                if out.is_empty() {
                    return Err("the backoff was never computed".into());
                }
            }
            for d in ds {
                let mut n = m.clone();
                n.retry(after(rt, d), kind.clone(), msg.clone(), at);
                out.push(n);
            }
        }
        Ok(out)
    };
    let one = |n: MJob| Ok(vec![n]);
    let mut n = m.clone();
    match how {
        How::Returned(Out::Done) => {
            n.complete(at);
            one(n)
        }
        How::Returned(Out::Cancel(r)) => {
            n.cancel(Some(r.clone()), at);
            one(n)
        }
        How::Returned(Out::SnoozeMs(d)) => {
            n.snooze(after(rt, *d));
            one(n)
        }
        How::Returned(Out::SnoozeHuge) => {
            n.snooze(Iv(rt.0, i64::MAX));
            one(n)
        }
        How::Returned(Out::Err(msg, k)) => fail(Kind::Other(ERR_TYPES[*k as usize % ERR_TYPES.len()].into()), Some(msg.clone())),
        How::Returned(_) => unreachable!(),
        How::Panicked(msg) => fail(Kind::Panic, if msg.is_empty() { None } else { Some(msg.clone()) }),
        How::Dropped if timeout => fail(Kind::Timeout, None),
        How::Dropped => Err("the execution was dropped without a timeout".into()),
    }
}
/// The interval `rt` shifted by a delay in milliseconds; far delays saturate.
fn after(rt: (i64, i64), ms: i64) -> Iv {
    match ms.checked_mul(MS).and_then(|d| Some((rt.0.checked_add(d)?, rt.1.checked_add(d)?))) {
        Some((a, b)) => Iv(a - MS, b + MS),
        None => Iv(rt.0, i64::MAX),
    }
}

fn apply_job(s: &Option<MJob>, op: &JOp, id: i32, mask: Mask) -> Result<Vec<Option<MJob>>, String> {
    let ok = |m: MJob| Ok(vec![Some(m)]);
    let need = || s.clone().ok_or_else(|| format!("job {id} does not exist"));
    match op {
        JOp::Enq { call, at } => match s {
            None => ok(create(call, id, *at)),
            Some(m) => {
                let Call::Enqueue { uniq, .. } = &**call else { unreachable!() };
                if uniq.is_none() {
                    return Err(format!("an enqueue returned the identifier {id} of an existing job"));
                }
                let mut n = m.clone();
                replace(&mut n, call);
                ok(n)
            }
        },
        JOp::Claim { job, at } => {
            let mut m = need()?;
            if mask.has(Mask::STATUS) && !m.status.waiting() {
                return Err(format!("job {id} was claimed while {:?}", m.status));
            }
            if mask.has(Mask::SCHED) && at.1.saturating_add(100 * MS + MS) < m.sched.0 {
                return Err(format!("job {id} was claimed {} ms before its scheduled time", (m.sched.0 - at.1) / MS));
            }
            m.claim(*at);
            ok(m.compare(job, mask)?)
        }
        JOp::Result { how, timeout, at, rt, delays } => {
            let m = need()?;
            Ok(apply_result(&m, how, *timeout, *at, *rt, delays, mask)?.into_iter().map(Some).collect())
        }
        JOp::Complete { at } => {
            let mut m = need()?;
            m.complete(*at);
            ok(m)
        }
        JOp::Retry { next, kind, msg, at } => {
            let mut m = need()?;
            m.retry(Iv::exact(*next), kind.clone(), Some(msg.clone()), *at);
            ok(m)
        }
        JOp::Discard { kind, msg, at } => {
            let mut m = need()?;
            m.discard(kind.clone(), Some(msg.clone()), *at);
            ok(m)
        }
        JOp::Cancel { msg, at } => {
            let mut m = need()?;
            m.cancel(Some(msg.clone()), *at);
            ok(m)
        }
        JOp::Snooze { next } => {
            let mut m = need()?;
            m.snooze(Iv::exact(*next));
            ok(m)
        }
        JOp::Rerun { at } => {
            let mut m = need()?;
            m.rerun(*at);
            ok(m)
        }
        JOp::Update { call } => {
            let mut m = need()?;
            let Call::Update { job } = &**call else { unreachable!() };
            m.update(job);
            ok(m)
        }
        JOp::NotFound => match s {
            None => Ok(vec![None]),
            Some(_) => Err(format!("job {id} was reported missing although it exists")),
        },
        JOp::Read { job } => ok(need()?.compare(job, mask)?),
        JOp::Gone => match s {
            None => Ok(vec![None]),
            Some(_) => Err(format!("job {id} disappeared")),
        },
    }
}

impl<'a> Cx<'a> {
    fn v(&mut self, class: &str, msg: String) {
        self.viol.push(Viol { prop: self.sc.prop.clone(), class: class.into(), msg });
    }
    /// Wall clock (of the backend) at an event.
    fn wall(&self, seq: u64) -> i64 {
        let i = (seq as usize).min(self.ev.len().saturating_sub(1));
        self.epoch + self.ev[i].t as i64
    }
    /// Wall clock at the last event before `seq` happened.
    fn wall_before(&self, seq: u64) -> i64 {
        if seq == 0 {
            self.epoch
        } else {
            self.wall(seq - 1)
        }
    }
    fn end_wall(&self) -> i64 {
        self.epoch + self.end_t as i64
    }
    fn ms(&self, seq: u64) -> i64 {
        (self.wall(seq) - self.epoch) / MS
    }
    fn span(&self, c: &CallRec) -> Iv {
        Iv(self.wall(c.start), c.end.map(|e| self.wall(e)).unwrap_or(i64::MAX / 2))
    }
    fn rt_span(&self, c: &CallRec) -> Iv {
        Iv(self.ev[c.start as usize].rt, c.end.map(|e| self.ev[e as usize].rt).unwrap_or(i64::MAX / 2))
    }
    fn crashed_between(&self, node: u32, a: u64, b: u64) -> bool {
        self.downs.iter().any(|(n, s, crash)| *n == node && *crash && *s >= a && *s <= b)
    }
    fn has_timeout(&self, x: &Exec) -> Option<u32> {
        self.step_of(x).and_then(|s| s.timeout_ms)
    }
    /// The step the execution performs.
    fn step_of(&self, x: &Exec) -> Option<Step> {
        let plan: Plan = serde_json::from_value(x.job.data.clone()).ok()?;
        let k = self.execs.iter().filter(|y| y.id == x.id && y.start < x.start).count();
        Some(plan.steps.get(k).cloned().unwrap_or_else(default_step))
    }

    /// A backend call or client operation that never returned.
    fn hung(&mut self) {
        let mut bad = vec![];
        for c in &self.calls {
            if c.end.is_none() && self.end_wall() - self.wall(c.start) > 120 * SEC {
                if let Role::Instance(n) = c.role {
                    if self.crashed_between(n, 0, u64::MAX) {
                        continue;
                    }
                }
                bad.push(format!("{} called at {} ms never returned", c.call.name(), self.ms(c.start)));
            }
        }
        for b in bad {
            self.v("hang", b);
        }
    }

    /// The operations per job, derived from the history.
    fn job_ops(&self) -> BTreeMap<i32, Vec<LOp<JOp>>> {
        let mut ops: BTreeMap<i32, Vec<LOp<JOp>>> = BTreeMap::new();
        let mut add = |id: i32, start: u64, end: u64, optional: bool, op: JOp, label: String| ops.entry(id).or_default().push(LOp { start, end, optional, op, label });
        let pruned = self.calls.iter().any(|c| matches!(*c.call, Call::Prune { .. }));
        let created: BTreeSet<i32> = self
            .calls
            .iter()
            .filter_map(|c| match (&*c.call, &c.res) {
                (Call::Enqueue { .. }, Some(Res::Id(i))) => Some(*i),
                _ => None,
            })
            .collect();
        // Enqueues whose reply was lost: find the job by its content.
        let mut explained = created.clone();
        let known: BTreeSet<i32> = created.iter().copied().chain(self.snaps.iter().flat_map(|(_, _, jobs)| jobs.iter().map(|j| j.id))).chain(self.db_claims.iter().map(|d| d.job.id)).collect();
        for c in &self.calls {
            let start = c.start;
            let end = c.end.unwrap_or(u64::MAX);
            let at = self.span(c);
            match &*c.call {
                Call::Enqueue { data, sched, uniq, executor, .. } => match &c.res {
                    Some(Res::Id(i)) => add(*i, start, end, false, JOp::Enq { call: c.call.clone(), at }, format!("enqueue at {} ms -> {i}", self.ms(start))),
                    _ => {
                        if c.applied() == Some(false) {
                            continue;
                        }
                        let mut found = None;
                        'o: for (_, _, jobs) in &self.snaps {
                            for j in jobs.iter() {
                                if !explained.contains(&j.id) && j.data == *data && ns(j.scheduled_at) == *sched && j.executor == *executor {
                                    found = Some(j.id);
                                    break 'o;
                                }
                            }
                        }
                        if found.is_none() {
                            // it may have been claimed, retried or moved before any snapshot
                            let uid = data.get("uid");
                            'p: for (_, _, jobs) in &self.snaps {
                                for j in jobs.iter() {
                                    if uniq.is_none() && !explained.contains(&j.id) && j.data.get("uid") == uid && j.executor == *executor {
                                        found = Some(j.id);
                                        break 'p;
                                    }
                                }
                            }
                        }
                        if found.is_none() && uniq.is_none() && pruned {
                            // ... or pruned
                            let uid = data.get("uid");
                            found = self
                                .db_claims
                                .iter()
                                .map(|d| &d.job)
                                .chain(self.claims.iter().map(|k| &k.job))
                                .find(|j| !explained.contains(&j.id) && j.data.get("uid") == uid && j.executor == *executor)
                                .map(|j| j.id);
                        }
                        if let Some(i) = found {
                            explained.insert(i);
                            add(i, start, u64::MAX, false, JOp::Enq { call: c.call.clone(), at: Iv(at.0, i64::MAX / 2) }, format!("enqueue (no reply) at {} ms -> {i}", self.ms(start)));
                        } else if uniq.is_some() {
                            for i in &known {
                                add(*i, start, u64::MAX, true, JOp::Enq { call: c.call.clone(), at: Iv(at.0, i64::MAX / 2) }, format!("enqueue (no reply) at {} ms", self.ms(start)));
                            }
                        }
                    }
                },
                Call::Prune { .. } | Call::Query => {}
                _ => {
                    let id = c.call.job_id().unwrap();
                    // Results of executions are derived from what the execution returned.
                    if matches!(c.role, Role::Instance(_)) && c.call.is_mark() {
                        continue;
                    }
                    let label = format!("{} of {id} at {} ms", c.call.name(), self.ms(start));
                    if let Some(Res::NotFound(_)) = c.res {
                        if !pruned {
                            add(id, start, end, false, JOp::NotFound, label);
                        }
                        continue;
                    }
                    let (optional, end) = match c.applied() {
                        Some(false) => continue,
                        Some(true) => (false, end),
                        None => (true, u64::MAX),
                    };
                    let at = if optional { Iv(at.0, i64::MAX / 2) } else { at };
                    let op = match &*c.call {
                        Call::Complete { .. } => JOp::Complete { at },
                        Call::Retry { next, err, .. } => JOp::Retry { next: *next, kind: (&err.error_type).into(), msg: err.message.clone(), at },
                        Call::Discard { err, .. } => JOp::Discard { kind: (&err.error_type).into(), msg: err.message.clone(), at },
                        Call::Cancel { err, .. } => JOp::Cancel { msg: err.message.clone(), at },
                        Call::Snooze { next, .. } => JOp::Snooze { next: *next },
                        Call::Rerun { .. } => JOp::Rerun { at: self.rt_span(c) },
                        Call::Update { .. } => JOp::Update { call: c.call.clone() },
                        _ => unreachable!(),
                    };
                    add(id, start, end, optional, op, label);
                }
            }
        }
        for d in &self.db_claims {
            add(
                d.job.id,
                d.seq,
                d.seq,
                false,
                JOp::Claim { job: d.job.clone(), at: Iv(d.began, self.wall(d.seq)) },
                format!("claim of {} committed by {} at {} ms", d.job.id, d.node as i32, self.ms(d.seq)),
            );
        }
        for c in &self.claims {
            if self.db_claims.iter().any(|d| d.seq < c.seq && d.job.id == c.job.id && d.job.attempt == c.job.attempt) {
                continue;
            }
            add(
                c.job.id,
                c.from,
                c.seq,
                false,
                JOp::Claim { job: c.job.clone(), at: Iv(self.wall_before(c.from), self.wall(c.seq)) },
                format!("claim of {} by {} at {} ms", c.job.id, c.node as i32, self.ms(c.seq)),
            );
        }
        for x in &self.execs {
            let Some((eseq, how)) = &x.end else { continue };
            if self.crashed_between(x.node, x.start, *eseq) {
                continue;
            }
            // The call recording this result: the first one of the instance after the end, before
            // the next execution of the job.
            let next = self.execs.iter().filter(|y| y.id == x.id && y.start > x.start).map(|y| y.start).min().unwrap_or(u64::MAX);
            let mark = self
                .calls
                .iter()
                .find(|c| c.role == Role::Instance(x.node) && c.call.is_mark() && c.call.job_id() == Some(x.id) && c.start > *eseq && c.start < next);
            let timeout = self.has_timeout(x).is_some();
            if matches!(how, How::Dropped) && !timeout && self.end_wall() - self.wall(*eseq) < SEC {
                continue;
            }
            let delays = self.backoffs.get(&(x.id, x.job.attempt)).cloned().unwrap_or_default();
            let (optional, end, hi) = match mark {
                Some(m) => match m.applied() {
                    Some(false) => continue,
                    Some(true) => (false, m.end.unwrap(), m.start),
                    None => (true, u64::MAX, m.start),
                },
                None => {
                    if self.crashed_between(x.node, x.start, u64::MAX) {
                        continue;
                    }
                    let late = self.snaps.iter().find(|(f, _, _)| *f > *eseq && self.wall_before(*f) - self.wall(*eseq) > SEC);
                    match late {
                        Some((f, _, _)) => (false, *f - 1, *f - 1),
                        None => (true, u64::MAX, self.ev.len() as u64 - 1),
                    }
                }
            };
            let at = Iv(self.wall(*eseq), if end == u64::MAX { i64::MAX / 2 } else { self.wall(end) });
            let skew = self.ev[*eseq as usize].rt - self.wall(*eseq);
            let rt = (self.ev[*eseq as usize].rt, self.wall(hi) + skew);
            add(
                x.id,
                *eseq,
                end,
                optional,
                JOp::Result { how: how.clone(), timeout, at, rt, delays },
                format!("result of attempt {} of job {} at {} ms ({})", x.job.attempt, x.id, self.ms(*eseq), brief(how)),
            );
        }
        // Reads: only around changes.
        let mut last: HashMap<i32, (Arc<BJob>, u64, u64, bool)> = HashMap::new();
        let mut acked: BTreeMap<i32, u64> = BTreeMap::new();
        for c in &self.calls {
            if let (Call::Enqueue { .. }, Some(Res::Id(i)), Some(e)) = (&*c.call, &c.res, c.end) {
                let x = acked.entry(*i).or_insert(e);
                *x = (*x).min(e);
            }
        }
        let mut gone = BTreeSet::new();
        let mut reads: Vec<(i32, u64, u64, Option<Arc<BJob>>)> = vec![];
        for (from, seq, jobs) in &self.snaps {
            let mut present = BTreeSet::new();
            for j in jobs.iter() {
                present.insert(j.id);
                match last.get_mut(&j.id) {
                    Some((p, f, s, pushed)) if !job_changed(p, j) => {
                        *f = *from;
                        *s = *seq;
                        *pushed = false;
                    }
                    other => {
                        if let Some((p, f, s, pushed)) = other {
                            if !*pushed {
                                reads.push((j.id, *f, *s, Some(p.clone())));
                            }
                        }
                        let a = Arc::new(j.clone());
                        reads.push((j.id, *from, *seq, Some(a.clone())));
                        last.insert(j.id, (a, *from, *seq, true));
                    }
                }
            }
            if !pruned {
                for (i, a) in &acked {
                    if a < from && !present.contains(i) && gone.insert(*i) {
                        reads.push((*i, *from, *seq, None));
                    }
                }
            }
        }
        for (i, (p, f, s, pushed)) in last {
            if !pushed {
                reads.push((i, f, s, Some(p)));
            }
        }
        for (id, from, seq, j) in reads {
            let label = format!("job {id} as stored at {} ms", self.ms(seq));
            match j {
                Some(job) => add(id, from, seq, false, JOp::Read { job }, label),
                None => add(id, from, seq, false, JOp::Gone, label),
            }
        }
        for v in ops.values_mut() {
            v.sort_by_key(|o| (o.start, o.end));
        }
        ops
    }

    /// Every job's history must be explained by the sequential model.
    fn histories(&mut self, mask: Mask) {
        let ops = self.job_ops();
        for (id, l) in ops {
            *self.stats.entry("job_histories".into()).or_default() += 1;
            *self.stats.entry("job_operations".into()).or_default() += l.len() as u64;
            let apply = |s: &Option<MJob>, o: &JOp| apply_job(s, o, id, mask);
            match linearize(&l, None, &apply, 60_000) {
                Lin::Ok => {}
                Lin::Unknown => *self.stats.entry("inconclusive".into()).or_default() += 1,
                Lin::Fail(e) => {
                    self.v("history", format!("the history of job {id} has no explanation: {e}"));
                }
            }
        }
    }

    fn starts_and_overlap(&mut self) {
        let mut bad = vec![];
        let mut by: BTreeMap<i32, Vec<&Exec>> = BTreeMap::new();
        for x in &self.execs {
            by.entry(x.id).or_default().push(x);
        }
        for (id, xs) in by {
            for w in xs.windows(2) {
                let e = w[0].end.as_ref().map(|e| e.0).unwrap_or(u64::MAX);
                // A cancellation that raced with the claim may have come second; the rerun of what
                // is then a cancelled job is free to start.
                let raced = || {
                    self.claims.iter().filter(|k| k.job.id == id && k.seq < w[0].start).last().is_some_and(|k| {
                        let from = self.db_claims.iter().filter(|d| d.job.id == id && d.seq < k.seq).last().map_or(k.from, |d| d.seq);
                        self.calls.iter().any(|c| {
                            matches!(*c.call, Call::Cancel { .. })
                                && !matches!(c.role, Role::Instance(_))
                                && c.call.job_id() == Some(id)
                                && c.applied() != Some(false)
                                && c.start <= k.seq
                                && c.end.unwrap_or(u64::MAX) >= from
                                && self.calls.iter().any(|r| matches!(*r.call, Call::Rerun { .. }) && r.call.job_id() == Some(id) && r.applied() != Some(false) && r.start >= c.start && r.start < w[1].start)
                        })
                    })
                };
                if e > w[1].start && !self.crashed_between(w[0].node, w[0].start, w[1].start) && !raced() {
                    bad.push(("overlap", format!("two executions of job {id} overlap (started at {} and {} ms)", self.ms(w[0].start), self.ms(w[1].start))));
                }
            }
            // Each start needs its own reason, begun before it.
            let mut reasons: Vec<u64> = vec![];
            for c in &self.calls {
                let same = c.call.job_id() == Some(id);
                let r = match &*c.call {
                    Call::Retry { .. } | Call::Snooze { .. } | Call::Rerun { .. } => same && c.applied() != Some(false),
                    _ => false,
                };
                if r {
                    reasons.push(c.start);
                }
            }
            for (k, x) in xs.iter().enumerate() {
                let n = 1 + reasons.iter().filter(|r| **r < x.start).count();
                if k + 1 > n {
                    bad.push(("restart", format!("job {id} was started {} times until {} ms although it became runnable only {n} times", k + 1, self.ms(x.start))));
                    break;
                }
            }
            // One start per claim.
            let mut claims: Vec<u64> = self.claims.iter().filter(|c| c.job.id == id).map(|c| c.seq).collect();
            claims.sort();
            for (k, x) in xs.iter().enumerate() {
                let n = claims.iter().filter(|c| **c < x.start).count();
                if k + 1 > n {
                    bad.push(("unclaimed", format!("job {id} was started {} times but claimed {n} times until {} ms", k + 1, self.ms(x.start))));
                    break;
                }
            }
        }
        for (c, b) in bad {
            self.v(c, b);
        }
    }

    /// A job marked as executing although nothing executes it.
    fn lost(&mut self) {
        let Some((_, _, jobs)) = self.snaps.last().cloned() else { return };
        let mut bad = vec![];
        let mut shut = vec![];
        for j in jobs.iter() {
            if j.status != JobStatus::Executing {
                continue;
            }
            let x = self.execs.iter().filter(|x| x.id == j.id).last();
            let claims: Vec<&ClaimRec> = self.claims.iter().filter(|c| c.job.id == j.id && c.job.attempt == j.attempt).collect();
            if claims.iter().any(|c| !c.decodable) {
                continue;
            }
            if let Some(t) = j.attempted_at {
                if self.end_wall() - ns(t) < 2 * SEC {
                    continue;
                }
            }
            // Postgres: a committed claim whose reply was lost with its connection or instance.
            if self.pg {
                if let Some(d) = self.db_claims.iter().rev().find(|d| d.job.id == j.id) {
                    let handed = self.claims.iter().any(|c| c.job.id == j.id && c.seq > d.seq);
                    if !handed && (self.broken.contains_key(&d.sid) || self.crashed_between(d.node.wrapping_sub(1), d.seq, u64::MAX)) {
                        continue;
                    }
                    // The claim was under way when its instance was shut down gracefully.
                    let regs = |n: u32| self.sc.nodes.get(n as usize).map_or(0, |n| n.execs.iter().filter(|e| crate::world::NAMES[**e] == d.job.executor).count());
                    let under_way = self.downs.iter().any(|(n, s, crash)| {
                        !crash && *n == d.node.wrapping_sub(1) && (regs(*n) > 1 || !self.db_claims.iter().any(|o| o.node == d.node && o.job.executor == d.job.executor && o.seq > d.seq && o.seq < *s))
                    });
                    if !handed && under_way {
                        shut.push(format!("job {} is marked as executing for ever: its claim was under way when its instance was shut down", j.id));
                        continue;
                    }
                }
            }
            // Held by an instance that crashed?
            if self.pg && self.db_claims.iter().any(|d| d.job.id == j.id && d.job.attempt == j.attempt && self.crashed_between(d.node.wrapping_sub(1), d.seq, u64::MAX)) {
                continue;
            }
            if !self.pg && self.downs.iter().any(|d| d.2) {
                // any crash may have taken the claim with it
                let node_of = claims.last().map(|c| (c.node, c.seq));
                match node_of {
                    None => continue,
                    Some((n, s)) if self.crashed_between(n, s, u64::MAX) => continue,
                    _ => {}
                }
            }
            match (claims.last(), x) {
                (Some(c), Some(x)) if x.start > c.seq => {
                    let Some((eseq, _)) = &x.end else { continue };
                    if self.end_wall() - self.wall(*eseq) < 2 * SEC {
                        continue;
                    }
                    // Its result was not recorded: allowed only if the backend failed to.
                    let m = self.calls.iter().filter(|c| c.call.is_mark() && c.call.job_id() == Some(j.id) && c.start > *eseq);
                    let mut failed = false;
                    for c in m {
                        failed |= c.end.is_none() || !c.res.as_ref().unwrap().ok();
                    }
                    if !failed {
                        bad.push(format!("job {} is still marked as executing although its execution ended at {} ms", j.id, self.ms(*eseq)));
                    }
                }
                _ => {
                    bad.push(format!("job {} is marked as executing (attempt {}) but was never handed to an executor", j.id, j.attempt));
                }
            }
        }
        if self.sc.prop == "C10" {
            for b in shut {
                self.v("shutdown-claim", b);
            }
        }
        for b in bad {
            self.v("stuck", b);
        }
    }

    /// What an execution is given is what was claimed.
    fn exec_views(&mut self, mask: Mask) {
        let mut bad = vec![];
        for x in &self.execs {
            let Some(c) = self.claims.iter().filter(|c| c.job.id == x.id && c.seq < x.start).last() else {
                bad.push(format!("job {} was executed at {} ms without having been claimed", x.id, self.ms(x.start)));
                continue;
            };
            // What the database handed out, where there is one.
            let a = self.db_claims.iter().filter(|d| d.job.id == x.id && d.seq < c.seq && d.node == c.node + 1).last().map_or(&c.job, |d| &d.job);
            let b = &x.job;
            let mut diff = vec![];
            if mask.has(Mask::STAMPS) && (a.inserted_at, a.attempted_at) != (b.inserted_at, b.attempted_at) {
                diff.push(format!("inserted, attempted at {:?} instead of {:?}", (b.inserted_at, b.attempted_at), (a.inserted_at, a.attempted_at)));
            }
            if mask.has(Mask::ATTEMPT) && a.attempt != b.attempt {
                diff.push(format!("attempt {} instead of {}", b.attempt, a.attempt));
            }
            if mask.has(Mask::MAX) && a.max_attempts != b.max_attempts {
                diff.push(format!("max_attempts {} instead of {}", b.max_attempts, a.max_attempts));
            }
            if mask.has(Mask::ERRORS) {
                let f = |j: &BJob| j.errors.iter().map(|e| (e.attempt, Kind::from(&e.error_type), e.details.clone(), e.recorded_at)).collect::<Vec<_>>();
                if f(a) != f(b) {
                    diff.push(format!("errors {:?} instead of {:?}", b.errors, a.errors));
                }
            }
            if mask.has(Mask::CONTENT) {
                for (n, p, q) in [("data", &a.data, &b.data), ("metadata", &a.metadata, &b.metadata)] {
                    if p != q {
                        diff.push(format!("{n} {q} instead of {p}"));
                    }
                }
                if a.tags != b.tags {
                    diff.push(format!("tags {:?} instead of {:?}", b.tags, a.tags));
                }
                if a.priority != b.priority {
                    diff.push(format!("priority {} instead of {}", b.priority, a.priority));
                }
            }
            if mask.has(Mask::SCHED) && a.scheduled_at != b.scheduled_at {
                diff.push(format!("scheduled_at {:?} instead of {:?}", b.scheduled_at, a.scheduled_at));
            }
            if !diff.is_empty() {
                bad.push(format!("the execution of job {} at {} ms saw {}", x.id, self.ms(x.start), diff.join(", ")));
            }
        }
        for b in bad {
            self.v("view", b);
        }
    }

    fn routing(&mut self) {
        let mut bad = vec![];
        for x in &self.execs {
            if NAMES[x.ex] != x.job.executor {
                bad.push(format!("job {} of executor {:?} was executed by {:?}", x.id, x.job.executor, NAMES[x.ex]));
            }
            if let Some(e) = x.job.data.get("ex").and_then(|v| v.as_u64()) {
                if e as usize != x.ex {
                    bad.push(format!("job {} enqueued for {:?} was executed by {:?}", x.id, NAMES[e as usize], NAMES[x.ex]));
                }
            }
        }
        let mut ids: BTreeMap<i32, u64> = BTreeMap::new();
        for c in &self.calls {
            if let (Call::Enqueue { uniq: None, data, .. }, Some(Res::Id(i))) = (&*c.call, &c.res) {
                let u = data.get("uid").and_then(|v| v.as_u64()).unwrap_or(0);
                if let Some(o) = ids.insert(*i, u) {
                    bad.push(format!("two enqueues (uid {o} and {u}) returned the same identifier {i}"));
                }
            }
        }
        for (_, _, jobs) in &self.snaps {
            let s: BTreeSet<i32> = jobs.iter().map(|j| j.id).collect();
            if s.len() != jobs.len() {
                bad.push("two stored jobs have the same identifier".into());
                break;
            }
        }
        for b in bad {
            self.v("routing", b);
        }
    }

    /// What the job builder hands to the backend is what the client asked for.
    fn builders(&mut self) {
        let ops: HashMap<u32, &Enq> = self
            .sc
            .clients
            .iter()
            .flatten()
            .filter_map(|o| match &o.k {
                OpK::Enq(e) if e.raw.is_none() => Some((o.id, e)),
                _ => None,
            })
            .collect();
        let mut bad = vec![];
        let mut keys: BTreeMap<u32, i64> = BTreeMap::new();
        for c in &self.calls {
            let (Role::Client(op), Call::Enqueue { executor, data, metadata, max, prio, tags, sched, uniq, .. }) = (&c.role, &*c.call) else { continue };
            let Some(e) = ops.get(op) else { continue };
            let t = self.ev[c.start as usize].rt;
            let want = e.abs_ms.map(|a| self.epoch + a * MS).unwrap_or(t + e.delay_ms.unwrap_or(0) * MS);
            let mut d = vec![];
            if executor != NAMES[e.ex] {
                d.push(format!("executor {executor:?}"));
            }
            if *data != serde_json::to_value(&e.plan).unwrap() {
                d.push(format!("data {data}"));
            }
            if *metadata != serde_json::to_value(&e.meta).unwrap() {
                d.push(format!("metadata {metadata}"));
            }
            if *max != e.max.unwrap_or(MAXATT[e.ex]) as i32 {
                d.push(format!("max attempts {max}"));
            }
            if *prio != e.prio as i32 {
                d.push(format!("priority {prio}"));
            }
            if *tags != e.tags {
                d.push(format!("tags {tags:?}"));
            }
            let st = |v: &Vec<u8>| v.iter().map(|x| St::from(crate::run::status(*x))).collect::<Vec<_>>();
            let own = (e.ex == SOLO && e.uniq.is_none())
                .then(|| Uniq { key: None, executor: true, within_s: None, statuses: (0..6).collect(), replace: None });
            match (&e.uniq.clone().or(own), uniq) {
                (None, None) => {}
                (Some(u), Some(c)) => {
                    if u.key.is_some() != c.key.is_some() || u.executor != c.executor || u.within_s.map(|w| w * SEC) != c.within || st(&u.statuses) != c.statuses {
                        d.push(format!("uniqueness {c:?} instead of {u:?}"));
                    }
                    if let (Some(k), Some(h)) = (u.key, c.key) {
                        if *keys.entry(k).or_insert(h) != h || keys.iter().any(|(k2, h2)| *k2 != k && *h2 == h) {
                            d.push(format!("an ambiguous hash of key {k}"));
                        }
                    }
                    let any = |r: &Repl| r.scheduled_at || r.data || r.metadata || r.priority || r.max_attempts;
                    match (&u.replace, &c.replace) {
                        (None, None) => {}
                        (Some(a), None) if !any(a) => {}
                        (Some(a), Some(b))
                            if (a.scheduled_at, a.data, a.metadata, a.priority, a.max_attempts) == (b.scheduled_at, b.data, b.metadata, b.priority, b.max_attempts)
                                && st(&a.for_statuses) == b.for_statuses => {}
                        (a, b) => d.push(format!("replacement {b:?} instead of {a:?}")),
                    }
                }
                (a, b) => d.push(format!("uniqueness {b:?} instead of {a:?}")),
            }
            if (*sched - want).abs() > 50 * MS {
                d.push(format!("scheduled {} ms off", (*sched - want) / MS));
            }
            if !d.is_empty() {
                bad.push(format!("enqueue {op} was submitted with {}", d.join(", ")));
            }
        }
        for b in bad {
            self.v("builder", b);
        }
    }

    fn limits(&mut self) {
        let mut regs: BTreeMap<(u32, usize), usize> = BTreeMap::new();
        for (i, n) in self.sc.nodes.iter().enumerate() {
            for e in n.execs.iter().copied().chain(n.crons.iter().map(|c| c.ex)) {
                *regs.entry((i as u32, e)).or_default() += 1;
            }
        }
        // An instance started again after a graceful shutdown is a new one: the executions of its
        // predecessor do not count.
        let inc: Vec<u32> = self.execs.iter().map(|x| self.claims.iter().filter(|c| c.node == x.node && c.job.id == x.id && c.seq < x.start).map(|c| c.inc).last().unwrap_or(0)).collect();
        let mut run: BTreeMap<(u32, usize), BTreeSet<u64>> = BTreeMap::new();
        let mut pts: Vec<(u64, bool, usize)> = vec![];
        for (k, x) in self.execs.iter().enumerate() {
            pts.push((x.start, true, k));
            if let Some((e, _)) = &x.end {
                pts.push((*e, false, k));
            }
        }
        for (n, s, crash) in &self.downs {
            if *crash {
                for (k, x) in self.execs.iter().enumerate() {
                    if x.node == *n && x.start < *s {
                        pts.push((*s, false, k));
                    }
                }
            }
        }
        pts.sort();
        let mut bad = vec![];
        let mut full = 0u64;
        for (s, start, k) in pts {
            let x = &self.execs[k];
            let set = run.entry((inc[k], x.ex)).or_default();
            if start {
                set.insert(x.xid);
            } else {
                set.remove(&x.xid);
            }
            if let Some(l) = LIMIT[x.ex] {
                let r = regs.get(&(x.node, x.ex)).copied().unwrap_or(1);
                if set.len() == l * r {
                    full += 1;
                }
                if set.len() > l * r {
                    bad.push(format!("{} jobs of executor {:?} (limit {l}, registered {r} times) run on instance {} at {} ms", set.len(), NAMES[x.ex], x.node, self.ms(s)));
                }
            }
        }
        *self.stats.entry("limit_reached".into()).or_default() += full;
        for b in bad.into_iter().take(3) {
            self.v("limit", b);
        }
    }

    fn timeouts(&mut self) {
        let mut bad = vec![];
        let mut hit = 0;
        let tol = 50 * MS;
        for x in &self.execs {
            let Some(step) = self.step_of(x) else { continue };
            let total: i64 = step.segs.iter().map(|s| *s as i64).sum::<i64>() * MS;
            let never = step.out == Out::Never;
            let t0 = self.wall(x.start);
            let crashed = self.crashed_between(x.node, x.start, u64::MAX);
            match step.timeout_ms {
                None => {
                    if let Some((e, How::Dropped)) = &x.end {
                        if !crashed && self.end_wall() - self.wall(*e) > SEC {
                            bad.push(format!("the execution of job {} without a timeout was stopped at {} ms", x.id, self.ms(*e)));
                        }
                    }
                }
                Some(t) => {
                    let t = t as i64 * MS;
                    for (s, i) in &x.segs {
                        if self.wall(*s) - t0 > t + tol {
                            bad.push(format!("job {} made progress (part {i}) {} ms after its start although its timeout is {} ms", x.id, (self.wall(*s) - t0) / MS, t / MS));
                        }
                    }
                    match &x.end {
                        None => {
                            if !crashed && self.end_wall() - t0 > t + tol {
                                bad.push(format!("job {} still runs {} ms after its start although its timeout is {} ms", x.id, (self.end_wall() - t0) / MS, t / MS));
                            }
                        }
                        Some((e, how)) => {
                            let d = self.wall(*e) - t0;
                            if d > t + tol {
                                bad.push(format!("job {} ended {} ms after its start although its timeout is {} ms", x.id, d / MS, t / MS));
                            }
                            if matches!(how, How::Dropped) {
                                hit += 1;
                                if d < t - 2 * MS && !crashed && self.end_wall() - self.wall(*e) > SEC {
                                    bad.push(format!("job {} was stopped {} ms after its start, before its timeout of {} ms", x.id, d / MS, t / MS));
                                }
                                if !never && total + tol < t && !crashed && self.end_wall() - self.wall(*e) > SEC {
                                    bad.push(format!("job {} needs {} ms and was stopped although its timeout is {} ms", x.id, total / MS, t / MS));
                                }
                            }
                        }
                    }
                }
            }
        }
        *self.stats.entry("timeouts_hit".into()).or_default() += hit;
        for b in bad.into_iter().take(3) {
            self.v("timeout", b);
        }
    }

    fn shutdowns(&mut self) {
        let grace = 50 * MS;
        let slow = self.sc.faults.any();
        let mut bad = vec![];
        for (n, s, crash) in &self.downs {
            if *crash {
                continue;
            }
            // until the instance is started again
            let until = self.ups.iter().filter(|(m, u)| m == n && u > s).map(|(_, u)| *u).min().unwrap_or(u64::MAX);
            let t = self.wall(*s);
            let after = |q: u64| q > *s && q < until && self.wall(q) > t + grace;
            for c in &self.claims {
                if c.node == *n && after(c.seq) {
                    bad.push(format!("instance {n} claimed job {} {} ms after its shutdown", c.job.id, (self.wall(c.seq) - t) / MS));
                }
            }
            for x in &self.execs {
                if x.node == *n && after(x.start) {
                    bad.push(format!("instance {n} started job {} {} ms after its shutdown", x.id, (self.wall(x.start) - t) / MS));
                }
            }
            for c in &self.calls {
                if c.role == Role::Instance(*n) && after(c.start) && !slow {
                    match &*c.call {
                        Call::Enqueue { .. } => bad.push(format!("instance {n} enqueued a cron job {} ms after its shutdown", (self.wall(c.start) - t) / MS)),
                        Call::Prune { .. } => bad.push(format!("instance {n} pruned {} ms after its shutdown", (self.wall(c.start) - t) / MS)),
                        _ => {}
                    }
                }
            }
            // Executions already running finish by themselves.
            for x in &self.execs {
                if x.node == *n && x.start < *s {
                    if let Some((e, How::Dropped)) = &x.end {
                        let timeout = self.has_timeout(x).map(|m| m as i64 * MS);
                        let d = self.wall(*e) - self.wall(x.start);
                        let expected = timeout.is_some_and(|m| d >= m - 2 * MS);
                        if *e > *s && !expected && self.end_wall() - self.wall(*e) > SEC {
                            bad.push(format!("the execution of job {} on instance {n} was dropped {} ms after the shutdown", x.id, (self.wall(*e) - t) / MS));
                        }
                    }
                }
            }
        }
        for b in bad.into_iter().take(3) {
            self.v("shutdown", b);
        }
    }

    /// Claims never overtake a job that must come first.
    fn order(&mut self) {
        if self.pg {
            return self.order_pg();
        }
        #[derive(Clone, Copy)]
        struct W {
            sched: Iv,
            prio: i32,
        }
        // per job: (start, end, what it is waiting for afterwards)
        let mut tl: BTreeMap<i32, (String, Vec<(u64, u64, Option<W>)>)> = BTreeMap::new();
        for c in &self.calls {
            let end = c.end.unwrap_or(u64::MAX);
            let unsure = c.applied().is_none();
            match (&*c.call, &c.res) {
                (Call::Enqueue { executor, prio, sched, uniq, .. }, Some(Res::Id(i))) => {
                    let w = if uniq.is_some() { None } else { Some(W { sched: Iv::exact(*sched), prio: *prio }) };
                    let e = tl.entry(*i).or_default();
                    e.0 = executor.clone();
                    e.1.push((c.start, end, w));
                }
                (Call::Enqueue { .. }, _) | (Call::Query, _) | (Call::Prune { .. }, _) => {}
                (call, _) => {
                    if c.applied() == Some(false) {
                        continue;
                    }
                    let id = call.job_id().unwrap();
                    let e = tl.entry(id).or_default();
                    let prio = e.1.iter().rev().find_map(|x| x.2).map(|w| w.prio);
                    let keep = |sched: Iv| prio.map(|p| W { sched, prio: p });
                    let w = match call {
                        Call::Retry { next, .. } | Call::Snooze { next, .. } => keep(Iv::exact(*next)),
                        Call::Rerun { .. } => keep(self.rt_span(c)),
                        Call::Update { .. } => None, // resolved below
                        _ => None,
                    };
                    let w = if unsure { None } else { w };
                    e.1.push((c.start, if unsure { u64::MAX } else { end }, w));
                }
            }
        }
        for c in &self.claims {
            if let Some((_, v)) = tl.get_mut(&c.job.id) {
                v.push((c.from, c.seq, None));
            }
        }
        // Updates keep the status; treat the schedule as known only if the job was waiting.
        for c in &self.calls {
            if let (Call::Update { job }, Some(true)) = (&*c.call, c.applied()) {
                if let Some((_, v)) = tl.get_mut(&job.id) {
                    let i = v.iter().position(|x| x.0 == c.start).unwrap();
                    let last = v.iter().filter(|x| x.1 < c.start).max_by_key(|x| x.1).copied();
                    let sure = last.is_some_and(|l| !v.iter().any(|x| x.0 != l.0 && x.1 < c.start && x.1 >= l.0));
                    let before = last.and_then(|x| x.2).filter(|_| sure);
                    let overlap = v.iter().enumerate().any(|(k, x)| k != i && x.1 >= c.start && x.0 <= c.end.unwrap_or(u64::MAX));
                    let claimed = self.claims.iter().any(|k| k.job.id == job.id && k.seq >= c.start && k.from <= c.end.unwrap_or(u64::MAX));
                    if before.is_some() && !overlap && !claimed {
                        v[i].2 = Some(W { sched: Iv::exact(ns(job.scheduled_at)), prio: job.priority });
                    }
                }
            }
        }
        let mut bad = vec![];
        let mut compared = 0u64;
        for c in &self.claims {
            let (js, jp) = (ns(c.job.scheduled_at), c.job.priority);
            let now = self.wall_before(c.from);
            for (id, (ex, v)) in &tl {
                if *id == c.job.id || *ex != c.job.executor {
                    continue;
                }
                if v.iter().any(|x| x.0 <= c.seq && x.1 >= c.from) {
                    continue;
                }
                // two operations whose order is unknown leave the state unknown
                let Some(l) = v.iter().filter(|x| x.1 < c.from).max_by_key(|x| x.1) else { continue };
                if v.iter().any(|x| x.0 != l.0 && x.1 < c.from && x.1 >= l.0) {
                    continue;
                }
                let Some(w) = l.2 else { continue };
                if w.sched.1 > now {
                    continue;
                }
                compared += 1;
                // in memory by time first
                let earlier = w.sched.1 < js;
                let same = w.sched.0 == js && w.sched.1 == js && w.prio < jp;
                if earlier || same {
                    bad.push(format!(
                        "job {} (scheduled {} ms, priority {jp}) was started at {} ms before the waiting job {id} (scheduled {} ms, priority {})",
                        c.job.id,
                        (js - self.epoch) / MS,
                        self.ms(c.seq),
                        (w.sched.0 - self.epoch) / MS,
                        w.prio
                    ));
                }
            }
        }
        *self.stats.entry("order_comparisons".into()).or_default() += compared;
        for b in bad.into_iter().take(3) {
            self.v("order", b);
        }
    }

    /// Postgres: by priority, then by time, among the jobs committed when the claim's statement
    /// began that nothing else touched until it ended (others may be locked and are skipped).
    fn order_pg(&mut self) {
        let mut bad = vec![];
        let mut compared = 0u64;
        for d in &self.db_claims {
            // the first event that may have happened after the statement's snapshot
            let from = self.ev.partition_point(|e| self.epoch + (e.t as i64) < d.began) as u64;
            let Some((_, sseq, snap)) = self.snaps.iter().rev().find(|s| s.1 < from) else { continue };
            if self.broken.values().any(|b| *b >= *sseq && *b <= d.seq) || self.downs.iter().any(|x| x.1 >= *sseq && x.1 <= d.seq) {
                continue;
            }
            let uniq = self.calls.iter().any(|c| c.start <= d.seq && c.end.is_none_or(|e| e >= *sseq) && matches!(&*c.call, Call::Enqueue { uniq: Some(_), .. } | Call::Prune { .. }));
            if uniq {
                continue;
            }
            let (js, jp) = (ns(d.job.scheduled_at), d.job.priority);
            for j in snap.iter() {
                if j.id == d.job.id || j.executor != d.job.executor || !matches!(j.status, JobStatus::Scheduled | JobStatus::Retryable) || ns(j.scheduled_at) > d.began {
                    continue;
                }
                if self.db_claims.iter().any(|o| o.job.id == j.id && o.seq >= *sseq && o.began <= self.wall(d.seq)) {
                    continue;
                }
                if self.calls.iter().any(|c| c.call.job_id() == Some(j.id) && c.start <= d.seq && (c.end.is_none_or(|e| e >= *sseq) || c.applied().is_none())) {
                    continue;
                }
                compared += 1;
                let (ws, wp) = (ns(j.scheduled_at), j.priority);
                if wp < jp || (wp == jp && ws < js) {
                    bad.push(format!(
                        "job {} (scheduled {} ms, priority {jp}) was started at {} ms before the waiting job {} (scheduled {} ms, priority {wp})",
                        d.job.id,
                        (js - self.epoch) / MS,
                        self.ms(d.seq),
                        j.id,
                        (ws - self.epoch) / MS,
                    ));
                }
            }
        }
        *self.stats.entry("order_comparisons".into()).or_default() += compared;
        for b in bad.into_iter().take(3) {
            self.v("order", b);
        }
    }

    /// With instances running: at any time at most one job matches criteria that every enqueue of
    /// the run shares, and every enqueue got the id of a job.
    fn uniqueness(&mut self) {
        let mut groups: BTreeMap<String, (Vec<i32>, UqOwned, String)> = BTreeMap::new();
        // Jobs that enqueues with other criteria may have created do not count.
        let mut lost: BTreeSet<String> = BTreeSet::new();
        let mut others: BTreeMap<i32, BTreeSet<String>> = BTreeMap::new();
        for c in &self.calls {
            if let Call::Enqueue { uniq: Some(u), executor, .. } = &*c.call {
                let g = format!("{:?} {:?}", u.key, if u.executor { executor.as_str() } else { "" });
                let Some(Res::Id(i)) = &c.res else {
                    lost.insert(g);
                    continue;
                };
                others.entry(*i).or_default().insert(g.clone());
                groups.entry(g).or_insert_with(|| (vec![], u.clone(), executor.clone())).0.push(*i);
            }
        }
        let mut bad = vec![];
        for (g, (ids, u, _)) in groups {
            if lost.iter().any(|l| *l != g) {
                continue;
            }
            let set: BTreeSet<i32> = ids.iter().copied().filter(|i| others[i].len() == 1).collect();
            for (_, seq, jobs) in &self.snaps {
                let m: Vec<i32> = jobs.iter().filter(|j| set.contains(&j.id) && u.statuses.contains(&j.status.into())).map(|j| j.id).collect();
                if m.len() > 1 && u.statuses.len() == 6 {
                    bad.push(format!("jobs {m:?} exist at {} ms although their uniqueness criteria admit one", self.ms(*seq)));
                    break;
                }
            }
        }
        for b in bad {
            self.v("duplicate", b);
        }
    }

    /// Nothing failed, so no call may fail.
    fn errors(&mut self) {
        if self.faulted || self.deadlocks {
            return;
        }
        let mut bad = vec![];
        for c in &self.calls {
            if let (Some(Res::Err(e)), None) = (&c.res, c.inj) {
                bad.push(format!("{} at {} ms failed without a reason: {e}", c.call.name(), self.ms(c.start)));
            }
        }
        for b in bad.into_iter().take(2) {
            self.v("error", b);
        }
    }

    fn not_found(&mut self) {
        let mut bad = vec![];
        for c in &self.calls {
            if c.call.job_id().is_some_and(|i| i >= 1_000_000) && c.inj.is_none() {
                match &c.res {
                    Some(Res::NotFound(i)) if Some(*i) == c.call.job_id() => {}
                    None => {}
                    Some(Res::Err(_)) if self.pg && self.faulted => {}
                    r => bad.push(format!("{} of a job that does not exist returned {r:?}", c.call.name())),
                }
            }
        }
        for b in bad {
            self.v("notfound", b);
        }
    }

    fn ticks(&self, schedule: &str, offset: Option<i32>, from: i64, to: i64) -> Vec<i64> {
        let s: cron::Schedule = std::str::FromStr::from_str(schedule).unwrap();
        let start = DateTime::<Utc>::from_timestamp_nanos(from);
        let off = FixedOffset::east_opt(offset.unwrap_or(0)).unwrap();
        s.after(&start.with_timezone(&off)).map(|t| ns(t.to_utc())).take_while(|t| *t <= to).take(5000).collect()
    }

    /// When instance `n` was up: (from, to) in wall clock time.
    fn up_spans(&self, n: u32) -> Vec<(i64, i64, u64)> {
        self.ups
            .iter()
            .filter(|(m, _)| *m == n)
            .map(|(_, u)| {
                let d = self.downs.iter().filter(|(m, s, _)| *m == n && s > u).map(|(_, s, _)| *s).min();
                (self.wall(*u), d.map(|d| self.wall(d)).unwrap_or_else(|| self.end_wall()), d.unwrap_or(u64::MAX))
            })
            .collect()
    }

    fn pruner_ticks(&mut self) {
        let mut bad = vec![];
        let mut seen_ticks = 0;
        let mut peak = 0;
        for (n, node) in self.sc.nodes.iter().enumerate() {
            let Some(p) = &node.pruner else { continue };
            let n = n as u32;
            let calls: Vec<&CallRec> = self.calls.iter().filter(|c| c.role == Role::Instance(n) && matches!(*c.call, Call::Prune { .. })).collect();
            // concurrency
            let limit = match p.max_concurrency {
                None => Some(10),
                Some(l) => l,
            };
            let mut pts: Vec<(u64, i32)> = vec![];
            for c in &calls {
                pts.push((c.start, 1));
                if let Some(e) = c.end {
                    pts.push((e, -1));
                }
            }
            pts.sort();
            let mut cur = 0;
            for (s, d) in pts {
                cur += d;
                peak = peak.max(cur as u64);
                if let Some(l) = limit {
                    if cur > l as i32 {
                        bad.push(format!("{cur} prunings run at {} ms although at most {l} are allowed", self.ms(s)));
                        break;
                    }
                }
            }
            for (up, down, dseq) in self.up_spans(n) {
                let ticks = self.ticks(&p.schedule, None, up, down);
                let mut used: BTreeSet<(usize, i64)> = BTreeSet::new();
                for c in &calls {
                    let t = self.wall(c.start);
                    if t < up || c.start > dseq {
                        continue;
                    }
                    let Call::Prune { spec } = &*c.call else { unreachable!() };
                    let Some(k) = p.pruners.iter().position(|x| same_spec(x, spec)) else {
                        bad.push(format!("pruning at {} ms with a configuration nobody asked for: {spec:?}", self.ms(c.start)));
                        continue;
                    };
                    let tick = self.ticks(&p.schedule, None, t - 3700 * SEC, t + 15 * MS).last().copied();
                    let slow = self.sc.faults.any();
                    match tick {
                        Some(tk) if tk > up - SEC => {
                            // an earlier round still in progress at the tick?
                            let late = calls.iter().any(|o| self.wall(o.start) < tk - 15 * MS && o.end.map(|e| self.wall(e)).unwrap_or(i64::MAX) >= tk - 16 * MS);
                            if !used.insert((k, tk)) && !late {
                                bad.push(format!("pruner {k} ran twice for the tick at {} ms", (tk - self.epoch) / MS));
                            }
                            if !slow && t - tk > 200 * MS {
                                bad.push(format!("pruner {k} ran at {} ms, which is no tick", self.ms(c.start)));
                            }
                        }
                        _ => bad.push(format!("pruner {k} ran at {} ms, before any tick", self.ms(c.start))),
                    }
                }
                for tk in ticks {
                    if tk < up + 50 * MS || tk > down - 50 * MS || tk > self.end_wall() - 50 * MS {
                        continue;
                    }
                    // was an earlier round still running?
                    let busy = calls.iter().any(|c| self.wall(c.start) < tk - 20 * MS && c.end.map(|e| self.wall(e)).unwrap_or(i64::MAX) > tk - 30 * MS);
                    if busy {
                        continue;
                    }
                    seen_ticks += 1;
                    for (k, x) in p.pruners.iter().enumerate() {
                        let ran = calls.iter().any(|c| {
                            let t = self.wall(c.start);
                            let Call::Prune { spec } = &*c.call else { unreachable!() };
                            same_spec(x, spec) && t >= tk - 15 * MS && (t <= tk + 200 * MS || self.round_delayed(&calls, tk, t))
                        });
                        let waiting = self.round_delayed(&calls, tk, down.min(self.end_wall()));
                        if !ran && !waiting {
                            bad.push(format!("pruner {k} did not run at the tick at {} ms", (tk - self.epoch) / MS));
                        }
                    }
                }
            }
        }
        *self.stats.entry("pruner_ticks".into()).or_default() += seen_ticks;
        *self.stats.entry("peak_prunings".into()).or_default() += peak;
        for b in bad.into_iter().take(3) {
            self.v("pruner", b);
        }
    }
    /// Between `tk` and `t` some pruning of the round was always in progress (so others may have
    /// had to wait for their turn).
    fn round_delayed(&self, calls: &[&CallRec], tk: i64, t: i64) -> bool {
        let mut reach = tk - 15 * MS;
        let mut v: Vec<(i64, i64)> = calls.iter().map(|c| (self.wall(c.start), c.end.map(|e| self.wall(e)).unwrap_or(i64::MAX))).filter(|(s, _)| *s >= tk - 15 * MS).collect();
        v.sort();
        for (s, e) in v {
            if s <= reach.saturating_add(50 * MS) {
                reach = reach.max(e);
            }
        }
        reach.saturating_add(50 * MS) >= t
    }

    fn cron(&mut self) {
        let mut bad: Vec<(&str, String)> = vec![];
        let mut n_ticks = 0u64;
        // Distinct entries (executor, data, schedule, zone)
        let mut entries: Vec<(&Cron, Vec<u32>)> = vec![];
        for (n, node) in self.sc.nodes.iter().enumerate() {
            for c in &node.crons {
                match entries.iter_mut().find(|(e, _)| *e == c) {
                    Some((_, v)) => v.push(n as u32),
                    None => entries.push((c, vec![n as u32])),
                }
            }
        }
        let Some((_, _, last)) = self.snaps.last().cloned() else { return };
        for (e, nodes) in entries {
            let data = serde_json::to_value(&e.plan).unwrap();
            let mine = |c: &CallRec| matches!(&*c.call, Call::Enqueue { executor, data: d, .. } if executor == NAMES[e.ex] && *d == data);
            // created jobs by scheduled time of the creating call
            let mut made: BTreeMap<i64, BTreeSet<i32>> = BTreeMap::new();
            let mut first: BTreeSet<i32> = BTreeSet::new();
            for c in self.calls.iter().filter(|c| matches!(c.role, Role::Instance(_)) && mine(c)) {
                let Call::Enqueue { sched, .. } = &*c.call else { unreachable!() };
                if let Some(Res::Id(i)) = &c.res {
                    made.entry(*sched).or_default().insert(*i);
                    first.insert(*i);
                }
            }
            // stored jobs nobody acknowledged
            for j in last.iter().filter(|j| j.executor == NAMES[e.ex] && j.data == data && !first.contains(&j.id)) {
                if self.execs.iter().all(|x| x.id != j.id) {
                    made.entry(ns(j.scheduled_at)).or_default().insert(j.id);
                } else if let Some(c) = self.claims.iter().find(|c| c.job.id == j.id) {
                    made.entry(ns(c.job.scheduled_at)).or_default().insert(j.id);
                }
            }
            // no job may serve two ticks
            let mut owner: HashMap<i32, i64> = HashMap::new();
            for (s, ids) in &made {
                if ids.len() > 1 {
                    bad.push(("repeated", format!("the tick at {} ms got {} jobs: {ids:?}", (s - self.epoch) / MS, ids.len())));
                }
                for i in ids {
                    if let Some(o) = owner.insert(*i, *s) {
                        bad.push(("shared", format!("job {i} stands for two ticks, at {} and {} ms", (o - self.epoch) / MS, (s - self.epoch) / MS)));
                    }
                }
            }
            let lo = self.epoch - 5 * SEC;
            let all: BTreeSet<i64> = self.ticks(&e.schedule, e.offset_s, lo, self.end_wall() + 5 * SEC).into_iter().collect();
            for s in made.keys() {
                if !all.contains(s) {
                    bad.push(("untimely", format!("a job was enqueued for {} ms, which is no tick of {:?}", (s - self.epoch) / MS, e.schedule)));
                }
            }
            // every tick some instance was up and free for
            let mut required: BTreeMap<i64, ()> = BTreeMap::new();
            for n in &nodes {
                let skew = self.sc.nodes[*n as usize].skew_ms * MS;
                for (up, down, _) in self.up_spans(*n) {
                    for tk in all.iter().copied() {
                        // the instance's clock shows tk at wall time tk - skew
                        let w = tk - skew;
                        if w < up + 50 * MS || w > down - 50 * MS || w > self.end_wall() - 50 * MS {
                            continue;
                        }
                        // the instance did not run
                        let stalled = self.sc.clients.iter().flatten().any(|o| match o.k {
                            OpK::Pause { node, ms } => node == *n && (self.epoch + o.at_ms as i64 * MS - 60 * MS..self.epoch + (o.at_ms as i64 + ms as i64) * MS + 60 * MS).contains(&w),
                            _ => false,
                        });
                        if stalled {
                            continue;
                        }
                        // a call by this instance for an earlier tick that was still in progress
                        let busy = self.calls.iter().any(|c| {
                            let Call::Enqueue { sched, .. } = &*c.call else { return false };
                            c.role == Role::Instance(*n) && mine(c) && *sched < tk && c.end.map(|x| self.wall(x)).unwrap_or(i64::MAX) > w - 5 * MS
                        });
                        if busy {
                            continue;
                        }
                        let own = self.calls.iter().filter(|c| c.role == Role::Instance(*n) && mine(c)).filter(|c| matches!(&*c.call, Call::Enqueue { sched, .. } if *sched == tk)).collect::<Vec<_>>();
                        if own.is_empty() {
                            bad.push(("skipped", format!("instance {n} enqueued nothing for the tick at {} ms", (tk - self.epoch) / MS)));
                        } else if own.len() > 1 && own.iter().all(|c| c.applied() == Some(true)) {
                            let ids: BTreeSet<_> = own.iter().filter_map(|c| if let Some(Res::Id(i)) = c.res { Some(i) } else { None }).collect();
                            if ids.len() > 1 {
                                bad.push(("repeated", format!("instance {n} enqueued {} jobs for the tick at {} ms", ids.len(), (tk - self.epoch) / MS)));
                            }
                        }
                        if own.iter().any(|c| c.applied() == Some(true)) {
                            required.insert(tk, ());
                        }
                        for c in &own {
                            let early = w - self.wall(c.start);
                            if early > 50 * MS {
                                bad.push(("early", format!("instance {n} enqueued the tick at {} ms {} ms too early", (tk - self.epoch) / MS, early / MS)));
                            }
                        }
                    }
                }
            }
            n_ticks += required.len() as u64;
            let pruned = self.calls.iter().any(|c| matches!(*c.call, Call::Prune { .. }));
            for tk in required.keys() {
                let ids = made.get(tk).cloned().unwrap_or_default();
                if ids.is_empty() {
                    bad.push(("missing", format!("no job exists for the tick at {} ms", (tk - self.epoch) / MS)));
                    continue;
                }
                for i in &ids {
                    let Some(j) = last.iter().find(|j| j.id == *i) else {
                        if !pruned {
                            bad.push(("missing", format!("job {i} of the tick at {} ms disappeared", (tk - self.epoch) / MS)));
                        }
                        continue;
                    };
                    if j.data != data || j.executor != NAMES[e.ex] {
                        bad.push(("content", format!("job {i} of a tick has the wrong content")));
                    }
                    if j.max_attempts != MAXATT[e.ex] as i32 {
                        bad.push(("content", format!("job {i} of a tick has max_attempts {}", j.max_attempts)));
                    }
                    if self.sc.prop == "C18" {
                        let runs = self.execs.iter().filter(|x| x.id == *i).count();
                        if runs > 1 {
                            bad.push(("rerun", format!("the job of the tick at {} ms ran {runs} times", (tk - self.epoch) / MS)));
                        }
                    }
                }
            }
            // a claimed job's schedule is the tick
            for c in self.claims.iter().filter(|c| c.job.executor == NAMES[e.ex] && c.job.data == data && c.job.attempt == 1) {
                let s = ns(c.job.scheduled_at);
                if !all.contains(&s) && e.plan.steps.iter().all(|s| !matches!(s.out, Out::SnoozeMs(_))) {
                    bad.push(("untimely", format!("job {} was started for {} ms, which is no tick", c.job.id, (s - self.epoch) / MS)));
                }
            }
        }
        *self.stats.entry("cron_ticks".into()).or_default() += n_ticks;
        for (c, b) in bad.into_iter().take(4) {
            self.v(&format!("cron-{c}"), b);
        }
    }

    /// The provided strategies stay within their documented bounds.
    fn backoff_bounds(&mut self) {
        let mut bad = vec![];
        let mut n = 0;
        for e in self.ev {
            if let EvK::Backoff { id, attempt, ms, b } = &e.k {
                n += 1;
                let ms = *ms;
                let a = (*attempt).max(0) as u32;
                let (lo, hi) = match b {
                    Backoff::Ms(m) => (*m, *m),
                    Backoff::Constant { ms, jitter_ms, min_ms } => ((ms - jitter_ms).max(*min_ms), (ms + jitter_ms).max(*min_ms)),
                    Backoff::Exponential { base_s, max_s, jitter_pct } => {
                        let b = base_s.checked_pow(a).unwrap_or(i64::MAX).min(*max_s) * 1000;
                        let j = b * *jitter_pct as i64 / 100 + 1;
                        ((b - j).max(0), b + j)
                    }
                    Backoff::Linear { factor_ms, max_ms, jitter_ms } => {
                        let b = (factor_ms * a as i64).min(*max_ms);
                        ((b - jitter_ms).max(0), (b + jitter_ms).max(0))
                    }
                    Backoff::Polynomial { factor_ms, power, max_ms } => {
                        let b = (a as i64).checked_pow(*power).and_then(|p| p.checked_mul(*factor_ms)).unwrap_or(i64::MAX).min(*max_ms);
                        (b, b)
                    }
                    Backoff::Full { kind, unit_ms, power, max_ms, abs_ms, rel_pct, min_ms } => {
                        // Values beyond what the strategies compute exactly are only bounded below.
                        const BIG: i128 = i32::MAX as i128;
                        let (u, a) = (*unit_ms as i128, a as i128);
                        let pow = |b: i128, e: u32| (0..e).fold(1i128, |x, _| (x * b).min(1 << 80));
                        let (mut b, exact) = match kind % 4 {
                            0 => (u, true),
                            1 => {
                                let v = pow(u / 1000, a.min(200) as u32);
                                (v.saturating_mul(1000), v < i64::MAX as i128 / 1000)
                            }
                            2 => (u * a, true),
                            _ => {
                                let v = pow(a, *power);
                                (u * v, v <= BIG)
                            }
                        };
                        b = b.min(i64::MAX as i128);
                        let mut top = if exact { b } else { i64::MAX as i128 };
                        if let (Some(m), 1..=3) = (max_ms, kind % 4) {
                            b = b.min(*m as i128);
                            top = top.min(*m as i128);
                        }
                        let j = |v: i128| abs_ms.map(|x| x as i128).or(rel_pct.map(|p| v * p as i128 / 100 + 1 + (v >> 40))).unwrap_or(0);
                        let min = min_ms.unwrap_or(0) as i128;
                        let clip = |x: i128| x.max(min).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
                        (clip(b - j(b)), clip(top + j(top)))
                    }
                    // The documented default: exponential with base 4 s, at most 7 days, 10 % jitter
                    Backoff::Default => {
                        let b = 4i64.checked_pow(a).unwrap_or(i64::MAX).min(7 * 86400) * 1000;
                        let j = b / 10 + 1;
                        (b - j, b + j)
                    }
                    Backoff::Huge => (i64::MIN, i64::MAX),
                };
                if ms < lo || ms > hi {
                    bad.push(format!("the backoff of job {} for attempt {a} is {ms} ms, outside [{lo}, {hi}] of {b:?}", id));
                }
            }
        }
        *self.stats.entry("backoffs".into()).or_default() += n;
        for b in bad.into_iter().take(3) {
            self.v("backoff", b);
        }
    }

    /// With instances running and pruners for finished jobs: no waiting or executing job vanishes.
    fn prune_safety(&mut self) {
        let mut bad = vec![];
        let specs: Vec<&PruneSpec> = self
            .calls
            .iter()
            .filter_map(|c| match &*c.call {
                Call::Prune { spec } => Some(spec),
                _ => None,
            })
            .collect();
        let hit = |j: &BJob| specs.iter().any(|s| s.status == j.status && spec_has(&s.executors, &j.executor));
        let mut removed = 0;
        for w in self.snaps.windows(2) {
            let now: BTreeSet<i32> = w[1].2.iter().map(|j| j.id).collect();
            for j in w[0].2.iter() {
                if now.contains(&j.id) {
                    continue;
                }
                removed += 1;
                // It may have finished meanwhile: look at what happened in between.
                let ran = self.execs.iter().any(|x| x.id == j.id && x.end.as_ref().is_some_and(|e| e.0 > w[0].0 && e.0 < w[1].1))
                    || self.calls.iter().any(|c| c.call.job_id() == Some(j.id) && c.start < w[1].1 && c.end.unwrap_or(u64::MAX) > w[0].0);
                let executor_ok = specs.iter().any(|s| spec_has(&s.executors, &j.executor));
                if !(hit(j) || (ran && executor_ok)) {
                    bad.push(format!("job {} ({:?}, executor {:?}) vanished between {} and {} ms although no pruner covers it", j.id, j.status, j.executor, self.ms(w[0].1), self.ms(w[1].1)));
                }
            }
        }
        *self.stats.entry("jobs_pruned".into()).or_default() += removed;
        for b in bad.into_iter().take(3) {
            self.v("pruned", b);
        }
    }

    /// Table level linearizability (direct use of a backend).
    fn table(&mut self, mask: Mask) {
        let mut ops: Vec<LOp<TOp>> = vec![];
        let jops = self.job_ops();
        let mut begins = 0;
        for (id, l) in jops {
            for o in l {
                let op = match &o.op {
                    JOp::Read { .. } | JOp::Gone => continue,
                    JOp::Enq { call, at } => TOp::Enq { call: call.clone(), at: *at, id, read: None },
                    j => TOp::J(id, j.clone()),
                };
                let op = match op {
                    TOp::Enq { call, at, id, .. } if self.pg && criteria(&call).is_some() => {
                        begins += 1;
                        ops.push(LOp { start: o.start, end: o.end, optional: o.optional, op: TOp::Begin(begins), label: String::new() });
                        TOp::Enq { call, at, id, read: Some(begins) }
                    }
                    op => op,
                };
                ops.push(LOp { start: o.start, end: o.end, optional: o.optional, op, label: o.label });
            }
        }
        for c in &self.calls {
            match (&*c.call, &c.res) {
                (Call::Prune { spec }, _) => {
                    let (optional, end) = match c.applied() {
                        Some(false) => continue,
                        Some(true) => (false, c.end.unwrap()),
                        None => (true, u64::MAX),
                    };
                    let read = self.pg.then(|| {
                        begins += 1;
                        ops.push(LOp { start: c.start, end, optional, op: TOp::Begin(begins), label: String::new() });
                        begins
                    });
                    ops.push(LOp { start: c.start, end, optional, op: TOp::Prune { spec: spec.clone(), at: self.span(c), read }, label: format!("prune {:?} at {} ms", spec, self.ms(c.start)) });
                }
                (call, Some(Res::NotFound(id))) if c.inj.is_none() => {
                    let id = *id;
                    if matches!(call, Call::Query) {
                        continue;
                    }
                    if ops.iter().any(|o| o.start == c.start) {
                        continue;
                    }
                    ops.push(LOp { start: c.start, end: c.end.unwrap(), optional: false, op: TOp::J(id, JOp::NotFound), label: format!("{} of {id} at {} ms: not found", call.name(), self.ms(c.start)) });
                }
                _ => {}
            }
        }
        for e in self.ev.iter().enumerate() {
            if let EvK::UserQuery { op, from, q, jobs: Some(jobs) } = &e.1.k {
                *self.stats.entry("queries_checked".into()).or_default() += 1;
                ops.push(LOp { start: *from, end: e.0 as u64, optional: false, op: TOp::Query { q: q.clone(), jobs: jobs.clone() }, label: format!("query {op} {:?}", brief_q(q)) });
            }
        }
        // Full snapshots where something changed.
        let mut prev: Option<Arc<Vec<BJob>>> = None;
        for (i, (from, seq, jobs)) in self.snaps.iter().enumerate() {
            let same = prev.as_ref().is_some_and(|p| p.len() == jobs.len() && p.iter().zip(jobs.iter()).all(|(a, b)| a.id == b.id && !job_changed(a, b)));
            if !same || i + 1 == self.snaps.len() {
                ops.push(LOp {
                    start: *from,
                    end: *seq,
                    optional: false,
                    op: TOp::Query { q: Arc::new(MQ::And(vec![])), jobs: jobs.clone() },
                    label: format!("the table at {} ms", self.ms(*seq)),
                });
            }
            prev = Some(jobs.clone());
        }
        ops.sort_by_key(|o| (o.start, o.end));
        *self.stats.entry("table_histories".into()).or_default() += 1;
        *self.stats.entry("table_operations".into()).or_default() += ops.len() as u64;
        let pg = self.pg;
        let apply = move |s: &Tables, o: &TOp| apply_tables(s, o, mask, pg);
        match linearize(&ops, Tables::default(), &apply, 200_000) {
            Lin::Ok => {}
            Lin::Unknown => *self.stats.entry("inconclusive".into()).or_default() += 1,
            Lin::Fail(e) => self.v("table", format!("the history has no sequential explanation: {e}")),
        }
    }
}

pub enum TOp {
    /// `read`: the number of the `Begin` at which it looked for conflicts (Postgres).
    Enq { call: Arc<Call>, at: Iv, id: i32, read: Option<u32> },
    J(i32, JOp),
    Prune { spec: PruneSpec, at: Iv, read: Option<u32> },
    /// A unique enqueue or prune on Postgres reads the table, and changes it later.
    Begin(u32),
    Query { q: Arc<MQ>, jobs: Arc<Vec<BJob>> },
}

#[derive(PartialEq, Clone, Copy)]
enum Tri {
    No,
    Maybe,
    Yes,
}
fn tri(lo: bool, hi: bool) -> Tri {
    match (lo, hi) {
        (true, true) => Tri::Yes,
        (false, false) => Tri::No,
        _ => Tri::Maybe,
    }
}

/// Does a stored job conflict with the enqueue?
fn conflicts(m: &MJob, call: &Call, at: Iv, pg: bool) -> Tri {
    let Call::Enqueue { executor, sched, uniq: Some(u), .. } = call else { return Tri::No };
    if u.key.is_some_and(|k| m.key != Some(k)) {
        return Tri::No;
    }
    if u.executor && m.executor != *executor {
        return Tri::No;
    }
    if !u.statuses.contains(&m.status) {
        return Tri::No;
    }
    let Some(d) = u.within else { return Tri::Yes };
    // The window is measured from the new job's scheduled time; the in-memory backend measures it
    // from now. Where the two differ, both answers are accepted.
    let amb = 3 * MS;
    let by_sched = {
        let x = (m.sched.0 - *sched).abs();
        tri(x <= d - amb || (x == 0), x <= d + amb)
    };
    if pg {
        return by_sched;
    }
    let x0 = (m.sched.0 - at.0).abs();
    let x1 = (m.sched.0 - at.1.min(at.0 + 600 * SEC)).abs();
    let by_now = tri(x0.max(x1) < d - amb, x0.min(x1) < d + amb);
    if by_sched == by_now {
        by_sched
    } else {
        Tri::Maybe
    }
}

fn spec_has(s: &Spec, e: &str) -> bool {
    match s {
        Spec::Except(v) => !v.contains(&e),
        Spec::Only(v) => v.contains(&e),
    }
}

fn same_spec(p: &Prune, s: &PruneSpec) -> bool {
    let q = crate::run::prune_spec(p);
    if q.status != s.status {
        return false;
    }
    let by = match (&q.prune_by, &s.prune_by) {
        (PruneBy::MaxAge(a), PruneBy::MaxAge(b)) => a == b,
        (PruneBy::MaxLength(a), PruneBy::MaxLength(b)) => a == b,
        _ => false,
    };
    let set = |v: &Vec<&'static str>| v.iter().copied().collect::<BTreeSet<_>>();
    by && if p.execs.is_empty() {
        matches!(&s.executors, Spec::Except(v) if v.is_empty())
    } else {
        match (&q.executors, &s.executors) {
            (Spec::Except(a), Spec::Except(b)) | (Spec::Only(a), Spec::Only(b)) => set(a) == set(b),
            _ => false,
        }
    }
}

pub fn eval(q: &MQ, m: &MJob) -> Tri3 {
    // Postgres keeps microseconds.
    let us = if MICROS.with(|m| m.get()) { 1000 } else { 0 };
    let b = |x: bool| if x { Tri3::T } else { Tri3::F };
    match q {
        MQ::Not(i) => match eval(i, m) {
            Tri3::T => Tri3::F,
            Tri3::F => Tri3::T,
            x => x,
        },
        MQ::And(v) => {
            let mut r = Tri3::T;
            for x in v {
                match eval(x, m) {
                    Tri3::F => return Tri3::F,
                    Tri3::U => r = Tri3::U,
                    _ => {}
                }
            }
            r
        }
        MQ::Or(v) => {
            let mut r = Tri3::F;
            for x in v {
                match eval(x, m) {
                    Tri3::T => return Tri3::T,
                    Tri3::U => r = Tri3::U,
                    _ => {}
                }
            }
            r
        }
        MQ::Executor(e) => b(m.executor == *e),
        MQ::Data(d) => b(m.data == *d),
        MQ::Meta(d) => b(m.metadata == *d),
        MQ::Id(i) => b(m.id == *i),
        MQ::IdIn(v) => b(v.contains(&m.id)),
        MQ::Status(s) => b(m.status == (*s).into()),
        MQ::TagsAll(t) => b(t.iter().all(|x| m.tags.contains(x))),
        MQ::TagsOne(t) => b(t.iter().any(|x| m.tags.contains(x))),
        MQ::Before(t) => cmp(m, |s| s < ns(*t)),
        MQ::After(t) => cmp(m, |s| s > ns(*t)),
        MQ::Older(d, at) => match (m.sched.1 < at.0 - us - d, m.sched.0 >= at.1 + us - d) {
            (true, _) => Tri3::T,
            (_, true) => Tri3::F,
            _ => Tri3::U,
        },
        // Whether jobs scheduled in the future are within the last hour is not specified.
        MQ::Within(d, at) => match (m.sched.0 > at.1 + us - d && m.sched.1 <= at.0 - us, m.sched.1 <= at.0 - us - d) {
            (true, _) => Tri3::T,
            (_, true) => Tri3::F,
            _ => Tri3::U,
        },
        MQ::Equal(t) => {
            if m.sched.0 == m.sched.1 {
                b(m.sched.0 == ns(*t))
            } else if m.sched.has(ns(*t)) {
                Tri3::U
            } else {
                Tri3::F
            }
        }
    }
}
fn cmp(m: &MJob, f: impl Fn(i64) -> bool) -> Tri3 {
    match (f(m.sched.0), f(m.sched.1)) {
        (true, true) => Tri3::T,
        (false, false) => Tri3::F,
        _ => Tri3::U,
    }
}
#[derive(PartialEq, Clone, Copy)]
pub enum Tri3 {
    T,
    F,
    U,
}

#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct Tables {
    now: Table,
    /// What the operations under way have read.
    read: BTreeMap<u32, Table>,
}

/// On Postgres (READ COMMITTED) a unique enqueue and a prune decide on what they read at some time
/// during the call and take effect later. Enqueues with the same criteria still exclude each other,
/// a replacement needs the status when it takes effect, and so does a removal.
fn apply_tables(s: &Tables, op: &TOp, mask: Mask, pg: bool) -> Result<Vec<Tables>, String> {
    let wrap = |v: Vec<Table>| v.into_iter().map(|t| Tables { now: t, read: s.read.clone() }).collect::<Vec<_>>();
    match op {
        TOp::Begin(k) => {
            let mut n = s.clone();
            n.read.insert(*k, s.now.clone());
            Ok(vec![n])
        }
        TOp::Enq { call, at, id, read: Some(k) } => {
            let Some(base) = s.read.get(k) else { return Err("it did not read".into()) };
            let mut n = s.clone();
            n.read.remove(k);
            match base.get(id) {
                Some(b) => {
                    let then = conflicts(b, call, *at, pg) != Tri::No;
                    let m = s.now.get(id);
                    if !then && !m.is_some_and(|m| conflicts(m, call, *at, pg) != Tri::No) {
                        return Err(format!("the enqueue returned job {id}, which does not match its criteria"));
                    }
                    if let Some(m) = n.now.get_mut(id) {
                        m.ghost = false;
                        replace(m, call);
                    }
                }
                None => {
                    if s.now.contains_key(id) {
                        return Err(format!("the enqueue returned job {id}, which did not exist when it looked"));
                    }
                    let missed = base.values().find(|m| !m.ghost && conflicts(m, call, *at, pg) == Tri::Yes);
                    let raced = || s.now.values().find(|m| !m.ghost && !base.contains_key(&m.id) && m.crit == criteria(call) && conflicts(m, call, *at, pg) == Tri::Yes);
                    if let Some(m) = missed.or_else(raced) {
                        return Err(format!("the enqueue inserted job {id} although job {} matches its criteria", m.id));
                    }
                    n.now.insert(*id, create(call, *id, *at));
                }
            }
            Ok(vec![n])
        }
        TOp::Prune { spec, at, read: Some(k) } => {
            let Some(base) = s.read.get(k) else { return Err("it did not read".into()) };
            let st: St = spec.status.into();
            let mut out = vec![];
            for t in apply_table(base, &TOp::Prune { spec: spec.clone(), at: *at, read: None }, mask, pg)? {
                let mut n = s.clone();
                n.read.remove(k);
                for id in base.keys() {
                    let Some(m) = n.now.get_mut(id) else { continue };
                    if m.status != st {
                        continue;
                    }
                    match t.get(id) {
                        None => {
                            n.now.remove(id);
                        }
                        Some(b) => m.ghost |= b.ghost,
                    }
                }
                out.push(n);
            }
            Ok(out)
        }
        op => apply_table(&s.now, op, mask, pg).map(wrap),
    }
}

fn apply_table(s: &Table, op: &TOp, mask: Mask, pg: bool) -> Result<Vec<Table>, String> {
    match op {
        TOp::Begin(_) => unreachable!(),
        TOp::Enq { call, at, id, .. } => {
            let mut n = s.clone();
            match s.get(id) {
                Some(m) => {
                    if conflicts(m, call, *at, pg) == Tri::No {
                        return Err(format!("the enqueue returned job {id}, which does not match its criteria"));
                    }
                    let mut m = m.clone();
                    m.ghost = false;
                    replace(&mut m, call);
                    n.insert(*id, m);
                }
                None => {
                    if let Some(m) = s.values().find(|m| !m.ghost && conflicts(m, call, *at, pg) == Tri::Yes) {
                        return Err(format!("the enqueue inserted job {id} although job {} matches its criteria", m.id));
                    }
                    n.insert(*id, create(call, *id, *at));
                }
            }
            Ok(vec![n])
        }
        TOp::J(id, j) => {
            let mut cur = s.get(id).cloned();
            let mut out = vec![];
            let mut err = None;
            if cur.as_ref().is_some_and(|m| m.ghost) {
                match apply_job(&None, j, *id, mask) {
                    Ok(v) => out.extend(v),
                    Err(e) => err = Some(e),
                }
                cur.as_mut().unwrap().ghost = false;
            }
            match apply_job(&cur, j, *id, mask) {
                Ok(v) => out.extend(v),
                Err(e) => err = Some(e),
            }
            if let (true, Some(e)) = (out.is_empty(), err) {
                return Err(e);
            }
            Ok(out
                .into_iter()
                .map(|m| {
                    let mut n = s.clone();
                    match m {
                        Some(m) => n.insert(*id, m),
                        None => n.remove(id),
                    };
                    n
                })
                .collect())
        }
        TOp::Query { q, jobs } => {
            let mut n = s.clone();
            let mut got = BTreeSet::new();
            for j in jobs.iter() {
                if !got.insert(j.id) {
                    return Err(format!("job {} is returned twice", j.id));
                }
                let Some(m) = s.get(&j.id) else { return Err(format!("job {} is returned but does not exist", j.id)) };
                let mut m2 = m.compare(j, mask).map_err(|e| format!("job {}: {e}", j.id))?;
                m2.ghost = false;
                if eval(q, &m2) == Tri3::F {
                    return Err(format!("job {} is returned but does not match", j.id));
                }
                n.insert(j.id, m2);
            }
            for m in s.values() {
                if !got.contains(&m.id) && eval(q, m) == Tri3::T {
                    if m.ghost {
                        n.remove(&m.id);
                        continue;
                    }
                    return Err(format!("job {} matches but is not returned", m.id));
                }
            }
            Ok(vec![n])
        }
        TOp::Prune { spec, at, .. } => {
            let st: St = spec.status.into();
            let cand: Vec<&MJob> = s.values().filter(|m| m.status == st && spec_has(&spec.executors, &m.executor)).collect();
            match &spec.prune_by {
                PruneBy::MaxAge(d) => {
                    let d = d.num_nanoseconds().unwrap_or(i64::MAX / 4);
                    let hi = at.1.min(at.0 + 600 * SEC);
                    let amb = 2 * MS;
                    let mut n = s.clone();
                    for m in cand {
                        let t = if st.finished() {
                            tri(m.sched.1 < at.0 - d - amb, m.sched.0 < hi - d + amb)
                        } else if m.sched.0 < hi - d + amb {
                            // unfinished and overdue: the backends differ
                            Tri::Maybe
                        } else {
                            tri(m.sched.0 > hi + d + amb, m.sched.1 > at.0 + d - amb)
                        };
                        match t {
                            Tri::Yes => {
                                n.remove(&m.id);
                            }
                            Tri::Maybe => n.get_mut(&m.id).unwrap().ghost = true,
                            Tri::No => {}
                        }
                    }
                    Ok(vec![n])
                }
                PruneBy::MaxLength(k) => {
                    let k = *k as usize;
                    // jobs that may have been removed earlier: decide now
                    if let Some(g) = cand.iter().find(|m| m.ghost) {
                        let id = g.id;
                        let mut with = s.clone();
                        with.get_mut(&id).unwrap().ghost = false;
                        let mut out = apply_table(&with, op, mask, pg)?;
                        with.remove(&id);
                        out.extend(apply_table(&with, op, mask, pg)?);
                        return Ok(out);
                    }
                    if cand.len() <= k {
                        return Ok(vec![s.clone()]);
                    }
                    // Keep the k most recent (finished) or the k soonest (others); equal or
                    // overlapping times in any order.
                    let better = |a: &MJob, b: &MJob| if st.finished() { a.sched.0 > b.sched.1 } else { a.sched.1 < b.sched.0 };
                    let mut n = s.clone();
                    let mut kept = 0;
                    let mut open = vec![];
                    for m in &cand {
                        let sure = cand.iter().filter(|o| better(o, m)).count();
                        let worse = cand.iter().filter(|o| better(m, o)).count();
                        if sure >= k {
                            n.remove(&m.id);
                        } else if cand.len() - 1 - worse < k {
                            kept += 1;
                        } else {
                            open.push(*m);
                        }
                    }
                    let need = k - kept;
                    if open.len() > 8 {
                        for m in &open {
                            n.get_mut(&m.id).unwrap().ghost = true;
                        }
                        return Ok(vec![n]);
                    }
                    let mut out = vec![];
                    for bits in 0..1u32 << open.len() {
                        if bits.count_ones() as usize != need {
                            continue;
                        }
                        let keep = |i: usize| bits >> i & 1 == 1;
                        if (0..open.len()).any(|i| !keep(i) && (0..open.len()).any(|j| keep(j) && better(open[i], open[j]))) {
                            continue;
                        }
                        let mut t = n.clone();
                        for (i, m) in open.iter().enumerate() {
                            if !keep(i) {
                                t.remove(&m.id);
                            }
                        }
                        out.push(t);
                    }
                    Ok(out)
                }
            }
        }
    }
}

fn brief(h: &How) -> String {
    match h {
        How::Returned(o) => format!("{o:?}"),
        How::Panicked(_) => "panicked".into(),
        How::Dropped => "stopped".into(),
    }
}
fn brief_q(q: &MQ) -> String {
    format!("{q:?}").chars().take(160).collect()
}
