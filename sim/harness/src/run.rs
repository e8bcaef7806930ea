//! Executes one scenario inside the simulation.
use crate::model::{ns, St};
use crate::scen::*;
use crate::with_ex;
use crate::world::*;
use chrono::{DateTime, FixedOffset, TimeDelta, Utc};
use futures::{FutureExt, StreamExt};
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError, Job as BJob, Query};
use rexecutor::executor::{Executor, ExecutorIdentifier};
use rexecutor::job::query::Where;
use rexecutor::job::uniqueness_criteria::{Replace, UniquenessCriteria};
use rexecutor::job::{ErrorType, Job, JobId, JobStatus};
use rexecutor::pruner::{PruneBy, PruneSpec, Pruner, PrunerConfig, Spec};
use rexecutor::{GlobalUnset, Rexecutor};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const EPOCH0: u64 = 1_709_251_200; // 2024-03-01T00:00:00Z

type Rex = Rexecutor<SimBackend, GlobalUnset>;

pub enum Handle {
    Rex(Rex),
    Guard(rexecutor::DropGuard),
}

pub struct Cluster {
    pub w: Arc<World>,
    pub sc: Arc<Scenario>,
    pub mem: Option<InMemoryBackend>,
    pub handles: Mutex<BTreeMap<u32, Handle>>,
    pub backends: Mutex<BTreeMap<u32, DynBackend>>,
    pub open_ops: Mutex<u32>,
}

pub fn status(i: u8) -> JobStatus {
    JobStatus::ALL[i as usize % 6]
}
pub fn status_index(s: JobStatus) -> u8 {
    JobStatus::ALL.iter().position(|x| *x == s).unwrap() as u8
}
pub fn utc(ns: i64) -> DateTime<Utc> {
    DateTime::from_timestamp_nanos(ns)
}

fn leak_statuses(v: &[u8]) -> &'static [JobStatus] {
    // a handful of distinct lists exist; interned to keep memory bounded
    static INTERN: Mutex<BTreeMap<Vec<u8>, &'static [JobStatus]>> = Mutex::new(BTreeMap::new());
    let mut m = INTERN.lock().unwrap();
    m.entry(v.to_vec()).or_insert_with(|| Box::leak(v.iter().map(|i| status(*i)).collect::<Vec<_>>().into_boxed_slice()))
}

/// Built with the public API, as a user would.
pub fn criteria(u: &Uniq) -> UniquenessCriteria<'static> {
    let st = leak_statuses(&u.statuses);
    let mut left = (u.key.is_some(), u.executor, u.within_s.is_some());
    let mut c = if let Some(k) = u.key {
        left.0 = false;
        UniquenessCriteria::by_key(&k).and_statuses(st)
    } else if u.executor {
        left.1 = false;
        UniquenessCriteria::by_executor().and_statuses(st)
    } else if let Some(w) = u.within_s {
        left.2 = false;
        UniquenessCriteria::within(TimeDelta::seconds(w)).and_statuses(st)
    } else {
        UniquenessCriteria::by_statuses(st)
    };
    if left.1 {
        c = c.and_executor();
    }
    if left.2 {
        c = c.and_within(TimeDelta::seconds(u.within_s.unwrap()));
    }
    match &u.replace {
        None => c.on_conflict_do_nothing(),
        Some(r) => {
            let flags = [r.scheduled_at, r.data, r.metadata, r.priority, r.max_attempts];
            let Some(first) = flags.iter().position(|f| *f) else {
                // The fields are public
                let mut x = Replace::priority().for_statuses(leak_statuses(&r.for_statuses));
                x.priority = false;
                return c.on_conflict(x);
            };
            let mut x = match first {
                0 => Replace::scheduled_at(),
                1 => Replace::data(),
                2 => Replace::metadata(),
                3 => Replace::priority(),
                _ => Replace::max_attempts(),
            };
            for (i, f) in flags.iter().enumerate().skip(first + 1) {
                if *f {
                    x = match i {
                        1 => x.and_data(),
                        2 => x.and_metadata(),
                        3 => x.and_priority(),
                        _ => x.and_max_attempts(),
                    };
                }
            }
            c.on_conflict(x.for_statuses(leak_statuses(&r.for_statuses)))
        }
    }
}

pub fn prune_spec(p: &Prune) -> PruneSpec {
    let names: Vec<&'static str> = p.execs.iter().map(|e| NAMES[*e]).collect();
    PruneSpec {
        status: status(p.status),
        prune_by: match (p.max_age_s, p.max_len) {
            (Some(a), _) => PruneBy::MaxAge(TimeDelta::seconds(a)),
            (None, l) => PruneBy::MaxLength(l.unwrap_or(0)),
        },
        executors: if p.except { Spec::Except(names) } else { Spec::Only(names) },
    }
}

fn pruner_config(c: &PrunerCfg) -> PrunerConfig {
    let mut cfg = PrunerConfig::new(std::str::FromStr::from_str(&c.schedule).expect("schedule"));
    if let Some(m) = &c.max_concurrency {
        cfg = cfg.with_max_concurrency(*m);
    }
    for p in &c.pruners {
        let base = match (p.max_age_s, p.max_len) {
            (Some(a), _) => Pruner::max_age(TimeDelta::seconds(a), status(p.status)),
            (None, l) => Pruner::max_length(l.unwrap_or(0), status(p.status)),
        };
        if p.execs.is_empty() {
            cfg = cfg.with_pruner(base);
        } else if p.except {
            let mut b = with_ex!(p.execs[0], E => base.except::<E>());
            for e in &p.execs[1..] {
                b = with_ex!(*e, E => b.and::<E>());
            }
            cfg = cfg.with_pruner(b);
        } else {
            let mut b = with_ex!(p.execs[0], E => base.only::<E>());
            for e in &p.execs[1..] {
                b = with_ex!(*e, E => b.and::<E>());
            }
            cfg = cfg.with_pruner(b);
        }
    }
    cfg
}

impl Cluster {
    /// All jobs as stored, without disturbing the run.
    pub fn truth(&self) -> Vec<BJob> {
        if let Some(m) = &self.mem {
            simrt::atomically(|| m.query(Query::And(vec![])).now_or_never().expect("in-memory query suspends").unwrap_or_default())
        } else {
            crate::pg::truth()
        }
    }

    pub fn snap(&self) -> Arc<Vec<BJob>> {
        let from = self.w.seq();
        let mut jobs = self.truth();
        jobs.sort_by_key(|j| j.id);
        let jobs = Arc::new(jobs);
        self.w.push_at(0, EvK::Snap { from, jobs: jobs.clone() });
        jobs
    }

    async fn backend_for(&self, node: u32) -> Option<DynBackend> {
        if let Some(m) = &self.mem {
            // Either directly or through a smart pointer
            return Some(if node % 2 == 0 { Arc::new(m.clone()) } else { Arc::new(Arc::new(m.clone())) });
        }
        // clients are processes of their own
        let os = simrt::cur_node();
        let node = if os >= 1000 { os } else { node };
        let have = self.backends.lock().unwrap().get(&node).cloned();
        if have.is_some() {
            return have;
        }
        let n = self.sc.nodes.get(node as usize).map(|n| n.pool).unwrap_or(2);
        let b = crate::pg::connect(node, n).await?;
        self.backends.lock().unwrap().insert(node, b.clone());
        Some(b)
    }

    /// Start instance `n` (node id n).
    pub async fn start_node(self: &Arc<Self>, n: u32) -> bool {
        let cfg = self.sc.nodes[n as usize].clone();
        let Some(inner) = self.backend_for(n).await else { return false };
        let inc = {
            let mut h = self.w.h.lock().unwrap();
            h.next_inc += 1;
            let inc = h.next_inc;
            h.inc.insert(n, inc);
            inc
        };
        let b = SimBackend { inner, role: Role::Instance(n), w: self.w.clone(), inc };
        {
            let t = simrt::now_ns();
            let mut h = self.w.h.lock().unwrap();
            let all: Vec<usize> = cfg.execs.iter().copied().chain(cfg.crons.iter().map(|c| c.ex)).collect();
            for e in all {
                let c = h.cap.entry((inc, e)).or_default();
                c.regs += 1;
                c.alive = true;
                c.occ = 0;
                c.free_since = Some(t);
            }
        }
        self.w.push(EvK::NodeUp { node: n });
        let mut rex: Rex = Rexecutor::new(b);
        for e in &cfg.execs {
            rex = with_ex!(*e, E => rex.with_executor::<E>());
        }
        for c in &cfg.crons {
            let s: cron::Schedule = std::str::FromStr::from_str(&c.schedule).expect("cron schedule");
            rex = match c.offset_s {
                None => with_ex!(c.ex, E => rex.with_cron_executor::<E>(s, c.plan.clone())),
                Some(o) => with_ex!(c.ex, E => rex.with_cron_executor_for_timezone::<E, FixedOffset>(s, c.plan.clone(), FixedOffset::east_opt(o).unwrap())),
            };
        }
        if let Some(p) = &cfg.pruner {
            rex = rex.with_job_pruner(pruner_config(p));
        }
        self.handles.lock().unwrap().insert(n, Handle::Rex(rex));
        true
    }

    fn shutdown(&self, n: u32, guard: bool) {
        let h = self.handles.lock().unwrap().remove(&n);
        let Some(h) = h else { return };
        self.w.push_at(n, EvK::Shutdown { node: n });
        self.w.fault("shutdown");
        self.set_alive(n, false);
        match (h, guard) {
            (Handle::Rex(r), false) => r.graceful_shutdown(),
            (Handle::Rex(r), true) => drop(r.drop_guard()),
            (Handle::Guard(g), _) => drop(g),
        }
    }

    fn set_alive(&self, n: u32, alive: bool) {
        let t = simrt::now_ns();
        let mut h = self.w.h.lock().unwrap();
        let cur = h.inc.get(&n).copied().unwrap_or(0);
        for ((inc, _), c) in h.cap.iter_mut() {
            if *inc == cur {
                c.alive = alive;
                if alive && c.free_since.is_some() {
                    c.free_since = Some(t);
                }
            }
        }
    }

    fn target(&self, tgt: u32) -> Option<i32> {
        self.w.h.lock().unwrap().enq.get(&tgt).copied()
    }

    pub fn resolve(&self, q: &Q, now: i64) -> MQ {
        let id = |i: i64| -> i32 { if i >= 0 { self.target(i as u32).unwrap_or(100_000 + i as i32) } else { 200_000 - i as i32 } };
        let base = now / 1_000_000_000 * 1_000_000_000;
        let sched = |i: i64| -> DateTime<Utc> {
            // negative: the exact schedule of a job; otherwise seconds relative to now
            if i >= 1_000_000 {
                let tgt = self.target((i - 1_000_000) as u32);
                let h = self.w.h.lock().unwrap();
                for e in h.ev.iter().rev() {
                    if let EvK::Snap { jobs, .. } = &e.k {
                        if let Some(j) = jobs.iter().find(|j| Some(j.id) == tgt) {
                            return j.scheduled_at;
                        }
                    }
                }
                utc(base)
            } else {
                utc(base + i * 1_000_000_000)
            }
        };
        let data = |u: u64| {
            let h = self.w.h.lock().unwrap();
            for e in h.ev.iter() {
                if let EvK::Call { call, .. } = &e.k {
                    if let Call::Enqueue { data, .. } = &**call {
                        if data.get("uid").and_then(|v| v.as_u64()) == Some(u) {
                            return data.clone();
                        }
                    }
                }
            }
            serde_json::json!({ "uid": u })
        };
        match q {
            Q::Not(i) => MQ::Not(Box::new(self.resolve(i, now))),
            Q::And(v) => MQ::And(v.iter().map(|x| self.resolve(x, now)).collect()),
            Q::Or(v) => MQ::Or(v.iter().map(|x| self.resolve(x, now)).collect()),
            Q::Executor(e) => MQ::Executor(NAMES[*e].into()),
            Q::Data(u) => MQ::Data(data(*u)),
            Q::Meta(m) => MQ::Meta(if *m == 0 { serde_json::Value::Null } else { serde_json::to_value(Meta { m: *m, s: "meta".into() }).unwrap() }),
            Q::Id(i) => MQ::Id(id(*i)),
            Q::IdIn(v) => MQ::IdIn(v.iter().map(|i| id(*i)).collect()),
            Q::Status(s) => MQ::Status(status(*s)),
            Q::TagsAll(t) => MQ::TagsAll(t.clone()),
            Q::TagsOne(t) => MQ::TagsOne(t.clone()),
            Q::Before(i) => MQ::Before(sched(*i)),
            Q::After(i) => MQ::After(sched(*i)),
            Q::Equal(i) => MQ::Equal(sched(*i)),
            Q::Older(i) => MQ::Older(*i * 1_000_000_000, (now, now)),
            Q::Within(i) => MQ::Within(*i * 1_000_000_000, (now, now)),
        }
    }

    async fn do_op(self: &Arc<Self>, op: &Op) {
        let w = self.w.clone();
        match &op.k {
            OpK::Shutdown { node, guard } => return self.shutdown(*node, *guard),
            OpK::Crash { node } => {
                w.push_at(*node, EvK::Crash { node: *node });
                w.fault("crash");
                self.set_alive(*node, false);
                simrt::kill_node(crate::pg::os_node(*node));
                crate::pg::crash(*node);
                if let Some(h) = self.handles.lock().unwrap().remove(node) {
                    std::mem::forget(h);
                }
                if let Some(b) = self.backends.lock().unwrap().remove(node) {
                    std::mem::forget(b);
                }
                let mut h = w.h.lock().unwrap();
                let dead: Vec<i32> = h.held.iter().filter(|(_, (n, _, _))| n == node).map(|(j, _)| *j).collect();
                for j in dead {
                    h.held.remove(&j);
                    h.live_exec.insert(j, 0);
                }
                return;
            }
            OpK::Restart { node } => {
                if self.handles.lock().unwrap().contains_key(node) {
                    return;
                }
                let me = self.clone();
                let n = *node;
                crate::pg::restarted(n);
                simrt::with_node(crate::pg::os_node(n), || {
                    tokio::spawn(async move {
                        for _ in 0..60 {
                            if me.start_node(n).await {
                                return;
                            }
                            tokio::time::sleep(Duration::from_millis(700)).await;
                        }
                    })
                });
                w.fault("restart");
                return;
            }
            OpK::Pause { node, ms } => {
                w.fault("stall");
                self.set_alive(*node, false);
                simrt::pause_node(crate::pg::os_node(*node), true);
                tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
                simrt::pause_node(crate::pg::os_node(*node), false);
                if self.handles.lock().unwrap().contains_key(node) {
                    self.set_alive(*node, true);
                }
                w.fault("stall_end");
                return;
            }
            OpK::Reset { node, listener_only } => {
                crate::pg::reset(*node, *listener_only);
                return;
            }
            OpK::Partition { node, ms } => {
                w.fault("partition");
                crate::pg::partition(*node, true);
                tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
                crate::pg::partition(*node, false);
                w.fault("partition_heal");
                return;
            }
            OpK::DbRestart { ms } => {
                w.fault("db_restart");
                crate::pg::db_down(true);
                tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
                crate::pg::db_down(false);
                w.fault("db_up");
                return;
            }
            OpK::Foreign { payload } => {
                w.probe("foreign_notification");
                crate::pg::foreign(payload);
                return;
            }
            OpK::Notify => {
                if let Some(m) = &self.mem {
                    w.h.lock().unwrap().last_notify_t = simrt::now_ns();
                    let _ = m.notify_all();
                }
                return;
            }
            _ => {}
        }
        let Some(inner) = self.backend_for(op.node).await else { return };
        let b = SimBackend { inner, role: Role::Client(op.id), w: w.clone(), inc: 0 };
        match &op.k {
            OpK::Enq(e) => self.do_enqueue(op.id, e, &b).await,
            OpK::Cancel { tgt, reason } => {
                let Some(id) = self.target(*tgt) else { return };
                let _ = if global(op.id) {
                    CURRENT.scope(b, <Ex<0> as Executor>::cancel_job(id.into(), Box::new(reason.clone()))).await
                } else {
                    <Ex<0> as Executor>::cancel_job_on_backend(id.into(), Box::new(reason.clone()), &b).await
                };
            }
            OpK::Rerun { tgt } => {
                let Some(id) = self.target(*tgt) else { return };
                // Only finished jobs with no execution, one rerun at a time.
                for _ in 0..200 {
                    let st = self.truth().into_iter().find(|j| j.id == id).map(|j| St::from(j.status));
                    let ready = {
                        let h = w.h.lock().unwrap();
                        st.is_some_and(|s| s.finished())
                            && h.live_exec.get(&id).copied().unwrap_or(0) == 0
                            && !h.held.contains_key(&id)
                            && h.rerun_inflight.get(&id).copied().unwrap_or(0) == 0
                    };
                    if ready {
                        w.h.lock().unwrap().rerun_inflight.insert(id, 1);
                        let r = if global(op.id) { CURRENT.scope(b.clone(), <Ex<0> as Executor>::rerun_job(id.into())).await } else { <Ex<0> as Executor>::rerun_job_on_backend(id.into(), &b).await };
                        if w.pg && r.is_err() {
                            // it may still take effect
                            tokio::time::sleep(Duration::from_secs(5)).await;
                        }
                        w.h.lock().unwrap().rerun_inflight.insert(id, 0);
                        return;
                    }
                    if st.is_none() {
                        return;
                    }
                    tokio::time::sleep(Duration::from_millis(150)).await;
                }
            }
            OpK::Update { tgt, stale_ms, delay_ms, plan, max, prio, tags, meta } => {
                let Some(id) = self.target(*tgt) else { return };
                let snap = b.query(Query::IdEquals(id.into())).await;
                let Ok(mut v) = snap else { return };
                let Some(job) = v.pop() else { return };
                let Ok(mut job) = Job::<Plan, Meta>::try_from(job) else { return };
                if *stale_ms > 0 {
                    tokio::time::sleep(Duration::from_millis(*stale_ms as u64)).await;
                }
                if let Some(p) = plan {
                    job.data = p.clone();
                }
                if let Some(m) = max {
                    job.max_attempts = *m;
                }
                if let Some(p) = prio {
                    job.priority = *p;
                }
                if let Some(t) = tags {
                    job.tags = t.clone();
                }
                if let Some(m) = meta {
                    job.metadata = Some(m.clone());
                }
                if let Some(d) = delay_ms {
                    job.scheduled_at = Utc::now() + TimeDelta::milliseconds(*d);
                }
                let _ = if global(op.id) { CURRENT.scope(b, <Ex<0> as Executor>::update_job(job)).await } else { <Ex<0> as Executor>::update_job_on_backend(job, &b).await };
            }
            OpK::Missing { kind, id } => {
                let id = 1_000_000 + *id;
                let _ = match kind % 3 {
                    0 => <Ex<0> as Executor>::cancel_job_on_backend(id.into(), Box::new("nothing"), &b).await,
                    1 => <Ex<0> as Executor>::rerun_job_on_backend(id.into(), &b).await,
                    _ => {
                        let any = self.truth().into_iter().find_map(|j| Job::<Plan, Meta>::try_from(j).ok());
                        let Some(mut j) = any else { return };
                        j.id = id.into();
                        <Ex<0> as Executor>::update_job_on_backend(j, &b).await
                    }
                };
            }
            OpK::Query(q) => {
                let mq = Arc::new(self.resolve(q, simrt::realtime_ns() as i64));
                let from = w.seq();
                let (eff, r) = run_query(&mq, &b, op.id).await;
                w.push(EvK::UserQuery { op: op.id, from, q: Arc::new(eff), jobs: r.map(Arc::new) });
            }
            OpK::Prune(p) => {
                let _ = b.prune_jobs(&prune_spec(p)).await;
            }
            OpK::Claim { ex, wait_ms } => {
                let mut s = b.subscribe_ready_jobs(NAMES[*ex].into()).await;
                let _ = tokio::time::timeout(Duration::from_millis(*wait_ms as u64), s.next()).await;
            }
            OpK::Mark { tgt, kind, delay_ms, msg } => {
                let Some(id) = self.target(*tgt) else { return };
                let next = Utc::now() + TimeDelta::milliseconds(*delay_ms);
                let err = |t| rexecutor::backend::ExecutionError { error_type: t, message: msg.clone() };
                // Only what a runner would do: mark a claimed job.
                let _ = match kind % 5 {
                    0 => b.mark_job_complete(id.into()).await,
                    1 => b.mark_job_retryable(id.into(), next, err(ErrorType::Panic)).await,
                    2 => b.mark_job_discarded(id.into(), err(ErrorType::Other("x".into()))).await,
                    3 => b.mark_job_cancelled(id.into(), err(ErrorType::Cancelled)).await,
                    _ => {
                        let att = self.truth().into_iter().find(|j| j.id == id).map(|j| j.attempt).unwrap_or(0);
                        if att > 0 {
                            b.mark_job_snoozed(id.into(), next).await
                        } else {
                            Ok(())
                        }
                    }
                };
            }
            _ => {}
        }
    }

    async fn do_enqueue(self: &Arc<Self>, op: u32, e: &Enq, b: &SimBackend) {
        let r = if let Some(raw) = &e.raw {
            let at = Utc::now() + TimeDelta::milliseconds(e.delay_ms.unwrap_or(0));
            b.enqueue(EnqueuableJob {
                executor: NAMES[e.ex].into(),
                data: serde_json::json!({ "uid": e.plan.uid, "raw": raw }),
                metadata: serde_json::Value::Null,
                max_attempts: e.max.unwrap_or(3),
                scheduled_at: at,
                tags: e.tags.clone(),
                priority: e.prio,
                uniqueness_criteria: None,
            })
            .await
            .map_err(|x| x.to_string())
        } else {
            with_ex!(e.ex, E => {
                // The options may be given before or after the data, in any order.
                macro_rules! options {
                    ($jb:expr) => {{
                        let mut jb = $jb;
                        // Options may be given twice; the last one counts.
                        if op % 5 == 1 {
                            if e.uniq.is_some() {
                                jb = jb.unique(UniquenessCriteria::by_key(&"other").and_within(TimeDelta::days(1)).and_statuses(&JobStatus::ALL));
                            }
                            if e.meta.is_some() {
                                jb = jb.with_metadata(Meta { m: 9, s: "other".into() });
                            }
                            if e.abs_ms.is_some() || e.delay_ms.is_some() {
                                jb = if op % 2 == 0 { jb.schedule_at(Utc::now() + TimeDelta::hours(3)) } else { jb.schedule_in(TimeDelta::hours(-2)) };
                            }
                            if e.max.is_some() {
                                jb = jb.with_max_attempts(77);
                            }
                            if op % 3 != 0 {
                                jb = jb.add_tag("other");
                            }
                            jb = jb.with_priority(12_345);
                        }
                        // All at once, one by one, or the first few at once and then one by one.
                        let whole = match op % 3 {
                            0 => 0,
                            1 => e.tags.len() / 2,
                            _ => e.tags.len(),
                        };
                        if op % 3 != 0 {
                            jb = jb.with_tags(e.tags[..whole].to_vec());
                        }
                        for t in &e.tags[whole..] {
                            jb = jb.add_tag(t.clone());
                        }
                        if let Some(u) = &e.uniq {
                            jb = jb.unique(criteria(u));
                        }
                        if let Some(m) = &e.meta {
                            jb = jb.with_metadata(m.clone());
                        }
                        match e.delay_ms {
                            _ if e.abs_ms.is_some() => jb = jb.schedule_at(utc(simrt::epoch_ns() as i64 + e.abs_ms.unwrap() * 1_000_000)),
                            None => {}
                            Some(d) if d % 2 == 0 => jb = jb.schedule_in(TimeDelta::milliseconds(d)),
                            Some(d) => jb = jb.schedule_at(Utc::now() + TimeDelta::milliseconds(d)),
                        }
                        if let Some(m) = e.max {
                            jb = jb.with_max_attempts(m);
                        }
                        jb = jb.with_priority(e.prio);
                        jb
                    }};
                }
                let jb = if op % 2 == 0 { options!(E::builder().with_data(e.plan.clone())) } else { options!(E::builder()).with_data(e.plan.clone()) };
                if global(op) { CURRENT.scope(b.clone(), jb.enqueue()).await.map_err(|x| x.to_string()) } else { jb.enqueue_to_backend(b).await.map_err(|x| x.to_string()) }
            })
        };
        if let Ok(id) = r {
            self.w.h.lock().unwrap().enq.insert(op, id.into());
        }
    }
}

/// Which operations go through the global backend.
fn global(op: u32) -> bool {
    (op / 2) % 3 == 1
}

/// Run a query, either on the backend or through the public typed API (which restricts it to one
/// executor). Returns the condition that was effectively asked.
async fn run_query(q: &MQ, b: &SimBackend, op: u32) -> (MQ, Option<Vec<BJob>>) {
    let from = ns(Utc::now());
    if op % 2 == 1 {
        if let Some(w) = to_where(q) {
            let e = (op as usize / 2) % 3;
            let eff = MQ::And(vec![q.clone(), MQ::Executor(NAMES[e].into())]);
            let r = with_ex!(e, E => if op % 4 == 3 { CURRENT.scope(b.clone(), E::query_jobs(w)).await } else { E::query_jobs_on_backend(w, b).await });
            let r = r.ok().map(|v| v.into_iter().map(to_backend).collect());
            return (asked(eff, (from, ns(Utc::now()))), r);
        }
    }
    let r = b.query(to_raw(q)).await.ok();
    (asked(q.clone(), (from, ns(Utc::now()))), r)
}

fn asked(q: MQ, at: (i64, i64)) -> MQ {
    match q {
        MQ::Not(i) => MQ::Not(Box::new(asked(*i, at))),
        MQ::And(v) => MQ::And(v.into_iter().map(|x| asked(x, at)).collect()),
        MQ::Or(v) => MQ::Or(v.into_iter().map(|x| asked(x, at)).collect()),
        MQ::Older(d, _) => MQ::Older(d, at),
        MQ::Within(d, _) => MQ::Within(d, at),
        q => q,
    }
}

tokio::task_local! {
    /// What the global backend stands for in the current client.
    static CURRENT: SimBackend;
}

/// The global backend of the process; it leads to the backend of the calling client.
#[derive(Clone)]
struct Global;

impl Global {
    fn install() {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| std::mem::forget(Rexecutor::new(Global).set_global_backend().ok().expect("global backend")));
    }
    fn get() -> SimBackend {
        CURRENT.with(|b| b.clone())
    }
}

#[async_trait::async_trait]
impl Backend for Global {
    async fn subscribe_ready_jobs(&self, e: ExecutorIdentifier) -> std::pin::Pin<Box<dyn futures::Stream<Item = Result<BJob, BackendError>> + Send>> {
        Global::get().subscribe_ready_jobs(e).await
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        Global::get().enqueue(job).await
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        Global::get().mark_job_complete(id).await
    }
    async fn mark_job_retryable(&self, id: JobId, at: DateTime<Utc>, e: ExecutionError) -> Result<(), BackendError> {
        Global::get().mark_job_retryable(id, at, e).await
    }
    async fn mark_job_discarded(&self, id: JobId, e: ExecutionError) -> Result<(), BackendError> {
        Global::get().mark_job_discarded(id, e).await
    }
    async fn mark_job_cancelled(&self, id: JobId, e: ExecutionError) -> Result<(), BackendError> {
        Global::get().mark_job_cancelled(id, e).await
    }
    async fn mark_job_snoozed(&self, id: JobId, at: DateTime<Utc>) -> Result<(), BackendError> {
        Global::get().mark_job_snoozed(id, at).await
    }
    async fn prune_jobs(&self, s: &PruneSpec) -> Result<(), BackendError> {
        Global::get().prune_jobs(s).await
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        Global::get().rerun_job(id).await
    }
    async fn update_job(&self, job: BJob) -> Result<(), BackendError> {
        Global::get().update_job(job).await
    }
    async fn query<'a>(&self, q: Query<'a>) -> Result<Vec<BJob>, BackendError> {
        Global::get().query(q).await
    }
}

pub fn to_raw(q: &MQ) -> Query<'_> {
    match q {
        MQ::Not(i) => Query::Not(Box::new(to_raw(i))),
        MQ::And(v) => Query::And(v.iter().map(to_raw).collect()),
        MQ::Or(v) => Query::Or(v.iter().map(to_raw).collect()),
        MQ::Executor(e) => Query::ExecutorEqual(e),
        MQ::Data(d) => Query::DataEquals(d.clone()),
        MQ::Meta(d) => Query::MetadataEquals(d.clone()),
        MQ::Id(i) => Query::IdEquals((*i).into()),
        MQ::IdIn(v) => Query::IdIn(leak(v.iter().map(|i| (*i).into()).collect())),
        MQ::Status(s) => Query::StatusEqual(*s),
        MQ::TagsAll(t) => Query::TagsAllOf(leak(t.iter().map(|s| s.as_str()).collect())),
        MQ::TagsOne(t) => Query::TagsOneOf(leak(t.iter().map(|s| s.as_str()).collect())),
        MQ::Before(t) => Query::ScheduledAtBefore(*t),
        MQ::After(t) => Query::ScheduledAtAfter(*t),
        MQ::Equal(t) => Query::ScheduledAtEqual(*t),
        MQ::Older(d, _) => Query::ScheduledAtBefore(Utc::now() - TimeDelta::nanoseconds(*d)),
        MQ::Within(d, _) => Query::ScheduledAtAfter(Utc::now() - TimeDelta::nanoseconds(*d)),
    }
}
pub fn to_where(q: &MQ) -> Option<Where<'_, Plan, Meta>> {
    Some(match q {
        MQ::Not(i) => !to_where(i)?,
        MQ::And(v) => {
            let mut it = v.iter();
            let mut w = to_where(it.next()?)?;
            for x in it {
                w = w.and(to_where(x)?);
            }
            w
        }
        MQ::Or(v) => {
            let mut it = v.iter();
            let mut w = to_where(it.next()?)?;
            for x in it {
                w = w.or(to_where(x)?);
            }
            w
        }
        MQ::Executor(_) => return None,
        MQ::Data(d) => Where::data_equals(Box::leak(Box::new(serde_json::from_value(d.clone()).ok()?))),
        MQ::Meta(d) => Where::metadata_equals(Box::leak(Box::new(serde_json::from_value(d.clone()).ok()?))),
        MQ::Id(i) => Where::id_equals((*i).into()),
        MQ::IdIn(v) => Where::id_in(leak(v.iter().map(|i| (*i).into()).collect())),
        MQ::Status(s) => Where::status_equals(*s),
        MQ::TagsAll(t) => Where::tagged_by_all_of(leak(t.iter().map(|s| s.as_str()).collect())),
        MQ::TagsOne(t) => Where::tagged_by_one_of(leak(t.iter().map(|s| s.as_str()).collect())),
        MQ::Before(t) => Where::scheduled_at_before(*t),
        MQ::After(t) => Where::scheduled_at_after(*t),
        MQ::Equal(t) => Where::scheduled_at_equals(*t),
        MQ::Older(d, _) => Where::scheduled_at_older_than(TimeDelta::nanoseconds(*d)),
        MQ::Within(d, _) => Where::scheduled_at_within_the_last(TimeDelta::nanoseconds(*d)),
    })
}
/// Small and rare: a few bytes per query.
fn leak<'a, T>(v: Vec<T>) -> &'a [T] {
    Box::leak(v.into_boxed_slice())
}

/// The main future of a run. Returns when the horizon is reached or everything has settled.
pub async fn main(cl: Arc<Cluster>) {
    let sc = cl.sc.clone();
    let w = cl.w.clone();
    // Instances
    for (i, n) in sc.nodes.iter().enumerate() {
        let cl2 = cl.clone();
        let start = n.start_ms;
        if sc.direct {
            break;
        }
        let os = crate::pg::os_node(i as u32);
        simrt::set_skew(os, n.skew_ms * 1_000_000);
        let fut = async move {
            if start > 0 {
                tokio::time::sleep(Duration::from_millis(start)).await;
            }
            for _ in 0..100 {
                if cl2.start_node(i as u32).await {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(500)).await;
            }
        };
        simrt::with_node(os, || tokio::spawn(fut));
    }
    // Clients
    *cl.open_ops.lock().unwrap() = sc.clients.len() as u32;
    for (i, c) in sc.clients.iter().enumerate() {
        let cl2 = cl.clone();
        let ops = c.clone();
        let fut = async move {
            for op in ops {
                let now = simrt::now_ns() / 1_000_000;
                if op.at_ms > now {
                    tokio::time::sleep(Duration::from_millis(op.at_ms - now)).await;
                }
                cl2.do_op(&op).await;
            }
            *cl2.open_ops.lock().unwrap() -= 1;
        };
        simrt::with_node(1000 + i as u32, || tokio::spawn(fut));
    }
    let mut due: BTreeMap<i32, (i64, i32, i64, u64)> = BTreeMap::new();
    let faulty = sc.faults.any()
        || sc.clients.iter().flatten().any(|o| matches!(o.k, OpK::Crash { .. } | OpK::Pause { .. } | OpK::Reset { .. } | OpK::Partition { .. } | OpK::DbRestart { .. }));
    let has_periodic = sc.nodes.iter().any(|n| !n.crons.is_empty() || n.pruner.is_some());
    let mut settled_since: Option<u64> = None;
    let mut reported = std::collections::BTreeSet::new();
    loop {
        tokio::time::sleep(Duration::from_millis(sc.tick_ms)).await;
        let t = simrt::now_ns();
        if simrt::step_limit_hit() {
            w.push_at(0, EvK::Note("step limit".into()));
            break;
        }
        let jobs = cl.snap();
        let t_auth = (simrt::epoch_ns() + t) as i64;
        let faults_over = {
            let h = w.h.lock().unwrap();
            let until = sc.faults.until_ms * 1_000_000;
            until.max(h.last_fault_t)
        };
        let open = *cl.open_ops.lock().unwrap();
        // Promptness: a waiting, due job with a free slot somewhere must start.
        if !sc.direct {
            let mut next_due = BTreeMap::new();
            for j in jobs.iter() {
                let st: St = j.status.into();
                let sched = crate::model::ns(j.scheduled_at);
                if !st.waiting() || sched > t_auth {
                    continue;
                }
                let key = (sched, j.attempt, j.id as i64);
                let since = match due.get(&j.id) {
                    Some((s, a, _, since)) if (*s, *a) == (key.0, key.1) => *since,
                    _ => {
                        // waiting with this schedule at the previous tick already?
                        t
                    }
                };
                next_due.insert(j.id, (sched, j.attempt, 0, since));
                let Some(ex) = ex_index(&j.executor) else { continue };
                let h = w.h.lock().unwrap();
                let notified = h.last_notify_t;
                let free = h.cap.iter().filter(|((_, e), c)| *e == ex && c.alive).filter_map(|(_, c)| c.free_since).min();
                drop(h);
                let Some(free) = free else { continue };
                let (base, limit) = if faulty { (since.max(free).max(faults_over), 31_500_000_000u64) } else { (since.max(free), 1_000_000_000u64) };
                // While paused, only jobs due at the last call of `notify_all` have to start soon.
                let (base, limit) = match sc.paused && sc.backend == Bk::Mem {
                    true if notified <= since => (base, limit.max(31_500_000_000)),
                    true => (base.max(notified), limit),
                    false => (base, limit),
                };
                if t > base && t - base > limit && reported.insert(j.id) {
                    w.violate(
                        "*starved",
                        "starved",
                        format!("job {} of executor {:?} (attempt {}, scheduled {} ms ago) is waiting for {} ms although a slot is free", j.id, j.executor, j.attempt, (t_auth - sched) / 1_000_000, (t - base) / 1_000_000),
                    );
                }
            }
            due = next_due;
        }
        // Early end
        let h = w.h.lock().unwrap();
        let busy = open > 0
            || has_periodic
            || t < sc.faults.until_ms * 1_000_000
            || !h.held.is_empty()
            || h.live_exec.values().any(|v| *v > 0)
            || !sc.direct && jobs.iter().any(|j| St::from(j.status).waiting() && crate::model::ns(j.scheduled_at) < t_auth + 3_000_000_000_000);
        drop(h);
        if busy {
            settled_since = None;
        } else if settled_since.is_none() {
            settled_since = Some(t);
        }
        if settled_since.is_some_and(|s| t - s >= 1_200_000_000) || t >= sc.horizon_ms * 1_000_000 {
            break;
        }
    }
}

pub struct RunResult {
    pub hist: Hist,
    pub report: simrt::Report,
    pub end_t: u64,
    pub epoch_ns: u64,
    pub panic: Option<String>,
    pub deadlock: bool,
    pub finished: bool,
}

/// Run a scenario on the current (fresh) thread.
pub fn execute(sc: &Scenario, tapes: Option<Vec<Vec<u32>>>, trace: bool, on_deadlock: impl FnOnce(Arc<World>, simrt::Report) + Send + 'static) -> (RunResult, Vec<String>) {
    let cfg = simrt::Config {
        seed: sc.seed,
        tapes,
        policy: match sc.run.policy % 5 {
            0 => simrt::Policy::Uniform,
            1 => simrt::Policy::MostlyFifo,
            2 => simrt::Policy::MostlyLifo,
            3 => simrt::Policy::Pct,
            _ => simrt::Policy::Starve,
        },
        mt: sc.run.mt,
        preempt_permille: sc.run.preempt,
        cost_ns: sc.run.cost_ns,
        max_steps: 150_000,
        epoch_ns: (EPOCH0 + sc.run.epoch_s) * 1_000_000_000 + sc.run.epoch_sub_ms * 1_000_000,
        trace,
    };
    Global::install();
    let w = World::new(sc.faults.clone(), sc.backend == Bk::Pg);
    let w2 = w.clone();
    let sc2 = Arc::new(sc.clone());
    let (r, report, log) = simrt::run(cfg, move || {
        simrt::set_user(w2.clone());
        let w3 = w2.clone();
        simrt::on_deadlock(Box::new(move |rep| on_deadlock(w3, rep)));
        let cl = Arc::new(Cluster {
            w: w2.clone(),
            mem: if sc2.backend == Bk::Mem { Some(if sc2.paused { InMemoryBackend::new().paused() } else { InMemoryBackend::new() }) } else { None },
            sc: sc2.clone(),
            handles: Default::default(),
            backends: Default::default(),
            open_ops: Mutex::new(0),
        });
        if sc2.backend == Bk::Pg {
            crate::pg::install(&w2, &sc2);
        }
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        rt.block_on(main(cl.clone()));
        let hist = std::mem::take(&mut *w2.h.lock().unwrap());
        let end = (simrt::now_ns(), simrt::epoch_ns());
        let stuck = simrt::step_limit_hit();
        let mut hist = hist;
        let (stats, unsupported) = crate::pg::uninstall();
        for (k, v) in stats {
            *hist.probes.entry(format!("pg_{k}")).or_default() += v;
        }
        hist.unsupported = unsupported;
        drop(rt);
        (hist, end, stuck)
    });
    match r {
        Ok((hist, (end_t, epoch_ns), stuck)) => (RunResult { hist, report, end_t, epoch_ns, panic: None, deadlock: false, finished: !stuck }, log),
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            let hist = match w.h.lock() {
                Ok(mut g) => std::mem::take(&mut *g),
                Err(p) => std::mem::take(&mut *p.into_inner()),
            };
            (RunResult { hist, report, end_t: 0, epoch_ns: 0, panic: Some(msg), deadlock: false, finished: false }, log)
        }
    }
}
