#!/usr/bin/env python3
import os,sys,subprocess,json,shutil
M='rexecutor/src/backend/memory.rs'; R='rexecutor/src/job/runner.rs'; C='rexecutor/src/cron_runner.rs'; P='rexecutor/src/pruner/runner.rs'; Q='rexecutor/src/backend/queryable.rs'; B='rexecutor/src/backoff.rs'; BK='rexecutor/src/backend.rs'; JB='rexecutor/src/job/builder.rs'; UC='rexecutor/src/job/uniqueness_criteria.rs'; L='rexecutor/src/lib.rs'; EX='rexecutor/src/executor.rs'
bugs={}
def bug(id,prop,edits,needs,breaks,main): bugs[id]=(prop,edits,needs,breaks,main)

bug('claim-two-phase','C01',[(M,'''        let mut jobs = self.jobs.write().unwrap();
        let mut jobs = jobs
            .iter_mut()
            .filter(|job| {''','''        // Most polls find nothing: look with the shared lock first.
        let mut ready = self
            .jobs
            .read()
            .map_err(|_| BackendError::BadState)?
            .iter()
            .filter(|job| {'''),(M,'''            .collect::<Vec<_>>();
        jobs.sort_by(|a, b| {
            a.scheduled_at''','''            .map(|job| job.job.clone())
            .collect::<Vec<_>>();
        ready.sort_by(|a, b| {
            a.scheduled_at'''),(M,'''        Ok(jobs.first_mut().map(|job| {
            job.mark_job_executing();
            job.job.to_owned()
        }))''','''        let Some(id) = ready.first().map(|job| job.id) else {
            return Ok(None);
        };
        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
        Ok(jobs.iter_mut().find(|job| job.id == id).map(|job| {
            job.mark_job_executing();
            job.job.to_owned()
        }))''')],
'two claimers of the same executor polling at the same moment, preempted between choosing and marking the job','the job is chosen under the read lock and marked under the write lock without looking at its status again: two instances start it',
'''
#[tokio::main(flavor = "multi_thread", worker_threads = 8)]
async fn main() {
    let b = InMemoryBackend::new();
    let mut rs = vec![];
    for _ in 0..6 {
        rs.push(Rexecutor::new(b.clone()).with_executor::<A>());
    }
    ms(100).await;
    let t = Instant::now();
    for round in 0..60 {
        for i in 0..20 {
            A::builder().with_data("done".into()).enqueue_to_backend(&b).await.unwrap();
        }
        ms(120).await;
        let ev = events("start");
        let mut ids: Vec<i32> = ev.iter().map(|e| e.id).collect();
        ids.sort();
        let n = ids.len();
        ids.dedup();
        if ids.len() != n {
            println!("{} executions of {} jobs", n, ids.len());
            std::process::exit(1);
        }
        if t.elapsed() > Duration::from_secs(30) {
            break;
        }
    }
}
''')

bug('wake-only-when-due','C02',[(M,'''        if !self.paused.load(Ordering::Relaxed) {
            let _ = self''','''        // Jobs for later are found by the poll of the stream, no need to wake it for them.
        let due_soon = scheduled_at - Utc::now() < TimeDelta::seconds(1);
        if due_soon && !self.paused.load(Ordering::Relaxed) {
            let _ = self''')],
'a job scheduled a few seconds ahead, enqueued (or retried, snoozed, moved) while the executor is idle and no other job wakes it','the stream is not woken for a job due in more than a second and sleeps on for up to 30 s past its time',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<A>();
    ms(200).await;
    A::builder().with_data("done".into()).schedule_in(TimeDelta::milliseconds(1500)).enqueue_to_backend(&b).await.unwrap();
    ms(3500).await;
    assert_eq!(events("start").len(), 1);
}
''')

bug('claim-whole-seconds','C03',[(M,'''job.scheduled_at - Utc::now() < TimeDelta::milliseconds(100)''','''(job.scheduled_at - Utc::now()).num_seconds() < 1''')],
'another due job of the same executor must trigger a claim while this one is less than a second from its time','the tolerance is truncated to whole seconds: a job is claimed up to a second early',
'''
#[tokio::main(flavor = "multi_thread", worker_threads = 8)]
async fn main() {
    let b = InMemoryBackend::new();
    let mut rs = vec![];
    for _ in 0..8 {
        rs.push(Rexecutor::new(b.clone()).with_executor::<A>());
    }
    ms(200).await;
    for round in 0..25 {
        let t = Instant::now();
        let later = A::builder().with_data("done".into()).schedule_in(TimeDelta::milliseconds(800)).enqueue_to_backend(&b).await.unwrap();
        ms(5).await;
        A::builder().with_data("done".into()).enqueue_to_backend(&b).await.unwrap();
        ms(900).await;
        let ev = events("start");
        let e = ev.iter().find(|e| e.id == i32::from(later)).expect("started");
        assert!(e.at - t > Duration::from_millis(600), "started after {:?}", e.at - t);
    }
}
''')

bug('snooze-backoff-mixup','C22',[(R,'''            Ok(Ok(ExecutionResult::Snooze { delay })) => {
                self.handle_job_snoozed(job_id, delay).await
            }''','''            Ok(Ok(ExecutionResult::Snooze { .. })) => self.handle_job_snoozed(job_id, delay).await,''')],
'an executor with a timeout whose job snoozes with a delay different from its backoff','with a timeout configured, a snoozed job waits the retry backoff instead of the requested delay',
'''
executor!(T, "a", false, None, Some(Duration::from_secs(5)), 20);
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<T>();
    ms(200).await;
    T::builder().with_data("snooze:1000,done".into()).enqueue_to_backend(&b).await.unwrap();
    ms(1800).await;
    let ev = events("start");
    assert_eq!(ev.len(), 2);
    assert!(ev[1].at - ev[0].at > Duration::from_millis(800), "{:?}", ev[1].at - ev[0].at);
}
''')

bug('timeout-never-final','C05',[(R,'''                self.handle_job_error(is_final_attempt, job_id, delay, timeout)
                    .await
''','''                // The execution was cut short, give it another chance
                self.handle_job_error(false, job_id, delay, timeout)
                    .await
''')],
'a job whose last allowed attempt runs into its timeout','a timeout in the final attempt is retried instead of discarding the job, so it is attempted beyond max_attempts',
'''
executor!(D, "d", false, None, Some(Duration::from_millis(60)), 50);
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<D>();
    ms(100).await;
    let _ = D::builder().with_data("err,sleep:400+done,done,done".into()).with_max_attempts(2).enqueue_to_backend(&b).await.unwrap();
    ms(1500).await;
    assert_eq!(events("start").len(), 2);
}
''')

bug('rerun-forgets-cancellation','C06',[(M,'''        self.max_attempts += 1;
        self.scheduled_at = Utc::now();''','''        self.max_attempts += 1;
        // The cancellation is taken back.
        self.errors
            .retain(|error| error.error_type != ErrorType::Cancelled);
        self.scheduled_at = Utc::now();'''),(M,'''        JobError, JobId, JobStatus,
''','''        ErrorType, JobError, JobId, JobStatus,
'''),(M,'''    use crate::{job::ErrorType, pruner::Spec, test_suite};''','''    use crate::{pruner::Spec, test_suite};''')][:2],
'rerun of a job that was cancelled','a rerun removes the cancellation from the error history',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let id = A::builder().with_data("err,done".into()).enqueue_to_backend(&b).await.unwrap();
    A::cancel_job_on_backend(id, Box::new("no"), &b).await.unwrap();
    A::rerun_job_on_backend(id, &b).await.unwrap();
    let _r = Rexecutor::new(b.clone()).with_executor::<A>();
    ms(800).await;
    let j = job(&b, id).await;
    let at: Vec<u16> = j.errors.iter().map(|e| e.attempt).collect();
    assert_eq!(at, vec![0, 1]);
}
''')

bug('blocking-timeout-outside','C07',[(R,'''        let fut = tokio::time::timeout(timeout, E::execute(job)).in_current_span();
        let result = if E::BLOCKING {
            tracing::debug!(%job_id, "Executing blocking job {job_id}");
            tokio::task::spawn_blocking(|| futures::executor::block_on(fut))
        } else {
            tracing::debug!(%job_id, "Executing job {job_id}");
            tokio::spawn(fut)
        };

        match result.await {''','''        let result = if E::BLOCKING {
            tracing::debug!(%job_id, "Executing blocking job {job_id}");
            let fut = E::execute(job).in_current_span();
            let handle = tokio::task::spawn_blocking(|| futures::executor::block_on(fut));
            // Blocking code may never reach a suspension point: do not wait for it.
            match tokio::time::timeout(timeout, handle).await {
                Ok(result) => result.map(Ok),
                Err(elapsed) => Ok(Err(elapsed)),
            }
        } else {
            tracing::debug!(%job_id, "Executing job {job_id}");
            let fut = tokio::time::timeout(timeout, E::execute(job)).in_current_span();
            tokio::spawn(fut).await
        };

        match result {''')],
'a blocking executor with a limit whose job exceeds its timeout while others wait','a timed out blocking execution gives its slot back although it goes on running: more jobs run than the limit allows',
'''
executor!(T, "a", true, Some(1), Some(Duration::from_millis(300)), 20);
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<T>();
    ms(100).await;
    for _ in 0..3 {
        T::builder().with_data("sleep:1000+done".into()).with_max_attempts(1).enqueue_to_backend(&b).await.unwrap();
    }
    ms(2500).await;
    let log = LOG.lock().unwrap();
    // executions which reach their end were not stopped by the timeout
    assert!(log.iter().all(|e| e.what != "end"), "{log:?}");
}
''')

bug('timeout-outside-spawn','C08',[(R,'''        let fut = tokio::time::timeout(timeout, E::execute(job)).in_current_span();
        let result = if E::BLOCKING {
            tracing::debug!(%job_id, "Executing blocking job {job_id}");
            tokio::task::spawn_blocking(|| futures::executor::block_on(fut))
        } else {
            tracing::debug!(%job_id, "Executing job {job_id}");
            tokio::spawn(fut)
        };

        match result.await {''','''        let result = if E::BLOCKING {
            tracing::debug!(%job_id, "Executing blocking job {job_id}");
            let fut = tokio::time::timeout(timeout, E::execute(job)).in_current_span();
            tokio::task::spawn_blocking(|| futures::executor::block_on(fut)).await
        } else {
            tracing::debug!(%job_id, "Executing job {job_id}");
            let handle = tokio::spawn(E::execute(job).in_current_span());
            match tokio::time::timeout(timeout, handle).await {
                Ok(result) => result.map(Ok),
                Err(elapsed) => Ok(Err(elapsed)),
            }
        };

        match result {''')],
'an async execution that goes on after its timeout','the timeout is applied to the join handle: the execution is recorded as timed out but runs on in the background',
'''
executor!(T, "a", false, None, Some(Duration::from_millis(200)), 20);
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<T>();
    ms(100).await;
    T::builder().with_data("sleep:600+done".into()).with_max_attempts(1).enqueue_to_backend(&b).await.unwrap();
    ms(1500).await;
    assert_eq!(events("start").len(), 1);
    assert_eq!(events("end").len(), 0);
}
''')

bug('stream-error-ends','C09',[(R,'''                    .take_until(cancellation_token.cancelled())
''','''                    .take_until(cancellation_token.cancelled())
                    .take_while(|message| futures::future::ready(message.is_ok()))
''')],
'a single error from the backend while waiting for jobs','the first error of the ready job stream ends the runner: the executor never runs another job',
'''
use rexecutor::backend::{BackendError, EnqueuableJob, ExecutionError as BackendExecutionError};
struct Flaky(InMemoryBackend);
#[async_trait::async_trait]
impl Backend for Flaky {
    async fn subscribe_ready_jobs(&self, e: rexecutor::executor::ExecutorIdentifier) -> std::pin::Pin<Box<dyn futures::Stream<Item = Result<rexecutor::backend::Job, BackendError>> + Send>> {
        use futures::StreamExt;
        let s = self.0.subscribe_ready_jobs(e).await;
        Box::pin(futures::stream::iter([Err(BackendError::BadState)]).chain(s))
    }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> { self.0.enqueue(job).await }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> { self.0.mark_job_complete(id).await }
    async fn mark_job_retryable(&self, id: JobId, t: chrono::DateTime<Utc>, e: rexecutor::backend::ExecutionError) -> Result<(), BackendError> { self.0.mark_job_retryable(id, t, e).await }
    async fn mark_job_discarded(&self, id: JobId, e: rexecutor::backend::ExecutionError) -> Result<(), BackendError> { self.0.mark_job_discarded(id, e).await }
    async fn mark_job_cancelled(&self, id: JobId, e: rexecutor::backend::ExecutionError) -> Result<(), BackendError> { self.0.mark_job_cancelled(id, e).await }
    async fn mark_job_snoozed(&self, id: JobId, t: chrono::DateTime<Utc>) -> Result<(), BackendError> { self.0.mark_job_snoozed(id, t).await }
    async fn prune_jobs(&self, p: &rexecutor::pruner::PruneSpec) -> Result<(), BackendError> { self.0.prune_jobs(p).await }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> { self.0.rerun_job(id).await }
    async fn update_job(&self, j: rexecutor::backend::Job) -> Result<(), BackendError> { self.0.update_job(j).await }
    async fn query<'a>(&self, q: Query<'a>) -> Result<Vec<rexecutor::backend::Job>, BackendError> { self.0.query(q).await }
}
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(std::sync::Arc::new(Flaky(b.clone()))).with_executor::<A>();
    ms(100).await;
    A::builder().with_data("done".into()).enqueue_to_backend(&b).await.unwrap();
    ms(800).await;
    assert_eq!(events("start").len(), 1);
}
''')

bug('shutdown-drops-results','C10',[(R,'''                self.backend
                    .subscribe_ready_jobs(E::NAME.into())
                    .await
                    .take_until(cancellation_token.cancelled())
''','''                let run = self
                    .backend
                    .subscribe_ready_jobs(E::NAME.into())
                    .await
'''),(R,'''                            }
                        }
                    })
                    .await;
                tracing::debug!("Shutting down Rexecutor job''','''                            }
                        }
                    });
                tokio::select! {
                    _ = run => {},
                    _ = cancellation_token.cancelled() => {},
                }
                tracing::debug!("Shutting down Rexecutor job''')],
'shutdown while an execution is running','the runner is dropped at shutdown: running executions finish but their results are never recorded',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let r = Rexecutor::new(b.clone()).with_executor::<A>();
    ms(100).await;
    let id = A::builder().with_data("sleep:500+done".into()).enqueue_to_backend(&b).await.unwrap();
    ms(200).await;
    r.graceful_shutdown();
    ms(1000).await;
    assert_eq!(job(&b, id).await.status, JobStatus::Complete);
}
''')

bug('unique-first-status','C11',[(Q,'''                    && (uniqueness_criteria.statuses.contains(&job.status))
            }''','''                    && (uniqueness_criteria.statuses.first() == Some(&job.status))
            }''')],
'uniqueness over several statuses without a time window, where the existing job is in one that is not the first','only the first of the statuses is looked at: a second job is inserted although one matches',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let st = [JobStatus::Scheduled, JobStatus::Executing, JobStatus::Complete];
    let _r = Rexecutor::new(b.clone()).with_executor::<A>();
    ms(100).await;
    let c = || UniquenessCriteria::by_executor().and_key(&1u8).and_statuses(&st);
    let x = A::builder().with_data("sleep:600+done".into()).unique(c()).enqueue_to_backend(&b).await.unwrap();
    ms(300).await;
    let y = A::builder().with_data("done".into()).unique(c()).enqueue_to_backend(&b).await.unwrap();
    assert_eq!(x, y);
    ms(600).await;
    let z = A::builder().with_data("done".into()).unique(c()).enqueue_to_backend(&b).await.unwrap();
    assert_eq!(x, z);
}
''')

bug('replace-outside-statuses','C12',[(M,'''                if replace.priority {
                    self.priority = job.priority.into();
                }
                if replace.max_attempts {
                    self.max_attempts = job.max_attempts.into();
                }
            }''','''                if replace.priority {
                    self.priority = job.priority.into();
                }
            }
            if replace.max_attempts {
                self.max_attempts = job.max_attempts.into();
            }''')],
'a conflict with a job that is not in one of the statuses the replacement applies to, replacing the maximum attempts','the maximum of a job (e.g. a running or finished one) is replaced although the replacement does not apply to its status',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let c = || UniquenessCriteria::by_executor().and_statuses(&JobStatus::ALL).on_conflict(Replace::max_attempts().for_statuses(&[JobStatus::Scheduled]));
    let _r = Rexecutor::new(b.clone()).with_executor::<A>();
    ms(100).await;
    let x = A::builder().with_data("done".into()).with_max_attempts(4).unique(c()).enqueue_to_backend(&b).await.unwrap();
    ms(300).await;
    let y = A::builder().with_data("done".into()).with_max_attempts(9).unique(c()).enqueue_to_backend(&b).await.unwrap();
    assert_eq!(x, y);
    assert_eq!(job(&b, x).await.max_attempts, 4);
}
''')

bug('order-by-second','C13',[(M,'''            a.scheduled_at
                .cmp(&b.scheduled_at)
                .then(a.priority.cmp(&b.priority))''','''            a.scheduled_at
                .timestamp()
                .cmp(&b.scheduled_at.timestamp())
                .then(a.priority.cmp(&b.priority))''')],
'two waiting jobs scheduled within the same second, the later one enqueued first, with a busy executor','schedules are compared by whole seconds, so within a second the order is that of enqueueing',
'''
executor!(T, "a", false, Some(1), None, 20);
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    // both in the same second, in the past
    let base = chrono::DateTime::from_timestamp(Utc::now().timestamp() - 5, 0).unwrap();
    let late = T::builder().with_data("done".into()).schedule_at(base + TimeDelta::milliseconds(600)).enqueue_to_backend(&b).await.unwrap();
    let early = T::builder().with_data("done".into()).schedule_at(base + TimeDelta::milliseconds(100)).enqueue_to_backend(&b).await.unwrap();
    let _r = Rexecutor::new(b.clone()).with_executor::<T>();
    ms(600).await;
    let ev = events("start");
    assert_eq!(ev.len(), 2);
    assert_eq!(ev[0].id, i32::from(early));
}
''')

bug('tags-dedup','C14',[(JB,'''        let mut tags = self.tags;
        tags.push(tag.into());''','''        let mut tags = self.tags;
        tags.push(tag.into());
        tags.sort();''')],
'tags added one by one in an order that is not the alphabetical one','tags are reordered on the way: the execution does not get the tags as enqueued',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let id = A::builder().with_data("done".into()).add_tag("z").add_tag("a").enqueue_to_backend(&b).await.unwrap();
    assert_eq!(job(&b, id).await.tags, vec!["z", "a"]);
}
''')

bug('except-any','C15',[(Q,'''Spec::Except(executors) => executors.iter().all(|&executor| executor != job.executor)''','''Spec::Except(executors) => executors.iter().any(|&executor| executor != job.executor)''')],
'a pruner that excepts two or more executors','jobs of an excepted executor are removed as soon as a second executor is excepted as well',
'''
#[tokio::main]
async fn main() {
    use rexecutor::pruner::*;
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<A>().with_executor::<B>().with_executor::<C>();
    A::builder().with_data("done".into()).schedule_at(Utc::now() - TimeDelta::hours(2)).enqueue_to_backend(&b).await.unwrap();
    B::builder().with_data("done".into()).schedule_at(Utc::now() - TimeDelta::hours(2)).enqueue_to_backend(&b).await.unwrap();
    C::builder().with_data("done".into()).schedule_at(Utc::now() - TimeDelta::hours(2)).enqueue_to_backend(&b).await.unwrap();
    ms(400).await;
    b.prune_jobs(&PruneSpec { status: JobStatus::Complete, prune_by: PruneBy::MaxAge(TimeDelta::hours(1)), executors: Spec::Except(vec!["a", "b"]) }).await.unwrap();
    let mut left: Vec<String> = jobs(&b).await.into_iter().map(|j| j.executor).collect();
    left.sort();
    assert_eq!(left, vec!["a", "b"]);
}
''')

bug('pruner-twice-per-tick','C16',[(P,'''                            let delay = next - Utc::now();
                            if delay > TimeDelta::zero() {
                                tokio::time::sleep(delay.to_std().unwrap()).await;
                            }
''','''                            let delay = next - Utc::now();
                            if delay > TimeDelta::milliseconds(10) {
                                tokio::time::sleep(delay.to_std().unwrap()).await;
                            }
''')],
'observing how often a pruner runs at one tick','the pruner does not wait for the tick it ran 10 ms ahead of and runs again and again until the tick has passed',
'''
use std::sync::atomic::*;
static N: AtomicUsize = AtomicUsize::new(0);
use rexecutor::backend::{BackendError, EnqueuableJob, ExecutionError as BackendExecutionError};
#[derive(Clone)]
struct Count(InMemoryBackend);
#[async_trait::async_trait]
impl Backend for Count {
    async fn subscribe_ready_jobs(&self, e: rexecutor::executor::ExecutorIdentifier) -> std::pin::Pin<Box<dyn futures::Stream<Item = Result<rexecutor::backend::Job, BackendError>> + Send>> { self.0.subscribe_ready_jobs(e).await }
    async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> { self.0.enqueue(job).await }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> { self.0.mark_job_complete(id).await }
    async fn mark_job_retryable(&self, id: JobId, t: chrono::DateTime<Utc>, e: rexecutor::backend::ExecutionError) -> Result<(), BackendError> { self.0.mark_job_retryable(id, t, e).await }
    async fn mark_job_discarded(&self, id: JobId, e: rexecutor::backend::ExecutionError) -> Result<(), BackendError> { self.0.mark_job_discarded(id, e).await }
    async fn mark_job_cancelled(&self, id: JobId, e: rexecutor::backend::ExecutionError) -> Result<(), BackendError> { self.0.mark_job_cancelled(id, e).await }
    async fn mark_job_snoozed(&self, id: JobId, t: chrono::DateTime<Utc>) -> Result<(), BackendError> { self.0.mark_job_snoozed(id, t).await }
    async fn prune_jobs(&self, p: &rexecutor::pruner::PruneSpec) -> Result<(), BackendError> { N.fetch_add(1, Ordering::SeqCst); self.0.prune_jobs(p).await }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> { self.0.rerun_job(id).await }
    async fn update_job(&self, j: rexecutor::backend::Job) -> Result<(), BackendError> { self.0.update_job(j).await }
    async fn query<'a>(&self, q: Query<'a>) -> Result<Vec<rexecutor::backend::Job>, BackendError> { self.0.query(q).await }
}
#[tokio::main]
async fn main() {
    let b = Count(InMemoryBackend::new());
    let config = PrunerConfig::new("* * * * * *".try_into().unwrap()).with_pruner(Pruner::max_length(5, JobStatus::Complete).only::<A>());
    let t = Instant::now();
    let _r = Rexecutor::new(b.clone()).with_job_pruner(config);
    ms(3000).await;
    let n = N.load(Ordering::SeqCst);
    assert!(n >= 2 && n <= 4, "{n} runs in 3 s");
}
''')

bug('cron-utc','C17',[(C,'''                        .upcoming(timezone.clone())
                        .next()
                        .expect("No future scheduled time for cron job")
                        .to_utc();''','''                        .upcoming(timezone.from_utc_datetime(&Utc::now().naive_utc()).to_utc().timezone())
                        .next()
                        .expect("No future scheduled time for cron job");''')],
'a cron entry in a time zone other than UTC with a schedule that names an hour','the schedule is evaluated in UTC whatever the zone',
'''
use chrono::{FixedOffset, Timelike};
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    // every second of an hour that is now only in the zone 5 hours ahead
    let zone = FixedOffset::east_opt(5 * 3600).unwrap();
    let t = Utc::now();
    let (h, h2) = (t.with_timezone(&zone).hour(), (t + TimeDelta::minutes(1)).with_timezone(&zone).hour());
    let hours = if h == h2 { format!("{h}") } else { format!("{h},{h2}") };
    let schedule: cron::Schedule = format!("* * {hours} * * *").as_str().try_into().unwrap();
    let _r = Rexecutor::new(b.clone()).with_cron_executor_for_timezone::<A, _>(schedule, "done".to_owned(), zone);
    ms(3000).await;
    assert!(events("start").len() >= 2);
}
''')

bug('cron-no-key','C17',[(C,'''            .and_key(&self.data)
''','')],
'two cron entries of the same executor with different data that share a tick','the entries are taken for duplicates of each other: only one of them gets its job',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let s = || -> cron::Schedule { "* * * * * *".try_into().unwrap() };
    let _r = Rexecutor::new(b.clone()).with_cron_executor::<A>(s(), "done".to_owned()).with_cron_executor::<A>(s(), "done,x".to_owned());
    ms(3500).await;
    let js = jobs(&b).await;
    let n = |d: &str| js.iter().filter(|j| j.data == serde_json::Value::from(d)).count();
    assert!(n("done") >= 2 && n("done,x") >= 2, "{} {}", n("done"), n("done,x"));
}
''')

bug('rerun-keeps-future','C19',[(M,'''        self.scheduled_at = Utc::now();
        self.completed_at = None;''','''        self.scheduled_at = self.scheduled_at.max(Utc::now());
        self.completed_at = None;''')],
'rerun of a job that was cancelled before its scheduled time','the rerun job is not due immediately but only at its old time',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<A>();
    ms(100).await;
    let id = A::builder().with_data("done".into()).schedule_in(TimeDelta::hours(1)).enqueue_to_backend(&b).await.unwrap();
    A::cancel_job_on_backend(id, Box::new("no"), &b).await.unwrap();
    A::rerun_job_on_backend(id, &b).await.unwrap();
    ms(800).await;
    assert_eq!(events("start").len(), 1);
}
''')

bug('after-inclusive','C21',[(Q,'''job.scheduled_at > *scheduled_at''','''job.scheduled_at >= *scheduled_at''')],
'a query with exactly the scheduled time of a job','"after" includes the time itself, so before and after overlap with equal',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let t = Utc::now();
    A::builder().with_data("done".into()).schedule_at(t).enqueue_to_backend(&b).await.unwrap();
    assert!(b.query(Query::ScheduledAtAfter(t)).await.unwrap().is_empty());
    assert!(b.query(Query::ScheduledAtBefore(t)).await.unwrap().is_empty());
}
''')

bug('snooze-never-scheduled','C04',[(M,'''        self.scheduled_at = scheduled_at;
        self.status = match self.attempt {
            1 => JobStatus::Scheduled,
            _ => JobStatus::Retryable,
        };
        self.attempt -= 1;''','''        self.scheduled_at = scheduled_at;
        self.status = match self.attempt {
            1 => JobStatus::Scheduled,
            _ => JobStatus::Retryable,
        };
        if self.attempt < self.max_attempts {
            self.attempt -= 1;
        }''')],
'a snooze in the last allowed attempt','the last attempt is not given back by a snooze: the job then runs with more attempts than allowed and is discarded at once',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<A>();
    ms(100).await;
    let id = A::builder().with_data("err,snooze:100,done".into()).with_max_attempts(2).enqueue_to_backend(&b).await.unwrap();
    ms(1000).await;
    let at: Vec<u16> = events("start").iter().map(|e| e.attempt).collect();
    assert_eq!(at, vec![1, 2, 2]);
}
''')


bug('id-from-length','C14',[(M,'let id = self.id_counter.fetch_add(1, Ordering::SeqCst);','// The next free position.\n        let _ = self.id_counter.fetch_add(1, Ordering::SeqCst);\n        let id = jobs.len() as i32;')],
'a pruning that removed an older job than one that is still stored','identifiers are positions: after a pruning a new job gets the identifier of an existing one',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<A>();
    ms(100).await;
    let one = A::builder().with_data("done".into()).enqueue_to_backend(&b).await.unwrap();
    let two = A::builder().with_data("done".into()).schedule_in(TimeDelta::hours(1)).enqueue_to_backend(&b).await.unwrap();
    ms(300).await;
    b.prune_jobs(&rexecutor::pruner::Pruner::max_length(0, rexecutor::job::JobStatus::Complete).into()).await.unwrap();
    let three = A::builder().with_data("done".into()).schedule_in(TimeDelta::hours(2)).enqueue_to_backend(&b).await.unwrap();
    assert!(one != two && two != three);
    assert_eq!(jobs(&b).await.len(), 2);
}
''')

bug('complete-by-position','C04',[(M,'''    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
        match jobs.iter_mut().find(|job| job.id == id) {''','''    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
        // Jobs are stored by their ids.
        match jobs.get_mut(i32::from(id) as usize) {''')],
'a pruning that removed earlier jobs before the result of an execution is recorded','the result of an execution is recorded for another job, or not at all',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<A>();
    ms(100).await;
    let mut ids = vec![];
    for _ in 0..3 {
        ids.push(A::builder().with_data("done".into()).enqueue_to_backend(&b).await.unwrap());
    }
    ms(300).await;
    let waiting = A::builder().with_data("done".into()).schedule_in(TimeDelta::hours(1)).enqueue_to_backend(&b).await.unwrap();
    b.prune_jobs(&rexecutor::pruner::Pruner::max_length(0, rexecutor::job::JobStatus::Complete).into()).await.unwrap();
    let last = A::builder().with_data("done".into()).enqueue_to_backend(&b).await.unwrap();
    ms(500).await;
    assert_eq!(job(&b, last).await.status, rexecutor::job::JobStatus::Complete);
    assert_eq!(job(&b, waiting).await.status, rexecutor::job::JobStatus::Scheduled);
}
''')

bug('cron-any-executor','C17',[(C,'''UniquenessCriteria::by_executor()
            .and_within(TimeDelta::zero())
            .and_key(&self.data)''','''UniquenessCriteria::by_key(&self.data)
            .and_within(TimeDelta::zero())'''),(C,'''.and_statuses(&JobStatus::ALL)
            .and_executor();''','''.and_statuses(&JobStatus::ALL);''')],
'two cron entries of different executors with the same data that share a tick','the entries are taken for duplicates of each other: only one executor gets its job',
'''
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone())
        .with_cron_executor::<A>("* * * * * *".try_into().unwrap(), "done".into())
        .with_cron_executor::<B>("* * * * * *".try_into().unwrap(), "done".into());
    ms(4500).await;
    let all = jobs(&b).await;
    let (a, c) = (all.iter().filter(|j| j.executor == "a").count(), all.iter().filter(|j| j.executor == "b").count());
    println!("{a} {c}");
    assert!(a >= 3 && c >= 3);
}
''')

bug('cron-late-tick','C18',[(C,'.schedule_at(scheduled_at)','// A tick in the past is run now.\n            .schedule_at(scheduled_at.max(Utc::now()))')],
'an instance that is held up for more than ten milliseconds right before a tick','an instance that reaches a tick late enqueues it for another time, so it is not recognised as the job the other instance enqueued: the tick runs twice',
'''
fn main() {
    let b = InMemoryBackend::new();
    let run = |b: InMemoryBackend, stall: bool| {
        std::thread::spawn(move || {
            tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async move {
                let _r = Rexecutor::new(b.clone()).with_cron_executor::<A>("* * * * * *".try_into().unwrap(), "done".into());
                let t = Instant::now();
                while t.elapsed() < Duration::from_secs(6) {
                    let left = 1000 - Utc::now().timestamp_subsec_millis() as u64;
                    if stall && left > 60 {
                        ms(left - 50).await;
                        // the thread is held up across the tick
                        std::thread::sleep(Duration::from_millis(120));
                    } else {
                        ms(20).await;
                    }
                }
            })
        })
    };
    let (x, y) = (run(b.clone(), false), run(b.clone(), true));
    x.join().unwrap();
    y.join().unwrap();
    let all = tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(jobs(&b));
    for j in &all {
        assert_eq!(j.scheduled_at.timestamp_subsec_nanos(), 0, "{j:?}");
    }
    assert!(all.len() <= 7);
}
''')

bug('update-wakes-scheduled-only','C20',[(M,'''                self.notify_subscribers(j.executor.as_str(), j.scheduled_at)?;
                Ok(())
            }
        }
    }
    async fn query''','''                if j.status == JobStatus::Scheduled {
                    self.notify_subscribers(j.executor.as_str(), j.scheduled_at)?;
                }
                Ok(())
            }
        }
    }
    async fn query''')],
'an update to an earlier time of a job that waits for its retry, with an otherwise idle executor','the executor is not woken: the job starts up to 30 seconds late',
'''
executor!(D, "c", false, None, None, 60_000);
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(b.clone()).with_executor::<D>();
    ms(100).await;
    let id = D::builder().with_data("err,done".into()).enqueue_to_backend(&b).await.unwrap();
    ms(500).await;
    let mut j = job(&b, id).await;
    assert_eq!(j.status, rexecutor::job::JobStatus::Retryable);
    j.scheduled_at = Utc::now();
    b.update_job(j).await.unwrap();
    ms(2000).await;
    assert_eq!(events("start").len(), 2);
}
''')

bug('retry-recorded-twice','C06',[(R,'''            let _ = self
                .backend
                .mark_job_retryable(job_id, next_scheduled_at, error)
                .await
''','''            let mut recorded = self
                .backend
                .mark_job_retryable(job_id, next_scheduled_at, error.clone())
                .await;
            if recorded.is_err() {
                // Try again before giving up.
                recorded = self
                    .backend
                    .mark_job_retryable(job_id, next_scheduled_at, error)
                    .await;
            }
            let _ = recorded
''')],
'the reply to the recording of a failure is lost after it took effect','the failure is recorded a second time: the error history has two entries for one attempt',
'''
use rexecutor::backend::{BackendError, EnqueuableJob};
#[derive(Clone)]
struct Flaky(InMemoryBackend);
#[async_trait::async_trait]
impl Backend for Flaky {
    async fn subscribe_ready_jobs(&self, e: rexecutor::executor::ExecutorIdentifier) -> std::pin::Pin<Box<dyn futures::Stream<Item = Result<rexecutor::backend::Job, BackendError>> + Send>> {
        self.0.subscribe_ready_jobs(e).await
    }
    async fn enqueue<'a>(&self, j: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        self.0.enqueue(j).await
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
        self.0.mark_job_complete(id).await
    }
    async fn mark_job_retryable(&self, id: JobId, t: chrono::DateTime<Utc>, e: rexecutor::backend::ExecutionError) -> Result<(), BackendError> {
        // recorded, but the reply is lost
        self.0.mark_job_retryable(id, t, e).await?;
        Err(BackendError::Io(std::io::Error::other("connection reset")))
    }
    async fn mark_job_discarded(&self, id: JobId, e: rexecutor::backend::ExecutionError) -> Result<(), BackendError> {
        self.0.mark_job_discarded(id, e).await
    }
    async fn mark_job_cancelled(&self, id: JobId, e: rexecutor::backend::ExecutionError) -> Result<(), BackendError> {
        self.0.mark_job_cancelled(id, e).await
    }
    async fn mark_job_snoozed(&self, id: JobId, t: chrono::DateTime<Utc>) -> Result<(), BackendError> {
        self.0.mark_job_snoozed(id, t).await
    }
    async fn prune_jobs(&self, s: &rexecutor::pruner::PruneSpec) -> Result<(), BackendError> {
        self.0.prune_jobs(s).await
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> {
        self.0.rerun_job(id).await
    }
    async fn update_job(&self, j: rexecutor::backend::Job) -> Result<(), BackendError> {
        self.0.update_job(j).await
    }
    async fn query<'a>(&self, q: Query<'a>) -> Result<Vec<rexecutor::backend::Job>, BackendError> {
        self.0.query(q).await
    }
}
#[tokio::main]
async fn main() {
    let b = InMemoryBackend::new();
    let _r = Rexecutor::new(Flaky(b.clone())).with_executor::<A>();
    ms(100).await;
    let id = A::builder().with_data("err,done".into()).enqueue_to_backend(&b).await.unwrap();
    ms(800).await;
    let errors: Vec<u16> = job(&b, id).await.errors.iter().map(|e| e.attempt).collect();
    assert_eq!(errors, vec![1]);
}
''')

bug('update-swaps-priority','C20',[(BK,None,None)],'','','') if False else None

if __name__=='__main__':
    only=sys.argv[1:]
    for id,(prop,edits,needs,breaks,main) in bugs.items():
        if only and id not in only: continue
        ok=True
        for f,a,b in edits:
            s=open('/repo/'+f).read()
            if s.count(a)!=1: print(id,'EDIT',f,s.count(a)); ok=False; break
            open('/repo/'+f,'w').write(s.replace(a,b))
        d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
        diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
        subprocess.run(['git','-C','/repo','checkout','--','.'])
        if not ok: continue
        shutil.copy('/tmp/seed/demo.sh',d+'/demo.sh')
        open(d+'/main.rs','w').write(open('/tmp/seed/prelude.rs').read()+main)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
