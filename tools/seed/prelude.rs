#![allow(dead_code, unused_imports, unused_variables)]
use chrono::{TimeDelta, Utc};
use rexecutor::backend::{memory::InMemoryBackend, Backend, Query};
use rexecutor::job::JobId;
use rexecutor::prelude::*;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
struct Ev {
    at: Instant,
    id: i32,
    attempt: u16,
    what: String,
    data: String,
    errors: usize,
}
static LOG: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
fn log(job: &Job<String, ()>, what: &str) {
    LOG.lock().unwrap().push(Ev { at: Instant::now(), id: job.id.into(), attempt: job.attempt, what: what.into(), data: job.data.clone(), errors: job.errors.len() });
}
fn events(what: &str) -> Vec<Ev> {
    LOG.lock().unwrap().iter().filter(|e| e.what == what).cloned().collect()
}
#[derive(Debug)]
struct MyErr;
impl std::fmt::Display for MyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("failed")
    }
}
impl std::error::Error for MyErr {}
impl ExecutionError for MyErr {
    fn error_type(&self) -> &'static str {
        "mine"
    }
}
/// The data is a list of comma separated steps, one per execution.
async fn act(job: Job<String, ()>) -> ExecutionResult {
    let n = events("start").iter().filter(|e| e.id == i32::from(job.id)).count();
    log(&job, "start");
    let steps: Vec<&str> = job.data.split(',').collect();
    let mut step = steps.get(n).copied().unwrap_or("done");
    if let Some((ms, rest)) = step.strip_prefix("sleep:").and_then(|s| s.split_once('+')) {
        tokio::time::sleep(Duration::from_millis(ms.parse().unwrap())).await;
        step = rest;
    }
    log(&job, "end");
    if let Some(ms) = step.strip_prefix("snooze:") {
        return ExecutionResult::Snooze { delay: TimeDelta::milliseconds(ms.parse().unwrap()) };
    }
    match step {
        "err" => MyErr.into(),
        "panic" => panic!("boom"),
        "cancel" => ExecutionResult::Cancel { reason: Box::new("no") },
        _ => ExecutionResult::Done,
    }
}
macro_rules! executor {
    ($t:ident, $name:expr, $blocking:expr, $limit:expr, $timeout:expr, $backoff_ms:expr) => {
        struct $t;
        #[async_trait::async_trait]
        impl Executor for $t {
            type Data = String;
            type Metadata = ();
            const NAME: &'static str = $name;
            const BLOCKING: bool = $blocking;
            const MAX_CONCURRENCY: Option<usize> = $limit;
            async fn execute(job: Job<String, ()>) -> ExecutionResult {
                act(job).await
            }
            fn timeout(_: &Job<String, ()>) -> Option<Duration> {
                $timeout
            }
            fn backoff(_: &Job<String, ()>) -> TimeDelta {
                TimeDelta::milliseconds($backoff_ms)
            }
        }
    };
}
executor!(A, "a", false, None, None, 50);
executor!(B, "b", false, None, None, 50);
executor!(C, "c", false, None, None, 50);
async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await
}
async fn jobs(b: &InMemoryBackend) -> Vec<rexecutor::backend::Job> {
    b.query(Query::Or(vec![Query::ExecutorEqual("a"), Query::ExecutorEqual("b"), Query::ExecutorEqual("c")])).await.unwrap()
}
async fn job(b: &InMemoryBackend, id: JobId) -> rexecutor::backend::Job {
    b.query(Query::IdEquals(id)).await.unwrap().remove(0)
}
