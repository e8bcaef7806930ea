From c743ee0f07fd37ffbf08af7ca8c3ee0ad4fad392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:06 +0000
Subject: [PATCH 01/18] hook: yield points for deterministic simulation in the
 in-memory backend (cfg rexecutor_sim)

---
 rexecutor/src/backend/memory.rs | 12 +++--
 rexecutor/src/lib.rs            |  4 ++
 rexecutor/src/sim.rs            | 86 +++++++++++++++++++++++++++++++++
 3 files changed, 98 insertions(+), 4 deletions(-)
 create mode 100644 rexecutor/src/sim.rs

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index a432524..5484d3d 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -7,12 +7,16 @@ use std::{
     collections::HashMap,
     ops::Sub,
     pin::Pin,
-    sync::{
-        Arc, RwLock,
-        atomic::{AtomicBool, AtomicI32, Ordering},
-    },
+    sync::{Arc, atomic::Ordering},
+};
+#[cfg(not(rexecutor_sim))]
+use std::sync::{
+    RwLock,
+    atomic::{AtomicBool, AtomicI32},
 };
 
+#[cfg(rexecutor_sim)]
+use crate::sim::{AtomicBool, AtomicI32, RwLock};
 use crate::{
     executor::ExecutorIdentifier,
     job::{
diff --git a/rexecutor/src/lib.rs b/rexecutor/src/lib.rs
index 47bb8ad..a4f7356 100644
--- a/rexecutor/src/lib.rs
+++ b/rexecutor/src/lib.rs
@@ -430,6 +430,8 @@
 //! Note, using a global backend has many of the same drawbacks of any global variable in
 //! particular it can make unit testing more difficult.
 #![deny(missing_docs)]
+// `rexecutor_sim` is set by the deterministic simulation harness only.
+#![allow(unexpected_cfgs)]
 use std::{hash::Hash, marker::PhantomData};
 
 pub mod backend;
@@ -441,6 +443,8 @@ pub mod global_backend;
 pub mod job;
 pub mod prelude;
 pub mod pruner;
+#[cfg(rexecutor_sim)]
+mod sim;
 pub mod testing;
 
 use backend::{Backend, BackendError};
diff --git a/rexecutor/src/sim.rs b/rexecutor/src/sim.rs
new file mode 100644
index 0000000..db270a1
--- /dev/null
+++ b/rexecutor/src/sim.rs
@@ -0,0 +1,86 @@
+//! Hooks for deterministic simulation testing.
+//!
+//! Only compiled with `--cfg rexecutor_sim`. The types in this module behave exactly like their
+//! [`std::sync`] counterparts, except that each operation first calls the function
+//! `rexecutor_sim_yield`, which the simulator provides, and which may let another simulated thread
+//! run.
+use std::{
+    ops::Deref,
+    sync::{
+        LockResult, RwLockReadGuard, RwLockWriteGuard,
+        atomic::{self, Ordering},
+    },
+};
+
+unsafe extern "Rust" {
+    fn rexecutor_sim_yield();
+}
+
+fn yield_point() {
+    // Safety: the simulator defines this function with this signature.
+    unsafe { rexecutor_sim_yield() }
+}
+
+#[derive(Debug, Default)]
+pub(crate) struct RwLock<T>(std::sync::RwLock<T>);
+
+impl<T> RwLock<T> {
+    #[allow(dead_code)]
+    pub(crate) fn new(value: T) -> Self {
+        Self(std::sync::RwLock::new(value))
+    }
+
+    pub(crate) fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        yield_point();
+        self.0.read()
+    }
+
+    pub(crate) fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        yield_point();
+        self.0.write()
+    }
+}
+
+impl<T> Deref for RwLock<T> {
+    type Target = std::sync::RwLock<T>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+macro_rules! atomic {
+    ($name:ident, $value:ty) => {
+        #[derive(Debug, Default)]
+        pub(crate) struct $name(atomic::$name);
+
+        #[allow(dead_code)]
+        impl $name {
+            pub(crate) const fn new(value: $value) -> Self {
+                Self(atomic::$name::new(value))
+            }
+
+            pub(crate) fn load(&self, ordering: Ordering) -> $value {
+                yield_point();
+                self.0.load(ordering)
+            }
+
+            pub(crate) fn store(&self, value: $value, ordering: Ordering) {
+                yield_point();
+                self.0.store(value, ordering)
+            }
+        }
+
+        impl Deref for $name {
+            type Target = atomic::$name;
+
+            fn deref(&self) -> &Self::Target {
+                yield_point();
+                &self.0
+            }
+        }
+    };
+}
+
+atomic!(AtomicI32, i32);
+atomic!(AtomicBool, bool);
-- 
2.43.0


From fa119e39be987cb5910aed31bec3f4431c15a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:06 +0000
Subject: [PATCH 02/18] fix: updating a job in the in-memory backend only
 changes its editable fields

update_job overwrote the whole stored job with the caller's snapshot, so an
update racing with a claim reset the status and attempt of a running job and
it was executed twice.
---
 rexecutor/src/backend/memory.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index 5484d3d..e7b7ed9 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -502,7 +502,12 @@ impl Backend for InMemoryBackend {
         match jobs.iter_mut().find(|j| j.id == job.id) {
             None => Err(BackendError::JobNotFound(job.id.into())),
             Some(j) => {
-                j.job = job;
+                j.data = job.data;
+                j.metadata = job.metadata;
+                j.max_attempts = job.max_attempts;
+                j.scheduled_at = job.scheduled_at;
+                j.priority = job.priority;
+                j.tags = job.tags;
                 self.notify_subscribers(j.executor.as_str(), j.scheduled_at)?;
                 Ok(())
             }
-- 
2.43.0


From 7d6e38919b70f81bacc2607bdf77fd03f95640d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:06 +0000
Subject: [PATCH 03/18] fix: unique enqueue in the in-memory backend is atomic

The check for a conflicting job and the insert took the lock separately, so
two concurrent enqueues with the same uniqueness criteria both inserted.
---
 rexecutor/src/backend/memory.rs | 38 +++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index e7b7ed9..c18d59f 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -216,31 +216,37 @@ impl InMemoryBackend {
     }
 
     fn insert_new_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
+        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
+        self.push_job(&mut jobs, job)
+    }
+
+    fn push_job(
+        &self,
+        jobs: &mut Vec<KeyedJob>,
+        job: EnqueuableJob<'_>,
+    ) -> Result<JobId, BackendError> {
         let executor = job.executor.clone();
         let scheduled_at = job.scheduled_at;
         let id = self.id_counter.fetch_add(1, Ordering::SeqCst);
 
-        self.jobs
-            .write()
-            .map_err(|_| BackendError::BadState)?
-            .push(job.into_job(id));
+        jobs.push(job.into_job(id));
 
         self.notify_subscribers(executor.as_str(), scheduled_at)?;
 
         Ok(id.into())
     }
 
-    async fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
-        let matching_jobs = self.matching_jobs(&job)?;
-        if matching_jobs.is_empty() {
-            self.insert_new_job(job)
-        } else {
-            // TODO: what is the correct behaviour when there are multiple matching jobs
-            let mut matching_job = matching_jobs.into_iter().next().unwrap();
-            matching_job.replace(job);
-            let id = matching_job.id;
-            self.update_job(matching_job.job).await?;
-            Ok(id.into())
+    fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
+        // The lock needs to be held from the check until the job is inserted or replaced.
+        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
+        // TODO: what is the correct behaviour when there are multiple matching jobs
+        match jobs.iter_mut().find(|existing| job.matches(existing)) {
+            None => self.push_job(&mut jobs, job),
+            Some(existing) => {
+                existing.replace(job);
+                self.notify_subscribers(existing.executor.as_str(), existing.scheduled_at)?;
+                Ok(existing.id.into())
+            }
         }
     }
 }
@@ -387,7 +393,7 @@ impl Backend for InMemoryBackend {
     async fn enqueue<'a>(&self, job: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
         match job.uniqueness_criteria {
             None => self.insert_new_job(job),
-            Some(_) => self.insert_unique_job(job).await,
+            Some(_) => self.insert_unique_job(job),
         }
     }
     async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> {
-- 
2.43.0


From 164aabc93c46e6146d5279dbca371bd0118f03fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 04/18] fix: pruning by length in the in-memory backend keeps
 the most recent jobs

It removed the first `length` matching jobs instead of leaving `length` of
them: five complete jobs pruned to a maximum length of two left three, and
one complete job pruned to a maximum length of ten was removed.
---
 rexecutor/src/backend/memory.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index c18d59f..f093bff 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -4,7 +4,7 @@
 //!
 //! It is not optimized instead is designed to be a correct implementation for use in a test setup.
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     ops::Sub,
     pin::Pin,
     sync::{Arc, atomic::Ordering},
@@ -467,6 +467,10 @@ impl Backend for InMemoryBackend {
     }
     async fn prune_jobs(&self, prune_spec: &PruneSpec) -> Result<(), BackendError> {
         let now = Utc::now();
+        let finished = matches!(
+            prune_spec.status,
+            JobStatus::Complete | JobStatus::Cancelled | JobStatus::Discarded
+        );
         let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
         match prune_spec.prune_by {
             PruneBy::MaxAge(delta) => {
@@ -479,15 +483,22 @@ impl Backend for InMemoryBackend {
                 });
             }
             PruneBy::MaxLength(length) => {
-                let mut count = 0;
-                jobs.retain(|job| {
-                    if prune_spec.matches(job) {
-                        count += 1;
-                        count > length
-                    } else {
-                        true
-                    }
-                });
+                let mut matching = jobs
+                    .iter()
+                    .filter(|job| prune_spec.matches(job))
+                    .map(|job| (job.scheduled_at, job.id))
+                    .collect::<Vec<_>>();
+                matching.sort();
+                if finished {
+                    // Keep the most recent ones
+                    matching.reverse();
+                }
+                let surplus = matching
+                    .into_iter()
+                    .skip(length as usize)
+                    .map(|(_, id)| id)
+                    .collect::<HashSet<_>>();
+                jobs.retain(|job| !surplus.contains(&job.id));
             }
         };
         Ok(())
-- 
2.43.0


From 405a922f7ea3cf9c2d725d3581db238f444e1c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 05/18] fix: pruning by age in the in-memory backend keeps
 finished jobs scheduled in the future

A finished job (for instance one cancelled long before its scheduled time) is
not older than the maximum age, but was removed.
---
 rexecutor/src/backend/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index f093bff..df9c636 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -478,7 +478,7 @@ impl Backend for InMemoryBackend {
                 let max_scheduled_at = now + delta;
                 jobs.retain(|job| {
                     !prune_spec.matches(job)
-                        || (job.scheduled_at < max_scheduled_at
+                        || ((finished || job.scheduled_at < max_scheduled_at)
                             && job.scheduled_at > min_scheduled_at)
                 });
             }
-- 
2.43.0


From f88cfa52d2dd41957d531b3958fa1b68b1205c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 06/18] fix: uniqueness criteria without a key match jobs with
 any key in the in-memory backend

As documented (and as the Postgres backend does), without a key a job is
compared against all other jobs matching the remainder of the criteria.
---
 rexecutor/src/backend/queryable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexecutor/src/backend/queryable.rs b/rexecutor/src/backend/queryable.rs
index 8bdd44a..54e73f1 100644
--- a/rexecutor/src/backend/queryable.rs
+++ b/rexecutor/src/backend/queryable.rs
@@ -52,7 +52,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
         match self.uniqueness_criteria {
             None => false,
             Some(ref uniqueness_criteria @ UniquenessCriteria { duration: None, .. }) => {
-                uniqueness_criteria.key == job.key
+                uniqueness_criteria.key.is_none_or(|key| job.key == Some(key))
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
             }
@@ -62,7 +62,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
                     ..
                 },
             ) => {
-                uniqueness_criteria.key == job.key
+                uniqueness_criteria.key.is_none_or(|key| job.key == Some(key))
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
                     && (job.scheduled_at - Utc::now()).abs() < duration
-- 
2.43.0


From b3c3c71acfc09e99d8e3f2831ed8024449530671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 07/18] fix: discard a failing job that already exceeded its
 maximum attempts

Lowering max_attempts (by an update or a unique replacement) to or below the
attempts already made, or enqueuing with zero max attempts, made the job
retry forever.
---
 rexecutor/src/job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 7829447..1286e2e 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -138,7 +138,7 @@ where
 
 impl<D, M> Job<D, M> {
     pub(crate) fn is_final_attempt(&self) -> bool {
-        self.attempt == self.max_attempts
+        self.attempt >= self.max_attempts
     }
 }
 
-- 
2.43.0


From eb76fa5a2546314a41296be7110eb3d6b173770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 08/18] fix: a stored job with out of range numbers no longer
 stops its executor

Decoding such a job (for example one with 65535 max attempts after a rerun)
panicked inside the job runner, which ended it; no further job of that
executor was run.
---
 rexecutor/src/job.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 1286e2e..8ca5b84 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -121,10 +121,10 @@ where
             executor: value.executor,
             data,
             metadata,
-            attempt: value.attempt.try_into().unwrap(),
+            attempt: try_u16(value.attempt)?,
             attempted_at: value.attempted_at,
-            max_attempts: value.max_attempts.try_into().unwrap(),
-            priority: value.priority.try_into().unwrap(),
+            max_attempts: try_u16(value.max_attempts)?,
+            priority: try_u16(value.priority)?,
             tags: value.tags,
             errors: value.errors,
             inserted_at: value.inserted_at,
@@ -136,6 +136,10 @@ where
     }
 }
 
+fn try_u16(value: i32) -> Result<u16, serde_json::Error> {
+    value.try_into().map_err(serde::de::Error::custom)
+}
+
 impl<D, M> Job<D, M> {
     pub(crate) fn is_final_attempt(&self) -> bool {
         self.attempt >= self.max_attempts
-- 
2.43.0


From 349f0cd95fb39fa7499f7abbe33a77344c945eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 09/18] fix: the pruner respects its maximum concurrency

All pruners were started at once; the limit only applied to logging errors.
---
 rexecutor/src/pruner/runner.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rexecutor/src/pruner/runner.rs b/rexecutor/src/pruner/runner.rs
index 0050e00..d864402 100644
--- a/rexecutor/src/pruner/runner.rs
+++ b/rexecutor/src/pruner/runner.rs
@@ -1,7 +1,7 @@
 use std::{ops::Sub, time::Duration};
 
 use chrono::{TimeDelta, Utc};
-use futures::{StreamExt, stream::FuturesOrdered};
+use futures::{StreamExt, stream};
 use tokio_util::sync::CancellationToken;
 
 use crate::backend::Backend;
@@ -54,14 +54,11 @@ where
     }
 
     async fn prune(&self) {
-        self.config
-            .pruners
-            .iter()
-            .map(|prune_spec| self.backend.prune_jobs(prune_spec))
-            .collect::<FuturesOrdered<_>>()
-            .filter_map(|res| async { res.err() })
-            .for_each_concurrent(self.config.max_concurrency, |err| async move {
-                tracing::error!(?err, "Failed to clean up jobs with error {err}")
+        stream::iter(&self.config.pruners)
+            .for_each_concurrent(self.config.max_concurrency, |prune_spec| async move {
+                if let Err(err) = self.backend.prune_jobs(prune_spec).await {
+                    tracing::error!(?err, "Failed to clean up jobs with error {err}")
+                }
             })
             .await;
     }
-- 
2.43.0


From f52f17589f0103736854710e73dffec240ef89f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:21 +0000
Subject: [PATCH 10/18] fix: delays beyond the representable time no longer
 stop the executor

---
 rexecutor/src/backoff.rs    | 18 +++++++++++++-----
 rexecutor/src/job/runner.rs | 19 +++++++++++++++----
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/rexecutor/src/backoff.rs b/rexecutor/src/backoff.rs
index 22fd077..f5e496e 100644
--- a/rexecutor/src/backoff.rs
+++ b/rexecutor/src/backoff.rs
@@ -110,7 +110,7 @@ impl Strategy for Exponential {
         if let Some(max) = self.max {
             seconds = seconds.min(max.num_seconds());
         }
-        TimeDelta::seconds(seconds)
+        TimeDelta::try_seconds(seconds).unwrap_or(TimeDelta::MAX)
     }
 }
 
@@ -143,7 +143,10 @@ pub struct Linear {
 
 impl Strategy for Linear {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * attempt.into();
+        let mut backoff = self
+            .factor
+            .checked_mul(attempt.into())
+            .unwrap_or(TimeDelta::MAX);
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -183,7 +186,10 @@ pub struct Polynomial {
 
 impl Strategy for Polynomial {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * (attempt as i32).pow(self.power);
+        let mut backoff = (attempt as i32)
+            .checked_pow(self.power)
+            .and_then(|multiple| self.factor.checked_mul(multiple))
+            .unwrap_or(TimeDelta::MAX);
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -207,7 +213,9 @@ impl Jitter {
             Self::Relative(ratio) => (value.num_milliseconds() as f64 * ratio).round() as i64,
         };
         let rand_jitter_seconds = rand::rng().random_range(-milliseconds..=milliseconds);
-        value + TimeDelta::milliseconds(rand_jitter_seconds)
+        value
+            .checked_add(&TimeDelta::milliseconds(rand_jitter_seconds))
+            .unwrap_or(value)
     }
 }
 
@@ -424,7 +432,7 @@ where
         let mut backoff = self.strategy.backoff(attempt);
 
         if let Some(additional_offset) = self.additional_offset {
-            backoff += additional_offset;
+            backoff = backoff.checked_add(&additional_offset).unwrap_or(backoff);
         }
 
         if let Some(jitter) = self.jitter {
diff --git a/rexecutor/src/job/runner.rs b/rexecutor/src/job/runner.rs
index d22508e..c3a5e14 100644
--- a/rexecutor/src/job/runner.rs
+++ b/rexecutor/src/job/runner.rs
@@ -1,6 +1,6 @@
 use std::{marker::PhantomData, time::Duration};
 
-use chrono::{TimeDelta, Utc};
+use chrono::{DateTime, TimeDelta, Utc};
 use futures::StreamExt;
 use serde::de::DeserializeOwned;
 use tokio::task::JoinError;
@@ -176,7 +176,7 @@ where
     }
 
     async fn handle_job_snoozed(&self, job_id: JobId, delay: TimeDelta) {
-        let next_scheduled_at = Utc::now() + delay;
+        let next_scheduled_at = time_after(delay);
         tracing::info!(%job_id, "Job {job_id} snoozed until {next_scheduled_at}");
         let _ = self
             .backend
@@ -245,7 +245,7 @@ where
                     )
                 });
         } else {
-            let next_scheduled_at = Utc::now() + delay;
+            let next_scheduled_at = time_after(delay);
             tracing::warn!(
                 %job_id,
                 ?error,
@@ -255,7 +255,7 @@ where
             );
             let _ = self
                 .backend
-                .mark_job_retryable(job_id, Utc::now() + delay, error)
+                .mark_job_retryable(job_id, next_scheduled_at, error)
                 .await
                 .inspect_err(|err| {
                     tracing::error!(
@@ -268,6 +268,17 @@ where
     }
 }
 
+/// The time `delay` from now, saturating instead of overflowing for delays which are not
+/// representable.
+fn time_after(delay: TimeDelta) -> DateTime<Utc> {
+    let now = Utc::now();
+    match now.checked_add_signed(delay) {
+        Some(time) => time,
+        None if delay < TimeDelta::zero() => now,
+        None => DateTime::<Utc>::MAX_UTC,
+    }
+}
+
 impl From<JoinError> for crate::backend::ExecutionError {
     fn from(value: JoinError) -> Self {
         let msg = value.to_string();
-- 
2.43.0


From 2103b10f1afbda774bdf3cb5cbaea20d6a81c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:44 +0000
Subject: [PATCH 11/18] fix: instances sharing a backend enqueue each cron tick
 only once

---
 rexecutor/src/backend/queryable.rs | 3 ++-
 rexecutor/src/cron_runner.rs       | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/rexecutor/src/backend/queryable.rs b/rexecutor/src/backend/queryable.rs
index 54e73f1..9307778 100644
--- a/rexecutor/src/backend/queryable.rs
+++ b/rexecutor/src/backend/queryable.rs
@@ -65,7 +65,8 @@ impl<'a> Queryable for EnqueuableJob<'a> {
                 uniqueness_criteria.key.is_none_or(|key| job.key == Some(key))
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
-                    && (job.scheduled_at - Utc::now()).abs() < duration
+                    && ((job.scheduled_at - Utc::now()).abs() < duration
+                        || job.scheduled_at == self.scheduled_at)
             }
         }
     }
diff --git a/rexecutor/src/cron_runner.rs b/rexecutor/src/cron_runner.rs
index 25ef308..ce645a9 100644
--- a/rexecutor/src/cron_runner.rs
+++ b/rexecutor/src/cron_runner.rs
@@ -5,7 +5,11 @@ use cron::Schedule;
 use serde::{Serialize, de::DeserializeOwned};
 use tokio_util::sync::CancellationToken;
 
-use crate::{backend::Backend, executor::Executor, job::uniqueness_criteria::UniquenessCriteria};
+use crate::{
+    backend::Backend,
+    executor::Executor,
+    job::{JobStatus, uniqueness_criteria::UniquenessCriteria},
+};
 
 pub(crate) struct CronRunner<B, E>
 where
@@ -77,6 +81,8 @@ where
         let criteria = UniquenessCriteria::by_executor()
             .and_within(TimeDelta::zero())
             .and_key(&self.data)
+            // Another instance may already have executed the job for this tick.
+            .and_statuses(&JobStatus::ALL)
             .and_executor();
 
         let _ = E::builder()
-- 
2.43.0


From c6c52210acd64d257302bd6c06f4161d654d65cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:48 +0000
Subject: [PATCH 12/18] fix: combined queries on Postgres keep the precedence
 of their parts

---
 rexecutor-sqlx/src/query.rs | 47 ++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 8a8abef..1800a00 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -89,27 +89,12 @@ impl ToQuery for Query<'_> {
 fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'_>) {
     match query {
         Query::Not(inner) => {
-            builder.push(" NOT");
+            builder.push(" NOT (");
             handle_query(builder, inner);
+            builder.push(")");
         }
-        Query::And(queries) => {
-            if let Some((last, elements)) = &queries[..].split_last() {
-                elements.iter().for_each(|query| {
-                    handle_query(builder, query);
-                    builder.push(" AND");
-                });
-                handle_query(builder, last);
-            }
-        }
-        Query::Or(queries) => {
-            if let Some((last, elements)) = &queries[..].split_last() {
-                elements.iter().for_each(|query| {
-                    handle_query(builder, query);
-                    builder.push(" OR");
-                });
-                handle_query(builder, last);
-            }
-        }
+        Query::And(queries) => handle_queries(builder, queries, " AND", " TRUE"),
+        Query::Or(queries) => handle_queries(builder, queries, " OR", " FALSE"),
         Query::DataEquals(data) => {
             builder.push(" data = ");
             builder.push_bind(data);
@@ -164,6 +149,30 @@ fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'
     }
 }
 
+/// Joins the given queries with the operator, in parentheses so that the precedence of the
+/// operators used in the individual queries is preserved.
+fn handle_queries<'a>(
+    builder: &mut QueryBuilder<'a, Postgres>,
+    queries: &'a [Query<'_>],
+    operator: &str,
+    empty: &str,
+) {
+    builder.push(" (");
+    match queries.split_last() {
+        Some((last, elements)) => {
+            elements.iter().for_each(|query| {
+                handle_query(builder, query);
+                builder.push(operator);
+            });
+            handle_query(builder, last);
+        }
+        None => {
+            builder.push(empty);
+        }
+    }
+    builder.push(")");
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From c57df2493ade97111b0b34d88c6980486e05061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:48 +0000
Subject: [PATCH 13/18] fix: querying several job ids on Postgres matches any
 of them

---
 rexecutor-sqlx/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 1800a00..170d6f4 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -116,7 +116,7 @@ fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'
                 .iter()
                 .map(|job_id| Into::<i32>::into(*job_id))
                 .collect();
-            builder.push(" id = All(");
+            builder.push(" id = ANY(");
             builder.push_bind(ids);
             builder.push(")");
         }
-- 
2.43.0


From cb5cc86e1424dc04ae9d208c5cfdb858ae779441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:48 +0000
Subject: [PATCH 14/18] fix: unique jobs are stored with the key they are
 looked up by on Postgres

---
 rexecutor-sqlx/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 34e50a7..a7a0f69 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -218,7 +218,7 @@ impl RexecutorPgBackend {
                     job.scheduled_at,
                     job.priority as i32,
                     &job.tags,
-                    unique_identifier,
+                    uniqueness_criteria.key,
                 )
                 .fetch_one(&mut *tx)
                 .await?;
-- 
2.43.0


From 1f697135ea0901b23964242fec7de0ed9488c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:48 +0000
Subject: [PATCH 15/18] fix: an undecodable notification no longer stops the
 Postgres listener

---
 rexecutor-sqlx/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index a7a0f69..8716afa 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -81,8 +81,15 @@ impl RexecutorPgBackend {
             let subscribers = this.subscribers.clone();
             async move {
                 while let Ok(notification) = listener.recv().await {
-                    let notification =
-                        serde_json::from_str::<Notification>(notification.payload()).unwrap();
+                    let notification = match serde_json::from_str::<Notification>(
+                        notification.payload(),
+                    ) {
+                        Ok(notification) => notification,
+                        Err(error) => {
+                            tracing::error!(?error, "Failed to decode notification: {error}");
+                            continue;
+                        }
+                    };
 
                     match subscribers
                         .read()
-- 
2.43.0


From 5dac1e3132ced67ba884d2dec33e5cdfc8e94bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:22 +0000
Subject: [PATCH 16/18] fix: pruning on Postgres keeps jobs whose status
 changed concurrently

---
 rexecutor-sqlx/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 8716afa..eb267c5 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -414,7 +414,12 @@ impl RexecutorPgBackend {
     }
 
     async fn delete_from_spec(&self, spec: &PruneSpec) -> sqlx::Result<()> {
-        let result = spec.query().build().execute(&self.pool).await?;
+        let mut query = spec.query();
+        // The job might have changed its status since it was selected by the subquery, in which
+        // case it should no longer be removed.
+        query.push(" AND status = ");
+        query.push_bind(JobStatus::from(spec.status));
+        let result = query.build().execute(&self.pool).await?;
         tracing::debug!(
             ?spec,
             "Clean up query completed {} rows removed",
-- 
2.43.0


From 11a195dbeee035f99ecb17356f143bb3c6233e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:22 +0000
Subject: [PATCH 17/18] fix: a conflicting job is locked until its replacement
 on Postgres

---
 rexecutor-sqlx/src/unique.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/unique.rs b/rexecutor-sqlx/src/unique.rs
index a2022d4..39ad91f 100644
--- a/rexecutor-sqlx/src/unique.rs
+++ b/rexecutor-sqlx/src/unique.rs
@@ -59,7 +59,8 @@ impl<'a> Unique for UniquenessCriteria<'a> {
         }
         // TODO: orderby closest to today
         // builder.push(" ORDER BY scheduled_at ")
-        builder.push(" LIMIT 1");
+        // Lock the conflicting job so that its status can't change before it is replaced.
+        builder.push(" LIMIT 1 FOR UPDATE");
 
         builder
     }
-- 
2.43.0


From a8a57684136c278edd98f146e771c817a66e2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:40 +0000
Subject: [PATCH 18/18] fix: a replacement of no fields is not an error on
 Postgres

---
 rexecutor-sqlx/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index eb267c5..f26e55e 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -6,7 +6,10 @@ use std::{collections::HashMap, sync::Arc};
 use chrono::{DateTime, Utc};
 use rexecutor::{
     backend::{BackendError, EnqueuableJob, ExecutionError, Query},
-    job::{JobId, uniqueness_criteria::Resolution},
+    job::{
+        JobId,
+        uniqueness_criteria::{Replace, Resolution},
+    },
     pruner::PruneSpec,
 };
 use serde::Deserialize;
@@ -236,6 +239,17 @@ impl RexecutorPgBackend {
                 let job_id = val.get::<i32, _>(0);
                 let status = val.get::<JobStatus, _>(1);
                 match uniqueness_criteria.on_conflict {
+                    // There is nothing to replace.
+                    Resolution::Replace(Replace {
+                        scheduled_at: false,
+                        data: false,
+                        metadata: false,
+                        priority: false,
+                        max_attempts: false,
+                        ..
+                    }) => {
+                        tx.rollback().await?;
+                    }
                     Resolution::Replace(replace)
                         if replace
                             .for_statuses
-- 
2.43.0

