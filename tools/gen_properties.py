#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
MEM="rexecutor/src/backend/memory.rs"; RUN="rexecutor/src/job/runner.rs"; CRON="rexecutor/src/cron_runner.rs"
PRN="rexecutor/src/pruner/runner.rs"; PCFG="rexecutor/src/pruner.rs"; LIB="rexecutor/src/lib.rs"; EXE="rexecutor/src/executor.rs"; BLD="rexecutor/src/job/builder.rs"
QRY="rexecutor/src/backend/queryable.rs"; JOB="rexecutor/src/job.rs"; BO="rexecutor/src/backoff.rs"; BK="rexecutor/src/backend.rs"; JQ="rexecutor/src/job/query.rs"; UC="rexecutor/src/job/uniqueness_criteria.rs"
PGL="rexecutor-sqlx/src/lib.rs"; PGB="rexecutor-sqlx/src/backend.rs"; PGS="rexecutor-sqlx/src/stream.rs"; PGQ="rexecutor-sqlx/src/query.rs"; PGU="rexecutor-sqlx/src/unique.rs"; PGT="rexecutor-sqlx/src/types.rs"
PGM="rexecutor-sqlx/migrations/20240330221437_add-job-table.up.sql"
HOOK="cfg(rexecutor_sim): yield points before the in-memory backend's lock and atomic operations, so a simulated thread can be preempted inside a backend call"

p("C01","A job is started at most once per time it becomes runnable; runs never overlap",
 "Across any number of rexecutor instances sharing one backend (in-memory or Postgres), every time a job becomes runnable (enqueue, retry, snooze, rerun of a finished job) it is started at most once, and two executions of the same job never overlap. This holds under every interleaving, with concurrent enqueues, updates, reruns and cancellations of other or the same waiting job, and with slow, failing or broken backend connections and crashed instances.",
 ["schedules","fault_sequences","crash_points","histories"],
 "all interleavings of instances, clients and backend calls; all fault sequences (slow or failing calls, lost connections, crashes)",
 "The tests run one instance, one job and one order of events; duplicate execution needs two claimers, or a stale write, to interleave inside the claim.",
 [MEM,RUN,PGL,PGS,PGM],[("claim under one write lock","memory.rs load_job_mark_as_executing_for_executor"),("UPDATE .. FOR UPDATE SKIP LOCKED","rexecutor-sqlx lib.rs load_job_mark_as_executing_for_executor"),("updates never touch status/attempt","update_job")],
 [("status/attempt","the claim state of a job","backend job row")],["Executor::execute start/end"],HOOK)
p("C02","Every accepted job is started, promptly when idle, within ~30 s after faults",
 "Once a job of a registered executor is accepted and has become due (by enqueue, retry, snooze, rerun, or a reschedule to an earlier or later time), and the executor has free capacity, it starts within one second in a fault-free system, and within about 30 seconds once backend errors, delays and connection losses have stopped. No interleaving of wake-ups, claims and enqueues loses a job, whichever instance it was enqueued on; only jobs held by an instance that crashed while holding them, or whose claim or outcome the backend failed to record, are excepted.",
 ["schedules","fault_sequences","crash_points","histories"],
 "all interleavings of producers, wake-ups and claimers; all fault sequences followed by a quiet period",
 "Tests use one job and real sleeps; a lost wake-up needs a particular interleaving of wait and notify, or an error in the wait loop.",
 [MEM,RUN,PGL,PGS,PGM],[("notify_subscribers + 30 s poll","memory.rs ReadyJobStream::next"),("NOTIFY trigger, listener task, 30 s poll","rexecutor-sqlx lib.rs from_pool, stream.rs, migration")],
 [("subscribers","wake-up channels per executor","backends")],["Executor::execute start","Backend::query"],HOOK)
p("C03","No job starts before its scheduled time",
 "No execution begins more than the 100 ms claim tolerance before the time the job is currently scheduled for, as measured by the backend's clock: neither a job enqueued for later, nor a job waiting for its retry backoff or snooze delay, nor a job rescheduled to a later time by an acknowledged update or replacement. Wake-ups caused by other jobs, instances, shutdowns, or errors never cause an early start.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of enqueues, wake-ups, retries, snoozes and reschedules on several instances",
 "Tests check one future job for a short real-time window.",
 [MEM,PGL,PGS],[("scheduled_at - now < 100 ms eligibility filter","memory.rs and rexecutor-sqlx lib.rs load_job_mark_as_executing_for_executor"),("wait until earliest scheduled_at","ReadyJobStream::next")],
 (),["Executor::execute start","Backend::query scheduled_at"])
p("C04","The recorded state of a job matches what its execution returned",
 "After an execution ends and its result is recorded, the job is complete (with a completion time) if it returned done, cancelled (with a cancellation time and the given reason) if it returned cancel, waiting again with its attempt given back and scheduled the requested delay later if it returned snooze, and otherwise waiting for retry, or discarded (with a discard time) if that was the last allowed attempt. No job stays marked as executing after its execution ended unless the backend failed to record the result, and no result is applied to another job.",
 ["schedules","fault_sequences","inputs","histories"],
 "all mixes of results (done, cancel, snooze, error, panic, timeout) over concurrently running jobs of several executors, blocking or not",
 "Tests check one result of one job at a time against a mock; here results interleave with each other, other clients and backend faults.",
 [RUN,MEM,PGL],[("result match","runner.rs execute_job_*"),("mark_job_*","backends")],
 (),["Executor::execute result","Backend::query"])
p("C05","Failing jobs are attempted exactly max_attempts times, then discarded",
 "A job whose executions keep failing (error, panic or timeout) is retried until it was attempted as many times as the maximum it had when that attempt started allows, then discarded and never started again; it is never discarded while attempts remain. Snoozes do not consume attempts, a rerun grants exactly one more, the attempt number seen by each execution is one more than the number of consumed attempts before it, and lowering the maximum below the attempts already made still ends in a discard.",
 ["histories","inputs","schedules"],
 "all sequences of failures, snoozes, reruns and changes of the maximum, interleaved with other jobs",
 "Tests sample fixed sequences of length one or two.",
 [RUN,JOB,MEM,PGL],[("is_final_attempt","job.rs"),("attempt +1 on claim, -1 on snooze","backends"),("max_attempts + 1 on rerun","backends")],
 [("attempt,max_attempts","consumed and allowed attempts","job row")],["Executor::execute job.attempt","Backend::query"])
p("C06","The error history of a job is complete, ordered and correctly typed",
 "Every failed execution whose result was recorded, and every cancellation, adds exactly one entry to the job's error history, in order, with the attempt it belongs to, its kind (panic, timeout, cancelled, or the executor's own error type) and its message; successes, snoozes, reruns and updates add none and lose none. An execution of a later attempt sees the entries of all earlier ones.",
 ["histories","schedules","inputs","fault_sequences"],
 "all histories of results and management calls over concurrent jobs",
 "Tests check a single appended error.",
 [RUN,MEM,PGL,PGT],[("errors.push / ARRAY_APPEND","backends mark_job_*"),("From<JoinError>, From<Duration>, ..","runner.rs")],
 (),["Executor::execute job.errors","Backend::query errors"])
p("C07","Executor concurrency limits are never exceeded and never starve",
 "For every registration of an executor with a maximum concurrency, the number of its jobs in execution on that instance never exceeds the maximum at any instant, for async and blocking executors, whatever mix of success, failure, panic, timeout, snooze, stream error and shutdown occurs. Every finished execution frees its slot: with jobs waiting, the executor returns to its full concurrency, and without a limit all due jobs run at once.",
 ["schedules","fault_sequences","configurations"],
 "all interleavings of executions, results and wake-ups, for limits 1..n and none, blocking and async executors",
 "No test runs more jobs than the limit.",
 [RUN],[("for_each_concurrent(MAX_CONCURRENCY)","runner.rs spawn"),("slot held until the result is recorded","runner.rs execute_job_*")],
 (),["Executor::execute start/end"])
p("C08","Execution timeouts are enforced, and only when exceeded",
 "An asynchronous execution that has not finished when its timeout elapses is stopped at its next suspension point, makes no further progress, and is recorded as a failure of kind timeout within one second; an execution that finishes before its timeout keeps its own result and is never recorded as timed out. This holds for every mix of durations and timeouts and regardless of what other jobs on the instance do.",
 ["schedules","inputs","fault_sequences"],
 "all durations, timeouts and interleavings of concurrently running jobs, blocking (suspending) and async executors",
 "Tests check one timeout with real sleeps.",
 [RUN],[("tokio::time::timeout around execute","runner.rs execute_job_with_timeout")],
 (),["Executor::execute progress","Backend::query errors"])
p("C09","One job's failure never stops other jobs, executors or instances",
 "A panicking, failing, timed out, cancelled or never-ending execution, a job whose stored payload cannot be decoded, and any error from the backend (failed claim, failed recording of a result, broken connection) affect only that job: every other job of the same and of other executors is still started and recorded, as long as a free slot remains. The instance keeps serving new jobs after any number of such failures.",
 ["fault_sequences","schedules","inputs"],
 "all sequences and placements of failures, panics, undecodable payloads and backend errors",
 "Tests inject single failures through a mock and stop.",
 [RUN,JOB,MEM,PGL,PGS],[("spawn isolates panics","runner.rs"),("stream errors are logged and skipped","runner.rs spawn"),("fallible decoding","job.rs TryFrom")],
 (),["Executor::execute start/end"])
p("C10","Graceful shutdown stops new work, loses no work and finishes running jobs",
 "After graceful shutdown (or dropping the guard) of an instance, jobs that become due later are not started by that instance, its cron and pruner stop, and executions already running finish and get their result recorded. Every job the instance had not started stays waiting, with its attempts unchanged, so another instance can run it; no job is left marked as executing without an execution, and other instances sharing the backend are unaffected.",
 ["schedules","crash_points","histories"],
 "all moments of shutdown relative to claims, executions, enqueues, cron ticks and pruning, with one to three instances",
 "Tests shut down idle instances at one point.",
 [LIB,RUN,CRON,PRN,PGS],[("cancellation token","lib.rs"),("take_until(cancelled)","runner.rs spawn"),("select with cancelled()","cron_runner.rs, pruner/runner.rs")],
 (),["Executor::execute start/end","Backend::query"],HOOK)
p("C11","Uniqueness criteria admit one job, also among concurrent enqueues",
 "When jobs are enqueued under the same uniqueness criteria (they may differ in time window and resolution), concurrently or one after another, from any number of clients and instances, at most one job matching the criteria (key, executor, time window, statuses) exists, and every conflicting enqueue returns the identifier of the job it conflicted with. An enqueue that conflicts with nothing is always inserted, and a conflict without replacement leaves the existing job and any execution of it untouched.",
 ["schedules","inputs","histories"],
 "all interleavings of enqueues with equal and different criteria, with jobs being claimed, finished and pruned meanwhile",
 "Tests enqueue sequentially; duplicates need two enqueues to interleave between check and insert.",
 [MEM,QRY,UC,BLD,PGL,PGU],[("check and insert under one lock","memory.rs insert_unique_job"),("advisory transaction lock on criteria hash","rexecutor-sqlx lib.rs insert_unique_job")],
 [("uniqueness key","hash of the user key","job row")],["JobBuilder::enqueue result","Backend::query"],HOOK)
p("C12","Replacing on conflict changes exactly the requested fields",
 "When an enqueue conflicts and asks for replacement, exactly the fields named (scheduled time, data, metadata, priority, maximum attempts) of the conflicting job take the new values, and only if its status is among those the replacement applies to; every other field, status, attempts and error history included, is preserved whatever happens to the job concurrently. A replaced schedule takes effect like an enqueue at that time, waking waiting executors when it is earlier.",
 ["schedules","inputs","histories"],
 "all replacement field sets and status sets, interleaved with claims and results of the conflicting job",
 "Tests check single fields sequentially.",
 [MEM,UC,PGL],[("Job::replace","memory.rs"),("dynamic UPDATE","rexecutor-sqlx lib.rs insert_unique_job"),("notify after replace","memory.rs / update trigger")],
 (),["Backend::query","Executor::execute start"],HOOK)
p("C13","Due jobs start by scheduled time, and by priority at equal time",
 "Among jobs of an executor that are due and waiting when a slot frees up, a job is never started before another one that was scheduled earlier, nor before one scheduled for the same time with a higher priority (lower number). (The Postgres backend compares priority first and scheduled time second.) This holds for freshly enqueued, retried, snoozed and rescheduled jobs alike, under contention from several instances.",
 ["schedules","histories","inputs"],
 "all sets of waiting jobs and interleavings of claims by one or several claimers",
 "Tests check two jobs half a second apart.",
 [MEM,PGL],[("sort by scheduled_at then priority","memory.rs load_job_mark_as_executing_for_executor"),("ORDER BY","rexecutor-sqlx lib.rs load_job_mark_as_executing_for_executor")],
 (),["Executor::execute start order"])
p("C14","Jobs reach the right executor with exactly the enqueued content",
 "Each job is executed only by the executor it was enqueued for, and each execution receives exactly the data, metadata, tags, priority, maximum attempts and scheduled time last written for it by an acknowledged enqueue, update or replacement, with its own identifier. Identifiers are unique among jobs, and an identifier returned by an enqueue always denotes the job that was enqueued, however many clients enqueue concurrently.",
 ["schedules","inputs","histories"],
 "all interleavings of concurrent enqueues for several executors, arbitrary payloads",
 "Tests enqueue one job for one executor.",
 [BLD,BK,MEM,RUN,PGL],[("id counter / SERIAL","backends"),("executor filter in the claim","backends"),("serde round trip","builder.rs, job.rs")],
 (),["Executor::execute job"],HOOK)
p("C15","Pruning removes exactly the jobs its configuration says",
 "A pruning by age removes exactly the jobs of the configured status and executors (at the moment it takes effect) that are older than the limit (for finished statuses: scheduled longer ago than the limit; for waiting ones: scheduled further ahead than the limit, or, in memory, overdue by more than it), and a pruning by length leaves at most the configured number of them and removes only the oldest beyond that number (for waiting statuses, the ones scheduled furthest in the future). Jobs of other statuses or excluded executors are never removed or altered, however pruning interleaves with enqueues, claims and results, and a job that is being executed or waits for execution is never lost to a pruner configured for finished jobs.",
 ["schedules","inputs","histories"],
 "all job populations, pruner configurations and interleavings with running jobs",
 "Tests use at most two jobs and a quiescent backend.",
 [MEM,QRY,PCFG,PRN,PGQ],[("prune_jobs retain","memory.rs"),("DELETE with ORDER BY/OFFSET","rexecutor-sqlx query.rs")],
 (),["Backend::query before/after"],HOOK)
p("C16","The pruner runs at every scheduled tick within its concurrency limit",
 "While an instance with a pruner runs, every configured pruner is run once at each tick of the pruning schedule (never more than a few milliseconds early, never twice for a tick; ticks that pass while the previous round is still running may be skipped), with at most the configured number running at any time, and failed or slow prunings neither stop later ticks nor the other pruners of the same tick. After shutdown no further pruning starts.",
 ["schedules","fault_sequences","configurations"],
 "all schedules, pruner counts, limits, backend delays and errors",
 "No test runs the pruner for more than a tick or observes concurrency.",
 [PRN,PCFG],[("loop over schedule.upcoming","pruner/runner.rs spawn"),("for_each_concurrent(max_concurrency)","pruner/runner.rs prune")],
 (),["Backend::prune_jobs calls"])
p("C17","Cron enqueues exactly one job per tick with the configured content",
 "While an instance with a cron executor runs and its backend accepts jobs, each tick of the cron schedule in the configured time zone gets exactly one job with the configured data, scheduled for exactly that tick; no tick is repeated, none is skipped unless it passed while an enqueue of the same entry was still under way, and no job exists for a time that is not a tick. A failing enqueue or failing job costs at most the ticks it affects, and several cron entries that differ in executor or data do not influence each other.",
 ["schedules","fault_sequences","inputs","configurations"],
 "all cron schedules, time zones, entry sets, start phases and backend delays and errors",
 "Tests wait for one tick in real time.",
 [CRON,LIB],[("upcoming, sleep to 10 ms before, enqueue, sleep to tick","cron_runner.rs spawn"),("unique by executor, time and data","cron_runner.rs enqueue_job")],
 (),["Executor::execute job.scheduled_at","Backend::query"])
p("C18","Instances sharing a backend run each cron tick once in total",
 "When several rexecutor instances with the same cron entry share one backend, each tick yields exactly one job and, if it succeeds, one execution of it in total, not one per instance, whatever the relative timing of the instances (clock offsets below a second, slow backend calls) and however fast the job runs.",
 ["schedules","configurations","fault_sequences"],
 "all relative timings, clock offsets and numbers of instances, execution speeds and backend delays",
 "Tests run one instance.",
 [CRON,MEM,QRY,PGL,PGU],[("uniqueness criteria of cron jobs","cron_runner.rs enqueue_job")],
 (),["Executor::execute","Backend::query"],HOOK)
p("C19","Cancelling a waiting job is final until rerun; rerun revives a finished job once",
 "A waiting job whose cancellation is acknowledged is never started afterwards unless it is rerun, and keeps the cancellation reason; a finished job whose rerun is acknowledged is waiting and due immediately, without its finish times but with its errors and attempts and one more allowed attempt, and is executed exactly once more per rerun if it succeeds. Cancelling, rerunning or updating a job that does not exist reports that it was not found and changes nothing.",
 ["schedules","histories"],
 "all interleavings of cancel, rerun, claim and results on the same jobs",
 "Tests call the operations once on a quiescent backend.",
 [EXE,MEM,PGL,PGB],[("mark_job_cancelled / rerun_job","backends"),("claim filter on status","backends")],
 (),["Executor::cancel_job/rerun_job result","Executor::execute start"],HOOK)
p("C20","Updating a job changes only its user-editable fields",
 "An acknowledged update of a job sets its data, metadata, maximum attempts, scheduled time, priority and tags to the given values and changes nothing else: whatever snapshot it was based on and whatever happens to the job concurrently, it never changes status, attempt count, error history or timestamps, so it can neither revive a finished job nor unclaim a running one. An update to an earlier time wakes waiting executors.",
 ["schedules","histories"],
 "all interleavings of updates based on stale snapshots with claims, results, cancellations and reruns",
 "Tests update a quiescent job.",
 [EXE,MEM,PGL],[("update_job","memory.rs"),("UPDATE of the editable columns","rexecutor-sqlx lib.rs update")],
 (),["Backend::query","Executor::execute"],HOOK)
p("C21","Backend operations are atomic and queries return exactly the matching jobs",
 "For every set of concurrent backend operations (enqueue, claim, record a result, rerun, update, prune, query) there is an order of them, consistent with real time, in which a simple sequential job table gives the same answers and the same final state. In particular a query returns exactly the jobs that match its condition, for every combination of and, or, not and the elementary conditions, each job appearing once and in a consistent state.",
 ["schedules","inputs","histories"],
 "all small concurrent histories over the backend interface and all nested query conditions",
 "Tests call operations one after another with flat queries.",
 [BK,MEM,QRY,JQ,PGL,PGQ],[("one lock per operation","memory.rs"),("single SQL statements","rexecutor-sqlx lib.rs"),("Queryable / ToQuery","queryable.rs, query.rs")],
 (),["Backend trait results"],HOOK)
p("C22","Retries wait the executor's backoff, snoozes the requested delay",
 "A failed execution that will be retried is rescheduled to the time of its failure plus exactly the backoff its executor computed for that attempt (for the provided strategies: within base, growth, maximum and jitter bounds), a snoozed one to the time of the result plus the requested delay, and the next execution starts no earlier than that and, when idle, within one second of it.",
 ["schedules","inputs","fault_sequences"],
 "all backoff strategies, attempts and delays, interleaved with other jobs and slow backend calls",
 "Tests check the formulas, not when the retry happens.",
 [RUN,BO,EXE],[("Utc::now() + delay","runner.rs handle_job_error, handle_job_snoozed"),("E::backoff before execution","runner.rs")],
 (),["Executor::execute start times","Backend::query scheduled_at"])
p("C23","Acknowledged operations survive connection loss and instance crashes (Postgres)",
 "With the Postgres backend, every acknowledged operation (enqueue, update, cancel, rerun, recorded result) is reflected in the database whatever connections break or instances crash afterwards, an operation that reported an error took effect completely or not at all, and no partial effect of a failed unique enqueue is ever visible. Once the database is reachable again, surviving and restarted instances continue with every job that was not held by a crashed instance.",
 ["crash_points","fault_sequences","histories"],
 "all crash points of instances and connection losses between and inside database round trips",
 "No test breaks a connection or stops an instance.",
 [PGL,PGB,PGS],[("single statements / one transaction per unique enqueue","rexecutor-sqlx lib.rs"),("pool and listener reconnect","rexecutor-sqlx lib.rs from_pool")],
 (),["Backend results","database contents","Executor::execute start"])
p("C24","Wake-ups reach every executor of every instance (Postgres notifications)",
 "With the Postgres backend, a job enqueued, retried, snoozed, rerun or moved earlier on one instance wakes the matching executor of the other instances through database notifications: in a fault-free system it starts within one second of being due even if only another instance serves it, and any content of executor names and payloads leaves the notification path working. After the listening connection was lost, jobs are still found by polling within about 30 seconds.",
 ["schedules","fault_sequences","inputs"],
 "all placements of producers and consumers on instances, all losses of listening connections",
 "The Postgres tests need a database and use one instance.",
 [PGL,PGS,PGM],[("NOTIFY trigger","migration"),("listener task","rexecutor-sqlx lib.rs from_pool"),("30 s poll","stream.rs")],
 (),["Executor::execute start"])
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80, (x["id"], len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
