//! Explores every schedule of the real job queue and worker loop
//! (git-branchless-test/src/worker.rs, compiled unchanged) for the scenarios
//! given as arguments, and checks each execution against the specification.
//!
//! A scenario is `<workers>:<failing jobs>:<op>,<op>,...` with the operations
//! of the controlling thread:
//!
//! - `s012`: set the queue to the jobs 0, 1, 2 (in this order);
//! - `r`: receive a result, if one is sure to arrive;
//! - `a`: receive results until each job of the current queue has one;
//! - `d`: drop the receiving end of the channel;
//! - `c`: close the queue.
//!
//! Afterwards the queue is closed, the workers are joined, and the remaining
//! results are received.
extern crate schedstd as std;

include!(concat!(env!("OUT_DIR"), "/gen.rs"));

use std::collections::BTreeSet;
use std::panic::AssertUnwindSafe;

use lib::core::effects::ProgressHandle;
use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};
use worker::{worker, JobResult, WorkQueue};

type Job = usize;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Set(Vec<Job>),
    Recv,
    RecvAll,
    Drop,
    Close,
}

#[derive(Clone, Debug)]
struct Scenario {
    workers: usize,
    failing: BTreeSet<Job>,
    ops: Vec<Op>,
}

fn parse(s: &str) -> Scenario {
    let digits = |s: &str| -> Vec<Job> {
        s.chars()
            .map(|c| c.to_digit(10).expect("digit") as usize)
            .collect()
    };
    let parts: Vec<&str> = s.split(':').collect();
    Scenario {
        workers: parts[0].parse().unwrap(),
        failing: digits(parts[1]).into_iter().collect(),
        ops: parts[2]
            .split(',')
            .filter(|op| !op.is_empty())
            .map(|op| match op.split_at(1) {
                ("s", jobs) => Op::Set(digits(jobs)),
                ("r", "") => Op::Recv,
                ("a", "") => Op::RecvAll,
                ("d", "") => Op::Drop,
                ("c", "") => Op::Close,
                _ => panic!("bad operation {op:?}"),
            })
            .collect(),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Event {
    SetBegin(Vec<Job>),
    SetEnd,
    Closed,
    Start(usize, Job),
    End(usize, Job),
    Result(Job, bool),
    Exit(usize),
}

// Not a scheduling point.
type Log = std::real::sync::Arc<std::real::sync::Mutex<Vec<Event>>>;

fn run(scenario: &Scenario, log: Log) {
    let put = {
        let log = log.clone();
        move |event: Event| log.lock().unwrap().push(event)
    };
    let queue: WorkQueue<Job> = WorkQueue::new();
    let (result_tx, result_rx) = crossbeam::channel::unbounded();
    let handles: Vec<_> = (0..scenario.workers)
        .map(|worker_id| {
            let queue = queue.clone();
            let result_tx = result_tx.clone();
            let failing = scenario.failing.clone();
            let put = put.clone();
            shuttle::thread::spawn(move || {
                worker(
                    &ProgressHandle::default(),
                    worker_id,
                    queue,
                    result_tx,
                    || -> eyre::Result<usize> { Ok(worker_id) },
                    |job: Job, context: &usize| -> eyre::Result<usize> {
                        put(Event::Start(*context, job));
                        put(Event::End(*context, job));
                        if failing.contains(&job) {
                            eyre::bail!("job {job} failed");
                        }
                        Ok(job + 100)
                    },
                );
                put(Event::Exit(worker_id));
            })
        })
        .collect();
    drop(result_tx);

    let mut result_rx = Some(result_rx);
    let mut received: BTreeSet<Job> = BTreeSet::new();
    let mut current: BTreeSet<Job> = BTreeSet::new();
    let mut closed = false;
    let receive = |result: JobResult<Job, usize>, received: &mut BTreeSet<Job>| {
        let (job, ok) = match result {
            JobResult::Done(job, output) => {
                assert_eq!(output, job + 100, "VIOLATION wrong output for job {job}");
                (job, true)
            }
            JobResult::Error(worker_id, job, message) => {
                assert!(
                    worker_id < scenario.workers && message == format!("job {job} failed"),
                    "VIOLATION wrong error for job {job}: {worker_id} {message}"
                );
                (job, false)
            }
        };
        put(Event::Result(job, ok));
        assert!(
            received.insert(job),
            "VIOLATION two results for job {job}"
        );
    };
    for op in &scenario.ops {
        match op {
            Op::Set(jobs) => {
                put(Event::SetBegin(jobs.clone()));
                queue.set(jobs.clone());
                put(Event::SetEnd);
                if !closed {
                    current = jobs.iter().copied().collect();
                }
            }
            Op::Recv | Op::RecvAll => {
                while let Some(rx) = &result_rx {
                    if closed || current.is_subset(&received) {
                        break;
                    }
                    match rx.recv() {
                        Ok(result) => receive(result, &mut received),
                        Err(_) => panic!("VIOLATION workers exited early"),
                    }
                    if *op == Op::Recv {
                        break;
                    }
                }
            }
            Op::Drop => result_rx = None,
            Op::Close => {
                queue.close();
                put(Event::Closed);
                closed = true;
            }
        }
    }
    if !closed {
        queue.close();
        put(Event::Closed);
    }
    for handle in handles {
        handle.join().expect("worker panicked");
    }
    if let Some(rx) = &result_rx {
        while let Ok(result) = rx.recv() {
            receive(result, &mut received);
        }
    }
    check(scenario, &log.lock().unwrap(), result_rx.is_some());
}

fn check(scenario: &Scenario, log: &[Event], all_results: bool) {
    let mut runs: Vec<(usize, Job, usize)> = Vec::new();
    for (i, event) in log.iter().enumerate() {
        if let Event::Start(worker_id, job) = event {
            assert!(
                runs.iter().all(|(_, other, _)| other != job),
                "VIOLATION job {job} was run twice: {log:?}"
            );
            // The worker took this job from the queue at some time between
            // finishing its previous job and now.
            let since = log[..i]
                .iter()
                .rposition(|event| matches!(event, Event::End(w, _) if w == worker_id))
                .unwrap_or(0);
            // While the queue is being set, both the old and the new contents
            // are possible.
            let mut queued = false;
            let mut was_queued = false;
            let mut closed = false;
            let mut possible = false;
            for (k, event) in log[..i].iter().enumerate() {
                match event {
                    Event::SetBegin(jobs) => {
                        was_queued = queued;
                        queued = jobs.contains(job);
                    }
                    Event::SetEnd => was_queued = false,
                    Event::Closed => closed = true,
                    _ => {}
                }
                possible |= k >= since && (queued || was_queued) && !closed;
            }
            assert!(
                possible,
                "VIOLATION job {job} was run although it was not queued: {log:?}"
            );
            runs.push((*worker_id, *job, i));
        }
    }
    let exits = log
        .iter()
        .filter(|event| matches!(event, Event::Exit(_)))
        .count();
    assert_eq!(
        exits, scenario.workers,
        "VIOLATION some worker did not exit: {log:?}"
    );
    if all_results {
        let mut ran: Vec<(Job, bool)> = runs
            .iter()
            .map(|(_, job, _)| (*job, !scenario.failing.contains(job)))
            .collect();
        let mut results: Vec<(Job, bool)> = log
            .iter()
            .filter_map(|event| match event {
                Event::Result(job, ok) => Some((*job, *ok)),
                _ => None,
            })
            .collect();
        ran.sort_unstable();
        results.sort_unstable();
        assert_eq!(
            ran, results,
            "VIOLATION jobs which were run and results differ: {log:?}"
        );
    }
}

/// Depth-first enumeration of all schedules which interrupt a thread that
/// could have gone on at most `bound` times.
#[derive(Debug)]
struct BoundedScheduler {
    bound: usize,
    levels: Vec<Level>,
    step: usize,
    started: bool,
}

#[derive(Debug)]
struct Level {
    choices: Vec<TaskId>,
    chosen: usize,
    /// Interruptions before this level, and whether any choice but the first
    /// is another one.
    used: usize,
    costs: bool,
}

impl BoundedScheduler {
    fn new(bound: usize) -> Self {
        BoundedScheduler {
            bound,
            levels: Vec::new(),
            step: 0,
            started: false,
        }
    }
}

impl Scheduler for BoundedScheduler {
    fn new_execution(&mut self) -> Option<Schedule> {
        if self.started {
            loop {
                let level = self.levels.last_mut()?;
                if level.chosen + 1 < level.choices.len() {
                    level.chosen += 1;
                    break;
                }
                self.levels.pop();
            }
        }
        self.started = true;
        self.step = 0;
        Some(Schedule::new(0))
    }

    fn next_task(
        &mut self,
        runnable: &[&Task],
        current: Option<TaskId>,
        is_yielding: bool,
    ) -> Option<TaskId> {
        if self.step == self.levels.len() {
            let used = match self.levels.last() {
                Some(level) => level.used + usize::from(level.costs && level.chosen > 0),
                None => 0,
            };
            let mut choices: Vec<TaskId> = runnable.iter().map(|task| task.id()).collect();
            let costs = match current {
                Some(current) if !is_yielding && choices.contains(&current) => {
                    choices.retain(|id| *id != current);
                    choices.insert(0, current);
                    true
                }
                _ => false,
            };
            if costs && used >= self.bound {
                choices.truncate(1);
            }
            self.levels.push(Level {
                choices,
                chosen: 0,
                used,
                costs,
            });
        }
        let level = &self.levels[self.step];
        self.step += 1;
        Some(level.choices[level.chosen])
    }

    fn next_u64(&mut self) -> u64 {
        unreachable!("no random data is used")
    }
}

fn main() {
    let bound: usize = std::real::env::args().nth(1).unwrap().parse().unwrap();
    std::real::panic::set_hook(Box::new(|_| {}));
    for argument in std::real::env::args().skip(2) {
        let scenario = parse(&argument);
        let log: Log = Default::default();
        let distinct: std::real::sync::Arc<std::real::sync::Mutex<std::real::collections::HashSet<String>>> =
            Default::default();
        let result = {
            let scenario = scenario.clone();
            let log = log.clone();
            let distinct = distinct.clone();
            std::real::panic::catch_unwind(AssertUnwindSafe(move || {
                let scheduler = BoundedScheduler::new(bound);
                let mut config = shuttle::Config::new();
                config.failure_persistence = shuttle::FailurePersistence::None;
                shuttle::Runner::new(scheduler, config).run(move || {
                    log.lock().unwrap().clear();
                    run(&scenario, log.clone());
                    distinct
                        .lock()
                        .unwrap()
                        .insert(format!("{:?}", log.lock().unwrap()));
                })
            }))
        };
        let distinct = distinct
            .lock()
            .unwrap_or_else(|err| err.into_inner())
            .len();
        match result {
            Ok(schedules) => println!("ok {argument} {schedules} {distinct}"),
            Err(err) => {
                let message = err
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| err.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let log = log.lock().unwrap_or_else(|err| err.into_inner());
                println!("fail {argument} {:?} {:?}", message, log);
            }
        }
    }
}
