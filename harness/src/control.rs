//! The log of a run, the scheduling of the worker threads and, if the hooks are compiled
//! in, the observer.

use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Condvar, Mutex,
    },
    thread::{self, ThreadId},
    time::{Duration, Instant},
};

use rand::{Rng, SeedableRng};
use rand_pcg::Pcg64;
use serde_json::{json, Value};

/// Everything that happens in a run, in the order in which it was logged.
pub struct Log {
    inner: Mutex<LogInner>,
    /// the events are only counted after so many
    limit: usize,
    pub calls: AtomicUsize,
    /// how often the accept function has failed
    pub failed: AtomicUsize,
    pub steps: AtomicUsize,
    pub cut: AtomicBool,
}

struct LogInner {
    threads: HashMap<ThreadId, usize>,
    events: Vec<Value>,
    steps_after_cut: HashMap<usize, usize>,
    calls_after_cut: HashMap<usize, usize>,
    tasks: usize,
}

impl Log {
    pub fn new(limit: usize) -> Arc<Self> {
        let mut threads = HashMap::new();
        threads.insert(thread::current().id(), 0);
        Arc::new(Self {
            inner: Mutex::new(LogInner {
                threads,
                events: Vec::new(),
                steps_after_cut: HashMap::new(),
                calls_after_cut: HashMap::new(),
                tasks: 0,
            }),
            limit,
            calls: AtomicUsize::new(0),
            failed: AtomicUsize::new(0),
            steps: AtomicUsize::new(0),
            cut: AtomicBool::new(false),
        })
    }

    /// The caller of the run is 0, the other threads are numbered by first appearance.
    pub fn tid(&self) -> usize {
        let mut inner = self.inner.lock().unwrap();
        let len = inner.threads.len();
        *inner.threads.entry(thread::current().id()).or_insert(len)
    }

    pub fn push(&self, mut event: Value) {
        let mut inner = self.inner.lock().unwrap();
        let len = inner.threads.len();
        let tid = *inner.threads.entry(thread::current().id()).or_insert(len);
        if self.cut.load(Ordering::SeqCst) {
            match event["k"].as_str() {
                Some("step") => *inner.steps_after_cut.entry(tid).or_insert(0) += 1,
                Some("acc") => *inner.calls_after_cut.entry(tid).or_insert(0) += 1,
                _ => {},
            }
        }
        if event["k"] == "task" {
            inner.tasks += 1;
        }
        if inner.events.len() < self.limit {
            event["t"] = json!(tid);
            inner.events.push(event);
        }
    }

    pub fn summary(&self) -> Value {
        let mut inner = self.inner.lock().unwrap();
        let max = |m: &HashMap<usize, usize>| m.values().copied().max().unwrap_or(0);
        json!({
            "events": std::mem::take(&mut inner.events),
            "threads": inner.threads.len() - 1,
            "tasks": inner.tasks,
            "calls": self.calls.load(Ordering::SeqCst),
            "steps": self.steps.load(Ordering::SeqCst),
            "steps_after_cut": max(&inner.steps_after_cut),
            "calls_after_cut": max(&inner.calls_after_cut),
        })
    }
}

#[derive(Default)]
pub struct Options {
    pub log_steps: bool,
    pub log_gates: bool,
    /// wait for the timeout when this step is reached
    pub cut_step: Option<usize>,
    /// let a task synchronize with this probability after a step
    pub sync_prob: f64,
    /// or exactly after these steps of the tasks
    pub sync_at: Option<HashMap<i64, Vec<usize>>>,
    /// the points are the locks wherever they are, instead of the known places
    pub locks: bool,
    /// control the worker threads
    pub scheduled: Option<Policy>,
    pub seed: u64,
    pub nthreads: usize,
}

#[derive(Clone, Debug)]
pub enum Policy {
    Random,
    /// random priorities, changed at a few random points
    Priority,
    /// hold back the given kind of point as long as anything else can run
    Delay(String),
    /// the tasks that should pass a gate, in this order
    List(Vec<i64>),
}

pub struct Control {
    log: Arc<Log>,
    options: Options,
    rng: Mutex<Pcg64>,
    state: Mutex<State>,
    cond: Condvar,
}

#[derive(Default)]
struct State {
    // (ticket, task, kind)
    waiting: Vec<(u64, i64, &'static str)>,
    // tickets of threads that cannot get their lock before another thread goes on
    blocked: Vec<u64>,
    // attempts to get a lock since `last_lock`
    failed: usize,
    last_lock: Option<Instant>,
    granted: Option<u64>,
    next_ticket: u64,
    running: bool,
    running_ended: bool,
    last_change: Option<Instant>,
    stop: bool,
    priorities: HashMap<i64, u64>,
    list_pos: usize,
    decisions: usize,
}

thread_local! {
    static TASK: std::cell::Cell<i64> = const { std::cell::Cell::new(-2) };
    static TASK_STEPS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub const IDLE: Duration = Duration::from_micros(1500);
// if a granted thread does not come back after that long, it probably waits for something
// a held-back thread owns: let the others go on
pub const DEADLOCK: Duration = Duration::from_secs(10);
pub const STALL: Duration = Duration::from_millis(300);

impl Control {
    pub fn new(log: Arc<Log>, options: Options) -> Arc<Self> {
        let rng = Mutex::new(Pcg64::seed_from_u64(options.seed));
        Arc::new(Self {
            log,
            options,
            rng,
            state: Mutex::new(State::default()),
            cond: Condvar::new(),
        })
    }

    pub fn is_scheduled(&self) -> bool {
        self.options.scheduled.is_some()
    }

    pub fn stop(&self) {
        self.state.lock().unwrap().stop = true;
        self.cond.notify_all();
    }

    fn pass(&self, kind: &'static str) {
        match self.options.scheduled {
            None => return,
            // not a critical section
            Some(Policy::List(_)) if kind == "task" => return,
            _ => {},
        }
        self.wait(kind, &|| true);
    }

    fn wait(&self, kind: &'static str, free: &dyn Fn() -> bool) {
        let mut state = self.state.lock().unwrap();
        let mut blocked = false;
        loop {
            if state.stop {
                return;
            }
            let ticket = state.next_ticket;
            state.next_ticket += 1;
            state.waiting.push((ticket, TASK.with(|t| t.get()), kind));
            if blocked {
                state.blocked.push(ticket);
            } else {
                state.blocked.clear();
            }
            state.running = false;
            state.running_ended = false;
            state.last_change = Some(Instant::now());
            self.cond.notify_all();
            while state.granted != Some(ticket) && !state.stop {
                state = self.cond.wait(state).unwrap();
            }
            state.granted = None;
            state.last_change = Some(Instant::now());
            if free() {
                state.failed = 0;
                state.last_lock = Some(Instant::now());
                return;
            }
            state.failed += 1;
            blocked = true;
        }
    }

    /// Before a lock, which can be obtained now if it is `free`.
    pub fn lock(&self, free: &dyn Fn() -> bool) {
        // only the tasks; the main thread is before or after them
        if self.options.scheduled.is_some()
            && self.options.locks
            && TASK.with(|t| t.get()) != -2
        {
            self.wait("lock", free);
        }
    }

    fn ended(&self) {
        if self.options.scheduled.is_none() {
            return;
        }
        let mut state = self.state.lock().unwrap();
        state.running_ended = true;
        state.blocked.clear();
        state.last_change = Some(Instant::now());
        self.cond.notify_all();
    }

    /// Runs in its own thread until [stop](Self::stop) is called.
    pub fn schedule(&self) {
        let mut state = self.state.lock().unwrap();
        loop {
            if state.stop {
                return;
            }
            let idle = state.last_change.map(|t| t.elapsed()).unwrap_or_default();
            let ready = !state.waiting.is_empty()
                && state.granted.is_none()
                && if state.running && !state.running_ended {
                    idle > STALL
                } else {
                    // `running_ended`: the thread might come back with the next task
                    state.waiting.len() >= self.options.nthreads || idle > IDLE
                };
            if !ready {
                state = self
                    .cond
                    .wait_timeout(state, Duration::from_micros(500))
                    .unwrap()
                    .0;
                continue;
            }
            if state.failed > 200
                && state.last_lock.is_some_and(|t| t.elapsed() > DEADLOCK)
            {
                // every thread waits for another one
                eprintln!("deadlock");
                std::process::exit(71);
            }
            let i = self.choose(&mut state);
            let (ticket, task, kind) = state.waiting.remove(i);
            self.log.push(json!({"k": "grant", "task": task, "p": kind}));
            state.decisions += 1;
            state.granted = Some(ticket);
            state.running = true;
            state.running_ended = false;
            state.last_change = Some(Instant::now());
            self.cond.notify_all();
        }
    }

    fn choose(&self, state: &mut State) -> usize {
        let mut rng = self.rng.lock().unwrap();
        // those who wait for a lock are only tried again if there is no one else
        let blocked = state.blocked.clone();
        if state.waiting.iter().any(|(t, ..)| !blocked.contains(t)) {
            state.waiting.sort_by_key(|(t, ..)| blocked.contains(t));
        }
        let free = state.waiting.iter().filter(|(t, ..)| !blocked.contains(t)).count();
        let len = if free == 0 { state.waiting.len() } else { free };
        match self.options.scheduled.as_ref().unwrap() {
            Policy::Random => rng.gen_range(0..len),
            Policy::Priority => {
                for (_, task, _) in state.waiting[..len].iter() {
                    if !state.priorities.contains_key(task) {
                        state.priorities.insert(*task, rng.gen());
                    }
                }
                let i = (0..len)
                    .max_by_key(|i| state.priorities[&state.waiting[*i].1])
                    .unwrap();
                if rng.gen_bool(0.15) {
                    let task = state.waiting[i].1;
                    state.priorities.insert(task, rng.gen());
                }
                i
            },
            Policy::Delay(kind) => {
                let others: Vec<usize> =
                    (0..len).filter(|i| state.waiting[*i].2 != kind).collect();
                if others.is_empty() {
                    rng.gen_range(0..len)
                } else {
                    others[rng.gen_range(0..others.len())]
                }
            },
            Policy::List(list) => {
                while state.list_pos < list.len() {
                    let task = list[state.list_pos];
                    state.list_pos += 1;
                    if let Some(i) = (0..len).find(|i| state.waiting[*i].1 == task) {
                        return i;
                    }
                }
                0
            },
        }
    }
}

#[cfg(mbqc_verif)]
mod observer {
    use mbqc_scheduling::{
        scheduler::tree::Step,
        search::Steps,
        timer::Timer,
        verif::{Event, Observer, Point, Results},
    };

    use super::*;
    use crate::util::int;

    fn mem(m: &[usize]) -> Vec<i64> {
        m.iter().map(|m| int(*m)).collect()
    }

    fn res<'l>(r: &Results<'l>) -> Results<'l> {
        let mut r = r.clone();
        r.sort();
        r
    }

    impl Observer for Control {
        fn gate(&self, point: Point) {
            match point {
                Point::Task(i) => {
                    TASK.with(|t| t.set(i));
                    TASK_STEPS.with(|t| t.set(0));
                    self.pass("task");
                    self.log.push(json!({"k": "task", "task": i}));
                },
                _ if self.options.locks => {},
                Point::Snapshot => self.pass("snapshot"),
                Point::Sync => self.pass("sync"),
                Point::Merge => self.pass("merge"),
            }
        }

        fn lock(&self, free: &dyn Fn() -> bool) {
            Control::lock(self, free);
        }

        fn event(&self, event: Event) {
            let task = TASK.with(|t| t.get());
            let ended = match &event {
                Event::Done(r, _) => r.is_empty(),
                Event::Merge(..) => true,
                _ => false,
            };
            if self.options.log_gates {
                self.log.push(match &event {
                    Event::Snapshot(m) => {
                        json!({"k": "snapshot", "task": task, "best": mem(m)})
                    },
                    Event::Sync(m) => {
                        json!({"k": "sync", "task": task, "best": mem(m),
                               "step": TASK_STEPS.with(|t| t.get())})
                    },
                    Event::Done(r, m) => {
                        json!({"k": "done", "task": task, "best": mem(m), "res": res(r)})
                    },
                    Event::Merge(r, m) => {
                        json!({"k": "merge", "task": task, "best": mem(m), "res": res(r)})
                    },
                });
            }
            if ended {
                self.ended();
            }
        }

        fn step(
            &self,
            step: &Step<Vec<usize>, Option<usize>>,
            path: &Steps,
            timer: &Timer,
        ) {
            let k = self.log.steps.fetch_add(1, Ordering::SeqCst) + 1;
            TASK_STEPS.with(|t| t.set(t.get() + 1));
            if self.options.log_steps || self.log.cut.load(Ordering::SeqCst) {
                self.log.push(match step {
                    Step::Forward(s) => {
                        json!({"k": "step", "f": true, "s": s, "path": path,
                               "task": TASK.with(|t| t.get())})
                    },
                    Step::Backward(leaf) => {
                        json!({"k": "step", "f": false, "path": path,
                               "leaf": leaf.map(int).unwrap_or(-1),
                               "task": TASK.with(|t| t.get())})
                    },
                });
            }
            if self.options.cut_step == Some(k) {
                let start = Instant::now();
                while !timer.finished() && start.elapsed() < Duration::from_secs(20) {
                    thread::sleep(Duration::from_millis(1));
                }
                self.log.push(json!({"k": "cut", "fin": timer.finished()}));
                self.log.cut.store(true, Ordering::SeqCst);
            }
        }

        fn sync_now(&self) -> bool {
            if let Some(at) = &self.options.sync_at {
                let task = TASK.with(|t| t.get());
                let step = TASK_STEPS.with(|t| t.get());
                return at.get(&task).is_some_and(|v| v.contains(&step));
            }
            self.options.sync_prob > 0.
                && self.rng.lock().unwrap().gen_bool(self.options.sync_prob)
        }
    }
}

static ACTIVE: Mutex<Option<Arc<Control>>> = Mutex::new(None);

pub fn install(control: &Arc<Control>) {
    *ACTIVE.lock().unwrap() = Some(control.clone());
    #[cfg(mbqc_verif)]
    mbqc_scheduling::verif::install(Some(control.clone()));
}

pub fn reset() {
    #[cfg(mbqc_verif)]
    mbqc_scheduling::verif::install(None);
    if let Some(control) = ACTIVE.lock().unwrap_or_else(|e| e.into_inner()).take() {
        control.stop();
    }
}

/// A yield point for the accept function, which needs no hooks.
pub fn accept_gate(control: &Control) {
    control.pass("accept");
}
