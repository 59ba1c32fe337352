//! Scripts for the timer: several threads query it while the main thread starts, waits
//! and drops it.

use std::{
    sync::{
        atomic::{AtomicBool, Ordering},
        Mutex,
    },
    thread,
    time::{Duration, Instant},
};

use mbqc_scheduling::timer::Timer;
use serde_json::{json, Value};

/// Script entries: {"do": "start", "ms": .. | null}, {"do": "query"}, {"do": "wait", "ms":
/// ..}, {"do": "await", "ms": ..} (query until it is finished, at most that long, from
/// "threads" threads), {"do": "drop"}.
///
/// All times in the log are microseconds (or multiples of "unit" microseconds), with the
/// time just before and just after the call.
pub fn timer(cmd: &Value) -> Value {
    let zero = Instant::now();
    let unit = cmd["unit"].as_u64().unwrap_or(1) as u128;
    let now = || (zero.elapsed().as_micros() / unit) as u64;
    let events = Mutex::new(Vec::<Value>::new());
    let log = |v: Value| events.lock().unwrap().push(v);
    let mut timer = Some(if cmd["default"].as_bool().unwrap_or(false) {
        Timer::default()
    } else {
        Timer::new()
    });
    let query = |timer: &Timer| {
        let a = now();
        let r = timer.finished();
        let b = now();
        (a, r, b)
    };
    for e in cmd["script"].as_array().unwrap() {
        match e["do"].as_str().unwrap() {
            "start" => {
                let d = e["ms"]
                    .as_f64()
                    .map(|ms| Duration::from_nanos((ms * 1e6) as u64))
                    .unwrap_or(Duration::MAX);
                let a = now();
                timer.as_mut().unwrap().start(d);
                let b = now();
                log(json!({"k": "start", "a": a, "b": b,
                           "d": (d.as_micros() / unit).min(1 << 30) as u64}));
            },
            "query" => {
                let (a, r, b) = query(timer.as_ref().unwrap());
                log(json!({"k": "query", "a": a, "b": b, "r": r}));
            },
            "wait" => {
                thread::sleep(Duration::from_micros(
                    (e["ms"].as_f64().unwrap() * 1000.) as u64,
                ))
            },
            "await" => {
                let limit = Duration::from_micros((e["ms"].as_f64().unwrap() * 1000.) as u64);
                let seen = AtomicBool::new(false);
                let timer = timer.as_ref().unwrap();
                let start = Instant::now();
                thread::scope(|scope| {
                    for _ in 0..e["threads"].as_u64().unwrap_or(1) {
                        scope.spawn(|| {
                            let mut last_false = None;
                            loop {
                                // if another thread has seen it, it has to be finished
                                // for this one, too
                                let known = seen.load(Ordering::SeqCst);
                                let (a, r, b) = query(timer);
                                if r {
                                    seen.store(true, Ordering::SeqCst);
                                    if let Some(q) = last_false.take() {
                                        log(q);
                                    }
                                    log(json!({"k": "query", "a": a, "b": b, "r": true}));
                                    break;
                                }
                                let q = json!({"k": "query", "a": a, "b": b,
                                               "r": false});
                                if known {
                                    log(json!({"k": "stale"}));
                                    break;
                                }
                                last_false = Some(q);
                                if start.elapsed() > limit {
                                    log(last_false.unwrap());
                                    break;
                                }
                                thread::yield_now();
                            }
                        });
                    }
                });
                // in the order of the calls
                events.lock().unwrap().sort_by_key(|e| e["a"].as_u64().unwrap_or(0));
            },
            "drop" => {
                let t = timer.take().unwrap();
                let a = now();
                drop(t);
                let b = now();
                log(json!({"k": "drop", "a": a, "b": b}));
            },
            _ => panic!("harness: unknown timer command"),
        }
    }
    if let Some(t) = timer.take() {
        let a = now();
        drop(t);
        log(json!({"k": "drop", "a": a, "b": now()}));
    }
    json!({"events": events.into_inner().unwrap()})
}

/// Waits in the ways in which one can wait.
pub fn clock(cmd: &Value) -> Value {
    let d = Duration::from_millis(cmd["ms"].as_u64().unwrap());
    let start = Instant::now();
    let (mutex, condvar) = (Mutex::new(()), std::sync::Condvar::new());
    let done = condvar.wait_timeout_while(mutex.lock().unwrap(), d, |_| true).unwrap().1;
    let first = start.elapsed();
    thread::sleep(d);
    json!({"waited": first.as_millis() as u64, "done": done.timed_out(),
           "slept": (start.elapsed() - first).as_millis() as u64})
}
