//! Runs with an accept function that fails in some of its calls.

use std::{
    panic::{self, AssertUnwindSafe},
    sync::atomic::Ordering,
    thread,
    time::Duration,
};

use mbqc_scheduling::{interface, probabilistic::AcceptFunc};
use serde_json::{json, Value};

use crate::{
    accept::{self, FAILED},
    control::{Control, Log, Options},
    util,
};

pub fn failing(cmd: &Value) -> Value {
    let adj = util::adj(cmd);
    let order = util::order(cmd);
    let nthreads = cmd["nthreads"].as_u64().unwrap_or(1) as u16;
    let bound = cmd["bound"].as_u64().map(|b| b as u32);
    let timeout = cmd["timeout_ms"].as_u64().map(Duration::from_millis);
    let search = cmd["search"].as_bool().unwrap_or(true);
    let log = Log::new(20000);
    let control = Control::new(log.clone(), Options::default());
    let func = accept::func(&cmd["accept"], &log, &control, None);
    // runs without accept function and with one that never fails
    let ordinary = || {
        let nthreads = cmd["ordinary"]["nthreads"].as_u64().unwrap() as u16;
        let (adj, order) = (util::adj(&cmd["ordinary"]), util::order(&cmd["ordinary"]));
        let mut out = Vec::new();
        for (nthreads, accept, told) in
            [(nthreads, false, true), (1, true, true), (nthreads, true, false)]
        {
            let accept = accept.then(|| {
                (AcceptFunc::Custom(Box::new(|_, _, _, _, _, _, _| 1.)), Some(1))
            });
            let paths = panic::catch_unwind(AssertUnwindSafe(|| {
                interface::run(&adj, &order, true, None, nthreads, None, accept)
            }));
            match paths {
                Ok(paths) if told => {
                    out.extend(paths.iter().map(|p| json!([p.time, p.space])))
                },
                Ok(_) => {},
                Err(_) => out.push(json!([-1, -1])),
            }
        }
        out
    };
    let before = ordinary();
    let result = panic::catch_unwind(AssertUnwindSafe(|| {
        interface::run(
            &adj,
            &order,
            search,
            timeout,
            nthreads,
            bound,
            Some((func, cmd["seed"].as_u64())),
        )
        .len()
    }));
    let calls = log.calls.load(Ordering::SeqCst);
    let failed = log.failed.load(Ordering::SeqCst);
    thread::sleep(Duration::from_millis(cmd["linger_ms"].as_u64().unwrap_or(0)));
    let late = log.calls.load(Ordering::SeqCst) - calls;
    let (out, message) = match result {
        Ok(_) => ("paths", String::new()),
        Err(e) => {
            let m = util::panic_message(&e);
            if m == FAILED { ("failed", m) } else { ("panicked", m) }
        },
    };
    let after = ordinary();
    let summary = log.summary();
    let events: Vec<_> = summary["events"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| json!({"t": e["t"], "f": e["fail"]}))
        .collect();
    json!({
        "out": out, "message": message, "calls": calls, "fails": failed, "late": late,
        "before": before, "after": after, "events": events,
    })
}
