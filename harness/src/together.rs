//! Several runs in one process, one after the other or at the same time.

use std::{
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex,
    },
    thread,
};

use serde_json::{json, Value};

use crate::{accept::FAILED, runs, util};

pub fn one(cmd: &Value) -> Value {
    match panic::catch_unwind(AssertUnwindSafe(|| runs::run(cmd))) {
        Ok(r) => json!({"out": "ok", "paths": r["paths"]}),
        Err(e) => {
            let m = util::panic_message(&e);
            json!({"out": if m == FAILED { "failed" } else { "panicked" }, "paths": []})
        },
    }
}

pub fn together(cmd: &Value) -> Value {
    let runs = cmd["runs"].as_array().unwrap();
    let order: Vec<usize> = serde_json::from_value(cmd["order"].clone()).unwrap();
    let clients = cmd["clients"].as_u64().unwrap();
    let results = Mutex::new(vec![Value::Null; order.len()]);
    let next = AtomicUsize::new(0);
    thread::scope(|s| {
        for _ in 0..clients {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                let Some(&j) = order.get(k) else { break };
                let r = one(&runs[j]);
                results.lock().unwrap()[k] = r;
            });
        }
    });
    json!({ "results": results.into_inner().unwrap() })
}
