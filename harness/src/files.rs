//! File based runs.

use std::{
    collections::HashSet,
    fs::File,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    thread,
    time::{Duration, Instant},
};

use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::AcceptFunc,
};
use serde_json::{json, Value};

use crate::util::{self, Adj, Order};

pub fn file(cmd: &Value) -> Value {
    let s = |k: &str| cmd[k].as_str().unwrap().to_string();
    let calls = Arc::new(AtomicUsize::new(0));
    let threads = Arc::new(Mutex::new(HashSet::new()));
    let probabilistic = if cmd["accept"].is_null() {
        None
    } else if cmd["accept"] == "builtin" {
        Some(AcceptFunc::BuiltinHeavyside)
    } else {
        let v = cmd["accept"].as_f64().unwrap();
        let (calls, threads) = (calls.clone(), threads.clone());
        Some(AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
            calls.fetch_add(1, Ordering::SeqCst);
            threads.lock().unwrap().insert(thread::current().id());
            v
        })))
    };
    let (sg, df, out) = (s("graph_format"), s("order_format"), s("out_format"));
    let start = Instant::now();
    let result = interface::run_serialized(
        (s("graph"), &sg),
        (s("order"), &df),
        cmd["search"].as_bool().unwrap(),
        cmd["timeout_ms"].as_u64().map(Duration::from_millis),
        cmd["nthreads"].as_u64().unwrap_or(1) as u16,
        cmd["bound"].as_u64().map(|b| b as u32),
        probabilistic,
        (s("out"), &out),
    );
    let elapsed = start.elapsed();
    let mut threads = threads.lock().unwrap();
    threads.remove(&thread::current().id());
    json!({
        "ok": result.is_ok(),
        "error": result.err().map(|e| e.to_string()).unwrap_or_default(),
        "elapsed_ms": elapsed.as_millis() as u64,
        "calls": calls.load(Ordering::SeqCst),
        "threads": threads.len(),
    })
}

/// Write inputs and read outputs in the given format (with serde, bincode and serde_json
/// directly).
pub fn convert(cmd: &Value) -> Value {
    let path = cmd["path"].as_str().unwrap();
    let bin = cmd["format"] == "bincode";
    match cmd["what"].as_str().unwrap() {
        "write_graph" => {
            let adj: Adj = util::adj(cmd);
            if bin {
                bincode::serialize_into(File::create(path).unwrap(), &adj).unwrap()
            } else {
                serde_json::to_writer(File::create(path).unwrap(), &adj).unwrap()
            }
            json!({})
        },
        "write_order" => {
            let order: Order = util::order(cmd);
            if bin {
                bincode::serialize_into(File::create(path).unwrap(), &order).unwrap()
            } else {
                serde_json::to_writer(File::create(path).unwrap(), &order).unwrap()
            }
            json!({})
        },
        "read_paths" => {
            let content = std::fs::read(path).unwrap();
            let paths: Result<Vec<Path>, String> = if bin {
                // everything has to be used
                let mut slice = &content[..];
                match bincode::deserialize_from::<_, Vec<Path>>(&mut slice) {
                    Ok(p) if slice.is_empty() => Ok(p),
                    Ok(_) => Err("trailing bytes".into()),
                    Err(e) => Err(e.to_string()),
                }
            } else {
                serde_json::from_slice(&content).map_err(|e| e.to_string())
            };
            match paths {
                Ok(p) => json!({"ok": true, "paths": p.iter().map(|p| json!({
                    "time": util::int(p.time), "space": util::int(p.space),
                    "steps": p.steps})).collect::<Vec<_>>()}),
                Err(e) => json!({"ok": false, "error": e, "paths": []}),
            }
        },
        _ => panic!("harness: unknown conversion"),
    }
}
