use std::{
    sync::atomic::Ordering,
    thread,
    time::{Duration, Instant},
};

use mbqc_scheduling::interface;
use serde_json::{json, Value};

use crate::{
    accept,
    control::{self, Control, Log, Options, Policy},
    util,
};

fn ms(v: &Value) -> Option<Duration> {
    v.as_f64().map(|ms| Duration::from_micros((ms * 1000.) as u64))
}

fn policy(v: &Value) -> Option<Policy> {
    Some(match v["policy"].as_str()? {
        "random" => Policy::Random,
        "priority" => Policy::Priority,
        "delay" => Policy::Delay(v["kind"].as_str().unwrap().to_string()),
        "list" => Policy::List(serde_json::from_value(v["list"].clone()).unwrap()),
        _ => panic!("harness: unknown policy"),
    })
}

pub fn run(cmd: &Value) -> Value {
    let adj = util::adj(cmd);
    let order = util::order(cmd);
    let do_search = cmd["search"].as_bool().unwrap();
    let timeout = ms(&cmd["timeout_ms"]);
    let nthreads = cmd["nthreads"].as_u64().unwrap_or(1) as u16;
    let bound = cmd["bound"].as_u64().map(|b| b as u32);
    let seed = cmd["seed"].as_u64();
    let observe = !cmd["observe"].is_null();
    let o = &cmd["observe"];
    let log = Log::new(o["limit"].as_u64().unwrap_or(1 << 20) as usize);
    let scheduled = policy(o);
    let control = Control::new(
        log.clone(),
        Options {
            log_steps: o["steps"].as_bool().unwrap_or(false),
            log_gates: o["gates"].as_bool().unwrap_or(false),
            cut_step: o["cut_step"].as_u64().map(|k| k as usize),
            sync_prob: o["sync_prob"].as_f64().unwrap_or(0.),
            sync_at: o["sync_at"].as_object().map(|m| {
                m.iter()
                    .map(|(k, v)| {
                        (k.parse().unwrap(), serde_json::from_value(v.clone()).unwrap())
                    })
                    .collect()
            }),
            locks: o["locks"].as_bool().unwrap_or(false),
            scheduled,
            seed: o["seed"].as_u64().unwrap_or(0),
            nthreads: nthreads as usize,
        },
    );
    let accept = if cmd["accept"].is_null() {
        None
    } else {
        let cut = o["cut_call"]
            .as_u64()
            .map(|k| (k as usize, timeout.unwrap() + Duration::from_millis(30)));
        Some((accept::func(&cmd["accept"], &log, &control, cut), seed))
    };
    if observe {
        control::install(&control);
    }
    let scheduler = if control.is_scheduled() {
        let control = control.clone();
        Some(thread::spawn(move || control.schedule()))
    } else {
        None
    };

    let start = Instant::now();
    let paths =
        interface::run(&adj, &order, do_search, timeout, nthreads, bound, accept);
    let elapsed = start.elapsed();

    let calls = log.calls.load(Ordering::SeqCst);
    control::reset();
    control.stop();
    if let Some(s) = scheduler {
        s.join().unwrap();
    }
    let mut late = 0;
    let mut late_cpu = 0;
    if let Some(wait) = ms(&cmd["linger_ms"]) {
        let cpu = processor_time();
        thread::sleep(wait);
        late_cpu = processor_time() - cpu;
        late = log.calls.load(Ordering::SeqCst) - calls;
    }
    json!({
        "paths": paths.iter().map(|p| {
            json!({"time": util::int(p.time), "space": util::int(p.space),
                   "steps": p.steps})
        }).collect::<Vec<_>>(),
        "elapsed_us": elapsed.as_micros() as u64,
        "late": late,
        "late_cpu_us": late_cpu,
        "log": log.summary(),
    })
}

/// Many searches which only differ in the seed: how many of them find something.
pub fn chance(cmd: &Value) -> Value {
    let adj = util::adj(cmd);
    let order = util::order(cmd);
    let nthreads = cmd["nthreads"].as_u64().unwrap_or(1) as u16;
    let value = cmd["value"].as_f64().unwrap();
    let bound = cmd["bound"].as_u64().map(|b| b as u32);
    let free_first = cmd["free_first"].as_bool().unwrap_or(false);
    let least = cmd["least"].as_u64().unwrap_or(0) as usize;
    let seed = cmd["seed"].as_u64();
    let mut hits = 0;
    for j in 0..cmd["runs"].as_u64().unwrap() {
        let accept = mbqc_scheduling::probabilistic::AcceptFunc::Custom(Box::new(
            // (the first step is free, where wanted)
            move |_, _, most, _, _, _, _| {
                if free_first && most == 0. { 1. } else { value }
            },
        ));
        let paths = interface::run(
            &adj,
            &order,
            true,
            None,
            nthreads,
            bound,
            Some((accept, seed.map(|s| s + j))),
        );
        hits += paths.iter().any(|p| p.time >= least) as u64;
    }
    json!({ "hits": hits })
}

extern "C" {
    fn clock() -> i64;
}

/// What this process has used, in microseconds.
fn processor_time() -> i64 {
    unsafe { clock() }
}
