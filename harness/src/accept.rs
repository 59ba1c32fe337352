//! Accept functions: the provided ones, and custom ones described in the commands.

use std::{
    panic,
    sync::{atomic::Ordering, Arc},
    thread,
    time::Duration,
};

use mbqc_scheduling::probabilistic::{AcceptFunc, HeavysideParameters};
use serde_json::{json, Value};

use crate::{
    control::{self, Control, Log},
    util::float_int,
};

fn params(v: &Value) -> HeavysideParameters {
    let i = |k: &str| v[k].as_i64().unwrap() as i32;
    HeavysideParameters {
        cutoff: v["cutoff"].as_f64().unwrap(),
        lin_num_total_nodes_exp: i("lin"),
        exp_num_total_nodes_exp: i("total"),
        exp_num_remaining_nodes_exp: i("remaining"),
        exp_diff_exp: i("diff"),
        exp_num_measured_nodes_exp: i("measured"),
    }
}

/// What a failing accept function panics with.
pub const FAILED: &str = "accept: failed";

#[derive(Clone)]
enum Rule {
    Const(f64),
    /// rejected iff (a * last_max + b * last_cur + c * cur) % m == r
    Mod([i64; 5], f64),
    /// rejected iff the current memory is above the value
    Cap(f64, f64),
    /// rejected iff the current memory grows by more than the value
    Grow(f64, f64),
    /// rejected iff the memory before the step is at least the value
    Last(f64, f64),
    /// the values for the consecutive calls (repeated)
    Calls(Vec<f64>),
}

impl Rule {
    fn parse(v: &Value) -> Option<Self> {
        let hi = v["hi"].as_f64().unwrap_or(1.);
        Some(match v["kind"].as_str().unwrap() {
            "const" => Rule::Const(v["v"].as_f64().unwrap()),
            "mod" => Rule::Mod(serde_json::from_value(v["p"].clone()).unwrap(), hi),
            "cap" => Rule::Cap(v["v"].as_f64().unwrap(), hi),
            "grow" => Rule::Grow(v["v"].as_f64().unwrap(), hi),
            "last" => Rule::Last(v["v"].as_f64().unwrap(), hi),
            "calls" => Rule::Calls(serde_json::from_value(v["v"].clone()).unwrap()),
            _ => return None,
        })
    }

    fn eval(&self, call: usize, a: &[f64; 7]) -> f64 {
        let cut = |reject: bool, hi: f64| if reject { 0. } else { hi };
        match self {
            Rule::Const(v) => *v,
            Rule::Mod([x, y, z, m, r], hi) => {
                let s = x * a[2] as i64 + y * a[3] as i64 + z * a[4] as i64;
                cut(s % m == *r, *hi)
            },
            Rule::Cap(v, hi) => cut(a[4] > *v, *hi),
            Rule::Grow(v, hi) => cut(a[4] - a[3] > *v, *hi),
            Rule::Last(v, hi) => cut(a[3] >= *v, *hi),
            Rule::Calls(v) => v[call % v.len()],
        }
    }
}

/// The accept function of a run command, wrapped so that the calls are logged if needed.
pub fn func(
    v: &Value,
    log: &Arc<Log>,
    control: &Arc<Control>,
    cut_call: Option<(usize, Duration)>,
) -> AcceptFunc {
    let plain = match v["kind"].as_str().unwrap() {
        "builtin" => Some(AcceptFunc::BuiltinHeavyside),
        "param" => Some(AcceptFunc::ParametrizedHeavyside { param: params(v) }),
        _ => None,
    };
    let record = v["log"].as_bool().unwrap_or(true);
    let log = log.clone();
    let control = control.clone();
    let gate = control.is_scheduled() && v["gate"].as_bool().unwrap_or(false);
    match plain {
        Some(f) if v["wrap"].as_bool() != Some(true) => f,
        plain => {
            let inner = plain.map(|f| f.get_accept_func());
            let rule = Rule::parse(v);
            let nap = v["nap_us"].as_u64();
            // the function fails in these calls, and in each one from the given one on
            let fails: Vec<usize> =
                serde_json::from_value(v["fails"].clone()).unwrap_or_default();
            let fails_from = v["fails_from"].as_u64().unwrap_or(u64::MAX) as usize;
            AcceptFunc::Custom(Box::new(move |a, b, c, d, e, f, g| {
                let args = [a, b, c, d, e, f, g];
                let call = log.calls.fetch_add(1, Ordering::SeqCst);
                let value = match &inner {
                    Some(f) => f(a, b, c, d, e, f64_id(args[5]), g),
                    None => rule.as_ref().unwrap().eval(call, &args),
                };
                let fail = fails.contains(&call) || call >= fails_from;
                if gate {
                    control::accept_gate(&control);
                }
                if record || log.cut.load(Ordering::SeqCst) {
                    log.push(json!({
                        "k": "acc",
                        "a": args.iter().map(|a| float_int(*a)).collect::<Vec<_>>(),
                        // 0: reject, 2: accept, 1: a probability in between
                        "v": if value >= 1. { 2 } else if value == 0. { 0 } else { 1 },
                        "fail": fail as u8,
                    }));
                } else {
                    log.tid();
                }
                if let Some(us) = nap {
                    thread::sleep(Duration::from_micros(us));
                }
                if fail {
                    log.failed.fetch_add(1, Ordering::SeqCst);
                    // (this does not run the panic hook)
                    panic::resume_unwind(Box::new(FAILED));
                }
                if let Some((k, wait)) = cut_call {
                    if call + 1 == k {
                        thread::sleep(wait);
                        log.push(json!({"k": "cut", "fin": true}));
                        log.cut.store(true, Ordering::SeqCst);
                    }
                }
                value
            }))
        },
    }
}

fn f64_id(f: f64) -> f64 {
    f
}

/// Evaluate one of the provided functions on the given arguments.
pub fn accept(cmd: &Value) -> Value {
    let f = match cmd["func"]["kind"].as_str().unwrap() {
        "builtin" => AcceptFunc::BuiltinHeavyside,
        "default" => AcceptFunc::default(),
        "param" => AcceptFunc::ParametrizedHeavyside { param: params(&cmd["func"]) },
        _ => panic!("harness: unknown accept function"),
    }
    .get_accept_func();
    let max = |v: &Value| {
        if v.as_i64() == Some(-1) {
            usize::MAX as f64
        } else {
            v.as_f64().unwrap()
        }
    };
    let values: Vec<Value> = cmd["args"]
        .as_array()
        .unwrap()
        .iter()
        .map(|a| {
            let v = f(
                max(&a[0]),
                max(&a[1]),
                max(&a[2]),
                max(&a[3]),
                max(&a[4]),
                max(&a[5]),
                max(&a[6]),
            );
            if v.is_nan() {
                json!("nan")
            } else if v.is_infinite() {
                json!(if v > 0. { "inf" } else { "-inf" })
            } else {
                json!(v)
            }
        })
        .collect();
    json!({ "values": values })
}
