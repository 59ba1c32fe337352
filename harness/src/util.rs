use std::any::Any;

use serde_json::Value;

pub type Adj = Vec<Vec<usize>>;
pub type Order = Vec<Vec<(usize, Vec<usize>)>>;

pub fn adj(cmd: &Value) -> Adj {
    serde_json::from_value(cmd["adj"].clone()).unwrap()
}

pub fn order(cmd: &Value) -> Order {
    serde_json::from_value(cmd["order"].clone()).unwrap()
}

pub fn panic_message(e: &Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// usize::MAX stands for "nothing found yet"; TLC's integers have 32 bits
pub fn int(u: usize) -> i64 {
    if u >= 1 << 30 {
        -1
    } else {
        u as i64
    }
}

/// -1: usize::MAX (as f64); -2: not an integer in the expected range
pub fn float_int(f: f64) -> i64 {
    if f == usize::MAX as f64 {
        -1
    } else if f.fract() == 0. && (0. ..1e9).contains(&f) {
        f as i64
    } else {
        -2
    }
}
