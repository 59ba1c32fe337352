//! A stand-in for the library: records the calls of [interface::run] and returns what it
//! was told to return.

use std::sync::Mutex;

use serde_json::Value;

/// The recorded calls.
pub static CALLS: Mutex<Vec<Value>> = Mutex::new(Vec::new());
/// What the next call returns.
pub static RESULT: Mutex<Vec<interface::Path>> = Mutex::new(Vec::new());
/// What a custom accept function is called with by the next call.
pub static SAMPLES: Mutex<Vec<[f64; 7]>> = Mutex::new(Vec::new());

pub mod probabilistic {
    pub type Accept = dyn Fn(f64, f64, f64, f64, f64, f64, f64) -> f64 + Send + Sync;
    pub type AcceptBox = Box<Accept>;

    #[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
    pub struct HeavysideParameters {
        pub cutoff: f64,
        pub lin_num_total_nodes_exp: i32,
        pub exp_num_total_nodes_exp: i32,
        pub exp_num_remaining_nodes_exp: i32,
        pub exp_diff_exp: i32,
        pub exp_num_measured_nodes_exp: i32,
    }

    #[derive(Default)]
    pub enum AcceptFunc {
        #[default]
        BuiltinHeavyside,
        ParametrizedHeavyside {
            param: HeavysideParameters,
        },
        Custom(AcceptBox),
    }
}

pub mod interface {
    use std::time::Duration;

    use serde::{Deserialize, Serialize};
    use serde_json::json;

    use crate::probabilistic::AcceptFunc;

    pub type SpacialGraph = Vec<Vec<usize>>;
    pub type PartialOrderGraph = Vec<Vec<(usize, Vec<usize>)>>;

    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Path {
        pub time: usize,
        pub space: usize,
        pub steps: Vec<Vec<usize>>,
    }

    #[allow(clippy::ptr_arg)]
    pub fn run(
        spacial_graph: &SpacialGraph,
        dependency_graph: &PartialOrderGraph,
        do_search: bool,
        timeout: Option<Duration>,
        nthreads: u16,
        task_bound: Option<u32>,
        probabilistic: Option<(AcceptFunc, Option<u64>)>,
    ) -> Vec<Path> {
        let (accept, seed) = match probabilistic {
            None => (json!(["none"]), None),
            Some((f, seed)) => (
                match f {
                    AcceptFunc::BuiltinHeavyside => json!(["builtin"]),
                    AcceptFunc::ParametrizedHeavyside { param: p } => json!([
                        "param",
                        format!("{:?}", p.cutoff),
                        p.lin_num_total_nodes_exp.to_string(),
                        p.exp_num_total_nodes_exp.to_string(),
                        p.exp_num_remaining_nodes_exp.to_string(),
                        p.exp_diff_exp.to_string(),
                        p.exp_num_measured_nodes_exp.to_string(),
                    ]),
                    AcceptFunc::Custom(f) => {
                        let samples = crate::SAMPLES.lock().unwrap().clone();
                        let mut out = vec!["custom".to_string()];
                        for s in samples {
                            let v = f(s[0], s[1], s[2], s[3], s[4], s[5], s[6]);
                            out.push(format!("{v:?}"));
                        }
                        json!(out)
                    },
                },
                seed,
            ),
        };
        crate::CALLS.lock().unwrap().push(json!({
            "graph": spacial_graph,
            "order": dependency_graph,
            "search": do_search,
            "timeout": timeout.map(|t| vec![t.as_secs().to_string(), t.subsec_nanos().to_string()])
                .unwrap_or_default(),
            "nthreads": nthreads.to_string(),
            "bound": task_bound.map(|b| vec![b.to_string()]).unwrap_or_default(),
            "accept": accept,
            "seed": seed.map(|b| vec![b.to_string()]).unwrap_or_default(),
        }));
        crate::RESULT.lock().unwrap().clone()
    }
}
