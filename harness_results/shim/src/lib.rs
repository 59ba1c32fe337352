//! A stand-in for the library: records the calls of [interface::run] in the file $CALLS and
//! returns made-up paths.

pub mod probabilistic {
    pub type Accept = dyn Fn(f64, f64, f64, f64, f64, f64, f64) -> f64 + Send + Sync;
    pub type AcceptBox = Box<Accept>;

    #[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
    pub struct HeavysideParameters {
        pub cutoff: f64,
        pub lin_num_total_nodes_exp: i32,
        pub exp_num_total_nodes_exp: i32,
        pub exp_num_remaining_nodes_exp: i32,
        pub exp_diff_exp: i32,
        pub exp_num_measured_nodes_exp: i32,
    }

    #[derive(Default)]
    pub enum AcceptFunc {
        #[default]
        BuiltinHeavyside,
        ParametrizedHeavyside {
            param: HeavysideParameters,
        },
        Custom(AcceptBox),
    }
}

pub mod search {
    pub type SpacialGraph = Vec<Vec<usize>>;
}
pub mod scheduler {
    pub mod space {
        pub type SpacialGraph = Vec<Vec<usize>>;
    }
}

pub mod interface {
    use std::{fs::File, io::Write, sync::Mutex, time::Duration};

    use serde::{Deserialize, Serialize};
    use serde_json::json;

    use crate::probabilistic::AcceptFunc;

    pub type SpacialGraph = Vec<Vec<usize>>;
    pub type PartialOrderGraph = Vec<Vec<(usize, Vec<usize>)>>;

    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct Path {
        pub time: usize,
        pub space: usize,
        pub steps: Vec<Vec<usize>>,
    }

    struct State {
        log: File,
        random: u64,
        problem: (SpacialGraph, PartialOrderGraph),
        problems: u64,
        seeds: Vec<u64>,
    }
    static STATE: Mutex<Option<State>> = Mutex::new(None);

    fn random(r: &mut u64, n: u64) -> u64 {
        *r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (*r >> 33) % n
    }

    #[allow(clippy::ptr_arg)]
    pub fn run(
        spacial_graph: &SpacialGraph,
        dependency_graph: &PartialOrderGraph,
        do_search: bool,
        timeout: Option<Duration>,
        nthreads: u16,
        task_bound: Option<u32>,
        probabilistic: Option<(AcceptFunc, Option<u64>)>,
    ) -> Vec<Path> {
        let mut lock = STATE.lock().unwrap();
        let st = lock.get_or_insert_with(|| State {
            log: File::create(std::env::var("CALLS").unwrap()).unwrap(),
            random: std::env::var("CALLS_SEED").unwrap().parse().unwrap(),
            problem: Default::default(),
            problems: 0,
            seeds: Vec::new(),
        });
        let same = st.problems > 0
            && st.problem.0 == *spacial_graph
            && st.problem.1 == *dependency_graph;
        st.problems += 1;
        let full = st.problems % 997 < 3;
        if !same {
            st.problem = (spacial_graph.clone(), dependency_graph.clone());
        }
        let r = &mut st.random;
        // without a search, there is one path
        let n = if !do_search {
            1
        } else if random(r, 20) == 0 {
            0
        } else {
            1 + random(r, 3)
        };
        let paths: Vec<Path> = (0..n)
            .map(|_| Path {
                time: random(r, 31) as usize,
                space: random(r, 31) as usize,
                steps: Vec::new(),
            })
            .collect();
        let (accept, seed) = match &probabilistic {
            None => (0, None),
            Some((AcceptFunc::BuiltinHeavyside, s)) => (1, *s),
            Some((_, s)) => (2, *s),
        };
        // a seed that was used recently
        let fresh = seed.map_or(0, |s| {
            let fresh = !st.seeds.contains(&s);
            if st.seeds.len() < 50 {
                st.seeds.push(s);
            }
            1 + fresh as i32
        });
        let mut row = vec![
            same as i64,
            do_search as i64,
            timeout.map_or(-1, |t| t.as_micros() as i64),
            nthreads as i64,
            task_bound.map_or(-1, |b| b as i64),
            accept,
            fresh as i64,
            spacial_graph.len() as i64,
            spacial_graph.iter().map(|n| n.len() as i64).sum(),
            dependency_graph.len() as i64,
            n as i64,
        ];
        for p in paths.first().into_iter().chain(paths.last()) {
            row.extend([p.time as i64, p.space as i64]);
        }
        row.resize(15, 0);
        let mut line = json!([row]).to_string();
        if full {
            line = json!([row, spacial_graph, dependency_graph]).to_string();
        }
        line.push('\n');
        st.log.write_all(line.as_bytes()).unwrap();
        paths
    }
}
