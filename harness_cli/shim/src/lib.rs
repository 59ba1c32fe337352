//! A stand-in for the library: records the call of the entry point of the command line
//! tool in the file named by MBQC_SHIM_OUT and does nothing else.

pub mod probabilistic {
    pub type Accept = dyn Fn(f64, f64, f64, f64, f64, f64, f64) -> f64 + Send + Sync;
    pub type AcceptBox = Box<Accept>;

    #[derive(Clone, Copy)]
    pub struct HeavysideParameters {
        pub cutoff: f64,
        pub lin_num_total_nodes_exp: i32,
        pub exp_num_total_nodes_exp: i32,
        pub exp_num_remaining_nodes_exp: i32,
        pub exp_diff_exp: i32,
        pub exp_num_measured_nodes_exp: i32,
    }

    #[derive(Default)]
    pub enum AcceptFunc {
        #[default]
        BuiltinHeavyside,
        ParametrizedHeavyside { param: HeavysideParameters },
        Custom(AcceptBox),
    }

    impl AcceptFunc {
        pub(crate) fn is_builtin(&self) -> bool {
            match self {
                AcceptFunc::BuiltinHeavyside => true,
                // what the documentation defines the built-in one to be
                AcceptFunc::ParametrizedHeavyside { param: p } => {
                    p.cutoff == 0.
                        && (
                            p.lin_num_total_nodes_exp,
                            p.exp_num_total_nodes_exp,
                            p.exp_num_remaining_nodes_exp,
                            p.exp_diff_exp,
                            p.exp_num_measured_nodes_exp,
                        ) == (2, 1, 1, 3, 1)
                },
                AcceptFunc::Custom(_) => false,
            }
        }
    }
}

pub mod interface {
    use std::{error::Error, fs::OpenOptions, io::Write, path::Path, time::Duration};

    use serde_json::json;

    use crate::probabilistic::AcceptFunc;

    #[allow(clippy::too_many_arguments)]
    pub fn run_serialized(
        spacial_graph: (impl AsRef<Path>, &str),
        dependency_graph: (impl AsRef<Path>, &str),
        do_search: bool,
        timeout: Option<Duration>,
        nthreads: u16,
        task_bound: Option<u32>,
        probablistic: Option<AcceptFunc>,
        paths: (impl AsRef<Path>, &str),
    ) -> Result<(), Box<dyn Error>> {
        let name = |p: &dyn AsRef<Path>| AsRef::<Path>::as_ref(p.as_ref()).to_str().unwrap().to_owned();
        let call = json!({
            "pos": [
                name(&spacial_graph.0), spacial_graph.1,
                name(&dependency_graph.0), dependency_graph.1,
                name(&paths.0), paths.1,
            ],
            "s": do_search,
            "p": probablistic.is_some(),
            "builtin": probablistic.map(|f| f.is_builtin()).unwrap_or(true),
            "t": timeout.map(|t| t.as_micros().to_string()),
            "n": nthreads.to_string(),
            "b": task_bound.map(|b| b.to_string()),
        });
        let file = std::env::var("MBQC_SHIM_OUT").unwrap();
        let mut f = OpenOptions::new().create(true).append(true).open(file).unwrap();
        writeln!(f, "{call}").unwrap();
        if std::env::var("MBQC_SHIM_FAIL").is_ok() {
            Err("as requested".into())
        } else {
            Ok(())
        }
    }
}
