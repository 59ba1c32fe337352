//! Sweeps through all schedules.

use mbqc_scheduling::scheduler::{
    space::Graph,
    time::{DependencyBuffer, MeasurableSet, Partitioner, PathGenerator},
    tree::{FocusIterator, Step, Sweep},
    Scheduler,
};
use rand::{Rng, SeedableRng};
use rand_pcg::Pcg64;
use serde_json::{json, Value};

use crate::util::{self, int};

/// What can be observed of the tree nodes.
trait State: FocusIterator<IterItem = Vec<usize>> + Clone {
    fn observe(&self) -> Value;
    fn leaf(l: Option<Self::LeafItem>) -> Value;
}

impl State for Scheduler<'_, Partitioner> {
    fn observe(&self) -> Value {
        json!({
            "meas": self.time().measurable().set(),
            "un": self.time().has_unmeasureable(),
            "cur": int(self.space().current_memory()),
            "max": int(self.space().max_memory()),
        })
    }
    fn leaf(l: Option<usize>) -> Value {
        l.map(|l| json!(int(l))).unwrap_or(json!(-1))
    }
}

impl State for PathGenerator<'_, Partitioner> {
    fn observe(&self) -> Value {
        json!({
            "meas": self.measurable().set(),
            "un": self.has_unmeasureable(),
            "cur": -1,
            "max": -1,
        })
    }
    // the memory is not known here
    fn leaf(l: Option<()>) -> Value {
        l.map(|_| json!(-2)).unwrap_or(json!(-1))
    }
}

struct Recorder {
    events: Vec<Value>,
    rng: Pcg64,
    skip_prob: f64,
    clone_prob: f64,
    skip_at: Vec<Vec<Vec<usize>>>,
    limit: usize,
    over: bool,
}

impl Recorder {
    fn push(&mut self, v: Value) {
        if self.events.len() >= self.limit {
            self.over = true;
        } else {
            self.events.push(v);
        }
    }

    fn iterate<T: State>(&mut self, mut sweep: Sweep<T>, path: &mut Vec<Vec<usize>>) {
        let base = path.len();
        loop {
            // a clone goes on at the same place, whatever is done with the original
            if self.clone_prob > 0. && self.rng.gen_bool(self.clone_prob) {
                let copy = sweep.clone();
                for _ in 0..self.rng.gen_range(0..4) {
                    sweep.next();
                    if self.rng.gen_bool(0.2) {
                        let _ = sweep.skip_current();
                    }
                }
                sweep = copy;
            }
            let Some(step) = sweep.next() else { break };
            if self.over {
                return;
            }
            let depth = base + sweep.stack().len();
            match step {
                Step::Forward(s) => {
                    path.push(s.clone());
                    let skip = self.skip_at.contains(path)
                        || (self.skip_prob > 0. && self.rng.gen_bool(self.skip_prob));
                    self.push(json!({"k": "F", "s": s, "depth": depth, "base": base,
                                     "st": sweep.current().observe()}));
                    if skip {
                        let ok = sweep.skip_current().is_ok();
                        path.pop();
                        self.push(json!({"k": "S", "ok": ok, "base": base,
                                         "depth": base + sweep.stack().len(),
                                         "st": sweep.current().observe()}));
                    }
                },
                Step::Backward(leaf) => {
                    path.pop();
                    self.push(json!({"k": "B", "leaf": T::leaf(leaf), "depth": depth,
                                     "base": base,
                                     "st": sweep.current().observe()}));
                },
            }
        }
        // it has to stay at the end
        let again = (0..3).any(|_| sweep.next().is_some());
        let at_leaf = sweep.current().at_leaf();
        self.push(json!({"k": "E", "leaf": T::leaf(at_leaf), "again": again, "base": base,
                         "skip": sweep.skip_current().is_ok()}));
    }
}

fn go<T: State>(mut root: T, cmd: &Value, into: impl Fn(T) -> Sweep<T>) -> Value {
    let mut rec = Recorder {
        events: Vec::new(),
        rng: Pcg64::seed_from_u64(cmd["seed"].as_u64().unwrap_or(0)),
        skip_prob: cmd["skip_prob"].as_f64().unwrap_or(0.),
        clone_prob: cmd["clone_prob"].as_f64().unwrap_or(0.),
        skip_at: serde_json::from_value(cmd["skip_at"].clone()).unwrap_or_default(),
        limit: cmd["limit"].as_u64().unwrap_or(1 << 20) as usize,
        over: false,
    };
    let init = root.observe();
    let mut path = Vec::new();
    // split off some subtrees, as the multi-threaded search does it
    let split = cmd["split"].as_u64().unwrap_or(0);
    for _ in 0..split {
        if rec.clone_prob > 0. && rec.rng.gen_bool(rec.clone_prob) {
            let copy = root.clone();
            root.next_and_focus();
            root = copy;
        }
        let Some((sub, s)) = root.next_and_focus() else { break };
        path.push(s.clone());
        rec.push(json!({"k": "F", "s": s, "depth": 1, "base": 0, "st": sub.observe()}));
        rec.iterate(into(sub), &mut path);
        path.clear();
    }
    let early = cmd["clone"].as_bool().unwrap_or(false);
    if early {
        // a clone has to be independent
        let mut other = into(root.clone());
        for _ in 0..7 {
            other.next();
        }
    }
    rec.iterate(into(root), &mut path);
    json!({"events": rec.events, "init": init, "over": rec.over})
}

pub fn sweep(cmd: &Value) -> Value {
    let adj = util::adj(cmd);
    let order = util::order(cmd);
    let mut buffer = DependencyBuffer::new(adj.len());
    let time =
        PathGenerator::<Partitioner>::from_dependency_graph(&order, &mut buffer, None);
    if cmd["time_only"].as_bool().unwrap_or(false) {
        go(time, cmd, |t| t.into_iter())
    } else {
        go(Scheduler::<Partitioner>::new(time, Graph::new(&adj)), cmd, |t| t.into_iter())
    }
}
