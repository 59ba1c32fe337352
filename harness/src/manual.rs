//! Manual stepping, graphs on their own, and the construction of buffers.

use hashbrown::HashMap;
use mbqc_scheduling::scheduler::{
    space::{Graph, GraphBuffer, State},
    time::{DependencyBuffer, MeasurableSet, Partitioner, PathGenerator},
    tree::{Focus, FocusIterator},
    InstructionError, Scheduler,
};
use serde_json::{json, Value};
use std::panic::{self, AssertUnwindSafe};

use crate::util::{self, int, Order};

fn states(g: &Graph) -> Vec<u8> {
    g.nodes()
        .iter()
        .map(|n| match n.0 {
            State::Sleeping => 0,
            State::InMemory => 1,
            State::Measured => 2,
        })
        .collect()
}

fn graph_state(g: &Graph) -> Value {
    json!({"states": states(g), "cur": int(g.current_memory()),
           "max": int(g.max_memory())})
}

fn time_state<T: MeasurableSet>(t: &PathGenerator<T>) -> Value {
    json!({"meas": t.measurable().set(), "un": t.has_unmeasureable(),
           "rem": int(t.num_remaining_nodes())})
}

trait Target: Clone {
    fn inplace(&mut self, s: &[usize]) -> Result<(), Value>;
    fn copy(&mut self, s: &[usize]) -> Result<Self, Value>
    where
        Self: Sized;
    fn observe(&self) -> Value;
    /// The next step of the automatic iteration, and the state after it.
    fn iterate(&mut self) -> Option<(Self, Vec<usize>)>
    where
        Self: Sized,
    {
        None
    }
}

fn instruction_error(e: InstructionError) -> Value {
    match e {
        InstructionError::NotMeasurable(e) => json!({"kind": "not", "nodes": e.0}),
        InstructionError::AlreadyMeasured(e) => json!({"kind": "already", "nodes": [e.0]}),
    }
}

macro_rules! impl_target {
    ($t:ty, {$($iterate:tt)*}) => {
        impl Target for Scheduler<'_, $t> {
            fn inplace(&mut self, s: &[usize]) -> Result<(), Value> {
                self.focus_inplace(s).map_err(instruction_error)
            }
            fn copy(&mut self, s: &[usize]) -> Result<Self, Value> {
                self.focus(s).map_err(instruction_error)
            }
            fn observe(&self) -> Value {
                json!({"time": time_state(self.time()),
                       "space": graph_state(self.space())})
            }
            $($iterate)*
        }

        impl Target for PathGenerator<'_, $t> {
            fn inplace(&mut self, s: &[usize]) -> Result<(), Value> {
                self.focus_inplace(s).map_err(|e| json!({"kind": "not", "nodes": e.0}))
            }
            fn copy(&mut self, s: &[usize]) -> Result<Self, Value> {
                self.focus(s).map_err(|e| json!({"kind": "not", "nodes": e.0}))
            }
            fn observe(&self) -> Value {
                json!({"time": time_state(self),
                       "space": {"states": [], "cur": -1, "max": -1}})
            }
            $($iterate)*
        }
    };
}
impl_target!(Vec<usize>, {});
impl_target!(Partitioner, {
    fn iterate(&mut self) -> Option<(Self, Vec<usize>)> {
        self.next_and_focus()
    }
});

impl Target for Graph<'_> {
    fn inplace(&mut self, s: &[usize]) -> Result<(), Value> {
        self.focus_inplace(s).map_err(|e| json!({"kind": "already", "nodes": [e.0]}))
    }
    fn copy(&mut self, s: &[usize]) -> Result<Self, Value> {
        self.focus(s).map_err(|e| json!({"kind": "already", "nodes": [e.0]}))
    }
    fn observe(&self) -> Value {
        graph_state(self)
    }
}

/// Script entries: {"m": "in" | "copy" | "step", "s": [..]}; "in" steps in place, "copy"
/// makes the step on a copy and drops it, and "step" replaces the state by the copy; "iter"
/// asks for the next step of the automatic iteration (and drops the copy).
fn script<T: Target>(mut target: T, cmd: &Value) -> Value {
    let mut events = Vec::new();
    let init = target.observe();
    for e in cmd["script"].as_array().unwrap() {
        let s: Vec<usize> = serde_json::from_value(e["s"].clone()).unwrap();
        let m = e["m"].as_str().unwrap();
        let mut iterated = Vec::new();
        let result = panic::catch_unwind(AssertUnwindSafe(|| match m {
            "in" => target.inplace(&s).map(|_| None),
            "iter" => Ok(target.iterate().map(|(new, s)| {
                iterated = s;
                new
            })),
            _ => target.copy(&s).map(Some),
        }));
        let mut ev = json!({"m": m, "s": s, "res": "ok", "kind": "", "nodes": [],
                            "panic": ""});
        if m == "iter" {
            ev["s"] = json!(iterated);
        }
        let mut stop = false;
        let mut copied = Value::Null;
        match result {
            Ok(Ok(None)) => {},
            Ok(Ok(Some(new))) => {
                copied = new.observe();
                if m == "step" {
                    // the original is observed, too
                    ev["orig"] = target.observe();
                    target = new;
                }
            },
            Ok(Err(e)) => {
                ev["res"] = json!("err");
                ev["kind"] = e["kind"].clone();
                ev["nodes"] = e["nodes"].clone();
            },
            Err(e) => {
                ev["res"] = json!("panic");
                ev["panic"] = json!(util::panic_message(&e));
                stop = true;
            },
        }
        ev["after"] = target.observe();
        ev["copied"] = if copied.is_null() { ev["after"].clone() } else { copied };
        if ev["orig"].is_null() {
            ev["orig"] = ev["after"].clone();
        }
        events.push(ev);
        if stop {
            break;
        }
    }
    json!({"init": init, "events": events})
}

fn mapping(cmd: &Value) -> Option<HashMap<usize, usize>> {
    let pairs: Option<Vec<(usize, usize)>> =
        serde_json::from_value(cmd["map"].clone()).unwrap();
    pairs.map(|p| p.into_iter().collect())
}

pub fn manual(cmd: &Value) -> Value {
    let order = util::order(cmd);
    let map = mapping(cmd);
    let len = cmd["len"].as_u64().unwrap() as usize;
    let mut buffer = DependencyBuffer::new(len);
    if !cmd["dirty"].is_null() {
        // the buffer has been used for something else before
        let dirty: Order = serde_json::from_value(cmd["dirty"].clone()).unwrap();
        let _ = PathGenerator::<Vec<usize>>::from_dependency_graph(
            &dirty,
            &mut buffer,
            None,
        );
    }
    let num_bits = buffer.num_bits();
    let adj = if cmd["adj"].is_null() { None } else { Some(util::adj(cmd)) };
    let mut out = match (adj, cmd["partitioner"].as_bool().unwrap_or(false)) {
        (None, false) => script(
            PathGenerator::<Vec<usize>>::from_dependency_graph(
                &order,
                &mut buffer,
                map.as_ref(),
            ),
            cmd,
        ),
        (None, true) => script(
            PathGenerator::<Partitioner>::from_dependency_graph(
                &order,
                &mut buffer,
                map.as_ref(),
            ),
            cmd,
        ),
        (Some(adj), false) => script(
            Scheduler::<Vec<usize>>::new(
                PathGenerator::from_dependency_graph(&order, &mut buffer, map.as_ref()),
                Graph::new(&adj),
            ),
            cmd,
        ),
        (Some(adj), true) => script(
            Scheduler::<Partitioner>::new(
                PathGenerator::from_dependency_graph(&order, &mut buffer, map.as_ref()),
                Graph::new(&adj),
            ),
            cmd,
        ),
    };
    out["num_bits"] = json!(num_bits);
    out
}

pub fn graph(cmd: &Value) -> Value {
    let adj = util::adj(cmd);
    script(Graph::new(&adj), cmd)
}

/// Construct a graph buffer.
pub fn build(cmd: &Value) -> Value {
    if !cmd["adj"].is_null() {
        let buffer = GraphBuffer::from_sparse(util::adj(cmd));
        return json!({ "adj": buffer.as_buffer() });
    }
    let edges: Vec<(usize, usize)> = serde_json::from_value(cmd["edges"].clone()).unwrap();
    let buffer = GraphBuffer::new(
        &edges,
        cmd["n"].as_u64().unwrap() as usize,
        mapping(cmd).as_ref(),
        cmd["check"].as_bool().unwrap(),
    );
    let graph = Graph::new(buffer.as_buffer());
    json!({ "adj": buffer.as_buffer(),
            "nodes": graph.nodes().iter().map(|n| n.1).collect::<Vec<_>>(),
            "state": graph_state(&graph) })
}
