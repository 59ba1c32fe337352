//! Executes scripts of python operations on the bindings: reads one JSON script per line
//! from the file given as first argument and appends what was observed to the second one.

use std::{
    fs::{File, OpenOptions},
    io::{BufRead, BufReader, Write},
    panic::{self, AssertUnwindSafe},
    sync::{atomic::Ordering, Arc, Mutex},
};

use pyo3::{
    types::{Entry, PyModule},
    Args, PyAny, PyErr, PyResult, Python, Slot,
};
use serde_json::{json, Value};

static CALLBACKS: Mutex<Vec<Value>> = Mutex::new(Vec::new());

#[derive(Default)]
struct Heap(Vec<&'static Slot>);

impl Heap {
    fn decode(&self, v: &Value) -> PyAny {
        match v {
            Value::Null => PyAny::None,
            Value::Bool(b) => PyAny::Bool(*b),
            Value::Number(n) => match n.as_i64() {
                Some(i) => PyAny::Int(i as i128),
                None => PyAny::Float(n.as_f64().unwrap()),
            },
            Value::String(s) => PyAny::Str(s.clone()),
            Value::Array(l) => PyAny::List(l.iter().map(|v| self.decode(v)).collect()),
            Value::Object(m) => {
                let (k, v) = m.iter().next().unwrap();
                match k.as_str() {
                    "int" => PyAny::Int(v.as_str().unwrap().parse().unwrap()),
                    "float" => PyAny::Float(v.as_f64().unwrap()),
                    "ref" => PyAny::Ref(self.0[v.as_u64().unwrap() as usize - 1]),
                    "foreign" => {
                        PyAny::Foreign("into_py_graph", Box::new(self.decode(v)))
                    },
                    "stranger" => PyAny::Foreign("something_else", Box::new(PyAny::None)),
                    // returns these values, one after the other
                    "fn" => {
                        let values: Vec<f64> = serde_json::from_value(v.clone()).unwrap();
                        let count = Mutex::new(0);
                        PyAny::Func(Arc::new(move |args| {
                            let args: Vec<String> =
                                args.iter().map(|a| format!("{a:?}")).collect();
                            CALLBACKS.lock().unwrap().push(json!(args));
                            let mut k = count.lock().unwrap();
                            *k += 1;
                            Ok(values[(*k - 1) % values.len()])
                        }))
                    },
                    _ => panic!("harness: {k}"),
                }
            },
        }
    }

    /// The value of the object, with everything that can be read of it.
    fn encode(&mut self, v: &PyAny) -> Value {
        match v {
            PyAny::None => Value::Null,
            PyAny::Bool(b) => json!(b),
            PyAny::Int(i) => {
                serde_json::from_str(&i.to_string()).unwrap()
            },
            PyAny::Float(f) => json!(format!("{f:?}")),
            PyAny::Str(s) => json!(s),
            PyAny::List(l) => l.iter().map(|v| self.encode(v)).collect(),
            PyAny::Ref(r) => {
                let fields: Vec<PyResult<PyAny>> =
                    ["time", "space", "steps"].iter().map(|f| r.get().attribute(f)).collect();
                if fields.iter().all(|f| f.is_ok()) {
                    fields.into_iter().map(|f| self.encode(&f.unwrap())).collect()
                } else {
                    json!("object")
                }
            },
            _ => json!("other"),
        }
    }

    fn args(&self, pos: &Value, named: &Value) -> Args {
        Args {
            positional: pos.as_array().unwrap().iter().map(|v| self.decode(v)).collect(),
            named: named
                .as_object()
                .unwrap()
                .iter()
                .map(|(k, v)| (k.clone(), self.decode(v)))
                .collect(),
        }
    }

    fn perform(&mut self, module: &PyModule, op: &Value) -> PyResult<PyAny> {
        let args = self.args(&op["pos"], &op["named"]);
        let name = op["name"].as_str().unwrap();
        match op["do"].as_str().unwrap() {
            "call" => match module.get(name) {
                Some(Entry::Class(f)) | Some(Entry::Function(f)) => f(&args),
                None => Err(PyErr("ImportError", name.into())),
            },
            "method" => {
                let slot = self.0[op["on"].as_u64().unwrap() as usize - 1];
                slot.get_mut().method(name, &args)
            },
            other => panic!("harness: {other}"),
        }
    }
}

fn script(module: &PyModule, ops: &Value) -> Value {
    let mut heap = Heap::default();
    let mut out = Vec::new();
    for op in ops.as_array().unwrap() {
        *lib::RESULT.lock().unwrap() =
            serde_json::from_value(op["result"].clone()).unwrap_or_default();
        *lib::SAMPLES.lock().unwrap() =
            serde_json::from_value(op["samples"].clone()).unwrap_or_default();
        lib::CALLS.lock().unwrap().clear();
        CALLBACKS.lock().unwrap().clear();
        pyo3::WARNINGS.store(0, Ordering::SeqCst);
        let r = panic::catch_unwind(AssertUnwindSafe(|| heap.perform(module, op)));
        let (status, value) = match r {
            Ok(Ok(v)) => {
                let e = heap.encode(&v);
                if let PyAny::Ref(r) = v {
                    heap.0.push(r);
                }
                ("ok", e)
            },
            Ok(Err(e)) => (e.0, Value::Null),
            Err(_) => ("panic", Value::Null),
        };
        out.push(json!({
            "out": status,
            "value": value,
            "calls": *lib::CALLS.lock().unwrap_or_else(|e| e.into_inner()),
            "callbacks": *CALLBACKS.lock().unwrap_or_else(|e| e.into_inner()),
            "warnings": pyo3::WARNINGS.load(Ordering::SeqCst),
        }));
    }
    json!(out)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|_| {}));
    let module = PyModule::new("_lib");
    if let Err(e) = Python::with_gil(|py| bindings::_lib(py, &module)) {
        println!("{e}");
        std::process::exit(4);
    }
    let input = BufReader::new(File::open(&args[1]).unwrap());
    let mut output = OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    let names: Vec<String> =
        module.contents.lock().unwrap().iter().map(|(n, _)| n.clone()).collect();
    writeln!(output, "{}", json!(names)).unwrap();
    for line in input.lines() {
        let cmd: Value = serde_json::from_str(&line.unwrap()).unwrap();
        writeln!(output, "{}", script(&module, &cmd)).unwrap();
    }
}
