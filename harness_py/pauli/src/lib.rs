//! A stand-in for what the bindings use of pauli_tracker_pyo3.

use pyo3::{types::PyModule, PyResult, Python};

pub mod frames {
    use pyo3::{Args, IntoPy, PyAny, PyErr, PyMethods, PyResult};

    pub type Order = Vec<Vec<(usize, Vec<usize>)>>;
    pub struct PartialOrderGraph(pub Order);
    pyo3::class!(PartialOrderGraph);

    impl PyMethods for PartialOrderGraph {
        fn construct(args: &Args) -> PyResult<PyAny> {
            let bound = args.bind("graph", &["graph"])?;
            Ok(Self(bound.get(0)?).into_py())
        }
        fn method(&mut self, name: &str, _: &Args) -> PyResult<PyAny> {
            match name {
                "into_py_graph" => Ok(self.0.clone().into_py()),
                "take_into_py_graph" => Ok(std::mem::take(&mut self.0).into_py()),
                _ => Err(PyErr("AttributeError", name.into())),
            }
        }
    }
}

pub struct Module<'m> {
    pub pymodule: &'m PyModule,
    pub path: String,
}

impl<'m> Module<'m> {
    pub fn new(_: Python<'m>, name: &str, path: String) -> PyResult<Self> {
        let pymodule = Box::leak(Box::new(PyModule::new(name)));
        Ok(Self { pymodule, path: format!("{path}.{name}") })
    }

    pub fn add_submodule(&self, _: Python, module: Module) -> PyResult<()> {
        self.pymodule.add_submodule(module.pymodule)
    }
}

#[macro_export]
macro_rules! transform {
    () => {
        ""
    };
}
#[macro_export]
macro_rules! take_transform {
    () => {
        ""
    };
}
#[macro_export]
macro_rules! serde {
    ($($t:tt)*) => {};
}
