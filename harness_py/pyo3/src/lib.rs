//! A stand-in for the parts of pyo3 that the bindings need: python values are [PyAny],
//! the attribute macros additionally generate, for functions without `self`, a function
//! `<name>__py` which binds python arguments to the parameters.

use std::{
    any::Any,
    cell::UnsafeCell,
    fmt,
    marker::PhantomData,
    ops::Deref,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
};

pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction};

pub static WARNINGS: AtomicUsize = AtomicUsize::new(0);

type Func = dyn Fn(&[f64]) -> Result<f64, &'static str> + Send + Sync;

#[derive(Clone)]
pub enum PyAny {
    None,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    /// a list or a tuple
    List(Vec<PyAny>),
    /// an instance of a class of the bindings
    Ref(&'static Slot),
    /// an object of another package with the given result of its method
    Foreign(&'static str, Box<PyAny>),
    Func(Arc<Func>),
}

pub struct PyErr(pub &'static str, pub String);
pub type PyResult<T> = Result<T, PyErr>;

impl fmt::Debug for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}: {}", self.0, self.1)
    }
}

impl fmt::Display for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}: {}", self.0, self.1)
    }
}

pub trait Exception {
    const NAME: &'static str;
}

impl PyErr {
    pub fn new<T: Exception, A: Into<String>>(msg: A) -> Self {
        PyErr(&T::NAME[2..], msg.into())
    }
    pub fn warn(_: Python, _: &PyType, _: &str, _: i32) -> PyResult<()> {
        WARNINGS.fetch_add(1, Ordering::SeqCst);
        Ok(())
    }
}

pub struct PyType;

pub mod exceptions {
    macro_rules! exceptions {
        ($($name:ident),*) => {$(
            pub struct $name;
            impl crate::Exception for $name {
                const NAME: &'static str = stringify!($name);
            }
            impl $name {
                pub fn new_err(msg: impl Into<String>) -> crate::PyErr {
                    crate::PyErr(&stringify!($name)[2..], msg.into())
                }
            }
        )*};
    }
    exceptions!(
        PyException, PyValueError, PyTypeError, PyWarning, PyRuntimeError, PyKeyError,
        PyOverflowError, PyNotImplementedError, PyUserWarning, PyDeprecationWarning,
        PyIndexError, PyAttributeError, PyRuntimeWarning, PyIOError, PyOSError
    );
}

#[derive(Clone, Copy)]
pub struct Python<'p>(PhantomData<&'p ()>);

impl<'p> Python<'p> {
    pub fn with_gil<R>(f: impl FnOnce(Python<'_>) -> R) -> R {
        f(Python(PhantomData))
    }
    pub fn get_type<T>(self) -> &'p PyType {
        &PyType
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> PyAny {
        PyAny::None
    }
}

pub mod prelude {
    pub use super::{
        pyclass, pyfunction, pymethods, pymodule, types::PyModule, wrap_pyfunction, FromPyObject,
        IntoPy, Py, PyAny, PyErr, PyObject, PyRef, PyResult, Python,
    };
}

pub mod types {
    use super::*;
    pub type PyType = super::PyType;
    pub type PyAny = super::PyAny;
    pub struct PyDict;

    #[derive(Clone)]
    pub enum Entry {
        Class(fn(&Args) -> PyResult<super::PyAny>),
        Function(fn(&Args) -> PyResult<super::PyAny>),
    }

    /// Remembers what is added to it.
    pub struct PyModule {
        pub name: String,
        pub contents: Mutex<Vec<(String, Entry)>>,
    }

    impl PyModule {
        pub fn new(name: &str) -> Self {
            Self { name: name.into(), contents: Mutex::new(Vec::new()) }
        }
        pub fn add_class<T: PyMethods>(&self) -> PyResult<()> {
            self.contents.lock().unwrap().push((T::NAME.into(), Entry::Class(T::construct)));
            Ok(())
        }
        pub fn add_function(&self, f: crate::Function) -> PyResult<()> {
            self.contents.lock().unwrap().push((f.0.into(), Entry::Function(f.1)));
            Ok(())
        }
        pub fn add_submodule(&self, other: &PyModule) -> PyResult<()> {
            for (n, x) in other.contents.lock().unwrap().iter() {
                self.contents
                    .lock()
                    .unwrap()
                    .push((format!("{}.{n}", other.name), x.clone()));
            }
            Ok(())
        }
        pub fn get(&self, name: &str) -> Option<Entry> {
            self.contents.lock().unwrap().iter().find(|(n, _)| n == name).map(|(_, e)| e.clone())
        }
    }
}

pub struct Function(pub &'static str, pub fn(&Args) -> PyResult<PyAny>);

/// A python object with an instance of a class of the bindings.
pub struct Slot(UnsafeCell<Box<dyn Object>>);
// the harness is single-threaded
unsafe impl Sync for Slot {}
unsafe impl Send for Slot {}

impl Slot {
    pub fn new<T: PyMethods>(v: T) -> PyAny {
        PyAny::Ref(Box::leak(Box::new(Slot(UnsafeCell::new(Box::new(v))))))
    }
    pub fn get(&self) -> &dyn Object {
        unsafe { &**self.0.get() }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get_mut(&self) -> &mut dyn Object {
        unsafe { &mut **self.0.get() }
    }
}

pub trait Object {
    fn any(&self) -> &dyn Any;
    fn attribute(&self, name: &str) -> PyResult<PyAny>;
    fn method(&mut self, name: &str, args: &Args) -> PyResult<PyAny>;
}

impl<T: PyMethods> Object for T {
    fn any(&self) -> &dyn Any {
        self
    }
    fn attribute(&self, name: &str) -> PyResult<PyAny> {
        PyClass::attribute(self, name)
    }
    fn method(&mut self, name: &str, args: &Args) -> PyResult<PyAny> {
        PyMethods::method(self, name, args)
    }
}

pub trait PyClass: Any + Send + Sync {
    const NAME: &'static str;
    fn attribute(&self, name: &str) -> PyResult<PyAny>;
}

pub trait PyMethods: PyClass {
    fn construct(args: &Args) -> PyResult<PyAny>;
    fn method(&mut self, name: &str, args: &Args) -> PyResult<PyAny>;
}

/// What the class macro generates for the conversions.
#[macro_export]
macro_rules! class {
    ($t:ident $($f:ident)*) => {
        impl $crate::PyClass for $t {
            const NAME: &'static str = stringify!($t);
            fn attribute(&self, name: &str) -> $crate::PyResult<$crate::PyAny> {
                match name {
                    $(stringify!($f) => Ok($crate::IntoPy::into_py(self.$f.clone())),)*
                    _ => Err($crate::PyErr("AttributeError", name.into())),
                }
            }
        }
        impl<'a> $crate::FromPyObject<'a> for &'a $t {
            fn extract(ob: &'a $crate::PyAny) -> $crate::PyResult<Self> {
                ob.downcast()
            }
        }
    };
}

#[macro_export]
macro_rules! clone_class {
    ($t:ident) => {
        impl<'a> $crate::FromPyObject<'a> for $t {
            fn extract(ob: &'a $crate::PyAny) -> $crate::PyResult<Self> {
                ob.downcast::<$t>().cloned()
            }
        }
    };
}

pub trait IntoPy {
    fn into_py(self) -> PyAny;
}

impl<T: PyMethods> IntoPy for T {
    fn into_py(self) -> PyAny {
        Slot::new(self)
    }
}

impl<T: IntoPy> IntoPy for Vec<T> {
    fn into_py(self) -> PyAny {
        PyAny::List(self.into_iter().map(T::into_py).collect())
    }
}

impl<T: IntoPy> IntoPy for Option<T> {
    fn into_py(self) -> PyAny {
        self.map(T::into_py).unwrap_or(PyAny::None)
    }
}

impl<A: IntoPy, B: IntoPy> IntoPy for (A, B) {
    fn into_py(self) -> PyAny {
        PyAny::List(vec![self.0.into_py(), self.1.into_py()])
    }
}

impl IntoPy for () {
    fn into_py(self) -> PyAny {
        PyAny::None
    }
}

macro_rules! into_py {
    ($($t:ty, $v:ident, $s:ty;)*) => {$(
        impl IntoPy for $t {
            fn into_py(self) -> PyAny {
                PyAny::$v(self as $s)
            }
        }
    )*};
}
into_py! {
    usize, Int, i128; u64, Int, i128; u32, Int, i128; u16, Int, i128; u8, Int, i128;
    i64, Int, i128; i32, Int, i128; f64, Float, f64; bool, Bool, bool; String, Str, String;
}

pub trait IntoResult {
    fn into_result(self) -> PyResult<PyAny>;
}

impl<T: IntoPy> IntoResult for T {
    fn into_result(self) -> PyResult<PyAny> {
        Ok(self.into_py())
    }
}

impl<T: IntoPy> IntoResult for PyResult<T> {
    fn into_result(self) -> PyResult<PyAny> {
        self.map(T::into_py)
    }
}

pub struct PyRef<'a, T>(&'a T);

impl<T> Deref for PyRef<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}

fn type_error<T>() -> PyResult<T> {
    Err(PyErr("TypeError", String::new()))
}

impl PyAny {
    pub fn downcast<T: PyClass>(&self) -> PyResult<&T> {
        match self {
            PyAny::Ref(r) => match r.get().any().downcast_ref() {
                Some(r) => Ok(r),
                None => type_error(),
            },
            _ => type_error(),
        }
    }
    pub fn is_instance_of<T: PyClass>(&self) -> bool {
        self.downcast::<T>().is_ok()
    }
    pub fn is_none(&self) -> bool {
        matches!(self, PyAny::None)
    }
    pub fn extract<'a, T: FromPyObject<'a>>(&'a self) -> PyResult<T> {
        T::extract(self)
    }
    pub fn call_method<A>(
        &self,
        name: &str,
        _: A,
        _: Option<&types::PyDict>,
    ) -> PyResult<&PyAny> {
        match self {
            PyAny::Foreign(method, result) if *method == name => Ok(result),
            _ => Err(PyErr("AttributeError", name.into())),
        }
    }
    pub fn call_method0(&self, name: &str) -> PyResult<&PyAny> {
        self.call_method(name, (), None)
    }
    pub fn call_method1<A>(&self, name: &str, args: A) -> PyResult<&PyAny> {
        self.call_method(name, args, None)
    }
    pub fn py(&self) -> Python<'_> {
        Python(PhantomData)
    }
    pub fn hasattr(&self, name: &str) -> PyResult<bool> {
        Ok(matches!(self, PyAny::Foreign(method, _) if *method == name))
    }
}

/// A value that is independent of the GIL.
#[derive(Clone)]
pub struct Py(pub PyAny);
pub type PyObject = Py;

impl Py {
    pub fn call<A: Numbers>(
        &self,
        _: Python,
        args: A,
        _: Option<&types::PyDict>,
    ) -> PyResult<Py> {
        match &self.0 {
            PyAny::Func(f) => match f(&args.numbers()) {
                Ok(v) => Ok(Py(PyAny::Float(v))),
                Err(e) => Err(PyErr("Exception", e.into())),
            },
            _ => type_error(),
        }
    }
    pub fn call1<A: Numbers>(&self, py: Python, args: A) -> PyResult<Py> {
        self.call(py, args, None)
    }
    pub fn extract<T: for<'a> FromPyObject<'a>>(&self, _: Python) -> PyResult<T> {
        T::extract(&self.0)
    }
    pub fn clone_ref(&self, _: Python) -> Self {
        self.clone()
    }
    pub fn is_none(&self, _: Python) -> bool {
        self.0.is_none()
    }
    pub fn as_ref<'p>(&'p self, _: Python<'p>) -> &'p PyAny {
        &self.0
    }
}

pub trait Numbers {
    fn numbers(&self) -> Vec<f64>;
}

macro_rules! numbers {
    ($($i:tt $t:ident)*) => {
        impl<$($t: Copy + Into<f64>),*> Numbers for ($($t,)*) {
            fn numbers(&self) -> Vec<f64> {
                vec![$(self.$i.into()),*]
            }
        }
    };
}
numbers!(0 A);
numbers!(0 A 1 B);
numbers!(0 A 1 B 2 C 3 D 4 E);
numbers!(0 A 1 B 2 C 3 D 4 E 5 F);
numbers!(0 A 1 B 2 C 3 D 4 E 5 F 6 G);
numbers!(0 A 1 B 2 C 3 D 4 E 5 F 6 G 7 H);

pub trait FromPyObject<'a>: Sized {
    fn extract(ob: &'a PyAny) -> PyResult<Self>;
}

impl<'a> FromPyObject<'a> for &'a PyAny {
    fn extract(ob: &'a PyAny) -> PyResult<Self> {
        Ok(ob)
    }
}

impl<'a> FromPyObject<'a> for Py {
    fn extract(ob: &'a PyAny) -> PyResult<Self> {
        Ok(Py(ob.clone()))
    }
}

impl<'a, T: PyClass> FromPyObject<'a> for PyRef<'a, T> {
    fn extract(ob: &'a PyAny) -> PyResult<Self> {
        ob.downcast().map(PyRef)
    }
}

impl<'a> FromPyObject<'a> for bool {
    fn extract(ob: &'a PyAny) -> PyResult<Self> {
        match ob {
            PyAny::Bool(b) => Ok(*b),
            _ => type_error(),
        }
    }
}

impl<'a> FromPyObject<'a> for String {
    fn extract(ob: &'a PyAny) -> PyResult<Self> {
        match ob {
            PyAny::Str(s) => Ok(s.clone()),
            _ => type_error(),
        }
    }
}

macro_rules! integers {
    ($($t:ty)*) => {$(
        impl<'a> FromPyObject<'a> for $t {
            fn extract(ob: &'a PyAny) -> PyResult<Self> {
                match ob {
                    PyAny::Int(i) => (*i)
                        .try_into()
                        .map_err(|_| PyErr("OverflowError", String::new())),
                    PyAny::Bool(b) => Ok(*b as $t),
                    _ => type_error(),
                }
            }
        }
    )*};
}
integers!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

macro_rules! floats {
    ($($t:ty)*) => {$(
        impl<'a> FromPyObject<'a> for $t {
            fn extract(ob: &'a PyAny) -> PyResult<Self> {
                match ob {
                    PyAny::Int(i) => Ok(*i as $t),
                    PyAny::Float(f) => Ok(*f as $t),
                    _ => type_error(),
                }
            }
        }
    )*};
}
floats!(f32 f64);

impl<'a, T: FromPyObject<'a>> FromPyObject<'a> for Option<T> {
    fn extract(ob: &'a PyAny) -> PyResult<Self> {
        match ob {
            PyAny::None => Ok(None),
            ob => T::extract(ob).map(Some),
        }
    }
}

impl<'a, T: FromPyObject<'a>> FromPyObject<'a> for Vec<T> {
    fn extract(ob: &'a PyAny) -> PyResult<Self> {
        match ob {
            PyAny::List(l) => l.iter().map(T::extract).collect(),
            _ => type_error(),
        }
    }
}

impl<'a, A: FromPyObject<'a>, B: FromPyObject<'a>> FromPyObject<'a> for (A, B) {
    fn extract(ob: &'a PyAny) -> PyResult<Self> {
        match ob {
            PyAny::List(l) if l.len() == 2 => Ok((A::extract(&l[0])?, B::extract(&l[1])?)),
            _ => type_error(),
        }
    }
}

/// The arguments of a call, by position and by name.
pub struct Args {
    pub positional: Vec<PyAny>,
    pub named: Vec<(String, PyAny)>,
}

impl Args {
    /// Bind them to the parameters of a signature like `a, b=1, c="x".to_string()`.
    pub fn bind(&self, signature: &str, params: &[&str]) -> PyResult<Bound> {
        let mut names = Vec::new();
        let mut defaults = Vec::new();
        for part in split(signature) {
            let (name, default) = match part.split_once('=') {
                Some((n, d)) => (n.trim(), Some(d.trim())),
                None => (part.trim(), None),
            };
            if !name.is_empty() && name != "*" && name != "/" {
                names.push(name.to_string());
                defaults.push(default.map(literal));
            }
        }
        if self.positional.len() > names.len() {
            return type_error();
        }
        let mut values: Vec<Option<PyAny>> = vec![None; names.len()];
        for (k, v) in self.positional.iter().enumerate() {
            values[k] = Some(v.clone());
        }
        for (n, v) in &self.named {
            match names.iter().position(|x| x == n) {
                Some(k) if values[k].is_none() => values[k] = Some(v.clone()),
                _ => return type_error(),
            }
        }
        let mut out = Vec::new();
        for p in params {
            let k = names.iter().position(|x| x == p).expect("stub: signature");
            match values[k].take().or_else(|| defaults[k].clone()) {
                Some(v) => out.push(v),
                None => return type_error(),
            }
        }
        Ok(Bound(out))
    }
}

pub struct Bound(Vec<PyAny>);

impl Bound {
    pub fn get<'a, T: FromPyObject<'a>>(&'a self, k: usize) -> PyResult<T> {
        T::extract(&self.0[k])
    }
}

fn split(s: &str) -> Vec<String> {
    let mut depth = 0;
    let mut out = vec![String::new()];
    for c in s.chars() {
        match c {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            ',' if depth == 0 => {
                out.push(String::new());
                continue;
            },
            _ => {},
        }
        out.last_mut().unwrap().push(c);
    }
    out
}

fn literal(s: &str) -> PyAny {
    let t = s.trim();
    match t {
        "None" => return PyAny::None,
        "true" => return PyAny::Bool(true),
        "false" => return PyAny::Bool(false),
        _ => {},
    }
    if let Some(i) = t.find('"') {
        let j = t[i + 1..].find('"').expect("stub: default") + i + 1;
        return PyAny::Str(t[i + 1..j].to_string());
    }
    if let Some(inner) = t.strip_prefix("Some") {
        return literal(inner.trim().trim_start_matches('(').trim_end_matches(')'));
    }
    let digits: String = t.chars().take_while(|c| c.is_ascii_digit() || *c == '_' || *c == '-').filter(|c| *c != '_').collect();
    match digits.parse() {
        Ok(i) => PyAny::Int(i),
        Err(_) => panic!("stub: default {t}"),
    }
}
