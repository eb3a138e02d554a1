//! A model of the parts of pyo3 that the Python package uses. Interpreted abstractly together with it and never run.
use std::cell::RefCell;
use std::fmt;
use std::marker::PhantomData;

pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

/// How an object appears in Python: the text each of its special methods gives.
pub type Shown = Vec<(&'static str, String)>;

#[derive(Default)]
pub struct World {
    pub calls: RefCell<Vec<Vec<Shown>>>,
    pub functions: RefCell<Vec<&'static str>>,
    pub classes: RefCell<Vec<&'static str>>,
}

thread_local! {
    pub static PY: World = World::default();
}

pub trait PyObj {
    fn shown(&self) -> Shown;
}

pub trait PyClass {
    const NAME: &'static str;
}

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);

impl Python<'_> {
    pub fn model() -> Python<'static> {
        Python(PhantomData)
    }
}

/// A Python callable.
#[derive(Clone, Copy)]
pub struct PyAny {
    pub fails: bool,
}

pub struct Py<T>(T);

impl<T> Py<T> {
    pub fn new(_py: Python<'_>, value: T) -> PyResult<Py<T>> {
        Ok(Py(value))
    }
}

impl<T: Clone> Py<T> {
    pub fn clone_ref(&self, _py: Python<'_>) -> Py<T> {
        Py(self.0.clone())
    }
}

impl<T: PyObj> PyObj for Py<T> {
    fn shown(&self) -> Shown {
        self.0.shown()
    }
}

impl<T: PyObj + ?Sized> PyObj for &T {
    fn shown(&self) -> Shown {
        (**self).shown()
    }
}

pub trait Arguments {
    fn shown_all(self) -> Vec<Shown>;
}

impl Arguments for Bound<'_, types::PyTuple> {
    fn shown_all(self) -> Vec<Shown> {
        self.0.0
    }
}

impl<T: PyObj> Arguments for (T,) {
    fn shown_all(self) -> Vec<Shown> {
        vec![self.0.shown()]
    }
}

impl Py<PyAny> {
    pub fn call1(&self, _py: Python<'_>, args: impl Arguments) -> PyResult<Py<PyAny>> {
        if self.0.fails {
            return Err(PyErr("callback failed".to_string()));
        }
        let shown = args.shown_all();
        PY.with(|p| p.calls.borrow_mut().push(shown));
        Ok(Py(self.0))
    }
}

#[derive(Debug)]
pub struct PyErr(String);

pub type PyResult<T> = Result<T, PyErr>;

impl fmt::Display for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for PyErr {}

impl From<PyErr> for std::io::Error {
    fn from(e: PyErr) -> Self {
        std::io::Error::other(e.0)
    }
}

pub trait Exception {}

impl PyErr {
    pub fn new<T: Exception, A: Into<String>>(args: A) -> PyErr {
        PyErr(args.into())
    }
}

pub mod exceptions {
    pub struct PyRuntimeError;
    pub struct PyValueError;
    impl super::Exception for PyRuntimeError {}
    impl super::Exception for PyValueError {}
    impl PyRuntimeError {
        pub fn new_err<A: Into<String>>(args: A) -> super::PyErr {
            super::PyErr(args.into())
        }
    }
    impl PyValueError {
        pub fn new_err<A: Into<String>>(args: A) -> super::PyErr {
            super::PyErr(args.into())
        }
    }
}

pub struct Bound<'py, T>(pub T, PhantomData<&'py ()>);

pub mod types {
    use super::{Bound, PhantomData, PyObj, PyResult, Python, Shown};

    pub struct PyTuple(pub Vec<Shown>);

    impl PyTuple {
        pub fn new<'py, T: PyObj>(_py: Python<'py>, items: impl IntoIterator<Item = T>) -> PyResult<Bound<'py, PyTuple>> {
            Ok(Bound(PyTuple(items.into_iter().map(|x| x.shown()).collect()), PhantomData))
        }
    }

    pub struct PyModule;
}

pub struct Wrapped(pub &'static str);

impl Bound<'_, types::PyModule> {
    pub fn model() -> Self {
        Bound(types::PyModule, PhantomData)
    }

    pub fn add_function(&self, f: Wrapped) -> PyResult<()> {
        PY.with(|p| p.functions.borrow_mut().push(f.0));
        Ok(())
    }

    pub fn add_class<T: PyClass>(&self) -> PyResult<()> {
        PY.with(|p| p.classes.borrow_mut().push(T::NAME));
        Ok(())
    }
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:ident, $m:expr) => {{
        let _ = &$m;
        Ok::<$crate::Wrapped, $crate::PyErr>($crate::Wrapped(stringify!($f)))
    }};
}

pub mod prelude {
    pub use super::types::PyModule;
    pub use super::{Bound, Py, PyAny, PyErr, PyResult, Python};
    pub use super::{pyclass, pyfunction, pymethods, pymodule};
    pub use crate::wrap_pyfunction;
}
