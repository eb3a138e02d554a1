//! Scenarios for the Python functions: the module's own source, compiled against the model of pyo3, and what to observe.
#[allow(dead_code)]
#[path = "../../../pip/src/python.rs"]
pub mod python;

use probe::{Seen, Sink};
use pyo3::{PY, Py, PyAny, PyResult, Shown};

pub struct Observed {
    pub error: Option<String>,
    pub calls: Vec<Vec<Shown>>,
    pub functions: Vec<&'static str>,
    pub classes: Vec<&'static str>,
    pub seen: Seen,
}

pub fn before(program: u8, broken: u8) {
    probe::before_broken(program, broken);
}

pub fn callback(fails: bool) -> Py<PyAny> {
    Py::new(pyo3::Python::model(), PyAny { fails }).unwrap()
}

pub fn observe(r: PyResult<()>) -> Observed {
    PY.with(|p| Observed {
        error: r.err().map(|e| e.to_string()),
        calls: p.calls.take(),
        functions: p.functions.take(),
        classes: p.classes.take(),
        seen: probe::seen(Ok(()), Sink(Vec::new())),
    })
}

/// What a run with the given arguments writes, without Python.
pub fn direct_file(path: String, entry: Option<&str>, shots: u32, seed: Option<u64>, redirect: bool) -> Seen {
    runner::OUTPUT.with(|o| o.borrow_mut().use_std_out(!redirect));
    let mut sink = Sink(Vec::new());
    let r = if redirect {
        runner::run_file(path, entry, shots, seed, &mut sink)
    } else {
        runner::run_file(path, entry, shots, seed, &mut std::io::stdout())
    };
    probe::seen(r, sink)
}

pub fn direct_bytes(data: Vec<u8>, entry: Option<&str>, shots: u32, seed: Option<u64>, redirect: bool) -> Seen {
    runner::OUTPUT.with(|o| o.borrow_mut().use_std_out(!redirect));
    let mut sink = Sink(Vec::new());
    let r = if redirect {
        runner::run_bytes(&data, entry, shots, seed, &mut sink)
    } else {
        runner::run_bytes(&data, entry, shots, seed, &mut std::io::stdout())
    };
    probe::seen(r, sink)
}
