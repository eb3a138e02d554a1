//! Scenarios for the analysis of the runner: each function sets up what LLVM would report for some program and calls
//! one of the runner's public functions. Like the model of LLVM beside it, this is interpreted abstractly and never run.
use inkwell::{Event, FnSpec, WORLD};
use qir_backend::result_bool::__quantum__rt__result_get_one;
use std::ffi::{CStr, c_void};
use std::io::{Read, Write};
use std::path::PathBuf;

pub struct Sink(pub Vec<u8>);
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
        self.0.extend_from_slice(buf);
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub struct Source(pub Option<Vec<u8>>);
impl Read for Source {
    fn read(&mut self, _buf: &mut [u8]) -> std::io::Result<usize> {
        Ok(0)
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> std::io::Result<usize> {
        match self.0.take() {
            Some(bytes) => {
                buf.extend_from_slice(&bytes);
                Ok(bytes.len())
            }
            None => Err(std::io::Error::other("unreadable")),
        }
    }
}

pub struct Seen {
    pub result: Result<(), String>,
    pub text: Vec<u8>,
    pub log: Vec<Event>,
    pub source: u8,
    pub source_len: usize,
    pub path: Option<PathBuf>,
}

pub fn seen(result: Result<(), String>, sink: Sink) -> Seen {
    WORLD.with(|w| Seen {
        result,
        text: sink.0,
        log: w.log.take(),
        source: w.source.get(),
        source_len: w.source_len.get(),
        path: w.path.take(),
    })
}

fn nothing() {}

const ENTRY: &[(&CStr, &CStr)] = &[(c"entry_point", c"")];
const CAPS_ENTRY: &[(&CStr, &CStr)] = &[(c"EntryPoint", c"")];
const FULL_ENTRY: &[(&CStr, &CStr)] = &[(c"entry_point", c""), (c"required_num_qubits", c"2"), (c"output_labeling_schema", c"schema_id")];
const OTHER: &[(&CStr, &CStr)] = &[(c"noinline", c"")];

fn load(functions: Vec<FnSpec>) {
    WORLD.with(|w| w.program.set(Some(Vec::leak(functions))));
}

fn main_fn() -> FnSpec {
    FnSpec { name: c"main", text: "main", params: 0, blocks: 1, attributes: ENTRY, body: nothing }
}

/// A program that declares one function.
pub fn bind(name: &'static CStr, text: &'static str, params: u32) -> Seen {
    load(vec![main_fn(), FnSpec { name, text, params, blocks: 0, attributes: &[], body: nothing }]);
    let mut sink = Sink(Vec::new());
    let r = runner::run_bytes(b"; a module", None, 0, None, &mut sink);
    seen(r, sink)
}

/// A program that declares two functions.
pub fn bind_two(name: &'static CStr, text: &'static str, params: u32, name2: &'static CStr, text2: &'static str, params2: u32) -> Seen {
    load(vec![
        FnSpec { name, text, params, blocks: 0, attributes: &[], body: nothing },
        main_fn(),
        FnSpec { name: name2, text: text2, params: params2, blocks: 0, attributes: &[], body: nothing },
    ]);
    let mut sink = Sink(Vec::new());
    let r = runner::run_bytes(b"; a module", None, 0, None, &mut sink);
    seen(r, sink)
}

/// A program that declares nothing but defines a function of that name itself.
pub fn defines(name: &'static CStr, text: &'static str, params: u32) -> Seen {
    load(vec![FnSpec { name, text, params, blocks: 1, attributes: &[], body: nothing }, main_fn()]);
    let mut sink = Sink(Vec::new());
    let r = runner::run_bytes(b"; a module", None, 0, None, &mut sink);
    seen(r, sink)
}

fn attributes(kind: u8) -> &'static [(&'static CStr, &'static CStr)] {
    match kind {
        0 => OTHER,
        1 => ENTRY,
        2 => CAPS_ENTRY,
        _ => &[],
    }
}

/// Three functions A, B and C, each marked as an entry point or not.
pub fn entry(kinds: [u8; 3], params: [u32; 3], want: Option<&'static str>, shots: u32) -> Seen {
    load(vec![
        FnSpec { name: c"A", text: "A", params: params[0], blocks: 1, attributes: attributes(kinds[0]), body: nothing },
        FnSpec { name: c"B", text: "B", params: params[1], blocks: 2, attributes: attributes(kinds[1]), body: nothing },
        FnSpec { name: c"C", text: "C", params: params[2], blocks: 1, attributes: attributes(kinds[2]), body: nothing },
    ]);
    let mut sink = Sink(Vec::new());
    let r = runner::run_bytes(b"; a module", want, shots, None, &mut sink);
    seen(r, sink)
}

fn world(broken: u8) {
    WORLD.with(|w| match broken {
        1 => w.file_readable.set(false),
        2 => w.ir_parses.set(false),
        3 => w.bitcode_parses.set(false),
        4 => w.native_target.set(false),
        5 => w.triple_known.set(false),
        6 => w.asm_backend.set(false),
        7 => w.target_machine.set(false),
        8 => w.machine_created.set(false),
        9 => w.passes_run.set(false),
        10 => w.engine_created.set(false),
        11 => w.verifies.set(false),
        _ => (),
    });
}

fn prepare_output() {
    runner::OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
}

pub fn file(path: &'static str, want: Option<&'static str>, shots: u32, seed: Option<u64>, program: u8, broken: u8) -> Seen {
    world(broken);
    prepare_output();
    load(programs(program));
    let mut sink = Sink(Vec::new());
    let r = runner::run_file(path, want, shots, seed, &mut sink);
    seen(r, sink)
}

pub fn bytes(bytes: &'static [u8], want: Option<&'static str>, shots: u32, seed: Option<u64>, program: u8, broken: u8) -> Seen {
    world(broken);
    prepare_output();
    load(programs(program));
    let mut sink = Sink(Vec::new());
    let r = runner::run_bytes(bytes, want, shots, seed, &mut sink);
    seen(r, sink)
}

pub fn bitcode(bytes: &'static [u8], want: Option<&'static str>, shots: u32, program: u8, broken: u8) -> Seen {
    world(broken);
    prepare_output();
    load(programs(program));
    let mut sink = Sink(Vec::new());
    let r = runner::run_bitcode(bytes, want, shots, &mut sink);
    seen(r, sink)
}

pub fn input(bytes: Option<&'static [u8]>, want: Option<&'static str>, shots: u32, seed: Option<u64>, program: u8, broken: u8) -> Seen {
    world(broken);
    prepare_output();
    load(programs(program));
    let mut sink = Sink(Vec::new());
    let mut source = Source(bytes.map(|b| b.to_vec()));
    let r = runner::run_input(&mut source, want, shots, seed, &mut sink);
    seen(r, sink)
}

fn q(n: usize) -> *mut c_void {
    n as *mut c_void
}

/// Flips a statically numbered qubit, measures it and records the outcome.
fn static_program() {
    qir_backend::__quantum__qis__x__body(q(1));
    qir_backend::__quantum__qis__mz__body(q(1), q(0));
    unsafe { qir_backend::__quantum__rt__result_record_output(q(0), c" r\n\n x\t\r".as_ptr().cast_mut()) };
}

/// Allocates a qubit, leaves it allocated with an operation queued on it and records its id.
fn dynamic_program() {
    let a = qir_backend::__quantum__rt__qubit_allocate();
    qir_backend::__quantum__qis__x__body(a);
    unsafe { qir_backend::__quantum__rt__int_record_output(a as i64, std::ptr::null_mut()) };
    let m = qir_backend::__quantum__qis__m__body(a);
    qir_backend::__quantum__qis__h__body(a);
    let one = qir_backend::result_bool::__quantum__rt__result_equal(m, __quantum__rt__result_get_one());
    unsafe { qir_backend::__quantum__rt__bool_record_output(one, std::ptr::null_mut()) };
}

/// Measures a qubit in superposition.
fn random_program() {
    qir_backend::__quantum__qis__h__body(q(0));
    qir_backend::__quantum__qis__mz__body(q(0), q(0));
    unsafe { qir_backend::__quantum__rt__result_record_output(q(0), std::ptr::null_mut()) };
}

pub fn programs(n: u8) -> Vec<FnSpec> {
    let f = |name: &'static CStr, text: &'static str, attributes: &'static [(&'static CStr, &'static CStr)], body: fn()| FnSpec {
        name,
        text,
        params: 0,
        blocks: 1,
        attributes,
        body,
    };
    match n {
        0 => vec![f(c"main", "main", ENTRY, nothing)],
        1 => vec![f(c"main", "main", FULL_ENTRY, static_program)],
        2 => vec![f(c"main", "main", CAPS_ENTRY, dynamic_program)],
        3 => vec![f(c"main", "main", FULL_ENTRY, random_program)],
        _ => vec![f(c"other", "other", ENTRY, static_program), f(c"main", "main", FULL_ENTRY, dynamic_program)],
    }
}

/// What the shots of a program amount to, without the runner: what each one records.
pub fn directly(shots: u32, seed: Option<u64>, program: u8) -> Vec<Vec<u8>> {
    prepare_output();
    if let Some(s) = seed {
        qir_backend::set_rng_seed(s);
    }
    let f = programs(program);
    let mut all = Vec::new();
    for _ in 0..shots {
        qir_backend::__quantum__rt__initialize(std::ptr::null_mut());
        (f[f.len() - 1].body)();
        all.push(runner::OUTPUT.with(|o| o.borrow_mut().drain().collect::<Vec<u8>>()));
    }
    all
}

#[path = "../../../runner/src/main.rs"]
#[allow(dead_code)]
mod binary;

/// Before and after the program is started by the system, which the analysis does itself.
pub fn before(program: u8) {
    load(programs(program));
}

pub fn before_broken(program: u8, broken: u8) {
    load(programs(program));
    world(broken);
}

pub fn after(result: Result<(), String>) -> Seen {
    seen(result, Sink(Vec::new()))
}

/// A run of a file with its output on standard output.
pub fn plain_file(path: String, entry: Option<&str>, shots: u32, seed: Option<u64>, program: u8) -> Seen {
    load(programs(program));
    let r = runner::run_file(path, entry, shots, seed, &mut std::io::stdout());
    seen(r, Sink(Vec::new()))
}

/// A run of some input with its output on standard output.
pub fn plain_input(data: Vec<u8>, entry: Option<&str>, shots: u32, seed: Option<u64>, program: u8) -> Seen {
    load(programs(program));
    let r = runner::run_input(&mut Source(Some(data)), entry, shots, seed, &mut std::io::stdout());
    seen(r, Sink(Vec::new()))
}

/// The command line.
pub fn cli(args: Vec<String>, program: u8) -> Seen {
    load(programs(program));
    let r = runner::main(Some(args));
    seen(r, Sink(Vec::new()))
}
