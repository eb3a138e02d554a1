//! A model of the part of inkwell (the LLVM binding, which cannot be built here) that the runner calls. It is never run:
//! the analysis type-checks the runner against it and interprets both abstractly. A module is a list of functions with
//! the attributes, parameter counts and bodies LLVM would report; every call that can fail in LLVM fails when the
//! corresponding field of the module or of the world says so; what the runner does to LLVM is logged.
#![allow(unused_variables, dead_code)]
use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};

/// What the surroundings answer: files, parser and target.
pub struct World {
    pub file_readable: Cell<bool>,
    pub ir_parses: Cell<bool>,
    pub bitcode_parses: Cell<bool>,
    pub native_target: Cell<bool>,
    pub triple_known: Cell<bool>,
    pub asm_backend: Cell<bool>,
    pub target_machine: Cell<bool>,
    pub machine_created: Cell<bool>,
    pub passes_run: Cell<bool>,
    pub engine_created: Cell<bool>,
    pub verifies: Cell<bool>,
    pub source: Cell<u8>,
    pub source_len: Cell<usize>,
    pub program: Cell<Option<&'static [FnSpec]>>,
    pub path: RefCell<Option<PathBuf>>,
    pub log: RefCell<Vec<Event>>,
}

pub const FROM_IR_FILE: u8 = 1;
pub const FROM_BITCODE_FILE: u8 = 2;
pub const FROM_MEMORY: u8 = 3;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Event {
    Verified,
    Passes,
    Mapped(&'static str, usize),
    Ran(&'static str),
}

pub struct FnSpec {
    pub name: &'static CStr,
    pub text: &'static str,
    pub params: u32,
    pub blocks: u32,
    pub attributes: &'static [(&'static CStr, &'static CStr)],
    pub body: fn(),
}

impl World {
    fn new() -> Self {
        World {
            file_readable: Cell::new(true),
            ir_parses: Cell::new(true),
            bitcode_parses: Cell::new(true),
            native_target: Cell::new(true),
            triple_known: Cell::new(true),
            asm_backend: Cell::new(true),
            target_machine: Cell::new(true),
            machine_created: Cell::new(true),
            passes_run: Cell::new(true),
            engine_created: Cell::new(true),
            verifies: Cell::new(true),
            source: Cell::new(0),
            source_len: Cell::new(0),
            program: Cell::new(None),
            path: RefCell::new(None),
            log: RefCell::new(Vec::new()),
        }
    }
}

thread_local! {
    pub static WORLD: World = World::new();
}

fn log(e: Event) {
    WORLD.with(|w| w.log.borrow_mut().push(e));
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OptimizationLevel {
    None,
    Less,
    Default,
    Aggressive,
}

pub mod llvm_sys {
    pub mod core {
        #[allow(non_snake_case)]
        pub fn LLVMCreateMemoryBufferWithMemoryRange() {}
    }
    pub mod ir_reader {
        #[allow(non_snake_case)]
        pub fn LLVMParseIRInContext() {}
    }
}

pub mod support {
    use std::path::Path;

    #[derive(Debug)]
    pub struct LLVMString(pub &'static str);
    impl LLVMString {
        #[allow(clippy::inherent_to_string)]
        pub fn to_string(&self) -> String {
            String::from(self.0)
        }
    }
    #[derive(Debug)]
    pub struct LoadLibraryError(pub ());
    pub fn load_library_permanently(path: &Path) -> Result<(), LoadLibraryError> {
        Ok(())
    }
}
use support::LLVMString;

fn outcome(ok: bool) -> Result<(), LLVMString> {
    if ok {
        Ok(())
    } else {
        Err(LLVMString("LLVM error"))
    }
}

pub mod attributes {
    use std::ffi::CStr;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum AttributeLoc {
        Return,
        Param(u32),
        Function,
    }
    #[derive(Clone, Copy)]
    pub struct Attribute {
        pub kind: &'static CStr,
        pub value: &'static CStr,
    }
    impl Attribute {
        pub fn get_string_kind_id(&self) -> &CStr {
            self.kind
        }
        pub fn get_string_value(&self) -> &CStr {
            self.value
        }
    }
}

pub mod context {
    use super::*;
    pub struct Context(pub ());
    impl Context {
        pub fn create() -> Self {
            Context(())
        }
        pub fn create_module_from_ir(&self, buffer: memory_buffer::MemoryBuffer) -> Result<module::Module<'_>, LLVMString> {
            WORLD.with(|w| {
                w.source.set(buffer.source);
                w.source_len.set(buffer.len);
                outcome(w.ir_parses.get())
            })?;
            Ok(module::Module(PhantomData))
        }
    }
}

pub mod memory_buffer {
    use super::*;
    pub struct MemoryBuffer {
        pub source: u8,
        pub len: usize,
    }
    impl MemoryBuffer {
        pub fn create_from_memory_range(input: &[u8], name: &str) -> Self {
            MemoryBuffer { source: FROM_MEMORY, len: input.len() }
        }
        pub fn create_from_memory_range_copy(input: &[u8], name: &str) -> Self {
            MemoryBuffer { source: FROM_MEMORY, len: input.len() }
        }
        pub fn create_from_file(path: &Path) -> Result<Self, LLVMString> {
            WORLD.with(|w| {
                *w.path.borrow_mut() = Some(path.to_path_buf());
                outcome(w.file_readable.get())
            })?;
            Ok(MemoryBuffer { source: FROM_IR_FILE, len: 0 })
        }
    }
}

pub mod module {
    use super::*;
    pub struct Module<'ctx>(pub PhantomData<&'ctx ()>);
    impl<'ctx> Module<'ctx> {
        pub fn parse_bitcode_from_path<P: AsRef<Path>>(path: P, context: &'ctx context::Context) -> Result<Self, LLVMString> {
            WORLD.with(|w| {
                *w.path.borrow_mut() = Some(path.as_ref().to_path_buf());
                w.source.set(FROM_BITCODE_FILE);
                outcome(w.file_readable.get() && w.bitcode_parses.get())
            })?;
            Ok(Module(PhantomData))
        }
        pub fn verify(&self) -> Result<(), LLVMString> {
            log(Event::Verified);
            WORLD.with(|w| outcome(w.verifies.get()))
        }
        pub fn run_passes(&self, passes: &str, machine: &targets::TargetMachine, options: passes::PassBuilderOptions) -> Result<(), LLVMString> {
            log(Event::Passes);
            WORLD.with(|w| outcome(w.passes_run.get()))
        }
        pub fn create_jit_execution_engine(&self, level: OptimizationLevel) -> Result<execution_engine::ExecutionEngine<'ctx>, LLVMString> {
            WORLD.with(|w| outcome(w.engine_created.get()))?;
            Ok(execution_engine::ExecutionEngine(PhantomData))
        }
        pub fn get_first_function(&self) -> Option<values::FunctionValue<'ctx>> {
            values::nth(0)
        }
        pub fn get_function(&self, name: &str) -> Option<values::FunctionValue<'ctx>> {
            let mut f = self.get_first_function();
            while let Some(g) = f {
                if g.spec().text == name {
                    return Some(g);
                }
                f = g.get_next_function();
            }
            None
        }
    }
}

pub mod values {
    use super::*;
    pub struct BasicValueEnum(pub ());
    pub struct GenericValue(pub ());
    #[derive(Clone, Copy)]
    pub struct FunctionValue<'ctx> {
        pub index: usize,
        pub mark: PhantomData<&'ctx ()>,
    }
    pub fn nth<'ctx>(index: usize) -> Option<FunctionValue<'ctx>> {
        let program = WORLD.with(|w| w.program.get())?;
        if index < program.len() {
            Some(FunctionValue { index, mark: PhantomData })
        } else {
            None
        }
    }
    pub trait AnyValue<'ctx> {
        fn function(&self) -> usize;
    }
    impl<'ctx> AnyValue<'ctx> for FunctionValue<'ctx> {
        fn function(&self) -> usize {
            self.index
        }
    }
    impl<'ctx> FunctionValue<'ctx> {
        pub fn spec(self) -> &'static FnSpec {
            &WORLD.with(|w| w.program.get()).expect("a module exists")[self.index]
        }
        pub fn get_name(&self) -> &CStr {
            self.spec().name
        }
        pub fn count_params(self) -> u32 {
            self.spec().params
        }
        pub fn get_params(self) -> Vec<BasicValueEnum> {
            (0..self.spec().params).map(|_| BasicValueEnum(())).collect()
        }
        pub fn count_basic_blocks(self) -> u32 {
            self.spec().blocks
        }
        pub fn get_next_function(self) -> Option<Self> {
            nth(self.index + 1)
        }
        pub fn attributes(self, loc: attributes::AttributeLoc) -> Vec<attributes::Attribute> {
            self.spec().attributes.iter().map(|&(kind, value)| attributes::Attribute { kind, value }).collect()
        }
        pub fn get_string_attribute(self, loc: attributes::AttributeLoc, key: &str) -> Option<attributes::Attribute> {
            for &(kind, value) in self.spec().attributes {
                if kind.to_bytes() == key.as_bytes() {
                    return Some(attributes::Attribute { kind, value });
                }
            }
            None
        }
    }
}

pub mod execution_engine {
    use super::*;
    pub struct ExecutionEngine<'ctx>(pub PhantomData<&'ctx ()>);
    impl<'ctx> ExecutionEngine<'ctx> {
        pub fn add_global_mapping(&self, value: &dyn values::AnyValue<'ctx>, addr: usize) {
            let program = WORLD.with(|w| w.program.get()).expect("a module exists");
            log(Event::Mapped(program[value.function()].text, addr));
        }
        /// # Safety
        /// As in inkwell.
        pub unsafe fn run_function(&self, function: values::FunctionValue<'ctx>, args: &[&values::GenericValue]) -> values::GenericValue {
            let spec = function.spec();
            log(Event::Ran(spec.text));
            (spec.body)();
            values::GenericValue(())
        }
    }
}

pub mod passes {
    pub struct PassBuilderOptions(pub ());
    impl PassBuilderOptions {
        pub fn create() -> Self {
            PassBuilderOptions(())
        }
    }
    pub struct PassManager<T>(pub T);
}

pub mod targets {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum CodeModel {
        Default,
        JITDefault,
        Small,
        Kernel,
        Medium,
        Large,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum RelocMode {
        Default,
        Static,
        PIC,
        DynamicNoPic,
    }
    #[derive(Default, Clone, Copy)]
    pub struct InitializationConfig {
        pub all: bool,
    }
    pub struct TargetTriple(pub ());
    pub struct Target(pub ());
    pub struct TargetMachine(pub ());
    impl TargetMachine {
        pub fn get_default_triple() -> TargetTriple {
            TargetTriple(())
        }
    }
    impl Target {
        pub fn initialize_native(config: &InitializationConfig) -> Result<(), String> {
            if WORLD.with(|w| w.native_target.get()) {
                Ok(())
            } else {
                Err(String::from("no native target"))
            }
        }
        pub fn from_triple(triple: &TargetTriple) -> Result<Self, LLVMString> {
            WORLD.with(|w| outcome(w.triple_known.get()))?;
            Ok(Target(()))
        }
        pub fn has_asm_backend(&self) -> bool {
            WORLD.with(|w| w.asm_backend.get())
        }
        pub fn has_target_machine(&self) -> bool {
            WORLD.with(|w| w.target_machine.get())
        }
        pub fn create_target_machine(
            &self,
            triple: &TargetTriple,
            cpu: &str,
            features: &str,
            level: OptimizationLevel,
            reloc: RelocMode,
            model: CodeModel,
        ) -> Option<TargetMachine> {
            if WORLD.with(|w| w.machine_created.get()) {
                Some(TargetMachine(()))
            } else {
                None
            }
        }
    }
}
