//! A stand-in for the inkwell crate (not available offline): the interface that runner/src/lib.rs uses, with inkwell's
//! ownership and error behaviour, over the C API of the installed LLVM 18.
#![allow(clippy::all, non_camel_case_types, non_snake_case)]

use std::cell::RefCell;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::fmt;
use std::marker::PhantomData;
use std::path::Path;
use std::ptr::null_mut;
use std::rc::Rc;

type P = *mut c_void;

pub mod llvm_sys {
    pub mod core {
        use std::ffi::{c_char, c_int, c_void};
        extern "C" {
            pub fn LLVMCreateMemoryBufferWithMemoryRange(data: *const c_char, len: usize, name: *const c_char, requires_nul: c_int) -> *mut c_void;
        }
    }
    pub mod ir_reader {
        use std::ffi::{c_char, c_int, c_void};
        extern "C" {
            pub fn LLVMParseIRInContext(ctx: *mut c_void, buf: *mut c_void, out: *mut *mut c_void, msg: *mut *mut c_char) -> c_int;
        }
    }
}
use llvm_sys::core::LLVMCreateMemoryBufferWithMemoryRange;
use llvm_sys::ir_reader::LLVMParseIRInContext;

extern "C" {
    fn LLVMDisposeMessage(m: *mut c_char);
    fn LLVMCreateMessage(m: *const c_char) -> *mut c_char;
    fn LLVMContextCreate() -> P;
    fn LLVMContextDispose(c: P);
    fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMCreateMemoryBufferWithMemoryRangeCopy(data: *const c_char, len: usize, name: *const c_char) -> P;
    fn LLVMDisposeMemoryBuffer(b: P);
    fn LLVMGetBufferStart(b: P) -> *const c_char;
    fn LLVMGetBufferSize(b: P) -> usize;
    fn LLVMParseBitcodeInContext(ctx: P, buf: P, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMWriteBitcodeToMemoryBuffer(m: P) -> P;
    fn LLVMPrintModuleToString(m: P) -> *mut c_char;
    fn LLVMDisposeModule(m: P);
    fn LLVMVerifyModule(m: P, action: c_int, msg: *mut *mut c_char) -> c_int;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetLastFunction(m: P) -> P;
    fn LLVMGetPreviousFunction(f: P) -> P;
    fn LLVMGetModuleIdentifier(m: P, len: *mut usize) -> *const c_char;
    fn LLVMVerifyFunction(f: P, action: c_int) -> c_int;
    fn LLVMIsFunctionVarArg(t: P) -> c_int;
    fn LLVMCountParamTypes(t: P) -> c_uint;
    fn LLVMGetParamTypes(t: P, out: *mut P);
    fn LLVMTypeOf(v: P) -> P;
    fn LLVMFindFunction(e: P, name: *const c_char, out: *mut P) -> c_int;
    fn LLVMRunStaticConstructors(e: P);
    fn LLVMRunStaticDestructors(e: P);
    fn LLVMGenericValueToInt(v: P, signed: c_int) -> u64;
    fn LLVMGenericValueIntWidth(v: P) -> c_uint;
    fn LLVMGetNamedFunction(m: P, name: *const c_char) -> P;
    fn LLVMCountParams(f: P) -> c_uint;
    fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMGetFirstBasicBlock(f: P) -> P;
    fn LLVMGetLastBasicBlock(f: P) -> P;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMCountBasicBlocks(f: P) -> c_uint;
    fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: P) -> c_int;
    fn LLVMGlobalGetValueType(v: P) -> P;
    fn LLVMGetReturnType(t: P) -> P;
    fn LLVMGetTypeKind(t: P) -> c_int;
    fn LLVMGetAttributeCountAtIndex(f: P, idx: c_uint) -> c_uint;
    fn LLVMGetAttributesAtIndex(f: P, idx: c_uint, out: *mut P);
    fn LLVMGetStringAttributeAtIndex(f: P, idx: c_uint, k: *const c_char, len: c_uint) -> P;
    fn LLVMGetStringAttributeKind(a: P, len: *mut c_uint) -> *const c_char;
    fn LLVMGetStringAttributeValue(a: P, len: *mut c_uint) -> *const c_char;
    fn LLVMIsStringAttribute(a: P) -> c_int;
    fn LLVMIsEnumAttribute(a: P) -> c_int;
    fn LLVMIsTypeAttribute(a: P) -> c_int;
    fn LLVMGetEnumAttributeKind(a: P) -> c_uint;
    fn LLVMLinkInMCJIT();
    fn LLVMCreateJITCompilerForModule(out: *mut P, m: P, opt: c_uint, msg: *mut *mut c_char) -> c_int;
    fn LLVMDisposeExecutionEngine(e: P);
    fn LLVMAddGlobalMapping(e: P, v: P, addr: *mut c_void);
    fn LLVMRunFunction(e: P, f: P, n: c_uint, args: *mut P) -> P;
    fn LLVMDisposeGenericValue(v: P);
    fn LLVMGetFunctionAddress(e: P, name: *const c_char) -> u64;
    fn LLVMInitializeX86TargetInfo();
    fn LLVMInitializeX86Target();
    fn LLVMInitializeX86TargetMC();
    fn LLVMInitializeX86AsmPrinter();
    fn LLVMInitializeX86AsmParser();
    fn LLVMInitializeX86Disassembler();
    fn LLVMGetDefaultTargetTriple() -> *mut c_char;
    fn LLVMGetTargetFromTriple(t: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMTargetHasAsmBackend(t: P) -> c_int;
    fn LLVMTargetHasTargetMachine(t: P) -> c_int;
    fn LLVMTargetHasJIT(t: P) -> c_int;
    fn LLVMCreateTargetMachine(t: P, triple: *const c_char, cpu: *const c_char, features: *const c_char, level: c_int, reloc: c_int, model: c_int) -> P;
    fn LLVMDisposeTargetMachine(t: P);
    fn LLVMRunPasses(m: P, passes: *const c_char, tm: P, opts: P) -> P;
    fn LLVMGetErrorMessage(e: P) -> *mut c_char;
    fn LLVMDisposeErrorMessage(m: *mut c_char);
    fn LLVMCreatePassBuilderOptions() -> P;
    fn LLVMDisposePassBuilderOptions(o: P);
    fn LLVMLoadLibraryPermanently(f: *const c_char) -> c_int;
}

fn cstr(s: &str) -> CString {
    CString::new(s.split('\0').next().unwrap()).unwrap()
}

pub mod support {
    use super::*;

    /// A message owned by LLVM.
    pub struct LLVMString(pub(crate) *mut c_char);

    impl LLVMString {
        pub fn to_string(&self) -> String {
            if self.0.is_null() {
                return String::new();
            }
            unsafe { CStr::from_ptr(self.0) }.to_string_lossy().into_owned()
        }
    }
    impl std::ops::Deref for LLVMString {
        type Target = CStr;
        fn deref(&self) -> &CStr {
            unsafe { CStr::from_ptr(self.0) }
        }
    }
    impl Drop for LLVMString {
        fn drop(&mut self) {
            if !self.0.is_null() {
                unsafe { LLVMDisposeMessage(self.0) }
            }
        }
    }
    impl fmt::Debug for LLVMString {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{:?}", self.to_string())
        }
    }
    impl fmt::Display for LLVMString {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.to_string())
        }
    }
    impl std::error::Error for LLVMString {}

    pub fn load_library_permanently(path: &Path) -> Result<(), LoadLibraryError> {
        let s = cstr(path.to_str().ok_or(LoadLibraryError::UnicodeError)?);
        if unsafe { LLVMLoadLibraryPermanently(if path.as_os_str().is_empty() { std::ptr::null() } else { s.as_ptr() }) } == 1 {
            Err(LoadLibraryError::LoadingError)
        } else {
            Ok(())
        }
    }

    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum LoadLibraryError {
        UnicodeError,
        LoadingError,
    }
}
use support::LLVMString;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OptimizationLevel {
    None = 0,
    Less = 1,
    Default = 2,
    Aggressive = 3,
}

pub mod attributes {
    use super::*;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum AttributeLoc {
        Return,
        Param(u32),
        Function,
    }
    impl AttributeLoc {
        pub(crate) fn index(self) -> c_uint {
            match self {
                AttributeLoc::Return => 0,
                AttributeLoc::Param(i) => i + 1,
                AttributeLoc::Function => u32::MAX,
            }
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct Attribute(pub(crate) P);

    impl Attribute {
        pub fn is_string(self) -> bool {
            unsafe { LLVMIsStringAttribute(self.0) == 1 }
        }
        pub fn is_enum(self) -> bool {
            unsafe { LLVMIsEnumAttribute(self.0) == 1 }
        }
        pub fn is_type(self) -> bool {
            unsafe { LLVMIsTypeAttribute(self.0) == 1 }
        }
        pub fn get_enum_kind_id(self) -> u32 {
            assert!(self.is_enum());
            unsafe { LLVMGetEnumAttributeKind(self.0) }
        }
        pub fn get_string_kind_id(&self) -> &CStr {
            assert!(self.is_string());
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetStringAttributeKind(self.0, &mut n)) }
        }
        pub fn get_string_value(&self) -> &CStr {
            assert!(self.is_string());
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetStringAttributeValue(self.0, &mut n)) }
        }
    }
}

pub mod memory_buffer {
    use super::*;

    pub struct MemoryBuffer(pub(crate) P);

    impl MemoryBuffer {
        pub fn create_from_file(path: &Path) -> Result<MemoryBuffer, LLVMString> {
            let s = cstr(path.to_str().expect("Did not find a valid Unicode path string"));
            let (mut b, mut e) = (null_mut(), null_mut());
            if unsafe { LLVMCreateMemoryBufferWithContentsOfFile(s.as_ptr(), &mut b, &mut e) } != 0 {
                return Err(LLVMString(e));
            }
            Ok(MemoryBuffer(b))
        }
        /// As in inkwell, the buffer refers to the caller's bytes and is not required to end with a NUL.
        pub fn create_from_memory_range(input: &[u8], name: &str) -> MemoryBuffer {
            let n = cstr(name);
            MemoryBuffer(unsafe { LLVMCreateMemoryBufferWithMemoryRange(input.as_ptr().cast(), input.len(), n.as_ptr(), 0) })
        }
        pub fn create_from_memory_range_copy(input: &[u8], name: &str) -> MemoryBuffer {
            let n = cstr(name);
            MemoryBuffer(unsafe { LLVMCreateMemoryBufferWithMemoryRangeCopy(input.as_ptr().cast(), input.len(), n.as_ptr()) })
        }
        pub fn as_slice(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(LLVMGetBufferStart(self.0).cast(), LLVMGetBufferSize(self.0)) }
        }
        pub fn get_size(&self) -> usize {
            unsafe { LLVMGetBufferSize(self.0) }
        }
    }
    impl Drop for MemoryBuffer {
        fn drop(&mut self) {
            unsafe { LLVMDisposeMemoryBuffer(self.0) }
        }
    }
}
use memory_buffer::MemoryBuffer;

pub mod context {
    use super::*;

    pub struct Context(pub(crate) P);

    impl Context {
        pub fn create() -> Context {
            Context(unsafe { LLVMContextCreate() })
        }
        pub fn create_module_from_ir(&self, buf: MemoryBuffer) -> Result<module::Module<'_>, LLVMString> {
            let (mut m, mut e) = (null_mut(), null_mut());
            let b = buf.0;
            std::mem::forget(buf);
            if unsafe { LLVMParseIRInContext(self.0, b, &mut m, &mut e) } == 0 {
                Ok(module::Module::new(m))
            } else {
                Err(LLVMString(e))
            }
        }
    }
    impl Drop for Context {
        fn drop(&mut self) {
            unsafe { LLVMContextDispose(self.0) }
        }
    }
}
use context::Context;

pub mod module {
    use super::*;
    use execution_engine::ExecutionEngine;

    pub struct Module<'ctx> {
        pub(crate) ptr: P,
        owner: RefCell<Option<Rc<execution_engine::Engine>>>,
        _ctx: PhantomData<&'ctx Context>,
    }

    impl<'ctx> Module<'ctx> {
        pub(crate) fn new(ptr: P) -> Module<'ctx> {
            Module { ptr, owner: RefCell::new(None), _ctx: PhantomData }
        }
        pub fn parse_bitcode_from_buffer(buf: &MemoryBuffer, ctx: &'ctx Context) -> Result<Module<'ctx>, LLVMString> {
            // As inkwell does: the form of the call that hands the message back.
            let (mut m, mut e) = (null_mut(), null_mut());
            if unsafe { LLVMParseBitcodeInContext(ctx.0, buf.0, &mut m, &mut e) } != 0 {
                return Err(LLVMString(e));
            }
            Ok(Module::new(m))
        }
        pub fn parse_bitcode_from_path<Q: AsRef<Path>>(path: Q, ctx: &'ctx Context) -> Result<Module<'ctx>, LLVMString> {
            let buf = MemoryBuffer::create_from_file(path.as_ref())?;
            Self::parse_bitcode_from_buffer(&buf, ctx)
        }
        pub fn write_bitcode_to_memory(&self) -> MemoryBuffer {
            MemoryBuffer(unsafe { LLVMWriteBitcodeToMemoryBuffer(self.ptr) })
        }
        pub fn print_to_string(&self) -> LLVMString {
            LLVMString(unsafe { LLVMPrintModuleToString(self.ptr) })
        }
        pub fn verify(&self) -> Result<(), LLVMString> {
            let mut e = null_mut();
            let code = unsafe { LLVMVerifyModule(self.ptr, 2, &mut e) };
            let s = LLVMString(e);
            if code == 1 && !e.is_null() && unsafe { *e } != 0 {
                Err(s)
            } else {
                Ok(())
            }
        }
        pub fn run_passes(&self, passes: &str, tm: &targets::TargetMachine, opts: passes::PassBuilderOptions) -> Result<(), LLVMString> {
            let p = cstr(passes);
            unsafe {
                let e = LLVMRunPasses(self.ptr, p.as_ptr(), tm.0, opts.0);
                if e.is_null() {
                    Ok(())
                } else {
                    let m = LLVMGetErrorMessage(e);
                    let r = LLVMString(LLVMCreateMessage(m));
                    LLVMDisposeErrorMessage(m);
                    Err(r)
                }
            }
        }
        pub fn create_jit_execution_engine(&self, opt: OptimizationLevel) -> Result<ExecutionEngine<'ctx>, LLVMString> {
            unsafe {
                if let Err(m) = targets::Target::initialize_native(&targets::InitializationConfig::default()) {
                    let e = cstr(&m);
                    return Err(LLVMString(LLVMCreateMessage(e.as_ptr())));
                }
                LLVMLinkInMCJIT();
                if self.owner.borrow().is_some() {
                    let e = cstr("This module is already owned by an ExecutionEngine.");
                    return Err(LLVMString(LLVMCreateMessage(e.as_ptr())));
                }
                let (mut ee, mut e) = (null_mut(), null_mut());
                if LLVMCreateJITCompilerForModule(&mut ee, self.ptr, opt as c_uint, &mut e) != 0 {
                    return Err(LLVMString(e));
                }
                let rc = Rc::new(execution_engine::Engine(ee));
                *self.owner.borrow_mut() = Some(rc.clone());
                Ok(ExecutionEngine { rc, _ctx: PhantomData })
            }
        }
        pub fn get_first_function(&self) -> Option<values::FunctionValue<'ctx>> {
            values::FunctionValue::new(unsafe { LLVMGetFirstFunction(self.ptr) })
        }
        pub fn get_last_function(&self) -> Option<values::FunctionValue<'ctx>> {
            values::FunctionValue::new(unsafe { LLVMGetLastFunction(self.ptr) })
        }
        pub fn get_name(&self) -> &CStr {
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetModuleIdentifier(self.ptr, &mut n)) }
        }
        pub fn get_function(&self, name: &str) -> Option<values::FunctionValue<'ctx>> {
            let n = cstr(name);
            values::FunctionValue::new(unsafe { LLVMGetNamedFunction(self.ptr, n.as_ptr()) })
        }
        pub fn get_functions(&self) -> impl Iterator<Item = values::FunctionValue<'ctx>> {
            let mut f = self.get_first_function();
            std::iter::from_fn(move || {
                let r = f;
                f = f.and_then(values::FunctionValue::get_next_function);
                r
            })
        }
    }
    impl Drop for Module<'_> {
        fn drop(&mut self) {
            // An engine owns its module and disposes of it with itself.
            if self.owner.borrow_mut().take().is_none() {
                unsafe { LLVMDisposeModule(self.ptr) }
            }
        }
    }
}

pub mod types {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct FunctionType(pub(crate) P);
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct BasicTypeEnum(pub(crate) P);
    impl BasicTypeEnum {
        fn kind(self) -> c_int {
            unsafe { LLVMGetTypeKind(self.0) }
        }
        pub fn is_int_type(self) -> bool {
            self.kind() == 8
        }
        pub fn is_float_type(self) -> bool {
            (1..=6).contains(&self.kind())
        }
        pub fn is_pointer_type(self) -> bool {
            self.kind() == 12
        }
        pub fn is_struct_type(self) -> bool {
            self.kind() == 10
        }
        pub fn is_array_type(self) -> bool {
            self.kind() == 11
        }
    }
    impl FunctionType {
        pub fn is_var_arg(self) -> bool {
            unsafe { LLVMIsFunctionVarArg(self.0) != 0 }
        }
        pub fn count_param_types(self) -> u32 {
            unsafe { LLVMCountParamTypes(self.0) }
        }
        pub fn get_param_types(self) -> Vec<BasicTypeEnum> {
            let mut v = vec![null_mut(); self.count_param_types() as usize];
            unsafe { LLVMGetParamTypes(self.0, v.as_mut_ptr()) };
            v.into_iter().map(BasicTypeEnum).collect()
        }
        /// `None` for void, as in inkwell.
        pub fn get_return_type(self) -> Option<BasicTypeEnum> {
            unsafe {
                let r = LLVMGetReturnType(self.0);
                if LLVMGetTypeKind(r) == 0 {
                    None
                } else {
                    Some(BasicTypeEnum(r))
                }
            }
        }
    }
}

pub mod values {
    use super::*;
    use attributes::{Attribute, AttributeLoc};

    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct BasicValueEnum<'ctx>(pub(crate) P, PhantomData<&'ctx ()>);

    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct FunctionValue<'ctx>(pub(crate) P, PhantomData<&'ctx ()>);

    impl<'ctx> BasicValueEnum<'ctx> {
        pub fn is_pointer_value(self) -> bool {
            self.get_type().is_pointer_type()
        }
        pub fn is_int_value(self) -> bool {
            self.get_type().is_int_type()
        }
        pub fn is_float_value(self) -> bool {
            self.get_type().is_float_type()
        }
        pub fn get_type(&self) -> types::BasicTypeEnum {
            types::BasicTypeEnum(unsafe { LLVMTypeOf(self.0) })
        }
    }

    pub trait AnyValue<'ctx> {
        fn raw(&self) -> P;
    }
    impl<'ctx> AnyValue<'ctx> for FunctionValue<'ctx> {
        fn raw(&self) -> P {
            self.0
        }
    }

    impl<'ctx> FunctionValue<'ctx> {
        pub(crate) fn new(p: P) -> Option<Self> {
            if p.is_null() {
                None
            } else {
                Some(FunctionValue(p, PhantomData))
            }
        }
        pub fn attributes(self, loc: AttributeLoc) -> Vec<Attribute> {
            unsafe {
                let n = LLVMGetAttributeCountAtIndex(self.0, loc.index()) as usize;
                let mut v = vec![null_mut(); n];
                if n > 0 {
                    LLVMGetAttributesAtIndex(self.0, loc.index(), v.as_mut_ptr());
                }
                v.into_iter().map(Attribute).collect()
            }
        }
        pub fn count_attributes(self, loc: AttributeLoc) -> u32 {
            unsafe { LLVMGetAttributeCountAtIndex(self.0, loc.index()) }
        }
        pub fn get_string_attribute(self, loc: AttributeLoc, key: &str) -> Option<Attribute> {
            let a = unsafe { LLVMGetStringAttributeAtIndex(self.0, loc.index(), key.as_ptr().cast(), key.len() as u32) };
            if a.is_null() {
                None
            } else {
                Some(Attribute(a))
            }
        }
        pub fn count_params(self) -> u32 {
            unsafe { LLVMCountParams(self.0) }
        }
        pub fn get_params(self) -> Vec<BasicValueEnum<'ctx>> {
            (0..self.count_params()).map(|i| BasicValueEnum(unsafe { LLVMGetParam(self.0, i) }, PhantomData)).collect()
        }
        pub fn get_nth_param(self, nth: u32) -> Option<BasicValueEnum<'ctx>> {
            self.get_params().get(nth as usize).copied()
        }
        pub fn get_first_param(self) -> Option<BasicValueEnum<'ctx>> {
            self.get_nth_param(0)
        }
        pub fn get_last_param(self) -> Option<BasicValueEnum<'ctx>> {
            self.get_params().last().copied()
        }
        pub fn get_previous_function(self) -> Option<Self> {
            Self::new(unsafe { LLVMGetPreviousFunction(self.0) })
        }
        pub fn is_null(self) -> bool {
            self.0.is_null()
        }
        /// Without printing.
        pub fn verify(self, _print: bool) -> bool {
            unsafe { LLVMVerifyFunction(self.0, 2) == 0 }
        }
        pub fn get_param_iter(self) -> impl Iterator<Item = BasicValueEnum<'ctx>> {
            self.get_params().into_iter()
        }
        pub fn get_name(&self) -> &CStr {
            let mut n = 0;
            unsafe { CStr::from_ptr(LLVMGetValueName2(self.0, &mut n)) }
        }
        pub fn get_type(self) -> types::FunctionType {
            types::FunctionType(unsafe { LLVMGlobalGetValueType(self.0) })
        }
        pub fn count_basic_blocks(self) -> u32 {
            unsafe { LLVMCountBasicBlocks(self.0) }
        }
        pub fn get_first_basic_block(self) -> Option<crate::basic_block::BasicBlock<'ctx>> {
            crate::basic_block::BasicBlock::new(unsafe { LLVMGetFirstBasicBlock(self.0) })
        }
        pub fn get_last_basic_block(self) -> Option<crate::basic_block::BasicBlock<'ctx>> {
            crate::basic_block::BasicBlock::new(unsafe { LLVMGetLastBasicBlock(self.0) })
        }
        pub fn get_basic_block_iter(self) -> impl Iterator<Item = crate::basic_block::BasicBlock<'ctx>> {
            std::iter::successors(self.get_first_basic_block(), |b| b.get_next_basic_block())
        }
        pub fn get_basic_blocks(self) -> Vec<crate::basic_block::BasicBlock<'ctx>> {
            self.get_basic_block_iter().collect()
        }
        pub fn is_declaration(self) -> bool {
            unsafe { LLVMIsDeclaration(self.0) != 0 }
        }
        pub fn get_next_function(self) -> Option<Self> {
            Self::new(unsafe { LLVMGetNextFunction(self.0) })
        }
    }
}

pub mod basic_block {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct BasicBlock<'ctx>(P, PhantomData<&'ctx ()>);
    impl<'ctx> BasicBlock<'ctx> {
        pub(crate) fn new(p: P) -> Option<Self> {
            if p.is_null() {
                None
            } else {
                Some(BasicBlock(p, PhantomData))
            }
        }
        pub fn get_next_basic_block(self) -> Option<Self> {
            Self::new(unsafe { LLVMGetNextBasicBlock(self.0) })
        }
    }
}

pub mod execution_engine {
    use super::*;

    pub(crate) struct Engine(pub(crate) P);
    impl Drop for Engine {
        fn drop(&mut self) {
            unsafe { LLVMDisposeExecutionEngine(self.0) }
        }
    }

    pub struct ExecutionEngine<'ctx> {
        pub(crate) rc: Rc<Engine>,
        pub(crate) _ctx: PhantomData<&'ctx Context>,
    }

    pub struct GenericValue(P);
    impl GenericValue {
        pub fn as_int(&self, signed: bool) -> u64 {
            unsafe { LLVMGenericValueToInt(self.0, c_int::from(signed)) }
        }
        pub fn int_width(&self) -> u32 {
            unsafe { LLVMGenericValueIntWidth(self.0) }
        }
    }
    impl Drop for GenericValue {
        fn drop(&mut self) {
            unsafe { LLVMDisposeGenericValue(self.0) }
        }
    }

    #[derive(Debug, PartialEq, Eq)]
    pub enum FunctionLookupError {
        JITNotEnabled,
        FunctionNotFound,
    }

    impl<'ctx> ExecutionEngine<'ctx> {
        pub fn add_global_mapping(&self, value: &dyn values::AnyValue<'ctx>, addr: usize) {
            unsafe { LLVMAddGlobalMapping(self.rc.0, value.raw(), addr as *mut c_void) }
        }
        pub unsafe fn run_function(&self, f: values::FunctionValue<'ctx>, args: &[&GenericValue]) -> GenericValue {
            let mut a: Vec<P> = args.iter().map(|v| v.0).collect();
            GenericValue(LLVMRunFunction(self.rc.0, f.0, a.len() as c_uint, a.as_mut_ptr()))
        }
        pub fn get_function_value(&self, name: &str) -> Result<values::FunctionValue<'ctx>, FunctionLookupError> {
            let n = cstr(name);
            let mut f = null_mut();
            match unsafe { LLVMFindFunction(self.rc.0, n.as_ptr(), &mut f) } {
                0 => values::FunctionValue::new(f).ok_or(FunctionLookupError::FunctionNotFound),
                _ => Err(FunctionLookupError::FunctionNotFound),
            }
        }
        pub fn run_static_constructors(&self) {
            unsafe { LLVMRunStaticConstructors(self.rc.0) }
        }
        pub fn run_static_destructors(&self) {
            unsafe { LLVMRunStaticDestructors(self.rc.0) }
        }
        pub fn get_function_address(&self, name: &str) -> Result<usize, FunctionLookupError> {
            let n = cstr(name);
            match unsafe { LLVMGetFunctionAddress(self.rc.0, n.as_ptr()) } {
                0 => Err(FunctionLookupError::FunctionNotFound),
                a => Ok(a as usize),
            }
        }
    }
}

pub mod passes {
    use super::*;
    pub struct PassManager<T>(PhantomData<T>);
    pub struct PassBuilderOptions(pub(crate) P);
    impl PassBuilderOptions {
        pub fn create() -> Self {
            PassBuilderOptions(unsafe { LLVMCreatePassBuilderOptions() })
        }
    }
    impl Drop for PassBuilderOptions {
        fn drop(&mut self) {
            unsafe { LLVMDisposePassBuilderOptions(self.0) }
        }
    }
}

pub mod targets {
    use super::*;
    use std::sync::Once;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum CodeModel {
        Default = 0,
        JITDefault = 1,
        Small = 3,
        Kernel = 4,
        Medium = 5,
        Large = 6,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RelocMode {
        Default = 0,
        Static = 1,
        PIC = 2,
        DynamicNoPic = 3,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct InitializationConfig {
        pub asm_parser: bool,
        pub asm_printer: bool,
        pub base: bool,
        pub disassembler: bool,
        pub info: bool,
        pub machine_code: bool,
    }
    impl Default for InitializationConfig {
        fn default() -> Self {
            InitializationConfig { asm_parser: true, asm_printer: true, base: true, disassembler: true, info: true, machine_code: true }
        }
    }

    pub struct TargetTriple(pub(crate) LLVMString);
    impl TargetTriple {
        pub fn create(t: &str) -> TargetTriple {
            let c = cstr(t);
            TargetTriple(LLVMString(unsafe { LLVMCreateMessage(c.as_ptr()) }))
        }
        pub fn as_str(&self) -> &CStr {
            unsafe { CStr::from_ptr(self.0 .0) }
        }
    }

    pub struct Target(P);
    pub struct TargetMachine(pub(crate) P);

    static INIT: Once = Once::new();

    impl Target {
        pub fn initialize_native(_: &InitializationConfig) -> Result<(), String> {
            INIT.call_once(|| unsafe {
                LLVMInitializeX86TargetInfo();
                LLVMInitializeX86Target();
                LLVMInitializeX86TargetMC();
                LLVMInitializeX86AsmPrinter();
                LLVMInitializeX86AsmParser();
                LLVMInitializeX86Disassembler();
            });
            Ok(())
        }
        pub fn from_triple(t: &TargetTriple) -> Result<Target, LLVMString> {
            let (mut p, mut e) = (null_mut(), null_mut());
            if unsafe { LLVMGetTargetFromTriple(t.0 .0, &mut p, &mut e) } != 0 {
                return Err(LLVMString(e));
            }
            Ok(Target(p))
        }
        pub fn has_asm_backend(&self) -> bool {
            unsafe { LLVMTargetHasAsmBackend(self.0) == 1 }
        }
        pub fn has_target_machine(&self) -> bool {
            unsafe { LLVMTargetHasTargetMachine(self.0) == 1 }
        }
        pub fn has_jit(&self) -> bool {
            unsafe { LLVMTargetHasJIT(self.0) == 1 }
        }
        pub fn create_target_machine(&self, triple: &TargetTriple, cpu: &str, features: &str, level: OptimizationLevel, reloc: RelocMode, model: CodeModel) -> Option<TargetMachine> {
            let (c, f) = (cstr(cpu), cstr(features));
            let p = unsafe { LLVMCreateTargetMachine(self.0, triple.0 .0, c.as_ptr(), f.as_ptr(), level as c_int, reloc as c_int, model as c_int) };
            if p.is_null() {
                None
            } else {
                Some(TargetMachine(p))
            }
        }
    }
    impl TargetMachine {
        pub fn get_default_triple() -> TargetTriple {
            TargetTriple(LLVMString(unsafe { LLVMGetDefaultTargetTriple() }))
        }
    }
    impl Drop for TargetMachine {
        fn drop(&mut self) {
            unsafe { LLVMDisposeTargetMachine(self.0) }
        }
    }
}
