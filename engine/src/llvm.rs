//! Minimal FFI to the LLVM C API exported by rustc's libLLVM.
#![allow(non_snake_case, dead_code)]
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

macro_rules! opaque { ($($n:ident),*) => { $( pub type $n = *mut c_void; )* } }
opaque!(Ctx, Module, Value, Type, Block, MemBuf, TargetData, Use);

extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut MemBuf, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ctx, b: MemBuf, out: *mut Module) -> c_int;
    pub fn LLVMGetFirstFunction(m: Module) -> Value;
    pub fn LLVMGetNextFunction(v: Value) -> Value;
    pub fn LLVMGetFirstGlobal(m: Module) -> Value;
    pub fn LLVMGetNextGlobal(v: Value) -> Value;
    pub fn LLVMGetFirstGlobalAlias(m: Module) -> Value;
    pub fn LLVMGetNextGlobalAlias(v: Value) -> Value;
    pub fn LLVMAliasGetAliasee(v: Value) -> Value;
    pub fn LLVMGetValueName2(v: Value, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: Value) -> c_int;
    pub fn LLVMGetLinkage(v: Value) -> c_int;
    pub fn LLVMGetInitializer(v: Value) -> Value;
    pub fn LLVMGlobalGetValueType(v: Value) -> Type;
    pub fn LLVMIsThreadLocal(v: Value) -> c_int;
    pub fn LLVMIsGlobalConstant(v: Value) -> c_int;
    pub fn LLVMCountParams(v: Value) -> c_uint;
    pub fn LLVMGetParam(v: Value, i: c_uint) -> Value;
    pub fn LLVMCountBasicBlocks(v: Value) -> c_uint;
    pub fn LLVMGetFirstBasicBlock(v: Value) -> Block;
    pub fn LLVMGetNextBasicBlock(b: Block) -> Block;
    pub fn LLVMGetFirstInstruction(b: Block) -> Value;
    pub fn LLVMGetNextInstruction(v: Value) -> Value;
    pub fn LLVMGetInstructionOpcode(v: Value) -> c_int;
    pub fn LLVMGetNumOperands(v: Value) -> c_int;
    pub fn LLVMGetOperand(v: Value, i: c_uint) -> Value;
    pub fn LLVMTypeOf(v: Value) -> Type;
    pub fn LLVMGetTypeKind(t: Type) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Type) -> c_uint;
    pub fn LLVMGetElementType(t: Type) -> Type;
    pub fn LLVMGetVectorSize(t: Type) -> c_uint;
    pub fn LLVMGetArrayLength2(t: Type) -> u64;
    pub fn LLVMCountStructElementTypes(t: Type) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Type, i: c_uint) -> Type;
    pub fn LLVMGetNumIndices(v: Value) -> c_uint;
    pub fn LLVMGetIndices(v: Value) -> *const c_uint;
    pub fn LLVMGetICmpPredicate(v: Value) -> c_int;
    pub fn LLVMGetFCmpPredicate(v: Value) -> c_int;
    pub fn LLVMGetCalledValue(v: Value) -> Value;
    pub fn LLVMGetNumArgOperands(v: Value) -> c_uint;
    pub fn LLVMCountIncoming(v: Value) -> c_uint;
    pub fn LLVMGetIncomingValue(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetIncomingBlock(v: Value, i: c_uint) -> Block;
    pub fn LLVMValueAsBasicBlock(v: Value) -> Block;
    pub fn LLVMIsConditional(v: Value) -> c_int;
    pub fn LLVMGetNumSuccessors(v: Value) -> c_uint;
    pub fn LLVMGetSuccessor(v: Value, i: c_uint) -> Block;
    pub fn LLVMGetCondition(v: Value) -> Value;
    pub fn LLVMGetAllocatedType(v: Value) -> Type;
    pub fn LLVMGetGEPSourceElementType(v: Value) -> Type;
    pub fn LLVMGetModuleDataLayout(m: Module) -> TargetData;
    pub fn LLVMABISizeOfType(t: TargetData, ty: Type) -> u64;
    pub fn LLVMStoreSizeOfType(t: TargetData, ty: Type) -> u64;
    pub fn LLVMOffsetOfElement(t: TargetData, ty: Type, i: c_uint) -> u64;
    pub fn LLVMIsAConstantInt(v: Value) -> Value;
    pub fn LLVMConstIntGetZExtValue(v: Value) -> u64;
    pub fn LLVMIsAConstantFP(v: Value) -> Value;
    pub fn LLVMConstRealGetDouble(v: Value, loses: *mut c_int) -> f64;
    pub fn LLVMIsAConstantExpr(v: Value) -> Value;
    pub fn LLVMGetConstOpcode(v: Value) -> c_int;
    pub fn LLVMIsAConstantAggregateZero(v: Value) -> Value;
    pub fn LLVMIsAConstantPointerNull(v: Value) -> Value;
    pub fn LLVMIsAConstantStruct(v: Value) -> Value;
    pub fn LLVMIsAConstantArray(v: Value) -> Value;
    pub fn LLVMIsAConstantVector(v: Value) -> Value;
    pub fn LLVMIsAConstantDataSequential(v: Value) -> Value;
    pub fn LLVMGetElementAsConstant(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetRawDataValues(v: Value, n: *mut usize) -> *const c_char;
    pub fn LLVMIsAUndefValue(v: Value) -> Value;
    pub fn LLVMIsAGlobalVariable(v: Value) -> Value;
    pub fn LLVMIsAGlobalAlias(v: Value) -> Value;
    pub fn LLVMIsAFunction(v: Value) -> Value;
    pub fn LLVMIsAInlineAsm(v: Value) -> Value;
    pub fn LLVMGetInlineAsmAsmString(v: Value, len: *mut usize) -> *const c_char;
    pub fn LLVMIsAArgument(v: Value) -> Value;
    pub fn LLVMIsAInstruction(v: Value) -> Value;
    pub fn LLVMGetAtomicRMWBinOp(v: Value) -> c_int;
    pub fn LLVMPrintValueToString(v: Value) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: Type) -> *mut c_char;
    pub fn LLVMDisposeMessage(s: *mut c_char);
    pub fn LLVMGetNumMaskElements(v: Value) -> c_uint;
    pub fn LLVMGetMaskValue(v: Value, i: c_uint) -> c_int;
    pub fn LLVMIsConstant(v: Value) -> c_int;
    pub fn LLVMGetTypeByName2(c: Ctx, n: *const c_char) -> Type;
    pub fn LLVMGetSwitchDefaultDest(v: Value) -> Block;
}

pub fn name_of(v: Value) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        if p.is_null() { return String::new(); }
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
pub fn print(v: Value) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn print_ty(v: Type) -> String {
    unsafe {
        let p = LLVMPrintTypeToString(v);
        let s = std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn load_module(ctx: Ctx, path: &str) -> Result<Module, String> {
    unsafe {
        let c = CString::new(path).unwrap();
        let mut mb: MemBuf = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(c.as_ptr(), &mut mb, &mut msg) != 0 {
            return Err(format!("cannot read {}", path));
        }
        let mut m: Module = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, mb, &mut m) != 0 {
            return Err(format!("cannot parse bitcode {}", path));
        }
        Ok(m)
    }
}

// LLVMTypeKind
pub const TK_VOID: i32 = 0;
pub const TK_HALF: i32 = 1;
pub const TK_FLOAT: i32 = 2;
pub const TK_DOUBLE: i32 = 3;
pub const TK_LABEL: i32 = 7;
pub const TK_INT: i32 = 8;
pub const TK_FUNCTION: i32 = 9;
pub const TK_STRUCT: i32 = 10;
pub const TK_ARRAY: i32 = 11;
pub const TK_POINTER: i32 = 12;
pub const TK_VECTOR: i32 = 13;
pub const TK_METADATA: i32 = 14;
pub const TK_TOKEN: i32 = 16;
