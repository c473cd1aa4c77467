//! Bindings to the LLVM C API exported by the compiler's libLLVM, and module preparation.
#![allow(non_snake_case)]
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};

pub type P = *mut c_void;
extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseIRInContext(c: P, buf: P, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P;
    fn LLVMGetNextGlobal(g: P) -> P;
    fn LLVMGetFirstGlobalAlias(m: P) -> P;
    fn LLVMGetNextGlobalAlias(g: P) -> P;
    fn LLVMAliasGetAliasee(a: P) -> P;
    fn LLVMGetInitializer(g: P) -> P;
    fn LLVMIsDeclaration(g: P) -> c_int;
    fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    fn LLVMSetValueName2(v: P, s: *const c_char, len: usize);
    fn LLVMSetLinkage(v: P, l: c_int);
    fn LLVMSetVisibility(v: P, l: c_int);
    fn LLVMSetComdat(v: P, c: P);
    fn LLVMGlobalGetValueType(v: P) -> P;
    fn LLVMAddFunction(m: P, name: *const c_char, ty: P) -> P;
    fn LLVMReplaceAllUsesWith(a: P, b: P);
    fn LLVMCreateEnumAttribute(c: P, kind: c_uint, v: u64) -> P;
    fn LLVMGetEnumAttributeKindForName(n: *const c_char, len: usize) -> c_uint;
    fn LLVMAddAttributeAtIndex(f: P, idx: c_uint, a: P);
    fn LLVMRemoveEnumAttributeAtIndex(f: P, idx: c_uint, kind: c_uint);
    fn LLVMCreatePassBuilderOptions() -> P;
    fn LLVMPassBuilderOptionsSetLoopVectorization(o: P, v: c_int);
    fn LLVMPassBuilderOptionsSetSLPVectorization(o: P, v: c_int);
    fn LLVMRunPasses(m: P, passes: *const c_char, tm: P, o: P) -> P;
    fn LLVMGetErrorMessage(e: P) -> *mut c_char;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMTypeOf(v: P) -> P;
    fn LLVMGetTypeKind(t: P) -> c_int;
    fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    fn LLVMCountStructElementTypes(t: P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    fn LLVMGetElementType(t: P) -> P;
    fn LLVMGetArrayLength2(t: P) -> u64;
    fn LLVMGetVectorSize(t: P) -> c_uint;
    fn LLVMABISizeOfType(td: P, t: P) -> c_ulonglong;
    fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> c_ulonglong;
    fn LLVMGetReturnType(t: P) -> P;
    fn LLVMGetFirstBasicBlock(f: P) -> P;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetFirstInstruction(b: P) -> P;
    fn LLVMGetNextInstruction(i: P) -> P;
    fn LLVMGetInstructionOpcode(i: P) -> c_int;
    fn LLVMGetNumOperands(v: P) -> c_int;
    fn LLVMGetOperand(v: P, i: c_uint) -> P;
    fn LLVMGetICmpPredicate(i: P) -> c_int;
    fn LLVMGetFCmpPredicate(i: P) -> c_int;
    fn LLVMCountIncoming(p: P) -> c_uint;
    fn LLVMGetIncomingValue(p: P, i: c_uint) -> P;
    fn LLVMGetIncomingBlock(p: P, i: c_uint) -> P;
    fn LLVMGetNumSuccessors(t: P) -> c_uint;
    fn LLVMGetSuccessor(t: P, i: c_uint) -> P;
    fn LLVMGetCondition(t: P) -> P;
    fn LLVMGetSwitchCaseValue(t: P, i: c_uint) -> P;
    fn LLVMGetNumIndices(i: P) -> c_uint;
    fn LLVMGetIndices(i: P) -> *const c_uint;
    fn LLVMGetNumMaskElements(i: P) -> c_uint;
    fn LLVMGetMaskValue(i: P, e: c_uint) -> c_int;
    fn LLVMGetUndefMaskElem() -> c_int;
    fn LLVMGetAllocatedType(i: P) -> P;
    fn LLVMGetAtomicRMWBinOp(i: P) -> c_int;
    fn LLVMGetCalledValue(i: P) -> P;
    fn LLVMGetNumArgOperands(i: P) -> c_uint;
    fn LLVMGetNormalDest(i: P) -> P;
    fn LLVMGetConstOpcode(v: P) -> c_int;
    fn LLVMGetGEPSourceElementType(v: P) -> P;
    fn LLVMIsAConstantInt(v: P) -> P;
    fn LLVMIsAConstantFP(v: P) -> P;
    fn LLVMIsAConstantPointerNull(v: P) -> P;
    fn LLVMIsAUndefValue(v: P) -> P;
    fn LLVMIsAConstantAggregateZero(v: P) -> P;
    fn LLVMIsAConstantExpr(v: P) -> P;
    fn LLVMIsAFunction(v: P) -> P;
    fn LLVMIsAGlobalVariable(v: P) -> P;
    fn LLVMIsAGlobalAlias(v: P) -> P;
    fn LLVMIsAInlineAsm(v: P) -> P;
    fn LLVMIsAConstant(v: P) -> P;
    fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    fn LLVMConstIntGetZExtValue(v: P) -> c_ulonglong;
    fn LLVMConstRealGetDouble(v: P, loses: *mut c_int) -> f64;
    fn LLVMPrintValueToString(v: P) -> *mut c_char;
    fn LLVMIsGlobalConstant(v: P) -> c_int;
    fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMCountParams(f: P) -> c_uint;
    fn LLVMGetRawDataValues(v: P, n: *mut usize) -> *const c_char;
    fn LLVMIsAConstantDataSequential(v: P) -> P;
    fn LLVMPrintModuleToFile(m: P, f: *const c_char, e: *mut *mut c_char) -> c_int;
}

macro_rules! wrap {
    ($($name:ident = $f:ident ( $($a:ident : $t:ty),* ) -> $r:ty;)*) => {
        $( #[inline] pub fn $name($($a: $t),*) -> $r { unsafe { $f($($a),*) } } )*
    };
}
wrap! {
    type_of = LLVMTypeOf(v: P) -> P;
    type_kind = LLVMGetTypeKind(t: P) -> c_int;
    int_width = LLVMGetIntTypeWidth(t: P) -> c_uint;
    struct_len = LLVMCountStructElementTypes(t: P) -> c_uint;
    struct_elem = LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    elem_type = LLVMGetElementType(t: P) -> P;
    array_len = LLVMGetArrayLength2(t: P) -> u64;
    vector_len = LLVMGetVectorSize(t: P) -> c_uint;
    abi_size = LLVMABISizeOfType(td: P, t: P) -> c_ulonglong;
    offset_of = LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> c_ulonglong;
    return_type = LLVMGetReturnType(t: P) -> P;
    value_type = LLVMGlobalGetValueType(v: P) -> P;
    first_block = LLVMGetFirstBasicBlock(f: P) -> P;
    next_block = LLVMGetNextBasicBlock(f: P) -> P;
    first_inst = LLVMGetFirstInstruction(f: P) -> P;
    next_inst = LLVMGetNextInstruction(f: P) -> P;
    opcode = LLVMGetInstructionOpcode(f: P) -> c_int;
    num_operands = LLVMGetNumOperands(f: P) -> c_int;
    operand = LLVMGetOperand(f: P, i: c_uint) -> P;
    icmp_pred = LLVMGetICmpPredicate(i: P) -> c_int;
    fcmp_pred = LLVMGetFCmpPredicate(i: P) -> c_int;
    count_incoming = LLVMCountIncoming(i: P) -> c_uint;
    incoming_value = LLVMGetIncomingValue(p: P, i: c_uint) -> P;
    incoming_block = LLVMGetIncomingBlock(p: P, i: c_uint) -> P;
    num_successors = LLVMGetNumSuccessors(p: P) -> c_uint;
    successor = LLVMGetSuccessor(p: P, i: c_uint) -> P;
    condition = LLVMGetCondition(p: P) -> P;
    switch_case = LLVMGetSwitchCaseValue(p: P, i: c_uint) -> P;
    num_indices = LLVMGetNumIndices(p: P) -> c_uint;
    indices = LLVMGetIndices(p: P) -> *const c_uint;
    num_mask = LLVMGetNumMaskElements(p: P) -> c_uint;
    mask_value = LLVMGetMaskValue(p: P, i: c_uint) -> c_int;
    undef_mask = LLVMGetUndefMaskElem() -> c_int;
    allocated_type = LLVMGetAllocatedType(p: P) -> P;
    rmw_op = LLVMGetAtomicRMWBinOp(p: P) -> c_int;
    called_value = LLVMGetCalledValue(p: P) -> P;
    num_args = LLVMGetNumArgOperands(p: P) -> c_uint;
    normal_dest = LLVMGetNormalDest(p: P) -> P;
    const_opcode = LLVMGetConstOpcode(p: P) -> c_int;
    gep_type = LLVMGetGEPSourceElementType(p: P) -> P;
    aggregate_element = LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    int_value = LLVMConstIntGetZExtValue(v: P) -> c_ulonglong;
    initializer = LLVMGetInitializer(v: P) -> P;
    aliasee = LLVMAliasGetAliasee(v: P) -> P;
    param = LLVMGetParam(f: P, i: c_uint) -> P;
    count_params = LLVMCountParams(f: P) -> c_uint;
    data_layout = LLVMGetModuleDataLayout(m: P) -> P;
}
macro_rules! isa {
    ($($name:ident = $f:ident;)*) => { $( #[inline] pub fn $name(v: P) -> bool { unsafe { !$f(v).is_null() } } )* };
}
isa! {
    is_int = LLVMIsAConstantInt;
    is_fp = LLVMIsAConstantFP;
    is_null = LLVMIsAConstantPointerNull;
    is_undef = LLVMIsAUndefValue;
    is_zero_agg = LLVMIsAConstantAggregateZero;
    is_cexpr = LLVMIsAConstantExpr;
    is_function = LLVMIsAFunction;
    is_global = LLVMIsAGlobalVariable;
    is_alias = LLVMIsAGlobalAlias;
    is_asm = LLVMIsAInlineAsm;
    is_constant = LLVMIsAConstant;
    is_data_seq = LLVMIsAConstantDataSequential;
}
pub fn is_declaration(v: P) -> bool {
    unsafe { LLVMIsDeclaration(v) != 0 }
}
pub fn is_const_global(v: P) -> bool {
    unsafe { LLVMIsGlobalConstant(v) != 0 }
}
pub fn fp_value(v: P) -> f64 {
    let mut l = 0;
    unsafe { LLVMConstRealGetDouble(v, &mut l) }
}
pub fn raw_data(v: P) -> &'static [u8] {
    unsafe {
        let mut n = 0;
        let p = LLVMGetRawDataValues(v, &mut n);
        std::slice::from_raw_parts(p as *const u8, n)
    }
}
pub fn name(v: P) -> String {
    unsafe {
        let mut n = 0;
        let p = LLVMGetValueName2(v, &mut n);
        if p.is_null() {
            return String::new();
        }
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
pub fn print(v: P) -> String {
    unsafe { CStr::from_ptr(LLVMPrintValueToString(v)).to_string_lossy().into_owned() }
}

pub fn load(path: &str) -> P {
    unsafe {
        let c = LLVMContextCreate();
        let p = CString::new(path).unwrap();
        let (mut buf, mut msg) = (std::ptr::null_mut(), std::ptr::null_mut());
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            panic!("cannot read {}: {:?}", path, CStr::from_ptr(msg));
        }
        let mut m = std::ptr::null_mut();
        if LLVMParseIRInContext(c, buf, &mut m, &mut msg) != 0 {
            panic!("cannot parse {}: {:?}", path, CStr::from_ptr(msg));
        }
        CTX = c;
        m
    }
}
static mut CTX: P = std::ptr::null_mut();

pub fn functions(m: P) -> Vec<P> {
    let mut v = vec![];
    unsafe {
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            v.push(f);
            f = LLVMGetNextFunction(f);
        }
    }
    v
}
pub fn globals(m: P) -> Vec<P> {
    let mut v = vec![];
    unsafe {
        let mut f = LLVMGetFirstGlobal(m);
        while !f.is_null() {
            v.push(f);
            f = LLVMGetNextGlobal(f);
        }
    }
    v
}
pub fn aliases(m: P) -> Vec<P> {
    let mut v = vec![];
    unsafe {
        let mut f = LLVMGetFirstGlobalAlias(m);
        while !f.is_null() {
            v.push(f);
            f = LLVMGetNextGlobalAlias(f);
        }
    }
    v
}

/// Keep `entries`, cut the bodies of functions `cut` accepts (they become external calls the executor
/// interprets), keep functions `keep` accepts out of line, then optimise.
pub fn prepare(m: P, entries: &[String], cut: impl Fn(&str) -> bool, keep: impl Fn(&str) -> bool, passes: &str) {
    unsafe {
        let kind = |s: &str| LLVMGetEnumAttributeKindForName(s.as_ptr() as *const c_char, s.len());
        let (noinline, always, hint, nounwind_k) = (kind("noinline"), kind("alwaysinline"), kind("inlinehint"), kind("cold"));
        let _ = nounwind_k;
        let at = LLVMCreateEnumAttribute(CTX, noinline, 0);
        // vredirect_a__b replaces every function whose path has the identifiers a and b
        for r in functions(m) {
            let rn = name(r);
            let Some(pat) = rn.strip_prefix("vredirect_") else { continue };
            let ids: Vec<String> = pat.split("__").map(|x| format!("{}{}", x.len(), x)).collect();
            for f in functions(m) {
                let n = name(f);
                if f != r && n.starts_with("_R") && ids.iter().all(|i| n.contains(i.as_str())) {
                    LLVMReplaceAllUsesWith(f, r);
                }
            }
        }
        for f in functions(m) {
            let n = name(f);
            if is_declaration(f) {
                continue;
            }
            if cut(&n) {
                let ty = value_type(f);
                LLVMSetValueName2(f, b"cut.old".as_ptr() as *const c_char, 7);
                let c = CString::new(n).unwrap();
                let g = LLVMAddFunction(m, c.as_ptr(), ty);
                LLVMReplaceAllUsesWith(f, g);
                LLVMSetLinkage(f, 8);
                continue;
            }
            let entry = entries.iter().any(|e| *e == n);
            if !entry {
                LLVMSetVisibility(f, 0);
                LLVMSetLinkage(f, 8);
                LLVMSetComdat(f, std::ptr::null_mut());
            }
            if entry || keep(&n) {
                LLVMRemoveEnumAttributeAtIndex(f, u32::MAX, always);
                LLVMRemoveEnumAttributeAtIndex(f, u32::MAX, hint);
                LLVMAddAttributeAtIndex(f, u32::MAX, at);
            }
        }
        for g in globals(m) {
            if !is_declaration(g) {
                LLVMSetVisibility(g, 0);
                LLVMSetLinkage(g, 8);
                LLVMSetComdat(g, std::ptr::null_mut());
            }
        }
        let o = LLVMCreatePassBuilderOptions();
        LLVMPassBuilderOptionsSetLoopVectorization(o, 0);
        LLVMPassBuilderOptionsSetSLPVectorization(o, 0);
        let p = CString::new(passes).unwrap();
        let e = LLVMRunPasses(m, p.as_ptr(), std::ptr::null_mut(), o);
        if !e.is_null() {
            panic!("passes: {:?}", CStr::from_ptr(LLVMGetErrorMessage(e)));
        }
    }
}
pub fn dump(m: P, path: &str) {
    let c = CString::new(path).unwrap();
    let mut e = std::ptr::null_mut();
    unsafe {
        LLVMPrintModuleToFile(m, c.as_ptr(), &mut e);
    }
}
