//! Internal IR and the lazy translation from LLVM bitcode.
use crate::expr::{FxMap, m64};
use crate::llvm::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(crate::expr::E),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}
impl Val {
    #[inline] pub fn z() -> Val { Val::C(0) }
    pub fn agg(&self) -> &Vec<Val> { if let Val::A(v) = self { v } else { panic!("aggregate expected: {:?}", self) } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>, u64),
    Struct(Rc<Vec<(Ty, u64)>>, u64),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, Ty::Vec(n, t) => (*n as u16) * t.bits(), _ => panic!("bits of {:?}", self) }
    }
    pub fn scalar(&self) -> &Ty { if let Ty::Vec(_, t) = self { t } else { self } }
    pub fn lanes(&self) -> u32 { if let Ty::Vec(n, _) = self { *n } else { 0 } }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, _, es) => n * es,
            Ty::Struct(_, s) => *s,
            Ty::Other => 0,
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            Ty::Vec(n, t) => Val::A(Rc::new(vec![t.zero(); *n as usize])),
            Ty::Arr(n, t, _) => Val::A(Rc::new(vec![t.zero(); *n as usize])),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| x.0.zero()).collect())),
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt, Bitcast, Nop }

#[derive(Debug)]
pub struct Target { pub pc: u32, pub moves: Vec<(u32, Op)> }

#[derive(Debug)]
pub enum I {
    Bin { op: crate::expr::B, w: u16, n: u32, d: u32, a: Op, b: Op },
    FBin { op: FOp, w: u16, n: u32, d: u32, a: Op, b: Op },
    FNeg { w: u16, n: u32, d: u32, a: Op },
    ICmp { p: i32, w: u16, n: u32, d: u32, a: Op, b: Op },
    FCmp { p: i32, w: u16, n: u32, d: u32, a: Op, b: Op },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Op },
    Load { d: u32, ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { d: u32, base: Op, off: u64, terms: Vec<(Op, u16, u64)> },
    Alloca { d: u32, size: u64, n: Option<(Op, u16)> },
    Select { d: u32, ty: Ty, c: Op, cn: u32, a: Op, b: Op },
    Call { d: u32, f: Callee, args: Vec<Op>, tys: Vec<Ty>, ret: Ty },
    Intr { d: u32, name: Rc<str>, args: Vec<Op>, tys: Vec<Ty>, ret: Ty },
    Asm { d: u32, s: Rc<str>, args: Vec<Op>, ret: Ty },
    Br(Target),
    CondBr { c: Op, t: Target, f: Target },
    Switch { v: Op, w: u16, cases: Vec<(u64, u32)>, targets: Vec<Target> }, // targets[0] = default
    Ret(Option<Op>),
    Unreachable,
    ExtractValue { d: u32, a: Op, idx: Vec<u32> },
    InsertValue { d: u32, a: Op, v: Op, idx: Vec<u32>, ty: Ty },
    ExtractElement { d: u32, a: Op, i: Op },
    InsertElement { d: u32, a: Op, v: Op, i: Op },
    Shuffle { d: u32, a: Op, b: Op, mask: Vec<i32>, et: Ty },
    Rmw { d: u32, op: i32, ty: Ty, p: Op, v: Op },
    CmpXchg { d: u32, ty: Ty, p: Op, c: Op, n: Op },
    Freeze { d: u32, a: Op },
    Bad(String),
}
#[derive(Debug, Clone)]
pub enum Callee { F(u32), Ind(Op) }

pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub nargs: u32,
    pub code: Vec<I>,
    pub entry: u32,
}

pub struct FnEntry {
    pub name: String,
    pub short: String, // demangled
    pub val: Value,    // null if extern
    pub module: usize,
    pub body: Option<Rc<Func>>,
    pub host: Option<u32>, // host handler index + 1 semantics handled by exec
    pub host_checked: bool,
    pub redirect: Option<u32>,
    pub executed: bool,
}
pub struct GlobalEntry { pub name: String, pub val: Value, pub module: usize, pub size: u64, pub tls: bool, pub konst: bool, pub ext: bool }

pub const SHIFT: u32 = 28;
pub const FN_BASE: u64 = 1 << 60;
pub const HEAP0: u64 = 1 << 20;
pub const STACK0: u64 = 1 << 31;

pub struct Program {
    ctx: Ctx,
    pub mods: Vec<(Module, TargetData, String)>,
    defs: FxMap<String, Value>, // external definitions (functions, globals, aliases)
    vmod: FxMap<usize, usize>,  // definition value -> module
    pub fns: Vec<FnEntry>,
    fmap: FxMap<usize, u32>,
    fext: FxMap<String, u32>,
    pub globs: Vec<GlobalEntry>, // id = index + 1
    gmap: FxMap<usize, u32>,
    gext: FxMap<String, u32>,
    tycache: FxMap<usize, Ty>,
}

fn linkage_local(l: i32) -> bool { l == 8 || l == 9 }

impl Program {
    pub fn load(paths: &[String]) -> Result<Program, String> {
        unsafe {
            let ctx = LLVMContextCreate();
            let mut p = Program {
                ctx, mods: vec![], defs: Default::default(), vmod: Default::default(), fns: vec![], fmap: Default::default(),
                fext: Default::default(), globs: vec![], gmap: Default::default(), gext: Default::default(), tycache: Default::default(),
            };
            for path in paths {
                let m = load_module(ctx, path)?;
                let td = LLVMGetModuleDataLayout(m);
                let mi = p.mods.len();
                p.mods.push((m, td, path.clone()));
                let mut add = |v: Value| {
                    p.vmod.insert(v as usize, mi);
                    let l = LLVMGetLinkage(v);
                    if !linkage_local(l) {
                        let n = name_of(v);
                        if l == 1 || l == 3 || l == 2 || l == 5 || l == 6 { p.defs.entry(n).or_insert(v); } else { p.defs.insert(n, v); }
                    }
                };
                let mut f = LLVMGetFirstFunction(m);
                while !f.is_null() { if LLVMIsDeclaration(f) == 0 { add(f) } f = LLVMGetNextFunction(f); }
                let mut g = LLVMGetFirstGlobal(m);
                while !g.is_null() { if LLVMIsDeclaration(g) == 0 { add(g) } g = LLVMGetNextGlobal(g); }
                let mut a = LLVMGetFirstGlobalAlias(m);
                while !a.is_null() { add(a); a = LLVMGetNextGlobalAlias(a); }
            }
            let _ = p.ctx;
            Ok(p)
        }
    }
    pub fn module_of(&self, v: Value) -> usize { self.vmod[&(v as usize)] }
    pub fn find_fn(&mut self, name: &str) -> Option<u32> {
        let v = *self.defs.get(name)?;
        Some(self.fn_for(v))
    }
    pub fn defined_names(&self) -> impl Iterator<Item = (&String, &Value)> { self.defs.iter() }
    pub fn is_fn(&self, v: Value) -> bool { unsafe { !LLVMIsAFunction(v).is_null() } }

    /// resolve aliases and declarations to the defining value
    fn resolve(&self, v: Value) -> Value {
        unsafe {
            let mut v = v;
            for _ in 0..8 {
                if !LLVMIsAGlobalAlias(v).is_null() { v = LLVMAliasGetAliasee(v); continue; }
                if LLVMIsDeclaration(v) != 0 {
                    if let Some(d) = self.defs.get(&name_of(v)) { if *d != v { v = *d; continue; } }
                }
                break;
            }
            v
        }
    }
    pub fn fn_for(&mut self, v: Value) -> u32 {
        let v = self.resolve(v);
        unsafe {
            let decl = LLVMIsDeclaration(v) != 0;
            if decl {
                let n = name_of(v);
                if let Some(i) = self.fext.get(&n) { return *i; }
                let i = self.fns.len() as u32;
                self.fns.push(FnEntry { short: demangle(&n), name: n.clone(), val: std::ptr::null_mut(), module: 0, body: None, host: None, host_checked: false, redirect: None, executed: false });
                self.fext.insert(n, i);
                return i;
            }
            if let Some(i) = self.fmap.get(&(v as usize)) { return *i; }
            let n = name_of(v);
            let i = self.fns.len() as u32;
            let module = self.module_of(v);
            self.fns.push(FnEntry { short: demangle(&n), name: n, val: v, module, body: None, host: None, host_checked: false, redirect: None, executed: false });
            self.fmap.insert(v as usize, i);
            i
        }
    }
    pub fn fn_addr(&mut self, v: Value) -> u64 { let i = self.fn_for(v); FN_BASE + (i as u64) * 16 }
    fn glob_for(&mut self, v: Value) -> u32 {
        unsafe {
            let decl = LLVMIsDeclaration(v) != 0;
            if decl {
                let n = name_of(v);
                if let Some(i) = self.gext.get(&n) { return *i; }
                self.globs.push(GlobalEntry { name: n.clone(), val: v, module: 0, size: 64, tls: LLVMIsThreadLocal(v) != 0, konst: false, ext: true });
                let i = self.globs.len() as u32;
                self.gext.insert(n, i);
                return i;
            }
            if let Some(i) = self.gmap.get(&(v as usize)) { return *i; }
            let module = self.module_of(v);
            let size = LLVMABISizeOfType(self.mods[module].1, LLVMGlobalGetValueType(v));
            self.globs.push(GlobalEntry { name: name_of(v), val: v, module, size, tls: LLVMIsThreadLocal(v) != 0, konst: LLVMIsGlobalConstant(v) != 0, ext: false });
            let i = self.globs.len() as u32;
            self.gmap.insert(v as usize, i);
            i
        }
    }
    /// address of a global symbol (function or variable)
    pub fn sym_addr(&mut self, v: Value) -> u64 {
        unsafe {
            let v = self.resolve(v);
            if !LLVMIsAFunction(v).is_null() { return self.fn_addr(v); }
            if !LLVMIsAGlobalVariable(v).is_null() { return (self.glob_for(v) as u64) << SHIFT; }
            // alias to constant expression
            if let Val::C(a) = self.konst(v, 0) { return a; }
            panic!("sym_addr {}", print(v))
        }
    }

    /// Address of the global variable with this demangled name, local symbols included.
    pub fn global_by_name(&mut self, short: &str) -> Option<u64> {
        let vs: Vec<usize> = self.vmod.keys().copied().collect();
        let v = vs.into_iter().find(|v| unsafe { !LLVMIsAGlobalVariable(*v as Value).is_null() } && demangle(&name_of(*v as Value)).ends_with(short))?;
        Some(self.sym_addr(v as Value))
    }
    pub fn ty(&mut self, t: Type, m: usize) -> Ty {
        if let Some(x) = self.tycache.get(&(t as usize)) { return x.clone(); }
        let td = self.mods[m].1;
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                TK_VOID => Ty::Void,
                TK_INT => Ty::Int(LLVMGetIntTypeWidth(t) as u16),
                TK_FLOAT => Ty::F32,
                TK_DOUBLE => Ty::F64,
                TK_POINTER => Ty::Ptr,
                TK_VECTOR => { let e = self.ty(LLVMGetElementType(t), m); Ty::Vec(LLVMGetVectorSize(t), Rc::new(e)) }
                TK_ARRAY => {
                    let et = LLVMGetElementType(t);
                    let e = self.ty(et, m);
                    Ty::Arr(LLVMGetArrayLength2(t), Rc::new(e), LLVMABISizeOfType(td, et))
                }
                TK_STRUCT => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut f = vec![];
                    for i in 0..n {
                        let e = self.ty(LLVMStructGetTypeAtIndex(t, i), m);
                        f.push((e, LLVMOffsetOfElement(td, t, i)));
                    }
                    Ty::Struct(Rc::new(f), LLVMABISizeOfType(td, t))
                }
                _ => Ty::Other,
            }
        };
        self.tycache.insert(t as usize, r.clone());
        r
    }

    /// Evaluate a constant.
    pub fn konst(&mut self, v: Value, m: usize) -> Val {
        unsafe {
            let t = LLVMTypeOf(v);
            if !LLVMIsAConstantInt(v).is_null() {
                let w = LLVMGetIntTypeWidth(t) as u16;
                if w <= 64 { return Val::C(LLVMConstIntGetZExtValue(v) & m64(w)); }
                let s = print(v);
                let n = s.rsplit(' ').next().unwrap();
                let x = if let Ok(x) = n.parse::<u128>() { x } else { n.parse::<i128>().unwrap_or_else(|_| panic!("const {}", s)) as u128 };
                return Val::W(Rc::new(x & crate::expr::mask(w)));
            }
            if !LLVMIsAConstantFP(v).is_null() {
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                return Val::C(if LLVMGetTypeKind(t) == TK_FLOAT { (d as f32).to_bits() as u64 } else { d.to_bits() });
            }
            if !LLVMIsAConstantPointerNull(v).is_null() { return Val::C(0); }
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() { return self.ty(t, m).zero(); }
            if !LLVMIsAFunction(v).is_null() || !LLVMIsAGlobalVariable(v).is_null() {
                return Val::C(self.sym_addr(v));
            }
            if !LLVMIsAGlobalAlias(v).is_null() {
                let a = self.resolve(v);
                return if a == v { Val::C(0) } else { self.konst(a, m) };
            }
            if !LLVMIsAConstantStruct(v).is_null() || !LLVMIsAConstantArray(v).is_null() || !LLVMIsAConstantVector(v).is_null() {
                let n = LLVMGetNumOperands(v);
                let mut r = vec![];
                for i in 0..n { r.push(self.konst(LLVMGetOperand(v, i as u32), m)); }
                return Val::A(Rc::new(r));
            }
            if !LLVMIsAConstantDataSequential(v).is_null() {
                let ty = self.ty(t, m);
                let (n, et) = match &ty { Ty::Vec(n, t) => (*n as u64, t.clone()), Ty::Arr(n, t, _) => (*n, t.clone()), _ => panic!() };
                let mut len = 0usize;
                let p = LLVMGetRawDataValues(v, &mut len);
                let raw = std::slice::from_raw_parts(p as *const u8, len);
                let es = et.size() as usize;
                let mut r = Vec::with_capacity(n as usize);
                for i in 0..n as usize {
                    let mut b = [0u8; 8];
                    b[..es].copy_from_slice(&raw[i * es..(i + 1) * es]);
                    r.push(Val::C(u64::from_le_bytes(b)));
                }
                return Val::A(Rc::new(r));
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                let mut o = vec![];
                for i in 0..LLVMGetNumOperands(v) { let x = self.konst(LLVMGetOperand(v, i as u32), m); o.push(x); }
                let c = |i: usize| -> u64 { if let Val::C(c) = &o[i] { *c } else { panic!("constexpr {}", print(v)) } };
                return match op {
                    29 => {
                        let (off, terms) = self.gep_parts(v, m);
                        let mut a = c(0).wrapping_add(off);
                        for (x, w, s) in terms {
                            if let Op::K(Val::C(k)) = x { a = a.wrapping_add((crate::expr::sx(k as u128, w) as u64).wrapping_mul(s)); } else { panic!() }
                        }
                        Val::C(a)
                    }
                    39 | 40 | 41 | 60 | 69 => { if matches!(o[0], Val::A(_)) { o[0].clone() } else { Val::C(c(0) & m64(self.ty(t, m).bits())) } }
                    30 => Val::C(c(0) & m64(self.ty(t, m).bits())),
                    8 => Val::C(c(0).wrapping_add(c(1)) & m64(self.ty(t, m).bits())),
                    10 => Val::C(c(0).wrapping_sub(c(1)) & m64(self.ty(t, m).bits())),
                    25 => Val::C(c(0) ^ c(1)),
                    _ => panic!("constexpr op {}: {}", op, print(v)),
                };
            }
            let s = print(v);
            if s.contains("poison") || s.contains("undef") || s.contains("zeroinitializer") || s.contains("none") { return self.ty(t, m).zero(); }
            if s.contains("dso_local_equivalent") || s.contains("no_cfi") { let x = LLVMGetOperand(v, 0); return self.konst(x, m); }
            panic!("constant {}", s)
        }
    }
    fn gep_parts(&mut self, v: Value, m: usize) -> (u64, Vec<(Op, u16, u64)>) {
        unsafe {
            let td = self.mods[m].1;
            let mut t = LLVMGetGEPSourceElementType(v);
            let n = LLVMGetNumOperands(v);
            let mut off = 0u64;
            let mut terms = vec![];
            for i in 1..n {
                let ix = LLVMGetOperand(v, i as u32);
                let step;
                if i == 1 { step = LLVMABISizeOfType(td, t); } else {
                    match LLVMGetTypeKind(t) {
                        TK_STRUCT => {
                            let k = LLVMConstIntGetZExtValue(ix) as u32;
                            off = off.wrapping_add(LLVMOffsetOfElement(td, t, k));
                            t = LLVMStructGetTypeAtIndex(t, k);
                            continue;
                        }
                        _ => { t = LLVMGetElementType(t); step = LLVMABISizeOfType(td, t); }
                    }
                }
                if !LLVMIsAConstantInt(ix).is_null() {
                    let w = LLVMGetIntTypeWidth(LLVMTypeOf(ix)) as u16;
                    let k = crate::expr::sx(LLVMConstIntGetZExtValue(ix) as u128, w) as u64;
                    off = off.wrapping_add(k.wrapping_mul(step));
                } else {
                    let w = self.ty(LLVMTypeOf(ix), m);
                    if let Ty::Int(w) = w { terms.push((Op::K(Val::C(ix as u64)), w, step)) } else { terms.push((Op::K(Val::C(ix as u64)), 9999, step)) }
                }
            }
            // fix up operands
            let mut out = vec![];
            for (o, w, s) in terms {
                if let Op::K(Val::C(ix)) = o {
                    let ix = ix as Value;
                    if LLVMIsConstant(ix) != 0 { let k = self.konst(ix, m); out.push((Op::K(k), w, s)); } else { out.push((Op::R(0), w, s)); TMP.with(|t| t.borrow_mut().push(ix as usize)); }
                }
            }
            (off, out)
        }
    }

    /// Flatten a constant into bytes.
    pub fn bytes_of(&mut self, v: &Val, ty: &Ty, out: &mut [u8]) {
        match (ty, v) {
            (Ty::Void | Ty::Other, _) => {}
            (Ty::Vec(n, t), Val::A(a)) => { let s = t.size() as usize; for i in 0..*n as usize { self.bytes_of(&a[i], t, &mut out[i * s..(i + 1) * s]); } }
            (Ty::Arr(n, t, es), Val::A(a)) => { let (s, z) = (*es as usize, t.size() as usize); for i in 0..*n as usize { self.bytes_of(&a[i], t, &mut out[i * s..i * s + z]); } }
            (Ty::Struct(f, _), Val::A(a)) => { for (i, (t, o)) in f.iter().enumerate() { let z = t.size() as usize; self.bytes_of(&a[i], t, &mut out[*o as usize..*o as usize + z]); } }
            (t, Val::C(c)) => { let z = t.size() as usize; out[..z].copy_from_slice(&c.to_le_bytes()[..z]); }
            (t, Val::W(c)) => { let z = t.size() as usize; out[..z].copy_from_slice(&c.to_le_bytes()[..z]); }
            _ => panic!("bytes_of {:?} {:?}", ty, v),
        }
    }
    pub fn glob_bytes(&mut self, gi: usize) -> Vec<u8> {
        let (val, m, size, ext) = { let g = &self.globs[gi]; (g.val, g.module, g.size, g.ext) };
        let mut out = vec![0u8; size as usize];
        if ext { return out; }
        unsafe {
            let init = LLVMGetInitializer(val);
            let t = LLVMGlobalGetValueType(val);
            let ty = self.ty(t, m);
            let k = self.konst(init, m);
            self.bytes_of(&k, &ty, &mut out);
        }
        out
    }

    /// target of entry at byte offset `off` of a relative lookup table
    pub fn rel_target(&mut self, gi: usize, off: u64) -> Option<u64> {
        unsafe {
            let (val, m) = (self.globs[gi].val, self.globs[gi].module);
            let mut v = LLVMGetInitializer(val);
            v = LLVMGetOperand(v, (off / 4) as u32);
            for _ in 0..6 {
                if !LLVMIsAFunction(v).is_null() || !LLVMIsAGlobalVariable(v).is_null() || !LLVMIsAGlobalAlias(v).is_null() { break; }
                if LLVMIsAConstantExpr(v).is_null() { return None; }
                if LLVMGetConstOpcode(v) == 29 { break; }
                v = LLVMGetOperand(v, 0);
            }
            if let Val::C(a) = self.konst(v, m) { Some(a) } else { None }
        }
    }
    pub fn body(&mut self, fi: u32) -> Rc<Func> {
        if let Some(b) = &self.fns[fi as usize].body { return b.clone(); }
        let v = self.fns[fi as usize].val;
        let m = self.fns[fi as usize].module;
        let f = Rc::new(Tr { p: self, m, regs: FxMap::default(), nregs: 0 }.func(fi, v));
        self.fns[fi as usize].body = Some(f.clone());
        f
    }
}
thread_local! { static TMP: std::cell::RefCell<Vec<usize>> = std::cell::RefCell::new(vec![]); }

struct Tr<'a> { p: &'a mut Program, m: usize, regs: FxMap<usize, u32>, nregs: u32 }

impl<'a> Tr<'a> {
    fn reg(&mut self, v: Value) -> u32 {
        if let Some(r) = self.regs.get(&(v as usize)) { return *r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(v as usize, r);
        r
    }
    fn op(&mut self, v: Value) -> Op {
        unsafe {
            if !LLVMIsAArgument(v).is_null() || !LLVMIsAInstruction(v).is_null() { return Op::R(self.reg(v)); }
            if LLVMIsConstant(v) != 0 { return Op::K(self.p.konst(v, self.m)); }
            let t = LLVMGetTypeKind(LLVMTypeOf(v));
            if t == TK_METADATA || t == TK_TOKEN { return Op::K(Val::C(0)); }
            panic!("operand {}", print(v))
        }
    }
    fn vty(&mut self, v: Value) -> Ty { unsafe { self.p.ty(LLVMTypeOf(v), self.m) } }
    fn target(&mut self, from: Block, to: Block, fix: &mut Vec<usize>) -> Target {
        // pc is patched later: store block pointer index in fix
        unsafe {
            let mut moves = vec![];
            let mut i = LLVMGetFirstInstruction(to);
            while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
                for k in 0..LLVMCountIncoming(i) {
                    if LLVMGetIncomingBlock(i, k) == from {
                        let d = self.reg(i);
                        let o = self.op(LLVMGetIncomingValue(i, k));
                        moves.push((d, o));
                        break;
                    }
                }
                i = LLVMGetNextInstruction(i);
            }
            fix.push(to as usize);
            Target { pc: (fix.len() - 1) as u32, moves }
        }
    }
    fn func(mut self, fi: u32, f: Value) -> Func {
        unsafe {
            let na = LLVMCountParams(f);
            for i in 0..na { self.reg(LLVMGetParam(f, i)); }
            let mut code: Vec<I> = vec![];
            let mut fix: Vec<usize> = vec![];
            let mut bpc: FxMap<usize, u32> = FxMap::default();
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                bpc.insert(b as usize, code.len() as u32);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    let opc = LLVMGetInstructionOpcode(i);
                    if opc != 44 { self.inst(b, i, opc, &mut code, &mut fix); }
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let pcs: Vec<u32> = fix.iter().map(|b| bpc[b]).collect();
            for i in code.iter_mut() {
                match i {
                    I::Br(t) => t.pc = pcs[t.pc as usize],
                    I::CondBr { t, f, .. } => { t.pc = pcs[t.pc as usize]; f.pc = pcs[f.pc as usize]; }
                    I::Switch { targets, .. } => for t in targets { t.pc = pcs[t.pc as usize] },
                    _ => {}
                }
            }
            Func { id: fi, nregs: self.nregs, nargs: na, code, entry: 0 }
        }
    }
    fn inst(&mut self, b: Block, i: Value, opc: i32, code: &mut Vec<I>, fix: &mut Vec<usize>) {
        use crate::expr::B;
        unsafe {
            let o = |s: &mut Self, k: u32| { let v = LLVMGetOperand(i, k); s.op(v) };
            let ot = |s: &mut Self, k: u32| { let v = LLVMGetOperand(i, k); s.vty(v) };
            let ins = match opc {
                1 => if LLVMGetNumOperands(i) > 0 { I::Ret(Some(o(self, 0))) } else { I::Ret(None) },
                2 | 70 | 71 | 72 => {
                    if LLVMGetNumSuccessors(i) == 2 {
                        let c = LLVMGetCondition(i);
                        let c = self.op(c);
                        let t = self.target(b, LLVMGetSuccessor(i, 0), fix);
                        let f = self.target(b, LLVMGetSuccessor(i, 1), fix);
                        I::CondBr { c, t, f }
                    } else { let t = self.target(b, LLVMGetSuccessor(i, 0), fix); I::Br(t) }
                }
                3 => {
                    let cv = LLVMGetOperand(i, 0);
                    let v = self.op(cv);
                    let w = self.vty(cv).bits();
                    let ns = LLVMGetNumSuccessors(i);
                    let mut targets = vec![];
                    let mut tm: FxMap<usize, u32> = FxMap::default();
                    let d = LLVMGetSuccessor(i, 0);
                    targets.push(self.target(b, d, fix));
                    tm.insert(d as usize, 0);
                    let mut cases = vec![];
                    // operand layout: cond, default, (value, block)*  or values via successor case list
                    let s = print(i);
                    let vals = parse_switch(&s);
                    assert_eq!(vals.len(), ns as usize - 1, "switch parse {}", s);
                    for k in 1..ns {
                        let sb = LLVMGetSuccessor(i, k);
                        let ti = if let Some(t) = tm.get(&(sb as usize)) { *t } else {
                            let t = self.target(b, sb, fix);
                            targets.push(t);
                            tm.insert(sb as usize, targets.len() as u32 - 1);
                            targets.len() as u32 - 1
                        };
                        cases.push((vals[k as usize - 1] as u64 & m64(w), ti));
                    }
                    if w > 64 { I::Bad(format!("wide switch {}", s)) } else { I::Switch { v, w, cases, targets } }
                }
                5 => {
                    // invoke: call, then normal destination
                    self.call(i, code, true);
                    let t = self.target(b, LLVMGetSuccessor(i, 0), fix);
                    I::Br(t)
                }
                7 => I::Unreachable,
                8 | 10 | 12 | 14 | 15 | 17 | 18 | 20 | 21 | 22 | 23 | 24 | 25 => {
                    let ty = self.vty(i);
                    let op = match opc { 8 => B::Add, 10 => B::Sub, 12 => B::Mul, 14 => B::UDiv, 15 => B::SDiv, 17 => B::URem, 18 => B::SRem, 20 => B::Shl, 21 => B::LShr, 22 => B::AShr, 23 => B::And, 24 => B::Or, _ => B::Xor };
                    I::Bin { op, w: ty.scalar().bits(), n: ty.lanes(), a: o(self, 0), b: o(self, 1), d: self.reg(i) }
                }
                9 | 11 | 13 | 16 | 19 => {
                    let ty = self.vty(i);
                    let op = match opc { 9 => FOp::Add, 11 => FOp::Sub, 13 => FOp::Mul, 16 => FOp::Div, _ => FOp::Rem };
                    I::FBin { op, w: ty.scalar().bits(), n: ty.lanes(), a: o(self, 0), b: o(self, 1), d: self.reg(i) }
                }
                66 => { let ty = self.vty(i); I::FNeg { w: ty.scalar().bits(), n: ty.lanes(), a: o(self, 0), d: self.reg(i) } }
                26 => {
                    let t = LLVMGetAllocatedType(i);
                    let size = LLVMABISizeOfType(self.p.mods[self.m].1, t);
                    let n = LLVMGetOperand(i, 0);
                    let n = if !LLVMIsAConstantInt(n).is_null() { let k = LLVMConstIntGetZExtValue(n); if k == 1 { None } else { Some((Op::K(Val::C(k)), 64)) } } else { let w = self.vty(n).bits(); Some((self.op(n), w)) };
                    I::Alloca { d: self.reg(i), size, n }
                }
                27 => { let ty = self.vty(i); I::Load { ty, p: o(self, 0), d: self.reg(i) } }
                28 => { let ty = ot(self, 0); I::Store { ty, v: o(self, 0), p: o(self, 1) } }
                29 => {
                    let ty = self.vty(i);
                    if ty.lanes() > 0 { I::Bad("vector gep".into()) } else {
                        TMP.with(|t| t.borrow_mut().clear());
                        let (off, mut terms) = self.p.gep_parts(i, self.m);
                        let t: Vec<usize> = TMP.with(|t| t.borrow_mut().drain(..).collect());
                        let mut it = t.into_iter();
                        for x in terms.iter_mut() { if let Op::R(_) = x.0 { let v = it.next().unwrap(); x.0 = self.op(v as Value); } }
                        I::Gep { base: o(self, 0), off, terms, d: self.reg(i) }
                    }
                }
                30..=41 | 60 | 69 => {
                    let (from, to) = (ot(self, 0), self.vty(i));
                    let k = match opc { 30 => Cast::Trunc, 31 => Cast::ZExt, 32 => Cast::SExt, 33 => Cast::FpToUi, 34 => Cast::FpToSi, 35 => Cast::UiToFp, 36 => Cast::SiToFp, 37 => Cast::FpTrunc, 38 => Cast::FpExt, 41 => Cast::Bitcast,
                        _ => if from.scalar().bits() == to.scalar().bits() { Cast::Nop } else if from.scalar().bits() > to.scalar().bits() { Cast::Trunc } else { Cast::ZExt } };
                    I::Cast { k, from, to, a: o(self, 0), d: self.reg(i) }
                }
                42 => { let ty = ot(self, 0); I::ICmp { p: LLVMGetICmpPredicate(i), w: ty.scalar().bits(), n: ty.lanes(), a: o(self, 0), b: o(self, 1), d: self.reg(i) } }
                43 => { let ty = ot(self, 0); I::FCmp { p: LLVMGetFCmpPredicate(i), w: ty.scalar().bits(), n: ty.lanes(), a: o(self, 0), b: o(self, 1), d: self.reg(i) } }
                45 => { self.call(i, code, false); return; }
                46 => { let ty = self.vty(i); let cn = ot(self, 0).lanes(); I::Select { ty, cn, c: o(self, 0), a: o(self, 1), b: o(self, 2), d: self.reg(i) } }
                50 => I::ExtractElement { a: o(self, 0), i: o(self, 1), d: self.reg(i) },
                51 => I::InsertElement { a: o(self, 0), v: o(self, 1), i: o(self, 2), d: self.reg(i) },
                52 => {
                    let n = LLVMGetNumMaskElements(i);
                    let mask = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                    let et = self.vty(i).scalar().clone();
                    I::Shuffle { a: o(self, 0), b: o(self, 1), mask, et, d: self.reg(i) }
                }
                53 => { let n = LLVMGetNumIndices(i); let p = LLVMGetIndices(i); I::ExtractValue { a: o(self, 0), idx: (0..n).map(|k| *p.add(k as usize)).collect(), d: self.reg(i) } }
                54 => { let n = LLVMGetNumIndices(i); let p = LLVMGetIndices(i); let ty = self.vty(i); I::InsertValue { a: o(self, 0), v: o(self, 1), idx: (0..n).map(|k| *p.add(k as usize)).collect(), ty, d: self.reg(i) } }
                55 => return,
                56 => { let ty = ot(self, 1); I::CmpXchg { ty, p: o(self, 0), c: o(self, 1), n: o(self, 2), d: self.reg(i) } }
                57 => { let ty = ot(self, 1); I::Rmw { op: LLVMGetAtomicRMWBinOp(i), ty, p: o(self, 0), v: o(self, 1), d: self.reg(i) } }
                68 => I::Freeze { a: o(self, 0), d: self.reg(i) },
                58 => I::Bad("resume".into()),
                59 => { self.reg(i); I::Bad("landingpad".into()) }
                _ => { self.reg(i); I::Bad(format!("opcode {} {}", opc, print(i))) }
            };
            code.push(ins);
        }
    }
    fn call(&mut self, i: Value, code: &mut Vec<I>, _invoke: bool) {
        unsafe {
            let cv = LLVMGetCalledValue(i);
            let na = LLVMGetNumArgOperands(i);
            let ret = self.vty(i);
            let isfn = !LLVMIsAFunction(cv).is_null();
            let name = if isfn { name_of(cv) } else { String::new() };
            if isfn && name.starts_with("llvm.") {
                const SKIP: [&str; 9] = ["llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias", "llvm.donothing", "llvm.invariant.", "llvm.var.annotation", "llvm.prefetch", "llvm.fake.use"];
                if SKIP.iter().any(|s| name.starts_with(s)) { return; }
            }
            let mut args = vec![];
            let mut tys = vec![];
            for k in 0..na { let v = LLVMGetOperand(i, k); args.push(self.op(v)); tys.push(self.vty(v)); }
            let d = if ret == Ty::Void { u32::MAX } else { self.reg(i) };
            if !LLVMIsAInlineAsm(cv).is_null() {
                let mut n = 0usize;
                let p = LLVMGetInlineAsmAsmString(cv, &mut n);
                let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned();
                code.push(I::Asm { d, s: s.into(), args, ret });
                return;
            }
            if isfn && name.starts_with("llvm.") {
                code.push(I::Intr { d, name: name.into(), args, tys, ret });
                return;
            }
            let f = if isfn { Callee::F(self.p.fn_for(cv)) } else { 
                let a = if !LLVMIsAGlobalAlias(cv).is_null() { Op::K(Val::C(self.p.sym_addr(cv))) } else { self.op(cv) };
                Callee::Ind(a) };
            code.push(I::Call { d, f, args, tys, ret });
        }
    }
}

fn parse_switch(s: &str) -> Vec<i128> {
    // "switch i8 %x, label %d [\n    i8 1, label %a\n ... ]"
    let mut v = vec![];
    if let Some(p) = s.find('[') {
        for line in s[p + 1..].lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with(']') { continue; }
            let mut it = line.split(|c: char| c == ' ' || c == ',');
            let _t = it.next();
            if let Some(x) = it.next() {
                v.push(match x { "true" => 1, "false" => 0, _ => x.parse::<i128>().unwrap_or_else(|_| panic!("switch {}", line)) });
            }
        }
    }
    v
}

/// Crude v0 / legacy demangler: joins the path identifiers, good enough for matching and reports.
pub fn demangle(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_R") {
        let b = r.as_bytes();
        let mut out: Vec<String> = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b's' || b[i] == b'B' {
                // disambiguator / backref: base-62 number up to '_'
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric()) { j += 1; }
                if j < b.len() && b[j] == b'_' && j - i < 14 && !(i + 1 < b.len() && b[i] == b's' && false) {
                    // avoid swallowing identifiers: an identifier length digit followed by its text would exceed
                    let digits = &r[i + 1..j];
                    if digits.len() <= 12 { i = j + 1; continue; }
                }
                i += 1;
                continue;
            }
            if b[i].is_ascii_digit() {
                let mut j = i;
                while j < b.len() && b[j].is_ascii_digit() { j += 1; }
                let len: usize = r[i..j].parse().unwrap_or(0);
                let mut st = j;
                if len > 0 && st < b.len() && b[st] == b'_' { st += 1; }
                if len > 0 && st + len <= b.len() { out.push(r[st..st + len].to_string()); i = st + len; continue; }
                i = j;
                continue;
            }
            i += 1;
        }
        return out.join("::");
    }
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut out: Vec<String> = vec![];
        let mut i = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let len: usize = r[i..j].parse().unwrap_or(0);
            if j + len > b.len() { break; }
            out.push(r[j..j + len].to_string());
            i = j + len;
        }
        return out.join("::");
    }
    n.to_string()
}
