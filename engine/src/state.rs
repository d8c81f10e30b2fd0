//! Execution state: memory objects, threads, path condition.
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<Vec<E>>>, // 0 = concrete byte, else expr id + 1 of an 8-bit expression
    pub ro: bool,
}
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None, ro: false } }
    #[inline]
    pub fn is_conc(&self, o: usize, n: usize) -> bool {
        match &self.sym { None => true, Some(s) => s[o..o + n].iter().all(|x| *x == 0) }
    }
    pub fn byte(&self, o: usize) -> E {
        if let Some(s) = &self.sym { if s[o] != 0 { return s[o] - 1; } }
        konst(self.data[o] as u128, 8)
    }
    pub fn set_byte(&mut self, o: usize, e: E) {
        if let Some(c) = cval(e) {
            self.data[o] = c as u8;
            if let Some(s) = &mut self.sym { s[o] = 0; }
        } else {
            let n = self.data.len();
            self.sym.get_or_insert_with(|| Box::new(vec![0; n]))[o] = e + 1;
        }
    }
}

const CH: usize = 64;
#[derive(Clone, Default)]
pub struct PVec { ch: Vec<Option<Rc<Vec<Option<Rc<Obj>>>>>> }
impl PVec {
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        match self.ch.get(i / CH) { Some(Some(c)) => c[i % CH].as_ref(), _ => None }
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Rc<Obj>> {
        match self.ch.get_mut(i / CH) { Some(Some(c)) => Rc::make_mut(c)[i % CH].as_mut(), _ => None }
    }
    pub fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        let c = i / CH;
        while self.ch.len() <= c { self.ch.push(None); }
        if self.ch[c].is_none() {
            if o.is_none() { return; }
            self.ch[c] = Some(Rc::new(vec![None; CH]));
        }
        let none = o.is_none();
        let r = Rc::make_mut(self.ch[c].as_mut().unwrap());
        r[i % CH] = o;
        if none && r.iter().all(|x| x.is_none()) { self.ch[c] = None; }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub ret: u32,
    pub sp: u32, // stack object index at entry
}

#[derive(Clone, PartialEq, Debug)]
pub enum TStat { Run, Futex(u64), Block(u32), Sleep(u64), Done }

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub stack: Vec<Option<Rc<Obj>>>,
    pub tls: Vec<(u32, u64)>,
    pub stat: TStat,
    pub retval: u64,
    pub specific: Vec<(u64, u64)>,
    pub pid: u32,
    pub deadline: Option<u64>,
    pub timed_out: bool,
    pub woken: bool,
}
impl Thread {
    pub fn new() -> Thread { Thread { frames: vec![], stack: vec![], tls: vec![], stat: TStat::Run, retval: 0, specific: vec![], pid: 1, deadline: None, timed_out: false, woken: false } }
}

#[derive(Clone)]
pub struct LogEnt { pub name: Rc<str>, pub e: E }

#[derive(Clone)]
pub struct State {
    pub heap: PVec,
    pub next_heap: u64,
    pub globs: PVec,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub known: Rc<FxMap<E, bool>>,
    pub conc: Rc<FxMap<E, u128>>,
    pub model: Rc<Model>,
    pub log: Vec<LogEnt>,
    pub obs: Vec<(Rc<str>, Val)>,
    pub instrs: u64,
    pub forks: u32,
    pub conc_run: (E, u32),
    pub flags: FxMap<u32, u64>,
    pub os: crate::posix::Os,
    pub trail: Vec<Rc<str>>,
}

#[derive(Debug)]
pub enum Exc {
    Fork(E),
    Conc(E),
    Done,
    Kill,
    Viol(String, String), // kind/label, detail
    Unsup(String),
    Again,     // instruction handled, pc must not advance (frame pushed or thread switched)
    Block,     // current thread blocked; reschedule and retry the same instruction
}
pub type R<T> = Result<T, Exc>;

#[inline] pub fn ex(v: &Val, w: u16) -> E {
    match v {
        Val::C(c) => konst(*c as u128, w),
        Val::S(e) => { let ew = width(*e); if ew == w { *e } else if ew > w { extract(*e, 0, w) } else { zext(*e, w) } }
        Val::W(x) => konst(**x, w),
        Val::A(a) => {
            // vector -> integer: lanes little endian
            let n = a.len() as u16;
            let lw = w / n;
            let mut r = ex(&a[0], lw);
            for x in &a[1..] { r = cat(ex(x, lw), r); }
            r
        }
    }
}
#[inline] pub fn from(e: E) -> Val {
    match kind(e) {
        K::Const(c) => if width(e) > 64 { Val::W(Rc::new(c)) } else { Val::C(c as u64) },
        _ => Val::S(e),
    }
}
pub fn w128(v: &Val) -> Option<u128> { match v { Val::C(c) => Some(*c as u128), Val::W(x) => Some(**x), _ => None } }
pub fn mkc(v: u128, w: u16) -> Val { if w > 64 { Val::W(Rc::new(v & mask(w))) } else { Val::C(v as u64 & m64(w)) } }
