//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use crate::state::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Host = fn(&mut Exec, &mut State, &[Val]) -> R<Val>;

#[derive(Clone)]
pub struct Violation { pub kind: String, pub detail: String, pub values: Vec<(String, u16, u128)>, pub trace: Vec<String>, pub trail: Vec<String> }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub killed: u64, pub instrs: u64, pub forks: u64, pub trivial_checks: u64, pub checks: u64,
    pub covers: BTreeMap<String, u64>, pub labels: BTreeMap<String, u64>, pub unsup: BTreeMap<String, u64>, pub viols: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub inconclusive: u64,
    pub max_depth: u64,
}
#[derive(Clone)]
pub struct Sample { pub values: Vec<(String, u16, u128)>, pub obs: Vec<(String, u64)> }

pub struct Exec {
    pub p: Program,
    pub solver: Solver,
    pub stats: Stats,
    pub work: Vec<State>,
    pub templates: Vec<Option<Rc<Obj>>>,
    pub hosts: FxMap<String, Host>,
    pub host_list: Vec<Host>,
    pub redirects: Vec<(String, String)>,
    pub max_instrs: u64,
    pub deadline: std::time::Instant,
    pub known_labels: Vec<String>,
    pub entry: String,
    pub verbose: bool,
    pub stop: bool,
    pub nsamples: usize,
    pub path_ix: u64,
    pub shared: Option<&'static crate::Shared>,
    pub children: Vec<i32>,
    pub kill_msg: BTreeMap<String, u64>,
    pub trace: bool,
    pub calls: bool,
    /// recorded values to replay instead of symbolic ones
    pub forced: FxMap<String, Vec<u128>>,
    /// follow only the path of these recorded values (debugging)
    pub follow: FxMap<String, Vec<u128>>,
    pub tracev: Option<std::fs::File>,
    pub timed_out: bool,
    pub started: std::time::Instant,
    pub forked: bool,
    pub out: String,
    pub entry_ix: usize,
}

impl Exec {
    // ---------------------------------------------------------------- memory
    fn template(&mut self, gi: usize) -> Rc<Obj> {
        while self.templates.len() <= gi { self.templates.push(None); }
        if let Some(t) = &self.templates[gi] { return t.clone(); }
        let data = self.p.glob_bytes(gi);
        let ro = self.p.globs[gi].konst;
        let o = Rc::new(Obj { data, sym: None, ro });
        self.templates[gi] = Some(o.clone());
        o
    }
    pub fn obj<'a>(&mut self, st: &'a mut State, addr: u64) -> R<(&'a Rc<Obj>, usize)> {
        let id = addr >> SHIFT;
        let off = (addr & ((1 << SHIFT) - 1)) as usize;
        if id >= STACK0 {
            let s = id - STACK0;
            let (t, d) = ((s >> 20) as usize, (s & 0xfffff) as usize);
            if let Some(th) = st.threads.get(t) { if let Some(Some(o)) = th.stack.get(d) { return Ok((o, off)); } }
            return Err(Exc::Viol("memory".into(), format!("bad stack address {:#x}", addr)));
        }
        if id >= HEAP0 {
            if let Some(o) = st.heap.get((id - HEAP0) as usize) { return Ok((o, off)); }
            return Err(Exc::Viol("memory".into(), format!("use of freed or unallocated heap address {:#x}", addr)));
        }
        if id == 0 || id > self.p.globs.len() as u64 { return Err(Exc::Viol("memory".into(), format!("bad address {:#x}", addr))); }
        let gi = id as usize - 1;
        if st.globs.get(gi).is_none() { let t = self.template(gi); st.globs.set(gi, Some(t)); }
        Ok((st.globs.get(gi).unwrap(), off))
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> R<(&'a mut Obj, usize)> {
        let id = addr >> SHIFT;
        let off = (addr & ((1 << SHIFT) - 1)) as usize;
        if id >= STACK0 {
            let s = id - STACK0;
            let (t, d) = ((s >> 20) as usize, (s & 0xfffff) as usize);
            if let Some(th) = st.threads.get_mut(t) { if let Some(Some(o)) = th.stack.get_mut(d) { return Ok((Rc::make_mut(o), off)); } }
            return Err(Exc::Viol("memory".into(), format!("bad stack address {:#x}", addr)));
        }
        if id >= HEAP0 {
            if let Some(o) = st.heap.get_mut((id - HEAP0) as usize) { return Ok((Rc::make_mut(o), off)); }
            return Err(Exc::Viol("memory".into(), format!("use of freed or unallocated heap address {:#x}", addr)));
        }
        if id == 0 || id > self.p.globs.len() as u64 { return Err(Exc::Viol("memory".into(), format!("bad address {:#x}", addr))); }
        let gi = id as usize - 1;
        if st.globs.get(gi).is_none() { let t = self.template(gi); st.globs.set(gi, Some(t)); }
        let o = Rc::make_mut(st.globs.get_mut(gi).unwrap());
        if o.ro { return Err(Exc::Viol("memory".into(), format!("write to constant {}", self.p.globs[gi].name))); }
        Ok((o, off))
    }
    pub fn alloc(&mut self, st: &mut State, n: u64) -> u64 {
        let id = st.next_heap;
        st.next_heap += 1;
        if n >= 1 << SHIFT { return 0; }
        st.heap.set(id as usize, Some(Rc::new(Obj::new(n as usize))));
        (id + HEAP0) << SHIFT
    }
    pub fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        let id = a >> SHIFT;
        if id < HEAP0 || id >= STACK0 || a & ((1 << SHIFT) - 1) != 0 || st.heap.get((id - HEAP0) as usize).is_none() {
            return Err(Exc::Viol("memory".into(), format!("bad free {:#x}", a)));
        }
        st.heap.set((id - HEAP0) as usize, None);
        Ok(())
    }
    fn oob(&self, o: &Obj, off: usize, n: usize, addr: u64, what: &str) -> Exc {
        Exc::Viol("memory".into(), format!("{} out of bounds at {:#x}: offset {} size {} object {}", what, addr, off, n, o.data.len()))
    }
    pub fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(f, _) => {
                let mut r = vec![];
                for (t, o) in f.iter() { r.push(self.load(st, addr + o, t)?); }
                return Ok(Val::A(Rc::new(r)));
            }
            Ty::Arr(n, t, es) => {
                let mut r = vec![];
                for i in 0..*n { r.push(self.load(st, addr + i * es, t)?); }
                return Ok(Val::A(Rc::new(r)));
            }
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 != 0 { 
                    let v = self.load(st, addr, &Ty::Int((*n as u16) * b))?;
                    return Ok(self.bitcast(&v, &Ty::Int((*n as u16) * b), ty));
                }
                let s = t.size();
                let mut r = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 { r.push(self.load(st, addr + i * s, t)?); }
                return Ok(Val::A(Rc::new(r)));
            }
            _ => {}
        }
        let n = ty.size() as usize;
        let w = ty.bits();
        let (o, off) = self.obj(st, addr)?;
        if off + n > o.data.len() { let o = o.clone(); return Err(self.oob(&o, off, n, addr, "read")); }
        if o.sym.is_none() || o.is_conc(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::C(u64::from_le_bytes(b) & m64(w)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(mkc(u128::from_le_bytes(b), w));
        }
        // fast path: consecutive extracts of one expression
        let b0 = o.byte(off);
        let mut e = b0;
        for i in 1..n { e = cat(o.byte(off + i), e); }
        if w as usize != n * 8 { e = extract(e, 0, w); }
        Ok(from(e))
    }
    pub fn store(&mut self, st: &mut State, addr: u64, v: &Val, ty: &Ty) -> R<()> {
        match (ty, v) {
            (Ty::Struct(f, _), Val::A(a)) => { for (i, (t, o)) in f.iter().enumerate() { self.store(st, addr + o, &a[i], t)?; } return Ok(()); }
            (Ty::Arr(_, t, es), Val::A(a)) => { for (i, x) in a.iter().enumerate() { self.store(st, addr + i as u64 * es, x, t)?; } return Ok(()); }
            (Ty::Vec(n, t), Val::A(a)) => {
                if t.bits() % 8 != 0 {
                    let it = Ty::Int((*n as u16) * t.bits());
                    let x = self.bitcast(v, ty, &it);
                    return self.store(st, addr, &x, &it);
                }
                let s = t.size();
                for (i, x) in a.iter().enumerate() { self.store(st, addr + i as u64 * s, x, t)?; }
                return Ok(());
            }
            _ => {}
        }
        let n = ty.size() as usize;
        let w = ty.bits();
        let (o, off) = self.obj_mut(st, addr)?;
        if off + n > o.data.len() { let o = o.clone(); return Err(self.oob(&o, off, n, addr, "write")); }
        match v {
            Val::C(c) => {
                if n <= 8 { o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]); } else {
                    o.data[off..off + n].fill(0);
                    o.data[off..off + 8].copy_from_slice(&c.to_le_bytes());
                }
                if let Some(s) = &mut o.sym { s[off..off + n].fill(0); }
            }
            Val::W(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym { s[off..off + n].fill(0); }
            }
            Val::S(e) => {
                let e = if (w as usize) < n * 8 { zext(*e, (n * 8) as u16) } else { *e };
                let e = if width(e) as usize != n * 8 { ex(&Val::S(e), (n * 8) as u16) } else { e };
                for i in 0..n { o.set_byte(off + i, extract(e, (i * 8) as u16, 8)); }
            }
            Val::A(_) => return Err(Exc::Unsup(format!("store of aggregate as {:?}", ty))),
        }
        Ok(())
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let n = n as usize;
        let (so, soff) = self.obj(st, src)?;
        if soff + n > so.data.len() { let o = so.clone(); return Err(self.oob(&o, soff, n, src, "copy from")); }
        let so = so.clone();
        let (d, doff) = self.obj_mut(st, dst)?;
        if doff + n > d.data.len() { let o = d.clone(); return Err(self.oob(&o, doff, n, dst, "copy to")); }
        d.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
        match &so.sym {
            Some(s) if s[soff..soff + n].iter().any(|x| *x != 0) => {
                let len = d.data.len();
                let ds = d.sym.get_or_insert_with(|| Box::new(vec![0; len]));
                ds[doff..doff + n].copy_from_slice(&s[soff..soff + n]);
            }
            _ => if let Some(ds) = &mut d.sym { ds[doff..doff + n].fill(0) },
        }
        Ok(())
    }
    pub fn fill(&mut self, st: &mut State, dst: u64, b: &Val, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let n = n as usize;
        let (d, doff) = self.obj_mut(st, dst)?;
        if doff + n > d.data.len() { let o = d.clone(); return Err(self.oob(&o, doff, n, dst, "memset")); }
        match b {
            Val::C(c) => { d.data[doff..doff + n].fill(*c as u8); if let Some(ds) = &mut d.sym { ds[doff..doff + n].fill(0) } }
            v => { let e = ex(v, 8); for i in 0..n { d.set_byte(doff + i, e); } }
        }
        Ok(())
    }
    /// read concrete bytes (symbolic bytes are concretised by forking)
    pub fn bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.obj(st, a)?;
        if off + n as usize > o.data.len() { let o = o.clone(); return Err(self.oob(&o, off, n as usize, a, "read")); }
        if o.is_conc(off, n as usize) { return Ok(o.data[off..off + n as usize].to_vec()); }
        let o = o.clone();
        let mut r = vec![];
        for i in 0..n as usize { let e = o.byte(off + i); r.push(self.conc(st, &from(e))? as u8); }
        Ok(r)
    }
    pub fn byte_exprs(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<E>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.obj(st, a)?;
        if off + n as usize > o.data.len() { let o = o.clone(); return Err(self.oob(&o, off, n as usize, a, "read")); }
        Ok((0..n as usize).map(|i| o.byte(off + i)).collect())
    }
    pub fn write_bytes(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let (o, off) = self.obj_mut(st, a)?;
        if off + b.len() > o.data.len() { let o = o.clone(); return Err(self.oob(&o, off, b.len(), a, "write")); }
        o.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = &mut o.sym { s[off..off + b.len()].fill(0); }
        Ok(())
    }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        loop {
            let b = self.bytes(st, a + r.len() as u64, 1)?[0];
            if b == 0 { return Ok(r); }
            r.push(b);
        }
    }
    pub fn string(&mut self, st: &mut State, a: u64, n: u64) -> R<String> {
        Ok(String::from_utf8_lossy(&self.bytes(st, a, n)?).into_owned())
    }
    pub fn w32(&mut self, st: &mut State, a: u64, v: u32) -> R<()> { self.write_bytes(st, a, &v.to_le_bytes()) }
    pub fn w64(&mut self, st: &mut State, a: u64, v: u64) -> R<()> { self.write_bytes(st, a, &v.to_le_bytes()) }
    pub fn r64(&mut self, st: &mut State, a: u64) -> R<u64> { let b = self.bytes(st, a, 8)?; Ok(u64::from_le_bytes(b.try_into().unwrap())) }
    pub fn r32(&mut self, st: &mut State, a: u64) -> R<u32> { let b = self.bytes(st, a, 4)?; Ok(u32::from_le_bytes(b.try_into().unwrap())) }

    // ---------------------------------------------------------------- symbolic decisions
    /// Truth of a 1-bit value; forks when undecided.
    pub fn decide(&mut self, st: &State, v: &Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(*c & 1 == 1),
            Val::S(e) => {
                if let Some(b) = st.known.get(e) { return Ok(*b); }
                Err(Exc::Fork(*e))
            }
            _ => Err(Exc::Unsup("decide".into())),
        }
    }
    /// Concrete value; forks over the possible values when symbolic.
    pub fn conc(&mut self, st: &State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                if let Some(c) = st.conc.get(e) { return Ok(*c as u64); }
                match kind(*e) {
                    K::Ite(c, a, b) => { return if self.decide(st, &Val::S(c))? { self.conc(st, &from(a)) } else { self.conc(st, &from(b)) }; }
                    K::Zext(x) => return self.conc(st, &from(x)),
                    _ => {}
                }
                if width(*e) == 1 { return Ok(self.decide(st, v)? as u64); }
                // base + f(x): concretise the symbolic part
                if let K::Bin(B::Add, x, k) = kind(*e) {
                    if let Some(k) = cval(k) {
                        let w = width(*e);
                        let c = self.conc(st, &from(x))?;
                        return Ok(c.wrapping_add(k as u64) & m64(w));
                    }
                }
                Err(Exc::Conc(*e))
            }
            _ => Err(Exc::Unsup("concretise aggregate".into())),
        }
    }
    pub fn add_pc(&mut self, st: &mut State, c: E) {
        if cval(c) == Some(1) { return; }
        if let K::Bin(B::And, a, b) = kind(c) {
            if width(c) == 1 { self.learn(st, c, true); self.add_pc(st, a); self.add_pc(st, b); return; }
        }
        self.learn(st, c, true);
        st.pc.push(c);
    }
    fn learn(&mut self, st: &mut State, c: E, v: bool) {
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, v);
        k.insert(not(c), !v);
        let (c, v) = if let K::Bin(B::Xor, x, o) = kind(c) { if cval(o) == Some(1) { (x, !v) } else { (c, v) } } else { (c, v) };
        if v {
            if let K::Cmp(C::Eq, a, b) = kind(c) {
                if let Some(x) = cval(b) { Rc::make_mut(&mut st.conc).insert(a, x); }
            }
        }
    }
    pub fn merge_model(&self, st: &State, vals: &[(u32, u128)]) -> Rc<Model> {
        let mut m = st.model.vals.clone();
        for (k, v) in vals { m.insert(*k, *v); }
        Model::new(m)
    }
    pub fn model_holds(&self, st: &State, m: &Model) -> bool { st.pc.iter().all(|e| m.eval(*e) == 1) }

    /// Fork on a condition: current state takes the side its model satisfies.
    fn do_fork(&mut self, st: &mut State, c: E) -> R<()> {
        let here = st.model.eval(c) == 1;
        if !self.follow.is_empty() { let m = if here { c } else { not(c) }; self.add_pc(st, m); return Ok(()); }
        let (mine, other) = if here { (c, not(c)) } else { (not(c), c) };
        match self.solver.feasible(Solver::slice(&st.pc, other), other, &st.model) {
            Sat::Unsat => { self.learn(st, mine, true); }
            Sat::Sat(vals) => {
                let m = self.merge_model(st, &vals);
                let mut o = st.clone();
                o.model = m;
                self.add_pc(&mut o, other);
                if cfg!(debug_assertions) || self.verbose {
                    if !self.model_holds(&o, &o.model) {
                        let bad: Vec<String> = o.pc.iter().filter(|e| o.model.eval(**e) != 1).map(|e| show(*e, 8)).collect();
                        return Err(Exc::Unsup(format!("model does not satisfy the path condition (evaluator mismatch): {:?}", bad)));
                    }
                }
                self.add_pc(st, mine);
                self.stats.forks += 1;
                st.forks += 1;
                o.forks += 1;
                self.work.push(o);
            }
            Sat::Unknown => {
                self.stats.inconclusive += 1;
                return Err(Exc::Unsup(format!("solver gave no answer on a branch: {}", show(other, 6))));
            }
        }
        Ok(())
    }
    /// Assertion query.
    pub fn check(&mut self, st: &mut State, c: &Val, label: &str, detail: &str) -> R<()> {
        self.stats.checks += 1;
        *self.stats.labels.entry(label.to_string()).or_default() += 1;
        let e = match c {
            Val::C(c) => {
                if *c & 1 == 1 { self.stats.trivial_checks += 1; return Ok(()); }
                return Err(Exc::Viol(label.into(), detail.into()));
            }
            v => ex(v, 1),
        };
        if st.known.get(&e) == Some(&true) { self.stats.trivial_checks += 1; return Ok(()); }
        let n = not(e);
        if !self.follow.is_empty() {
            if st.model.eval(e) == 1 { self.add_pc(st, e); return Ok(()); }
            return Err(Exc::Viol(label.into(), detail.into()));
        }
        self.solver.st.asserts += 1;
        match self.solver.check(Solver::slice(&st.pc, n), &st.model.clone()) {
            Sat::Unsat => { self.learn(st, e, true); Ok(()) }
            Sat::Sat(vals) => {
                let m = self.merge_model(st, &vals);
                if self.verbose {
                    eprintln!("violated {}: {}", label, show(e, 12));
                    for k in Solver::slice(&st.pc, n).iter().skip(1) { eprintln!("   pc {} = {}", show(*k, 12), m.eval(*k)); }
                }
                self.record(st, label, detail, &m);
                // continue on the passing side if there is one
                match self.solver.check(Solver::slice(&st.pc, e), &st.model.clone()) {
                    Sat::Sat(vals) => { st.model = self.merge_model(st, &vals); self.add_pc(st, e); Ok(()) }
                    _ => Err(Exc::Kill),
                }
            }
            Sat::Unknown => {
                self.stats.inconclusive += 1;
                Err(Exc::Unsup(format!("solver gave no answer on assertion {}", label)))
            }
        }
    }
    pub fn assume(&mut self, st: &mut State, c: &Val) -> R<()> {
        match c {
            Val::C(c) => if *c & 1 == 1 { Ok(()) } else { Err(Exc::Kill) },
            v => {
                let e = ex(v, 1);
                if let Some(b) = st.known.get(&e) { return if *b { Ok(()) } else { Err(Exc::Kill) }; }
                if st.model.eval(e) == 1 { self.add_pc(st, e); return Ok(()); }
                match self.solver.check(Solver::slice(&st.pc, e), &st.model.clone()) {
                    Sat::Sat(vals) => { st.model = self.merge_model(st, &vals); self.add_pc(st, e); Ok(()) }
                    Sat::Unsat => Err(Exc::Kill),
                    Sat::Unknown => Err(Exc::Unsup("solver gave no answer on assumption".into())),
                }
            }
        }
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut r = vec![];
        for f in st.threads[st.cur].frames.iter().rev() { r.push(self.p.fns[f.f.id as usize].short.clone()); }
        r
    }
    pub fn record(&mut self, st: &State, label: &str, detail: &str, m: &Model) {
        if self.stats.viols.iter().any(|v| v.kind == label) { return; }
        let values = st.log.iter().map(|l| (l.name.to_string(), width(l.e), m.eval(l.e))).collect();
        let trace = self.backtrace(st);
        self.stats.viols.push(Violation { kind: label.into(), detail: detail.into(), values, trace, trail: st.trail.iter().map(|s| s.to_string()).collect() });
        crate::save_violation(self, self.stats.viols.last().unwrap());
        if !self.known_labels.iter().any(|k| k == label) {
            self.stop = true;
            if let Some(s) = self.shared { s.stop.store(1, std::sync::atomic::Ordering::SeqCst); }
        }
    }
    pub fn fresh(&mut self, st: &mut State, w: u16, name: &str) -> E {
        if !self.forced.is_empty() && (self.forced.contains_key("*") || self.forced.contains_key(&*name.replace([':', ','], "_"))) {
            let key = name.replace([':', ','], "_");
            let i = st.log.iter().filter(|l| &*l.name == name).count();
            let v = self.forced.get(&key).and_then(|q| q.get(i)).copied().unwrap_or(0);
            let e = konst(v & mask(w), w);
            st.log.push(LogEnt { name: name.into(), e });
            return e;
        }
        let i = st.log.iter().filter(|l| &*l.name == name).count();
        let (id, e) = var(name, w);
        st.log.push(LogEnt { name: name.into(), e });
        if !self.follow.is_empty() {
            let v = self.follow.get(&name.replace([':', ','], "_")).and_then(|q| q.get(i)).copied().unwrap_or(0);
            let mut m = st.model.vals.clone();
            m.insert(id, v & mask(w));
            st.model = Model::new(m);
        }
        e
    }
    /// environment value: fresh variable that is not part of the harness' replay log
    pub fn fresh_env(&mut self, w: u16, name: &str) -> E { var(name, w).1 }

    // ---------------------------------------------------------------- scalar operations
    #[inline]
    pub fn bin(&self, op: B, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = m64(w);
                let r = match op {
                    B::Add => x.wrapping_add(*y),
                    B::Sub => x.wrapping_sub(*y),
                    B::Mul => x.wrapping_mul(*y),
                    B::And => x & y,
                    B::Or => x | y,
                    B::Xor => x ^ y,
                    B::Shl => if *y >= w as u64 { 0 } else { x << y },
                    B::LShr => if *y >= w as u64 { 0 } else { x >> y },
                    B::UDiv if *y != 0 => x / y,
                    B::URem if *y != 0 => x % y,
                    _ => eval_bin(op, w, *x as u128, *y as u128) as u64,
                };
                return Val::C(r & m);
            }
        }
        if let (Some(x), Some(y)) = (w128(a), w128(b)) { return mkc(eval_bin(op, w, x, y), w); }
        from(bin(op, ex(a, w), ex(b, w)))
    }
    pub fn icmp(&self, p: i32, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let sh = 64 - w.min(64);
            let (sx_, sy) = (((x << sh) as i64) >> sh, ((y << sh) as i64) >> sh);
            let r = match p { 32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y, 38 => sx_ > sy, 39 => sx_ >= sy, 40 => sx_ < sy, _ => sx_ <= sy };
            return Val::C(r as u64);
        }
        let (x, y) = (ex(a, w), ex(b, w));
        from(match p {
            32 => eq(x, y), 33 => ne(x, y),
            34 => cmp(C::Ult, y, x), 35 => cmp(C::Ule, y, x), 36 => cmp(C::Ult, x, y), 37 => cmp(C::Ule, x, y),
            38 => cmp(C::Slt, y, x), 39 => cmp(C::Sle, y, x), 40 => cmp(C::Slt, x, y), _ => cmp(C::Sle, x, y),
        })
    }
    pub fn fbin(&self, op: FOp, w: u16, a: &Val, b: &Val) -> Val {
        let o = match op { FOp::Add => F::Add, FOp::Sub => F::Sub, FOp::Mul => F::Mul, FOp::Div => F::Div, FOp::Rem => F::Rem };
        if let (Val::C(x), Val::C(y)) = (a, b) { return Val::C(eval_fbin(o, w, *x as u128, *y as u128) as u64); }
        from(fbin(o, ex(a, w), ex(b, w)))
    }
    pub fn cast1(&mut self, k: Cast, fw: u16, tw: u16, a: &Val) -> Val {
        match k {
            Cast::Nop => a.clone(),
            Cast::Trunc => match a { Val::C(c) => Val::C(c & m64(tw)), Val::W(x) => mkc(**x, tw), v => from(extract(ex(v, fw), 0, tw)) },
            Cast::ZExt => match a { Val::C(c) => mkc(*c as u128, tw), v => from(zext(ex(v, fw), tw)) },
            Cast::SExt => match a { Val::C(c) => mkc(sx(*c as u128, fw) as u128, tw), v => from(sext(ex(v, fw), tw)) },
            Cast::FpToUi => self.fun1(U::ToUI, fw, tw, a),
            Cast::FpToSi => self.fun1(U::ToSI, fw, tw, a),
            Cast::UiToFp => self.fun1(U::FromUI, fw, tw, a),
            Cast::SiToFp => self.fun1(U::FromSI, fw, tw, a),
            Cast::FpTrunc => self.fun1(U::Trn, fw, tw, a),
            Cast::FpExt => self.fun1(U::Ext, fw, tw, a),
            Cast::Bitcast => unreachable!(),
        }
    }
    pub fn fun1(&self, u: U, fw: u16, tw: u16, a: &Val) -> Val {
        if let Some(x) = w128(a) { return mkc(eval_fun(u, tw, fw, x), tw); }
        from(fun(u, ex(a, fw), tw))
    }
    pub fn bitcast(&mut self, a: &Val, from_t: &Ty, to: &Ty) -> Val {
        if from_t.lanes() == to.lanes() { return a.clone(); }
        let w = from_t.bits();
        if to.lanes() == 0 {
            if let Val::A(v) = a {
                let lw = from_t.scalar().bits();
                if v.iter().all(|x| matches!(x, Val::C(_))) && w <= 128 {
                    let mut r = 0u128;
                    for (i, x) in v.iter().enumerate() { if let Val::C(c) = x { r |= (*c as u128) << (i as u16 * lw); } }
                    return mkc(r, w);
                }
            }
            return from(ex(a, w));
        }
        let n = to.lanes() as u16;
        let lw = to.scalar().bits();
        if w <= 128 {
            let e = ex(a, w);
            Val::A(Rc::new((0..n).map(|i| from(extract(e, i * lw, lw))).collect()))
        } else {
            // wide vector to vector: go through bytes
            let fl = from_t.scalar().bits();
            let mut bits: Vec<E> = vec![];
            for x in a.agg() { let e = ex(x, fl); for k in 0..fl / 8 { bits.push(extract(e, k * 8, 8)); } }
            let per = (lw / 8) as usize;
            Val::A(Rc::new((0..n as usize).map(|i| { let mut e = bits[i * per]; for k in 1..per { e = cat(bits[i * per + k], e); } from(e) }).collect()))
        }
    }
    #[inline]
    pub fn lift2(&mut self, n: u32, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &Val, &Val) -> Val) -> Val {
        if n == 0 { return f(self, a, b); }
        let (x, y) = (a.agg().clone(), b.agg().clone());
        Val::A(Rc::new((0..n as usize).map(|i| f(self, &x[i], &y[i])).collect()))
    }
    pub fn lift1(&mut self, n: u32, a: &Val, f: &mut dyn FnMut(&mut Self, &Val) -> Val) -> Val {
        if n == 0 { return f(self, a); }
        let x = a.agg().clone();
        Val::A(Rc::new((0..n as usize).map(|i| f(self, &x[i])).collect()))
    }

    // ---------------------------------------------------------------- symbolic addresses
    /// Load through a symbolic address: if it stays within one object of concrete bytes, build a
    /// value table; otherwise fork over addresses.
    fn sym_load(&mut self, st: &mut State, a: E, ty: &Ty) -> R<Val> {
        let n = ty.size();
        if n <= 8 && !matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) && *ty != Ty::Ptr {
            let guess = st.model.eval(a) as u64;
            if let Ok((o, _)) = self.obj(st, guess) {
                let o = o.clone();
                let base = guess & !((1u64 << SHIFT) - 1);
                let size = o.data.len() as u64;
                if size >= n && size <= 8192 && o.sym.is_none() {
                    let inb = and(cmp(C::Ule, konst(base as u128, 64), a), cmp(C::Ule, a, konst((base + size - n) as u128, 64)));
                    let b = self.decide(st, &from(inb))?;
                    if b {
                        let w = ty.bits();
                        // stride: addresses congruent modulo n?
                        let off = bin(B::Sub, a, konst(base as u128, 64));
                        let get = |k: u64| -> u128 { let mut b = [0u8; 16]; b[..n as usize].copy_from_slice(&o.data[k as usize..(k + n) as usize]); u128::from_le_bytes(b) & mask(w) };
                        // strip scaling: off = cat(x, 0..)
                        let (ix, step, lo) = strip_scale(off);
                        let first = lo % step;
                        // compare on the index only when the offset is an exact multiple of it
                        let (ix, unit) = if lo == 0 { (ix, step) } else { (off, 1) };
                        let ixw = width(ix);
                        let mut runs: Vec<(u128, u128)> = vec![]; // (first index, value)
                        let mut k = 0u64;
                        while first + k * step + n <= size {
                            let v = get(first + k * step);
                            let at = ((first + k * step) / unit) as u128;
                            if at > mask(ixw) { break; }
                            if runs.last().map(|r| r.1) != Some(v) { runs.push((at, v)); }
                            k += 1;
                        }
                        if !runs.is_empty() && runs.len() <= 300 {
                            let mut e = konst(runs[runs.len() - 1].1, w);
                            for i in (0..runs.len() - 1).rev() {
                                e = ite(cmp(C::Ult, ix, konst(runs[i + 1].0, ixw)), konst(runs[i].1, w), e);
                            }
                            return Ok(from(e));
                        }
                    }
                }
            }
        }
        let c = self.conc(st, &Val::S(a))?;
        self.load(st, c, ty)
    }

    // ---------------------------------------------------------------- calls
    pub fn push_frame(&mut self, st: &mut State, fi: u32, args: &[Val], ret: u32) -> R<()> {
        let f: &'static Func = unsafe { &*(Rc::as_ptr(&self.p.body(fi))) };
        self.p.fns[fi as usize].executed = true;
        let mut regs = vec![Val::C(0); f.nregs as usize];
        if args.len() < f.nargs as usize { return Err(Exc::Unsup(format!("arity of {}: {} < {}", self.p.fns[fi as usize].short, args.len(), f.nargs))); }
        for i in 0..f.nargs as usize { regs[i] = args[i].clone(); }
        let th = &mut st.threads[st.cur];
        if th.frames.len() > 3000 { return Err(Exc::Viol("stack overflow".into(), "recursion deeper than 3000 frames".into())); }
        let sp = th.stack.len() as u32;
        th.frames.push(Frame { f, pc: f.entry, regs, ret, sp });
        if self.trace { eprintln!("{}-> {}", " ".repeat(th.frames.len()), self.p.fns[fi as usize].short); }
        Ok(())
    }
    fn host_for(&mut self, fi: u32) -> (Option<u32>, Option<u32>) {
        let e = &self.p.fns[fi as usize];
        if e.host_checked { return (e.host, e.redirect); }
        let (name, short) = (e.name.clone(), e.short.clone());
        let mut host = None;
        let mut red = None;
        let h = self.hosts.get(&name).or_else(|| self.hosts.get(&short)).copied().or_else(|| crate::host::pattern(&short, &name));
        if let Some(h) = h { self.host_list.push(h); host = Some(self.host_list.len() as u32 - 1); } else {
            let rd: Vec<(String, String)> = self.redirects.clone();
            for (pat, to) in rd {
                if short == pat { if let Some(t) = self.p.find_fn(&to) { if t != fi { red = Some(t); } } }
            }
        }
        let e = &mut self.p.fns[fi as usize];
        e.host = host;
        e.redirect = red;
        e.host_checked = true;
        (host, red)
    }
    /// Perform a call. Returns Ok(Some(v)) for host functions, Ok(None) if a frame was pushed.
    pub fn call(&mut self, st: &mut State, fi: u32, args: &[Val], ret: u32) -> R<Option<Val>> {
        let (h, r) = self.host_for(fi);
        if let Some(h) = h {
            self.p.fns[fi as usize].executed = true;
            let f = self.host_list[h as usize];
            let r = f(self, st, args);
            if self.calls {
                let a: Vec<String> = args.iter().map(|v| match v { Val::C(c) => format!("{:x}", c), _ => "?".into() }).collect();
                if !self.p.fns[fi as usize].short.starts_with("__rustc") { eprintln!("[{} t{}] {}({}) = {}", st.os.clock, st.cur, self.p.fns[fi as usize].short, a.join(", "), match &r { Ok(Val::C(c)) => format!("{:x}", c), Ok(_) => "?".into(), Err(e) => format!("{:?}", e) }); }
            }
            return r.map(Some);
        }
        let fi = r.unwrap_or(fi);
        if self.p.fns[fi as usize].val.is_null() {
            return Err(Exc::Unsup(format!("call of external function {}", self.p.fns[fi as usize].name)));
        }
        self.push_frame(st, fi, args, ret)?;
        Ok(None)
    }
    /// llvm.load.relative: entry of a relative lookup table.
    pub fn load_relative(&mut self, _st: &mut State, p: u64, o: u64) -> R<Val> {
        let gi = (p >> SHIFT) as usize;
        if gi == 0 || gi > self.p.globs.len() { return Err(Exc::Unsup("load.relative".into())); }
        let off = (p & ((1 << SHIFT) - 1)) + o;
        match self.p.rel_target(gi - 1, off) { Some(v) => Ok(Val::C(v)), None => Err(Exc::Unsup("load.relative target".into())) }
    }
    pub fn fn_of_addr(&self, a: u64) -> Option<u32> {
        if a >= FN_BASE && (a - FN_BASE) % 16 == 0 && ((a - FN_BASE) / 16) < self.p.fns.len() as u64 { Some(((a - FN_BASE) / 16) as u32) } else { None }
    }

    #[inline]
    fn get(st: &State, fr: &Frame, o: &Op) -> Val {
        match o {
            Op::K(v) => v.clone(),
            Op::R(r) => {
                let v = &fr.regs[*r as usize];
                if let Val::S(e) = v {
                    if let Some(c) = st.conc.get(e) { return mkc(*c, width(*e)); }
                    if let Some(b) = st.known.get(e) { return Val::C(*b as u64); }
                }
                v.clone()
            }
        }
    }
    fn jump(st: &mut State, t: &Target) {
        let cur = st.cur;
        let fr = st.threads[cur].frames.last_mut().unwrap();
        match t.moves.len() {
            0 => {}
            1 => { let v = match &t.moves[0].1 { Op::K(v) => v.clone(), Op::R(r) => fr.regs[*r as usize].clone() }; fr.regs[t.moves[0].0 as usize] = v; }
            _ => {
                let vals: Vec<Val> = t.moves.iter().map(|m| match &m.1 { Op::K(v) => v.clone(), Op::R(r) => fr.regs[*r as usize].clone() }).collect();
                for (m, v) in t.moves.iter().zip(vals) { fr.regs[m.0 as usize] = v; }
            }
        }
        fr.pc = t.pc;
    }

    #[cold]
    fn tv(&mut self, st: &State, d: u32) {
        use std::io::Write;
        fn sh(m: &Model, v: &Val) -> String { match v { Val::C(c) => format!("{:x}", c), Val::W(c) => format!("{:x}", **c), Val::S(e) => format!("{:x}", m.eval(*e)), Val::A(a) => format!("[{}]", a.iter().map(|x| sh(m, x)).collect::<Vec<_>>().join(",")) } }
        let fr = st.threads[st.cur].frames.last().unwrap();
        let v = if d == u32::MAX { String::new() } else { sh(&st.model, &fr.regs[d as usize]) };
        let id = fr.f.id as usize;
        let _ = writeln!(self.tracev.as_mut().unwrap(), "{} {} r{} = {}", self.p.fns[id].short, fr.pc - 1, d as i32, v);
    }
    /// Execute one instruction of the current thread.
    fn step(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        let fr = match st.threads[cur].frames.last() { Some(f) => f, None => return Err(Exc::Done) };
        let ins: &'static I = unsafe { &*(&fr.f.code[fr.pc as usize] as *const I) };
        macro_rules! g { ($o:expr) => { Self::get(st, st.threads[cur].frames.last().unwrap(), $o) } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let fr = st.threads[cur].frames.last_mut().unwrap(); if $d != u32::MAX { fr.regs[$d as usize] = v; } fr.pc += 1; if self.tracev.is_some() { self.tv(st, $d); } }} }
        st.instrs += 1;
        match ins {
            I::Bin { op, w, n, d, a, b } => {
                let (x, y) = (g!(a), g!(b));
                let r = if *n == 0 { self.bin(*op, *w, &x, &y) } else { self.lift2(*n, &x, &y, &mut |s, p, q| s.bin(*op, *w, p, q)) };
                set!(*d, r)
            }
            I::FBin { op, w, n, d, a, b } => { let (x, y) = (g!(a), g!(b)); let r = self.lift2(*n, &x, &y, &mut |s, p, q| s.fbin(*op, *w, p, q)); set!(*d, r) }
            I::FNeg { w, n, d, a } => { let x = g!(a); let k = Val::C(1u64 << (w - 1)); let r = self.lift1(*n, &x, &mut |s, p| s.bin(B::Xor, *w, p, &k)); set!(*d, r) }
            I::ICmp { p, w, n, d, a, b } => {
                let (x, y) = (g!(a), g!(b));
                let r = if *n == 0 { self.icmp(*p, *w, &x, &y) } else { self.lift2(*n, &x, &y, &mut |s, u, v| s.icmp(*p, *w, u, v)) };
                set!(*d, r)
            }
            I::FCmp { p, w, n, d, a, b } => {
                let (x, y) = (g!(a), g!(b));
                let r = self.lift2(*n, &x, &y, &mut |_, u, v| if let (Val::C(x), Val::C(y)) = (u, v) { Val::C(fcmp_c(*p, *w, *x, *y) as u64) } else { from(fcmp(*p, ex(u, *w), ex(v, *w))) });
                set!(*d, r)
            }
            I::Cast { k, from: ft, to, d, a } => {
                let x = g!(a);
                let r = if *k == Cast::Bitcast { self.bitcast(&x, ft, to) } else {
                    let (fw, tw) = (ft.scalar().bits(), to.scalar().bits());
                    self.lift1(to.lanes(), &x, &mut |s, p| s.cast1(*k, fw, tw, p))
                };
                set!(*d, r)
            }
            I::Load { d, ty, p } => {
                let a = g!(p);
                let v = match a { Val::C(a) => self.load(st, a, ty)?, Val::S(e) => self.sym_load(st, e, ty)?, _ => return Err(Exc::Unsup("load".into())) };
                set!(*d, v)
            }
            I::Store { ty, v, p } => {
                let a = g!(p);
                let a = self.conc(st, &a)?;
                let v = g!(v);
                self.store(st, a, &v, ty)?;
                set!(u32::MAX, Val::z())
            }
            I::Gep { d, base, off, terms } => {
                let b = g!(base);
                let mut r = match b { Val::C(x) => Val::C(x.wrapping_add(*off)), b => self.bin(B::Add, 64, &b, &Val::C(*off)) };
                for (o, w, s) in terms {
                    if *w == 9999 { return Err(Exc::Unsup("vector gep".into())); }
                    let x = g!(o);
                    let x = if *w == 64 { x } else if *w < 64 { self.cast1(Cast::SExt, *w, 64, &x) } else { self.cast1(Cast::Trunc, *w, 64, &x) };
                    let x = if *s == 1 { x } else { self.bin(B::Mul, 64, &x, &Val::C(*s)) };
                    r = self.bin(B::Add, 64, &r, &x);
                }
                set!(*d, r)
            }
            I::Alloca { d, size, n } => {
                let k = match n { None => 1, Some((o, _)) => { let x = g!(o); self.conc(st, &x)? } };
                let th = &mut st.threads[cur];
                let id = STACK0 + ((cur as u64) << 20) + th.stack.len() as u64;
                th.stack.push(Some(Rc::new(Obj::new((size * k) as usize))));
                set!(*d, Val::C(id << SHIFT))
            }
            I::Select { d, ty, c, cn, a, b } => {
                let c = g!(c);
                let (x, y) = (g!(a), g!(b));
                if *cn > 0 {
                    let cv = c.agg().clone();
                    let w = ty.scalar().bits();
                    let mut i = 0;
                    let r = self.lift2(*cn, &x, &y, &mut |_, p, q| {
                        let r = match &cv[i] { Val::C(1) => p.clone(), Val::C(_) => q.clone(), v => from(ite(ex(v, 1), ex(p, w), ex(q, w))) };
                        i += 1;
                        r
                    });
                    set!(*d, r)
                } else {
                    let r = match c {
                        Val::C(k) => if k & 1 == 1 { x } else { y },
                        c => match ty {
                            Ty::Int(w) => from(ite(ex(&c, 1), ex(&x, *w), ex(&y, *w))),
                            Ty::F64 => from(ite(ex(&c, 1), ex(&x, 64), ex(&y, 64))),
                            Ty::F32 => from(ite(ex(&c, 1), ex(&x, 32), ex(&y, 32))),
                            _ => {
                                if let (Val::C(p), Val::C(q)) = (&x, &y) { if p == q { set!(*d, x); return Ok(()); } }
                                if self.decide(st, &c)? { x } else { y }
                            }
                        },
                    };
                    set!(*d, r)
                }
            }
            I::Call { d, f, args, ret, .. } => {
                let fi = match f {
                    Callee::F(i) => *i,
                    Callee::Ind(o) => {
                        let a = g!(o);
                        let a = self.conc(st, &a)?;
                        match self.fn_of_addr(a) { Some(i) => i, None => return Err(Exc::Viol("memory".into(), format!("call of bad function pointer {:#x}", a))) }
                    }
                };
                let av: Vec<Val> = { let fr = st.threads[cur].frames.last().unwrap(); args.iter().map(|o| Self::get(st, fr, o)).collect() };
                match self.call(st, fi, &av, *d)? {
                    Some(v) => { let v = match (v, ret) { (Val::C(c), Ty::Int(w)) if *w < 64 => Val::C(c & m64(*w)), (v, _) => v }; set!(*d, v) }
                    None => { let n = st.threads[cur].frames.len(); st.threads[cur].frames[n - 2].pc += 1; }
                }
            }
            I::Intr { d, name, args, tys, ret } => {
                let av: Vec<Val> = { let fr = st.threads[cur].frames.last().unwrap(); args.iter().map(|o| Self::get(st, fr, o)).collect() };
                let v = crate::intr::call(self, st, name, &av, tys, ret)?;
                set!(*d, v)
            }
            I::Asm { d, s, args, ret } => {
                let av: Vec<Val> = { let fr = st.threads[cur].frames.last().unwrap(); args.iter().map(|o| Self::get(st, fr, o)).collect() };
                let v = crate::intr::asm(self, st, s, &av, ret)?;
                set!(*d, v)
            }
            I::Br(t) => Self::jump(st, t),
            I::CondBr { c, t, f } => {
                let c = g!(c);
                let b = self.decide(st, &c)?;
                Self::jump(st, if b { t } else { f })
            }
            I::Switch { v, w, cases, targets } => {
                let x = g!(v);
                match x {
                    Val::C(c) => {
                        let c = c & m64(*w);
                        let mut t = 0;
                        for (k, i) in cases { if *k == c { t = *i; break; } }
                        Self::jump(st, &targets[t as usize])
                    }
                    x => {
                        let e = ex(&x, *w);
                        // decide target by target
                        let mut done = false;
                        for ti in 1..targets.len() as u32 {
                            let mut c = fls();
                            for (k, i) in cases { if *i == ti { c = or(c, eq(e, konst(*k as u128, *w))); } }
                            if self.decide(st, &from(c))? { Self::jump(st, &targets[ti as usize]); done = true; break; }
                        }
                        if !done {
                            // cases that share the default target need no split
                            Self::jump(st, &targets[0])
                        }
                    }
                }
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| g!(o));
                let th = &mut st.threads[cur];
                let fr = th.frames.pop().unwrap();
                th.stack.truncate(fr.sp as usize);
                if let Some(p) = th.frames.last_mut() {
                    if fr.ret != u32::MAX { if let Some(v) = v { p.regs[fr.ret as usize] = v; } }
                } else {
                    if let Some(Val::C(c)) = v { th.retval = c; }
                    return Err(Exc::Done);
                }
            }
            I::Unreachable => return Err(Exc::Viol("unreachable".into(), "reached an unreachable instruction".into())),
            I::ExtractValue { d, a, idx } => {
                let mut v = g!(a);
                for i in idx { v = v.agg()[*i as usize].clone(); }
                set!(*d, v)
            }
            I::InsertValue { d, a, v, idx, ty } => {
                let x = g!(a);
                let v = g!(v);
                let x = if matches!(x, Val::A(_)) { x } else { ty.zero() };
                fn ins(x: Val, v: Val, idx: &[u32]) -> Val {
                    if idx.is_empty() { return v; }
                    let mut a = x.agg().clone();
                    let i = idx[0] as usize;
                    a[i] = ins(a[i].clone(), v, &idx[1..]);
                    Val::A(Rc::new(a))
                }
                set!(*d, ins(x, v, idx))
            }
            I::ExtractElement { d, a, i } => { let i = g!(i); let i = self.conc(st, &i)?; let v = g!(a).agg()[i as usize].clone(); set!(*d, v) }
            I::InsertElement { d, a, v, i } => {
                let i = g!(i);
                let i = self.conc(st, &i)?;
                let mut x = g!(a).agg().clone();
                x[i as usize] = g!(v);
                set!(*d, Val::A(Rc::new(x)))
            }
            I::Shuffle { d, a, b, mask, et } => {
                let (x, y) = (g!(a), g!(b));
                let n = x.agg().len();
                let yv = if let Val::A(v) = &y { v.clone() } else { Rc::new(vec![]) };
                let r = mask.iter().map(|m| if *m < 0 { et.zero() } else if (*m as usize) < n { x.agg()[*m as usize].clone() } else { yv[*m as usize - n].clone() }).collect();
                set!(*d, Val::A(Rc::new(r)))
            }
            I::Rmw { d, op, ty, p, v } => {
                let a = g!(p);
                let a = self.conc(st, &a)?;
                let old = self.load(st, a, ty)?;
                let v = g!(v);
                let w = ty.bits();
                let new = match op {
                    0 => v,
                    1 => self.bin(B::Add, w, &old, &v),
                    2 => self.bin(B::Sub, w, &old, &v),
                    3 => self.bin(B::And, w, &old, &v),
                    4 => { let x = self.bin(B::And, w, &old, &v); self.bin(B::Xor, w, &x, &mkc(mask(w), w)) }
                    5 => self.bin(B::Or, w, &old, &v),
                    6 => self.bin(B::Xor, w, &old, &v),
                    7 => { let c = self.icmp(38, w, &old, &v); if self.decide(st, &c)? { old.clone() } else { v } }
                    8 => { let c = self.icmp(40, w, &old, &v); if self.decide(st, &c)? { old.clone() } else { v } }
                    9 => { let c = self.icmp(34, w, &old, &v); if self.decide(st, &c)? { old.clone() } else { v } }
                    10 => { let c = self.icmp(36, w, &old, &v); if self.decide(st, &c)? { old.clone() } else { v } }
                    _ => return Err(Exc::Unsup(format!("atomicrmw {}", op))),
                };
                self.store(st, a, &new, ty)?;
                set!(*d, old)
            }
            I::CmpXchg { d, ty, p, c, n } => {
                let a = g!(p);
                let a = self.conc(st, &a)?;
                let old = self.load(st, a, ty)?;
                let c = g!(c);
                let w = ty.bits();
                let q = self.icmp(32, w, &old, &c);
                let b = self.decide(st, &q)?;
                if b { let n = g!(n); self.store(st, a, &n, ty)?; }
                set!(*d, Val::A(Rc::new(vec![old, Val::C(b as u64)])))
            }
            I::Freeze { d, a } => { let v = g!(a); set!(*d, v) }
            I::Bad(s) => return Err(Exc::Unsup(s.clone())),
        }
        Ok(())
    }

    // ---------------------------------------------------------------- exploration
    pub fn finish_path(&mut self, st: &State) {
        self.stats.paths += 1;
        if st.instrs > self.stats.max_depth { self.stats.max_depth = st.instrs; }
        // a few samples for differential validation against the native build
        let n = self.stats.paths;
        if self.stats.samples.len() < self.nsamples && (n <= 2 || n.is_power_of_two()) {
            let m = st.model.clone();
            let values = st.log.iter().map(|l| (l.name.to_string(), width(l.e), m.eval(l.e))).collect();
            let obs = st.obs.iter().map(|(k, v)| (k.to_string(), match v { Val::C(c) => *c, Val::S(e) => m.eval(*e) as u64, _ => 0 })).collect();
            self.stats.samples.push(Sample { values, obs });
        }
    }
    /// Run one state until its path ends; forks are pushed on the work list.
    pub fn run(&mut self, st: &mut State) {
        let mut last = st.instrs;
        loop {
            let r = self.step(st);
            match r {
                Ok(()) => {
                    if st.instrs & 0xfffff == 0 {
                        if st.instrs > self.max_instrs {
                            self.end(st, Exc::Viol("hang:limit".into(), "no end within the instruction limit of a path".into()));
                            break;
                        }
                        if std::time::Instant::now() > self.deadline { self.timed_out = true; self.stop = true; break; }
                        if let Some(s) = self.shared { if s.stop.load(std::sync::atomic::Ordering::Relaxed) != 0 { self.stop = true; break; } }
                    }
                }
                Err(Exc::Fork(c)) => {
                    st.instrs -= 1;
                    if let Err(e) = self.do_fork(st, c) { self.end(st, e); break; }
                    if self.stop { break; }
                }
                Err(Exc::Conc(e)) => {
                    st.instrs -= 1;
                    if st.conc_run.0 == e { st.conc_run.1 += 1; } else { st.conc_run = (e, 0); }
                    if st.conc_run.1 > 300 { self.end(st, Exc::Unsup(format!("more than 300 values when concretising {}", show(e, 6)))); break; }
                    let v = st.model.eval(e);
                    let c = eq(e, konst(v, width(e)));
                    if let Err(x) = self.do_fork(st, c) { self.end(st, x); break; }
                    // learned even if implied
                    if st.known.get(&c) == Some(&true) { Rc::make_mut(&mut st.conc).insert(e, v); }
                }
                Err(Exc::Again) => {}
                Err(Exc::Block) => { st.instrs -= 1; if let Err(x) = crate::posix::reschedule(self, st) { if !matches!(x, Exc::Again) { self.end(st, x); break; } } }
                Err(Exc::Done) => {
                    match crate::posix::thread_done(self, st) { Ok(()) => {} Err(Exc::Done) => { self.finish_path(st); break; } Err(x) => { self.end(st, x); break; } }
                }
                Err(x) => { self.end(st, x); break; }
            }
        }
        if st.instrs < last { last = st.instrs }
        self.stats.instrs += st.instrs - last;
    }
    fn end(&mut self, st: &mut State, x: Exc) {
        match x {
            Exc::Kill => { self.stats.killed += 1; }
            Exc::Viol(l, d) => {
                let bt = self.backtrace(st);
                let d = format!("{} at {}", d, bt.iter().take(8).cloned().collect::<Vec<_>>().join(" < "));
                let m = st.model.clone();
                if l == "memory" || l == "unreachable" || l == "stack overflow" {
                    // possible engine gap: not a property verdict on its own
                    if self.verbose { eprintln!("{}: {}", l, d); for b in &bt { eprintln!("    {}", b); } }
                    *self.stats.unsup.entry(format!("{}: {}", l, d)).or_default() += 1;
                } else { self.record(st, &l, &d, &m); }
                self.stats.paths += 1;
            }
            Exc::Unsup(m) => {
                let bt = self.backtrace(st);
                if self.verbose { eprintln!("unsupported: {}", m); for b in &bt { eprintln!("    {}", b); } }
                *self.stats.unsup.entry(format!("{} at {}", m, bt.iter().take(5).cloned().collect::<Vec<_>>().join(" < "))).or_default() += 1;
            }
            _ => {}
        }
    }
    pub fn explore(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.stop { break; }
            if std::time::Instant::now() > self.deadline { self.timed_out = true; self.stop = true; break; }
            if let Some(s) = self.shared { if s.stop.load(std::sync::atomic::Ordering::Relaxed) != 0 { self.stop = true; break; } }
            crate::split(self);
            self.run(&mut st);
        }
    }
}
/// off = x * 2^k + lo  ->  (x, 2^k, lo)
fn strip_scale(off: E) -> (E, u64, u64) {
    let (off, lo) = match kind(off) { K::Bin(B::Add, x, k) if cval(k).is_some() => (x, cval(k).unwrap() as u64), _ => (off, 0) };
    let z = |e: E| -> E { let mut e = e; while let K::Zext(x) = kind(e) { e = x; } e };
    let off = z(off);
    if let K::Cat(h, l) = kind(off) {
        if cval(l) == Some(0) { return (z(h), 1u64 << width(l), lo); }
    }
    (off, 1, lo)
}
