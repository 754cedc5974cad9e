//! Symbolic executor: states, memory, control flow, forking.
use crate::ir::*;
use crate::term::*;
use crate::z3::{Res, Z3};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    I(u64),
    T(T),
}
pub const NOSYM: T = u32::MAX;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Vec<T>,
}
impl Obj {
    fn new(size: u64) -> Obj {
        Obj { size, data: vec![], sym: vec![] }
    }
    pub fn ensure(&mut self, n: usize) {
        if self.data.len() < n {
            let mut m = n.max(self.data.len() * 2).max(16);
            if m as u64 > self.size { m = self.size as usize; }
            self.data.resize(m.max(n), 0);
            if !self.sym.is_empty() {
                let l = self.data.len();
                self.sym.resize(l, NOSYM);
            }
        }
    }
    pub fn ensure_sym(&mut self) {
        if self.sym.is_empty() { self.sym = vec![NOSYM; self.data.len()]; }
    }
}

const CH: usize = 64;
type Chunk = Rc<Vec<Option<Rc<Obj>>>>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub blk: u32,
    pub ip: u32,
    pub ret: u32,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct MState {
    pub m: Rc<Model>,
    pub cache: Rc<RefCell<FxMap<T, u128>>>,
}
impl MState {
    pub fn new(m: Rc<Model>) -> Self {
        MState { m, cache: Default::default() }
    }
    pub fn eval(&self, ar: &Arena, t: T) -> u128 {
        let mut c = self.cache.borrow_mut();
        let mut e = Evaluator { m: &self.m, cache: std::mem::take(&mut *c), free: Default::default() };
        let r = e.eval(ar, t);
        *c = e.cache;
        r
    }
}

#[derive(Clone)]
pub enum Rec {
    Bytes(Rc<Vec<T>>),
    Wide(T),
    Pick(T, u64),
}

#[derive(Clone, Default)]
pub struct FileData {
    pub data: Vec<V>,
}
#[derive(Clone)]
pub struct Fd {
    pub path: String,
    pub pos: u64,
    /// symbolic position past the end of the file (then `pos` only says "past the end")
    pub far: Option<T>,
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub dir: Option<(Rc<Vec<String>>, usize)>,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub files: BTreeMap<String, Rc<FileData>>,
    pub dirs: std::collections::BTreeSet<String>,
    pub fds: Vec<Option<Fd>>,
}

#[derive(Clone)]
pub struct State {
    pub stack: Vec<Rc<Frame>>,
    pub mem: Vec<Chunk>,
    pub nobj: u32,
    pub free_ids: Vec<u32>,
    pub pc: Vec<T>,
    pub known: Rc<FxMap<T, u128>>,
    pub kvars: Rc<FxSet<u32>>,
    pub model: MState,
    pub steps: u64,
    pub fs: Rc<Fs>,
    pub inputs: Vec<Rec>,
    pub observed: Vec<(String, Vec<V>)>,
    pub alloc_limit: u64,
    pub step_limit: u64,
    pub opaque: bool,
    pub hash_real: bool,
    pub faults: u64,
    pub uncertain: bool,
    pub reached: Vec<u32>,
    pub errno_obj: u32,
    pub tls_keys: Vec<u64>,
    pub depth: u32,
    pub rng_ctr: u64,
    pub slots: [u64; 8],
}

pub enum Stop {
    /// path finished normally
    Done,
    /// path is infeasible / assumed away
    Drop,
    /// something the harness has to hear about
    Event(String, String),
}
pub type R<X> = Result<X, Stop>;

pub struct Violation {
    pub label: String,
    pub msg: String,
    pub inputs: Vec<String>,
    pub stack: Vec<String>,
    pub confirmed: bool,
}
pub struct PathSample {
    pub inputs: Vec<String>,
    pub observed: Vec<(String, String)>,
    pub reached: Vec<String>,
}

pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub dropped: u64,
    pub events: u64,
    pub steps: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_concrete: u64,
    pub max_path_steps: u64,
}

pub struct Exec<'m> {
    pub md: &'m Module,
    pub ar: Arena,
    pub z: Z3,
    pub work: Vec<State>,
    pub hooks: Vec<crate::ext::Hook>,
    pub case: u64,
    pub labels: Vec<String>,
    pub label_ix: HashMap<String, u32>,
    pub reach_count: HashMap<u32, u64>,
    pub check_count: BTreeMap<String, u64>,
    pub violations: BTreeMap<String, Vec<Violation>>,
    pub inconclusive: BTreeMap<String, u64>,
    pub samples: Vec<PathSample>,
    pub max_samples: usize,
    pub stats: Stats,
    pub deadline: Option<Instant>,
    pub gcache: RefCell<FxMap<u32, Rc<Obj>>>,
    pub trace: bool,
    pub sites: HashMap<String, u64>,
    pub profile: bool,
    pub var_names: HashMap<(u32, u16, u32), T>,
    pub polys: FxMap<T, crate::field::Poly>,
    pub units: FxSet<T>,
    pub proved: u32,
}

#[inline]
fn m64(w: u16) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
#[inline]
fn sx(v: u64, w: u16) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

impl<'m> Exec<'m> {
    pub fn norm(&self, t: T) -> V {
        if self.ar.w(t) <= 64 {
            if let Some(c) = self.ar.as_const(t) { return V::I(c as u64); }
        }
        V::T(t)
    }
    pub fn tt(&mut self, v: V, w: u16) -> T {
        match v {
            V::I(x) => self.ar.cst(x as u128, w),
            V::T(t) => { debug_assert!(self.ar.w(t) == w, "width {} expected {}", self.ar.w(t), w); t }
        }
    }
    pub fn label(&mut self, s: &str) -> u32 {
        if let Some(&i) = self.label_ix.get(s) { return i; }
        let i = self.labels.len() as u32;
        self.labels.push(s.to_string());
        self.label_ix.insert(s.to_string(), i);
        i
    }

    // ---------- memory ----------
    pub fn new_obj(&mut self, st: &mut State, size: u64) -> u32 {
        let id = match st.free_ids.pop() {
            Some(i) => i,
            None => { let i = st.nobj; st.nobj += 1; i }
        };
        let c = id as usize / CH;
        while st.mem.len() <= c { st.mem.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut st.mem[c])[id as usize % CH] = Some(Rc::new(Obj::new(size)));
        id
    }
    pub fn free_obj(&mut self, st: &mut State, id: u32) {
        let c = id as usize / CH;
        Rc::make_mut(&mut st.mem[c])[id as usize % CH] = None;
        st.free_ids.push(id);
    }
    fn global(&self, id: u32) -> Rc<Obj> {
        if let Some(o) = self.gcache.borrow().get(&id) { return o.clone(); }
        let data = self.md.global_bytes(id);
        let o = Rc::new(Obj { size: self.md.globals[id as usize].size, data, sym: vec![] });
        self.gcache.borrow_mut().insert(id, o.clone());
        o
    }
    pub fn ub<X>(&self, msg: String) -> R<X> {
        Err(Stop::Event("memory".into(), msg))
    }
    #[inline]
    fn split(addr: u64) -> (i64, u64) {
        ((addr >> 32) as i64 - OBJ_BASE as i64, addr & 0xffff_ffff)
    }
    pub fn obj<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a Rc<Obj>, usize)> {
        let (id, off) = Self::split(addr);
        if id < 0 || id >= st.nobj as i64 { return self.ub(format!("access of {n} bytes at invalid address {addr:#x}")); }
        let (c, k) = (id as usize / CH, id as usize % CH);
        if c >= st.mem.len() || st.mem[c][k].is_none() {
            if (id as usize) < self.md.globals.len() {
                let o = self.global(id as u32);
                while st.mem.len() <= c { st.mem.push(Rc::new(vec![None; CH])); }
                Rc::make_mut(&mut st.mem[c])[k] = Some(o);
            } else {
                return self.ub(format!("access of {n} bytes in a freed or unallocated object {addr:#x}"));
            }
        }
        let o = st.mem[c][k].as_ref().unwrap();
        if off + n > o.size { return self.ub(format!("access of {n} bytes at offset {off} of an object of {} bytes", o.size)); }
        Ok((o, off as usize))
    }
    pub fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        self.obj(st, addr, n)?;
        let (id, off) = Self::split(addr);
        let (c, k) = (id as usize / CH, id as usize % CH);
        let o = Rc::make_mut(Rc::make_mut(&mut st.mem[c])[k].as_mut().unwrap());
        o.ensure(off as usize + n as usize);
        Ok((o, off as usize))
    }
    pub fn rd8(&self, o: &Obj, i: usize) -> V {
        if i >= o.data.len() { return V::I(0); }
        if !o.sym.is_empty() && o.sym[i] != NOSYM { return V::T(o.sym[i]); }
        V::I(o.data[i] as u64)
    }
    pub fn read_bytes(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<V>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.obj(st, addr, n)?;
        let o = o.clone();
        Ok((0..n as usize).map(|i| self.rd8(&o, off + i)).collect())
    }
    pub fn write_bytes(&mut self, st: &mut State, addr: u64, b: &[V]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let (o, off) = self.obj_mut(st, addr, b.len() as u64)?;
        for (i, v) in b.iter().enumerate() {
            match v {
                V::I(x) => { o.data[off + i] = *x as u8; if !o.sym.is_empty() { o.sym[off + i] = NOSYM; } }
                V::T(t) => { o.ensure_sym(); o.sym[off + i] = *t; }
            }
        }
        Ok(())
    }
    pub fn read_conc(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<u8>> {
        let b = self.read_bytes(st, addr, n)?;
        let mut o = vec![];
        for v in b { o.push(self.conc(st, v, 8)? as u8); }
        Ok(o)
    }
    pub fn read_cstr(&mut self, st: &mut State, addr: u64) -> R<String> {
        let mut s = vec![];
        let mut a = addr;
        loop {
            let b = self.read_conc(st, a, 1)?[0];
            if b == 0 { break; }
            s.push(b);
            a += 1;
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    pub fn join(&mut self, b: &[V]) -> T {
        // little endian
        let mut acc = match b[b.len() - 1] { V::I(x) => self.ar.cst(x as u128, 8), V::T(t) => t };
        for v in b[..b.len() - 1].iter().rev() {
            let x = match *v { V::I(x) => self.ar.cst(x as u128, 8), V::T(t) => t };
            acc = self.ar.concat(acc, x);
        }
        acc
    }
    fn load1(&mut self, st: &mut State, addr: u64, w: u16) -> R<V> {
        let n = (w as u64 + 7) / 8;
        let (o, off) = self.obj(st, addr, n)?;
        let e = off + n as usize;
        let has_sym = !o.sym.is_empty() && o.sym[off.min(o.sym.len())..e.min(o.sym.len())].iter().any(|t| *t != NOSYM);
        if !has_sym {
            let mut b = [0u8; 16];
            let l = o.data.len();
            if off < l { let k = e.min(l); b[..k - off].copy_from_slice(&o.data[off..k]); }
            let x = u128::from_le_bytes(b);
            if w <= 64 { return Ok(V::I(x as u64 & m64(w))); }
            return Ok(V::T(self.ar.cst(x, w)));
        }
        let o = o.clone();
        let b: Vec<V> = (off..e).map(|i| self.rd8(&o, i)).collect();
        let mut t = self.join(&b);
        if self.ar.w(t) != w { t = self.ar.extract(t, w - 1, 0); }
        if let Some(&k) = st.known.get(&t) {
            if w <= 64 { return Ok(V::I(k as u64)); }
        }
        if w <= 64 {
            if let Some(k) = self.const_known(st, t) { return Ok(V::I(k as u64)); }
        }
        Ok(self.norm(t))
    }
    fn store1(&mut self, st: &mut State, addr: u64, w: u16, v: V) -> R<()> {
        let n = (w as usize + 7) / 8;
        match v {
            V::I(x) => {
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() { for s in &mut o.sym[off..off + n] { *s = NOSYM; } }
            }
            V::T(t) => {
                let t = if w % 8 != 0 { self.ar.zext(t, n as u16 * 8) } else { t };
                let mut b = Vec::with_capacity(n);
                for i in 0..n as u16 {
                    let e = self.ar.extract(t, i * 8 + 7, i * 8);
                    b.push(self.norm(e));
                }
                self.write_bytes(st, addr, &b)?;
            }
        }
        Ok(())
    }
    /// Load through a possibly symbolic address.
    fn load_any(&mut self, st: &mut State, p: V, w: u16) -> R<V> {
        match p {
            V::I(a) => self.load1(st, a, w),
            V::T(t) => {
                if let Some(k) = self.const_known(st, t) { return self.load1(st, k as u64, w); }
                let (lo, hi) = self.ar.range(t);
                let n = (w as u64 + 7) / 8;
                let v0 = st.model.eval(&self.ar, t) as u64;
                // decompose base + offset
                if let Node::Bin(Op::Add, x, k) = self.ar.nodes[t as usize].clone() {
                    if let Some(base) = self.ar.as_const(k) {
                        let base = base as u64;
                        let (_, xh) = self.ar.range(x);
                        let id = (base >> 32) as i64 - OBJ_BASE as i64;
                        let (id0, _) = Self::split(v0);
                        if id == id0 && id >= 0 {
                            let size = match self.obj(st, v0, n) { Ok((o, _)) => o.size, Err(_) => 0 };
                            // stride of the index expression
                            let stride = self.stride(x);
                            // an index that may be negative is counted from the start of the object
                            let mut x = x;
                            let mut base = base;
                            let mut xh = xh;
                            let stride = if xh > 0xffff_ffff { self.stride(k).min(stride) } else { stride };
                            if xh > 0xffff_ffff {
                                let b = (base & 0xffff_ffff) / stride * stride;
                                let kb = self.ar.cst(b as u128, 64);
                                x = self.ar.bin(Op::Add, x, kb);
                                base -= b;
                                xh = self.ar.range(x).1;
                            }
                            let boff = base & 0xffff_ffff;
                            if size >= n + boff {
                                let maxi = (size - n - boff) / stride;
                                if maxi <= 1024 {
                                    let inb = xh <= (maxi * stride) as u128;
                                    if !inb {
                                        let lim = self.ar.cst((maxi * stride) as u128, 64);
                                        let c = self.ar.bin(Op::Ule, x, lim);
                                        if !self.decide_t(st, c)? { return self.ub("out-of-bounds load".into()); }
                                    }
                                    let top = maxi.min((xh.min(u64::MAX as u128) as u64) / stride);
                                    let mut acc: Option<T> = None;
                                    for i in (0..=top).rev() {
                                        let v = self.load1(st, base + i * stride, w)?;
                                        let v = self.tt(v, w);
                                        acc = Some(match acc {
                                            None => v,
                                            Some(r) => {
                                                let kk = self.ar.cst((i * stride) as u128, 64);
                                                let c = self.ar.eq(x, kk);
                                                self.ar.ite(c, v, r)
                                            }
                                        });
                                    }
                                    return Ok(self.norm(acc.unwrap()));
                                }
                            }
                        }
                    }
                }
                let _ = (lo, hi);
                let a = self.conc(st, p, 64)? as u64;
                self.load1(st, a, w)
            }
        }
    }
    fn stride(&self, t: T) -> u64 {
        // largest power of two known to divide the term
        fn tz(ar: &Arena, t: T, d: u32) -> u32 {
            if d == 0 { return 0; }
            match &ar.nodes[t as usize] {
                Node::Const(c) => if *c == 0 { 12 } else { c.trailing_zeros().min(12) },
                Node::Bin(Op::Shl, a, b) => match ar.as_const(*b) { Some(k) => (tz(ar, *a, d - 1) + k as u32).min(12), None => 0 },
                Node::Bin(Op::Mul, a, b) => (tz(ar, *a, d - 1) + tz(ar, *b, d - 1)).min(12),
                Node::Bin(Op::Add, a, b) | Node::Bin(Op::Or, a, b) => tz(ar, *a, d - 1).min(tz(ar, *b, d - 1)),
                Node::Concat(a, b) => { let k = tz(ar, *b, d - 1); if k >= ar.w(*b) as u32 { (ar.w(*b) as u32 + tz(ar, *a, d - 1)).min(12) } else { k } }
                _ => 0,
            }
        }
        1 << tz(&self.ar, t, 6)
    }

    // ---------- path condition ----------
    pub fn const_known(&mut self, st: &State, t: T) -> Option<u128> {
        if let Some(c) = self.ar.as_const(t) { return Some(c); }
        if let Some(&k) = st.known.get(&t) { return Some(k); }
        if st.kvars.is_empty() { return None; }
        let l = self.ar.leaves(t);
        if l.iter().all(|v| v & 0x8000_0000 == 0 && st.kvars.contains(v)) { return Some(st.model.eval(&self.ar, t)); }
        None
    }
    fn learn(&mut self, st: &mut State, t: T, val: bool) {
        let mut work = vec![(t, val)];
        while let Some((t, val)) = work.pop() {
            if self.ar.as_const(t).is_some() { continue; }
            Rc::make_mut(&mut st.known).insert(t, val as u128);
            match self.ar.nodes[t as usize].clone() {
                Node::Bin(Op::Xor, x, y) if self.ar.as_const(y) == Some(1) && self.ar.w(x) == 1 => work.push((x, !val)),
                Node::Bin(Op::And, x, y) if val && self.ar.w(x) == 1 => { work.push((x, true)); work.push((y, true)); }
                Node::Bin(Op::Or, x, y) if !val && self.ar.w(x) == 1 => { work.push((x, false)); work.push((y, false)); }
                Node::Bin(Op::Eq, x, y) if val => {
                    if let Some(k) = self.ar.as_const(y) {
                        Rc::make_mut(&mut st.known).insert(x, k);
                        self.learn_val(st, x, k);
                    }
                }
                Node::Var(i) if self.ar.w(t) == 1 => { Rc::make_mut(&mut st.kvars).insert(i); }
                _ => {}
            }
        }
    }
    fn learn_val(&mut self, st: &mut State, x: T, k: u128) {
        match self.ar.nodes[x as usize].clone() {
            Node::Var(i) => { Rc::make_mut(&mut st.kvars).insert(i); }
            Node::Concat(a, b) => {
                let wb = self.ar.w(b);
                if wb < 128 {
                    Rc::make_mut(&mut st.known).insert(a, k >> wb);
                    Rc::make_mut(&mut st.known).insert(b, k & mask(wb));
                    self.learn_val(st, a, k >> wb);
                    self.learn_val(st, b, k & mask(wb));
                }
            }
            _ => {}
        }
    }
    /// Add a constraint known to be consistent with st.model.
    pub fn add_pc(&mut self, st: &mut State, t: T) {
        if self.ar.as_const(t).is_some() { return; }
        if st.known.get(&t) == Some(&1) { return; }
        st.pc.push(t);
        self.learn(st, t, true);
    }
    fn site(&self, st: &State) -> String {
        let mut s = String::new();
        for fr in st.stack.iter().rev().take(4) {
            s.push_str(&crate::ext::demangle(&fr.f.name));
            s.push_str(" < ");
        }
        s
    }
    /// Decide a width-1 term: forks the other side when it is feasible too.
    pub fn decide_t(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(k) = self.const_known(st, c) { return Ok(k == 1); }
        let v = st.model.eval(&self.ar, c) == 1;
        let n = self.ar.not1(c);
        let (take, other) = if v { (c, n) } else { (n, c) };
        if let Some(d) = self.deadline {
            if Instant::now() > d { *self.inconclusive.entry("time budget exhausted".into()).or_default() += 1; return Err(Stop::Drop); }
        }
        let r = self.z.check(&mut self.ar, &st.pc, other, &st.model.m.clone());
        match r {
            Res::Unsat => { self.learn(st, take, true); }
            Res::Sat(m) => {
                if self.profile { *self.sites.entry(self.site(st)).or_default() += 1; }
                self.stats.forks += 1;
                let mut alt = st.clone();
                alt.model = MState::new(m);
                self.add_pc(&mut alt, other);
                self.work.push(alt);
                self.add_pc(st, take);
            }
            Res::Unknown => {
                // keep only the side with a model; record that the other was not decided
                *self.inconclusive.entry(format!("branch undecided at {}", self.site(st))).or_default() += 1;
                self.add_pc(st, take);
            }
        }
        Ok(v)
    }
    pub fn decide(&mut self, st: &mut State, c: V) -> R<bool> {
        match c {
            V::I(x) => Ok(x & 1 == 1),
            V::T(t) => self.decide_t(st, t),
        }
    }
    /// Concretize by forking over the feasible values.
    pub fn conc(&mut self, st: &mut State, v: V, w: u16) -> R<u128> {
        let t = match v { V::I(x) => return Ok(x as u128), V::T(t) => t };
        let _ = w;
        if let Some(k) = self.const_known(st, t) { return Ok(k); }
        let val = st.model.eval(&self.ar, t);
        let k = self.ar.cst(val, self.ar.w(t));
        let e = self.ar.eq(t, k);
        // decide_t's current side is e (it is true under the model)
        self.decide_t(st, e)?;
        Rc::make_mut(&mut st.known).insert(t, val);
        self.learn_val(st, t, val);
        Ok(val)
    }
    pub fn assume(&mut self, st: &mut State, c: V) -> R<()> {
        match c {
            V::I(x) => if x & 1 == 1 { Ok(()) } else { Err(Stop::Drop) },
            V::T(t) => {
                if let Some(k) = self.const_known(st, t) { return if k == 1 { Ok(()) } else { Err(Stop::Drop) }; }
                if st.model.eval(&self.ar, t) == 1 { self.add_pc(st, t); return Ok(()); }
                match self.z.check(&mut self.ar, &st.pc, t, &st.model.m.clone()) {
                    Res::Sat(m) => { st.model = MState::new(m); self.add_pc(st, t); Ok(()) }
                    Res::Unsat => Err(Stop::Drop),
                    Res::Unknown => { *self.inconclusive.entry("assumption undecided".into()).or_default() += 1; Err(Stop::Drop) }
                }
            }
        }
    }
    pub fn input_strings(&self, st: &State, m: &MState) -> Vec<String> {
        st.inputs.iter().map(|r| match r {
            Rec::Bytes(b) => { let mut s = String::from("b:"); for t in b.iter() { s.push_str(&format!("{:02x}", m.eval(&self.ar, *t))); } s }
            Rec::Wide(t) => format!("w:{}", m.eval(&self.ar, *t)),
            Rec::Pick(t, _) => format!("p:{}", m.eval(&self.ar, *t)),
        }).collect()
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.stack.iter().rev().map(|f| crate::ext::demangle(&f.f.name)).collect()
    }
    pub fn report(&mut self, st: &State, m: &MState, label: &str, msg: &str) {
        let n = self.violations.get(label).map_or(0, |v| v.len());
        if n >= 3 { return; }
        let inputs = self.input_strings(st, m);
        let v = Violation { label: label.to_string(), msg: msg.to_string(), inputs, stack: self.backtrace(st), confirmed: true };
        self.violations.entry(label.to_string()).or_default().push(v);
    }
    pub fn check(&mut self, st: &mut State, c: V, label: &str) -> R<()> {
        *self.check_count.entry(label.to_string()).or_default() += 1;
        self.stats.checks += 1;
        match c {
            V::I(x) => {
                self.stats.checks_concrete += 1;
                if x & 1 == 0 {
                    let m = st.model.clone();
                    self.report(st, &m, label, "assertion is false on this path");
                    return Err(Stop::Drop);
                }
                Ok(())
            }
            V::T(t) => {
                let n = self.ar.not1(t);
                if st.known.get(&t) == Some(&1) { return Ok(()); }
                match self.z.check(&mut self.ar, &st.pc, n, &st.model.m.clone()) {
                    Res::Unsat => { self.learn(st, t, true); Ok(()) }
                    Res::Sat(m) => {
                        let ms = MState::new(m);
                        self.report(st, &ms, label, "solver found a counterexample");
                        self.assume(st, c)
                    }
                    Res::Unknown => {
                        *self.inconclusive.entry(format!("check {label} undecided")).or_default() += 1;
                        self.assume(st, c)
                    }
                }
            }
        }
    }

    // ---------- operators ----------
    #[inline]
    fn get(&mut self, fr: &Frame, o: Opnd) -> V {
        match o {
            Opnd::R(r) => fr.regs[r as usize],
            Opnd::C(c) => V::I(c),
            Opnd::W(w) => V::T(self.ar.cst(w, 128)),
        }
    }
    pub fn binop(&mut self, k: BinK, w: u16, a: V, b: V) -> Result<V, String> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let m = m64(w);
            return Ok(V::I(match k {
                BinK::Add => x.wrapping_add(y) & m,
                BinK::Sub => x.wrapping_sub(y) & m,
                BinK::Mul => x.wrapping_mul(y) & m,
                BinK::UDiv => if y == 0 { return Err("division by zero".into()) } else { x / y },
                BinK::URem => if y == 0 { return Err("division by zero".into()) } else { x % y },
                BinK::SDiv => if y == 0 { return Err("division by zero".into()) } else { sx(x, w).wrapping_div(sx(y, w)) as u64 & m },
                BinK::SRem => if y == 0 { return Err("division by zero".into()) } else { sx(x, w).wrapping_rem(sx(y, w)) as u64 & m },
                BinK::And => x & y,
                BinK::Or => x | y,
                BinK::Xor => x ^ y,
                BinK::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                BinK::LShr => if y >= w as u64 { 0 } else { x >> y },
                BinK::AShr => (sx(x, w) >> y.min(63).min(w as u64 - 1)) as u64 & m,
                BinK::FAdd | BinK::FSub | BinK::FMul | BinK::FDiv | BinK::FRem => {
                    if w == 64 {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        (match k { BinK::FAdd => p + q, BinK::FSub => p - q, BinK::FMul => p * q, BinK::FDiv => p / q, _ => p % q }).to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match k { BinK::FAdd => p + q, BinK::FSub => p - q, BinK::FMul => p * q, BinK::FDiv => p / q, _ => p % q }).to_bits() as u64
                    }
                }
            }));
        }
        let op = match k {
            BinK::Add => Op::Add, BinK::Sub => Op::Sub, BinK::Mul => Op::Mul, BinK::UDiv => Op::UDiv, BinK::SDiv => Op::SDiv,
            BinK::URem => Op::URem, BinK::SRem => Op::SRem, BinK::And => Op::And, BinK::Or => Op::Or, BinK::Xor => Op::Xor,
            BinK::Shl => Op::Shl, BinK::LShr => Op::LShr, BinK::AShr => Op::AShr,
            _ => return Err("floating-point operation on a symbolic value".into()),
        };
        let (x, y) = (self.tt(a, w), self.tt(b, w));
        let t = self.ar.bin(op, x, y);
        Ok(self.norm(t))
    }
    pub fn icmp(&mut self, p: Pred, w: u16, a: V, b: V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            return V::I(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
            } as u64);
        }
        let (x, y) = (self.tt(a, w), self.tt(b, w));
        let t = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => { let e = self.ar.eq(x, y); self.ar.not1(e) }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.norm(t)
    }
    pub fn cast(&mut self, k: CastK, fw: u16, tw: u16, a: V) -> Result<V, String> {
        match a {
            V::I(x) if tw <= 64 => Ok(V::I(match k {
                CastK::Trunc => x & m64(tw),
                CastK::ZExt | CastK::Bit => x,
                CastK::SExt => sx(x, fw) as u64 & m64(tw),
                CastK::UiToFp => if tw == 64 { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 },
                CastK::SiToFp => if tw == 64 { (sx(x, fw) as f64).to_bits() } else { (sx(x, fw) as f32).to_bits() as u64 },
                CastK::FpToUi => (if fw == 64 { f64::from_bits(x) as u64 } else { f32::from_bits(x as u32) as u64 }) & m64(tw),
                CastK::FpToSi => (if fw == 64 { f64::from_bits(x) as i64 } else { f32::from_bits(x as u32) as i64 }) as u64 & m64(tw),
                CastK::FpExt => (f32::from_bits(x as u32) as f64).to_bits(),
                CastK::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
            })),
            _ => {
                let t = self.tt(a, fw);
                let r = match k {
                    CastK::Trunc => self.ar.extract(t, tw - 1, 0),
                    CastK::ZExt => self.ar.zext(t, tw),
                    CastK::SExt => self.ar.sext(t, tw),
                    CastK::Bit => t,
                    _ => return Err("floating-point conversion of a symbolic value".into()),
                };
                Ok(self.norm(r))
            }
        }
    }
    pub fn select(&mut self, c: T, a: V, b: V, w: u16) -> V {
        if a == b { return a; }
        let (x, y) = (self.tt(a, w), self.tt(b, w));
        let t = self.ar.ite(c, x, y);
        self.norm(t)
    }

    // ---------- run ----------
    pub fn unsupported<X>(&self, m: String) -> R<X> {
        Err(Stop::Event("unsupported".into(), m))
    }
    pub fn push_call(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>, ret: u32) -> R<()> {
        if st.stack.len() > 4000 { return Err(Stop::Event("stack-overflow".into(), format!("in {}", crate::ext::demangle(&f.name)))); }
        let mut regs = vec![V::I(0); f.nregs as usize];
        let mut k = 0;
        for (d, n) in &f.params {
            for i in 0..*n {
                if k < args.len() {
                    let w = f.widths[(d + i) as usize];
                    regs[(d + i) as usize] = match args[k] { V::I(x) if w > 64 => V::T(self.ar.cst(x as u128, w)), v => v };
                }
                k += 1;
            }
        }
        st.stack.push(Rc::new(Frame { f, regs, blk: 0, ip: 0, ret, allocas: vec![] }));
        Ok(())
    }
    fn jump(&mut self, fr: &mut Frame, to: u32) {
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for ph in &b.phis {
                for (l, ops) in &ph.inc {
                    if *l == from {
                        for (i, o) in ops.iter().enumerate() {
                            let v = match *o {
                                Opnd::W(x) => V::T(self.ar.cst(x, f.widths[(ph.dst + i as u32) as usize])),
                                o => self.get(fr, o),
                            };
                            vals.push((ph.dst + i as u32, v));
                        }
                        break;
                    }
                }
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.blk = to;
        fr.ip = 0;
    }
    fn getw(&mut self, fr: &Frame, o: Opnd, w: u16) -> V {
        match o {
            Opnd::W(x) => V::T(self.ar.cst(x, w)),
            Opnd::C(c) if w > 64 => V::T(self.ar.cst(c as u128, w)),
            o => self.get(fr, o),
        }
    }
    pub fn run_all(&mut self, init: State) {
        self.work.push(init);
        while let Some(mut st) = self.work.pop() {
            if let Some(d) = self.deadline {
                if Instant::now() > d {
                    *self.inconclusive.entry("time budget exhausted".into()).or_default() += 1 + self.work.len() as u64;
                    self.work.clear();
                    break;
                }
            }
            let r = self.run(&mut st);
            self.finish(st, r);
        }
    }
    fn finish(&mut self, st: State, r: Stop) {
        self.stats.paths += 1;
        self.stats.steps += st.steps & 0xfff;
        self.stats.max_path_steps = self.stats.max_path_steps.max(st.steps);
        match r {
            Stop::Done => {
                self.stats.done += 1;
                for l in &st.reached { *self.reach_count.entry(*l).or_default() += 1; }
                if self.samples.len() < self.max_samples && (self.stats.done.is_power_of_two() || self.stats.done % 37 == 0) {
                    let inputs = self.input_strings(&st, &st.model);
                    let obs = st.observed.iter().map(|(n, v)| {
                        let mut s = String::new();
                        for x in v { s.push_str(&format!("{:02x}", match x { V::I(k) => *k as u128, V::T(t) => st.model.eval(&self.ar, *t) })); }
                        (n.clone(), s)
                    }).collect();
                    let reached = st.reached.iter().map(|l| self.labels[*l as usize].clone()).collect();
                    self.samples.push(PathSample { inputs, observed: obs, reached });
                }
            }
            Stop::Drop => self.stats.dropped += 1,
            Stop::Event(kind, msg) => {
                self.stats.events += 1;
                for l in &st.reached { *self.reach_count.entry(*l).or_default() += 1; }
                if self.trace { eprintln!("event {kind}: {msg}\n  {}", self.backtrace(&st).join("\n  ")); }
                if kind == "unsupported" {
                    *self.inconclusive.entry(format!("unsupported: {msg} at {}", self.site(&st))).or_default() += 1;
                    return;
                }
                // name the event after the innermost function that is not library code
                let bt = self.backtrace(&st);
                let at = bt.iter().find(|n| {
                    let n = n.trim_start_matches('<');
                    !["core::", "alloc::", "std::", "__rust", "hashbrown", "rust_", "&", "[", "dyn "].iter().any(|p| n.starts_with(p))
                }).cloned().unwrap_or_default();
                let label = format!("{kind}@{at}");
                let m = st.model.clone();
                self.report(&st, &m, &label, &msg);
            }
        }
    }
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.run_frame(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }
    /// Run until the top frame changes.
    fn run_frame(&mut self, st: &mut State) -> R<()> {
        let mut rc = match st.stack.pop() { Some(f) => f, None => return Err(Stop::Done) };
        let f = rc.f.clone();
        loop {
            let (blk, ip) = (rc.blk as usize, rc.ip as usize);
            let inst = &f.blocks[blk].insts[ip];
            st.steps += 1;
            if st.steps & 0xfff == 0 {
                self.stats.steps += 0x1000;
                if st.steps > st.step_limit {
                    st.stack.push(rc);
                    return Err(Stop::Event("hang".into(), format!("more than {} steps", st.step_limit)));
                }
                if st.steps & 0xffff == 0 {
                    if let Some(d) = self.deadline {
                        if Instant::now() > d { st.stack.push(rc); *self.inconclusive.entry("time budget exhausted".into()).or_default() += 1; return Err(Stop::Drop); }
                    }
                }
            }
            macro_rules! simple { ($dst:expr, $v:expr) => {{ let v = $v; let fr = Rc::make_mut(&mut rc); fr.regs[$dst as usize] = v; fr.ip += 1; }}; }
            // any fallible step restores the frame first so a fork re-executes this instruction
            macro_rules! park { ($e:expr) => {{
                st.stack.push(rc.clone());
                let r = $e;
                match r {
                    Ok(x) => { st.stack.pop(); x }
                    Err(s) => return Err(s),
                }
            }}; }
            match inst {
                Inst::Bin { k, w, dst, a, b } => {
                    let (mut x, mut y) = (self.getw(&rc, *a, *w), self.getw(&rc, *b, *w));
                    if matches!(k, BinK::FAdd | BinK::FSub | BinK::FMul | BinK::FDiv | BinK::FRem) {
                        // floating point is computed on concrete values: one path per operand value
                        x = V::I(park!(self.conc(st, x, *w)) as u64);
                        y = V::I(park!(self.conc(st, y, *w)) as u64);
                    }
                    match self.binop(*k, *w, x, y) {
                        Ok(v) => simple!(*dst, v),
                        Err(m) => { st.stack.push(rc); return self.unsupported(m); }
                    }
                }
                Inst::Icmp { p, w, dst, a, b } => {
                    let (x, y) = (self.getw(&rc, *a, *w), self.getw(&rc, *b, *w));
                    let v = self.icmp(*p, *w, x, y);
                    simple!(*dst, v)
                }
                Inst::Cast { k, fw, tw, dst, a } => {
                    let mut x = self.getw(&rc, *a, *fw);
                    if !matches!(k, CastK::Trunc | CastK::ZExt | CastK::SExt | CastK::Bit) { x = V::I(park!(self.conc(st, x, *fw)) as u64); }
                    match self.cast(*k, *fw, *tw, x) {
                        Ok(v) => simple!(*dst, v),
                        Err(m) => { st.stack.push(rc); return self.unsupported(m); }
                    }
                }
                Inst::Gep { dst, base, off, idx } => {
                    let mut v = self.get(&rc, *base);
                    if *off != 0 { v = self.binop(BinK::Add, 64, v, V::I(*off as u64)).unwrap(); }
                    for (o, w, scale) in idx {
                        let i = self.getw(&rc, *o, *w);
                        let i = if *w < 64 { self.cast(CastK::SExt, *w, 64, i).unwrap() } else { i };
                        let s = self.binop(BinK::Mul, 64, i, V::I(*scale)).unwrap();
                        v = self.binop(BinK::Add, 64, v, s).unwrap();
                    }
                    simple!(*dst, v)
                }
                Inst::Load { dst, p, leaves } => {
                    let p = self.get(&rc, *p);
                    let mut vals: [V; 4] = [V::I(0); 4];
                    let mut big = vec![];
                    for (i, l) in leaves.iter().enumerate() {
                        let v = match p {
                            V::I(a) => match self.load1(st, a.wrapping_add(l.off), l.w) { Ok(v) => v, Err(s) => { st.stack.push(rc); return Err(s); } },
                            V::T(_) => {
                                let q = if l.off != 0 { self.binop(BinK::Add, 64, p, V::I(l.off)).unwrap() } else { p };
                                park!(self.load_any(st, q, l.w))
                            }
                        };
                        if leaves.len() <= 4 { vals[i] = v; } else { big.push(v); }
                    }
                    let fr = Rc::make_mut(&mut rc);
                    for i in 0..leaves.len() { fr.regs[*dst as usize + i] = if leaves.len() <= 4 { vals[i] } else { big[i] }; }
                    fr.ip += 1;
                }
                Inst::Store { v, p, leaves } => {
                    let p = self.get(&rc, *p);
                    let a = match p { V::I(a) => a, p => park!(self.conc(st, p, 64)) as u64 };
                    for (i, l) in leaves.iter().enumerate() {
                        let x = self.getw(&rc, v[i], l.w);
                        if let Err(s) = self.store1(st, a.wrapping_add(l.off), l.w, x) { st.stack.push(rc); return Err(s); }
                    }
                    Rc::make_mut(&mut rc).ip += 1;
                }
                Inst::Alloca { dst, size, n } => {
                    let n = self.get(&rc, *n);
                    let n = park!(self.conc(st, n, 64)) as u64;
                    let id = self.new_obj(st, size * n);
                    let fr = Rc::make_mut(&mut rc);
                    fr.allocas.push(id);
                    fr.regs[*dst as usize] = V::I(obj_addr(id));
                    fr.ip += 1;
                }
                Inst::Move { dst, src } => {
                    let vals: Vec<V> = src.iter().enumerate().map(|(i, o)| self.getw(&rc, *o, f.widths[*dst as usize + i])).collect();
                    let fr = Rc::make_mut(&mut rc);
                    for (i, v) in vals.into_iter().enumerate() { fr.regs[*dst as usize + i] = v; }
                    fr.ip += 1;
                }
                Inst::Select { c, dst, a, b, leaves } => {
                    let c = self.get(&rc, *c);
                    let mut vals = vec![];
                    for (i, l) in leaves.iter().enumerate() {
                        let (x, y) = (self.getw(&rc, a[i], l.w), self.getw(&rc, b[i], l.w));
                        vals.push(match c { V::I(k) => if k & 1 == 1 { x } else { y }, V::T(t) => self.select(t, x, y, l.w) });
                    }
                    let fr = Rc::make_mut(&mut rc);
                    for (i, v) in vals.into_iter().enumerate() { fr.regs[*dst as usize + i] = v; }
                    fr.ip += 1;
                }
                Inst::Br(t) => self.jump(Rc::make_mut(&mut rc), *t),
                Inst::CondBr(c, t, e) => {
                    let c = self.get(&rc, *c);
                    let k = match c { V::I(k) => k & 1 == 1, c => park!(self.decide(st, c)) };
                    self.jump(Rc::make_mut(&mut rc), if k { *t } else { *e });
                }
                Inst::Switch { v, w, def, cases } => {
                    let v = self.getw(&rc, *v, *w);
                    let to = match v {
                        V::I(x) => cases.iter().find(|(k, _)| *k == x as u128).map_or(*def, |c| c.1),
                        V::T(t) => park!(self.switch(st, t, *def, cases)),
                    };
                    self.jump(Rc::make_mut(&mut rc), to);
                }
                Inst::Call { dst, rets, callee, args } => {
                    let mut av: Vec<V> = Vec::with_capacity(args.len());
                    for (ops, w) in args.iter() {
                        for o in ops { let v = self.getw(&rc, *o, *w); av.push(v); }
                    }
                    let fid = match callee {
                        Callee::Fn(f) => *f,
                        Callee::Asm => { Rc::make_mut(&mut rc).ip += 1; continue; }
                        Callee::Ind(o) => {
                            let p = self.get(&rc, *o);
                            let a = match p { V::I(a) => a, p => park!(self.conc(st, p, 64)) as u64 };
                            match self.md.fn_of_addr(a) {
                                Some(f) => f,
                                None => { st.stack.push(rc); return self.ub(format!("call through invalid pointer {a:#x}")); }
                            }
                        }
                    };
                    let mut fid = fid;
                    let mut hook = self.hooks[fid as usize];
                    if hook == crate::ext::Hook::SkipToEscape {
                        // serde_json: its word-at-a-time scan and its own byte-at-a-time scan compute the same index
                        if let (Some(k), Some(V::I(1))) = (self.md.slow_scan, av.last()) { fid = k; }
                        hook = crate::ext::Hook::None;
                    }
                    if hook != crate::ext::Hook::None {
                        st.stack.push(rc);
                        let r = self.hook(st, hook, fid, &av, args, rets)?;
                        match r {
                            crate::ext::HookRes::Ret(vals) => {
                                rc = st.stack.pop().unwrap();
                                let fr = Rc::make_mut(&mut rc);
                                for (i, v) in vals.into_iter().enumerate() { if i < rets.len() { fr.regs[*dst as usize + i] = v; } }
                                fr.ip += 1;
                                continue;
                            }
                            crate::ext::HookRes::Fallthrough => { rc = st.stack.pop().unwrap(); }
                        }
                    }
                    let g = match self.md.func(fid) {
                        Some(g) => g,
                        None => { st.stack.push(rc); return self.unsupported(format!("external function {}", self.md.funcs[fid as usize].name)); }
                    };
                    Rc::make_mut(&mut rc).ip += 1;
                    st.stack.push(rc);
                    return self.push_call(st, g, av, *dst);
                }
                Inst::Ret(ops) => {
                    let mut vals: Vec<V> = vec![];
                    for o in ops { let v = self.get(&rc, *o); vals.push(v); }
                    for i in 0..rc.allocas.len() { let id = rc.allocas[i]; self.free_obj(st, id); }
                    let d = rc.ret as usize;
                    match st.stack.last_mut() {
                        None => return Err(Stop::Done),
                        Some(c) => {
                            if !vals.is_empty() {
                                let c = Rc::make_mut(c);
                                for (i, v) in vals.into_iter().enumerate() {
                                    let v = match v { V::I(x) if d + i < c.f.widths.len() && c.f.widths[d + i] > 64 => V::T(self.ar.cst(x as u128, c.f.widths[d + i])), v => v };
                                    if d + i < c.regs.len() { c.regs[d + i] = v; }
                                }
                            }
                        }
                    }
                    return Ok(());
                }
                Inst::Unreachable => { st.stack.push(rc); return self.ub("unreachable executed".into()); }
                Inst::Rmw { op, w, dst, p, v } => {
                    let p = self.get(&rc, *p);
                    let a = park!(self.conc(st, p, 64)) as u64;
                    let v = self.getw(&rc, *v, *w);
                    let old = match self.load1(st, a, *w) { Ok(v) => v, Err(s) => { st.stack.push(rc); return Err(s); } };
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.binop(BinK::Add, *w, old, v).unwrap(),
                        "sub" => self.binop(BinK::Sub, *w, old, v).unwrap(),
                        "and" => self.binop(BinK::And, *w, old, v).unwrap(),
                        "or" => self.binop(BinK::Or, *w, old, v).unwrap(),
                        "xor" => self.binop(BinK::Xor, *w, old, v).unwrap(),
                        o => { st.stack.push(rc); return self.unsupported(format!("atomicrmw {o}")); }
                    };
                    if let Err(s) = self.store1(st, a, *w, new) { st.stack.push(rc); return Err(s); }
                    simple!(*dst, old)
                }
                Inst::CmpXchg { w, dst, p, c, n } => {
                    let p = self.get(&rc, *p);
                    let a = park!(self.conc(st, p, 64)) as u64;
                    let (c, n) = (self.getw(&rc, *c, *w), self.getw(&rc, *n, *w));
                    let old = match self.load1(st, a, *w) { Ok(v) => v, Err(s) => { st.stack.push(rc); return Err(s); } };
                    let e = self.icmp(Pred::Eq, *w, old, c);
                    let e = park!(self.decide(st, e));
                    if e { if let Err(s) = self.store1(st, a, *w, n) { st.stack.push(rc); return Err(s); } }
                    let fr = Rc::make_mut(&mut rc);
                    fr.regs[*dst as usize] = old;
                    fr.regs[*dst as usize + 1] = V::I(e as u64);
                    fr.ip += 1;
                }
                Inst::Fcmp { p, w, dst, a, b } => {
                    let (x, y) = (self.get(&rc, *a), self.get(&rc, *b));
                    let v = match (x, y) {
                        (V::I(x), V::I(y)) => {
                            let (p1, q) = if *w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                            let un = p1.is_nan() || q.is_nan();
                            match p.as_str() {
                                "oeq" => p1 == q, "ogt" => p1 > q, "oge" => p1 >= q, "olt" => p1 < q, "ole" => p1 <= q, "one" => !un && p1 != q,
                                "ord" => !un, "uno" => un, "ueq" => un || p1 == q, "ugt" => un || p1 > q, "uge" => un || p1 >= q,
                                "ult" => un || p1 < q, "ule" => un || p1 <= q, "une" => un || p1 != q, _ => false,
                            }
                        }
                        _ => { st.stack.push(rc); return self.unsupported("floating-point comparison of a symbolic value".into()); }
                    };
                    simple!(*dst, V::I(v as u64))
                }
                Inst::FNeg { w, dst, a } => {
                    let x = self.get(&rc, *a);
                    match x {
                        V::I(x) => simple!(*dst, V::I(x ^ (1u64 << (*w - 1)))),
                        _ => { st.stack.push(rc); return self.unsupported("fneg".into()); }
                    }
                }
                Inst::Nop => { Rc::make_mut(&mut rc).ip += 1; }
                Inst::Unsupported(s) => { let s = s.clone(); st.stack.push(rc); return self.unsupported(s); }
            }
        }
    }
    fn switch(&mut self, st: &mut State, t: T, def: u32, cases: &[(u128, u32)]) -> R<u32> {
        if let Some(k) = self.const_known(st, t) {
            return Ok(cases.iter().find(|c| c.0 == k).map_or(def, |c| c.1));
        }
        let w = self.ar.w(t);
        let val = st.model.eval(&self.ar, t);
        let target = cases.iter().find(|c| c.0 == val).map_or(def, |c| c.1);
        // condition "goes to target"
        let mut any: Option<T> = None;
        for (k, l) in cases {
            let kk = self.ar.cst(*k, w);
            let e = self.ar.eq(t, kk);
            let c = if target == def {
                if *l != def { let n = self.ar.not1(e); Some(n) } else { None }
            } else if *l == target { Some(e) } else { None };
            if let Some(c) = c {
                any = Some(match any {
                    None => c,
                    Some(a) => if target == def { self.ar.and1(a, c) } else { self.ar.or1(a, c) },
                });
            }
        }
        if let Some(c) = any {
            // true under the model; the alternative re-executes the switch
            self.decide_t(st, c)?;
        }
        Ok(target)
    }
}
