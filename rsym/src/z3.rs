//! Minimal z3 C API binding and the query layer (slicing, caching, escalation).
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, f: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_uint) {
    eprintln!("z3 error code {e}");
}

pub struct Z3 {
    c: P,
    simple: P,
    guards: FxMap<T, P>,
    generation: u32,
    simple_uses: u32,
    bv: FxMap<T, P>,
    bo: FxMap<T, P>,
    sorts: HashMap<u16, P>,
    funcs: HashMap<u32, P>,
    boolsort: P,
    cache: HashMap<Vec<T>, Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub unknowns: u64,
    pub hard_ms: u32,
    pub dump: Option<String>,
    pub dumped: u32,
    pub n_sat: u64,
    pub n_unsat: u64,
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(hard_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let me = Z3 {
                c, simple: s, guards: Default::default(), generation: 0, simple_uses: 0, bv: Default::default(), bo: Default::default(), sorts: HashMap::new(),
                funcs: HashMap::new(), boolsort: Z3_mk_bool_sort(c), cache: HashMap::new(),
                queries: 0, cache_hits: 0, solver_s: 0.0, max_query_s: 0.0, unknowns: 0, hard_ms,
                dump: None, dumped: 0, n_sat: 0, n_unsat: 0,
            };
            me.timeout(s, 300);
            me
        }
    }
    unsafe fn timeout(&self, s: P, ms: u32) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
        Z3_solver_set_params(self.c, s, p);
    }
    fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) })
    }
    fn num(&mut self, v: u128, w: u16) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn prepare(&mut self, ar: &Arena, t: T) {
        // iterative post-order so deep terms do not overflow the stack
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            let w1 = ar.w(x) == 1;
            if (w1 && self.bo.contains_key(&x)) || (!w1 && self.bv.contains_key(&x)) { continue; }
            if done { self.build(ar, x); continue; }
            stack.push((x, true));
            for k in ar.kids(x) { stack.push((k, false)); }
        }
    }
    fn as_bv(&mut self, ar: &Arena, t: T) -> P {
        if ar.w(t) != 1 { return self.bv[&t]; }
        if let Some(&p) = self.bv.get(&t) { return p; }
        let b = self.bo[&t];
        let (o, z) = (self.num(1, 1), self.num(0, 1));
        let p = unsafe { Z3_mk_ite(self.c, b, o, z) };
        self.bv.insert(t, p);
        p
    }
    fn build(&mut self, ar: &Arena, t: T) {
        let c = self.c;
        let w = ar.w(t);
        unsafe {
            if w == 1 {
                let r = match &ar.nodes[t as usize] {
                    Node::Const(k) => if *k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                    Node::Var(i) => {
                        let n = CString::new(format!("v{i}")).unwrap();
                        Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), self.boolsort)
                    }
                    Node::Bin(op, a, b) => {
                        let w1 = ar.w(*a) == 1;
                        match op {
                            Op::And | Op::Or | Op::Xor => {
                                let v = [self.bo[a], self.bo[b]];
                                match op {
                                    Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                                    Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                                    _ => if ar.as_const(*b) == Some(1) { Z3_mk_not(c, v[0]) } else { Z3_mk_xor(c, v[0], v[1]) },
                                }
                            }
                            Op::Eq if w1 => Z3_mk_eq(c, self.bo[a], self.bo[b]),
                            _ => {
                                let (x, y) = (self.as_bv(ar, *a), self.as_bv(ar, *b));
                                match op {
                                    Op::Eq => Z3_mk_eq(c, x, y),
                                    Op::Ult => Z3_mk_bvult(c, x, y),
                                    Op::Ule => Z3_mk_bvule(c, x, y),
                                    Op::Slt => Z3_mk_bvslt(c, x, y),
                                    Op::Sle => Z3_mk_bvsle(c, x, y),
                                    _ => { let r = self.bvop(*op, x, y); let o = self.num(1, 1); Z3_mk_eq(c, r, o) }
                                }
                            }
                        }
                    }
                    Node::Ite(a, b, d) => Z3_mk_ite(c, self.bo[a], self.bo[b], self.bo[d]),
                    Node::Extract(a, h, l) => {
                        let x = self.as_bv(ar, *a);
                        let e = Z3_mk_extract(c, *h as c_uint, *l as c_uint, x);
                        let o = self.num(1, 1);
                        Z3_mk_eq(c, e, o)
                    }
                    Node::Uf(i, args) => {
                        let e = self.app(ar, *i, args, 1);
                        let o = self.num(1, 1);
                        Z3_mk_eq(c, e, o)
                    }
                    n => panic!("width-1 {n:?}"),
                };
                self.bo.insert(t, r);
            } else {
                let r = match &ar.nodes[t as usize] {
                    Node::Const(k) => self.num(*k, w),
                    Node::Var(i) => {
                        let n = CString::new(format!("v{i}")).unwrap();
                        let s = self.sort(w);
                        Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), s)
                    }
                    Node::Uf(i, args) => self.app(ar, *i, args, w),
                    Node::Bin(op, a, b) => {
                        let (x, y) = (self.as_bv(ar, *a), self.as_bv(ar, *b));
                        self.bvop(*op, x, y)
                    }
                    Node::Ite(a, b, d) => Z3_mk_ite(c, self.bo[a], self.bv[b], self.bv[d]),
                    Node::Extract(a, h, l) => { let x = self.as_bv(ar, *a); Z3_mk_extract(c, *h as c_uint, *l as c_uint, x) }
                    Node::Concat(a, b) => { let (x, y) = (self.as_bv(ar, *a), self.as_bv(ar, *b)); Z3_mk_concat(c, x, y) }
                    Node::SExt(a) => { let x = self.as_bv(ar, *a); Z3_mk_sign_ext(c, (w - ar.w(*a)) as c_uint, x) }
                };
                self.bv.insert(t, r);
            }
        }
    }
    unsafe fn bvop(&mut self, op: Op, x: P, y: P) -> P {
        let c = self.c;
        match op {
            Op::Add => Z3_mk_bvadd(c, x, y),
            Op::Sub => Z3_mk_bvsub(c, x, y),
            Op::Mul => Z3_mk_bvmul(c, x, y),
            Op::UDiv => Z3_mk_bvudiv(c, x, y),
            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
            Op::URem => Z3_mk_bvurem(c, x, y),
            Op::SRem => Z3_mk_bvsrem(c, x, y),
            Op::And => Z3_mk_bvand(c, x, y),
            Op::Or => Z3_mk_bvor(c, x, y),
            Op::Xor => Z3_mk_bvxor(c, x, y),
            Op::Shl => Z3_mk_bvshl(c, x, y),
            Op::LShr => Z3_mk_bvlshr(c, x, y),
            Op::AShr => Z3_mk_bvashr(c, x, y),
            _ => unreachable!(),
        }
    }
    unsafe fn app(&mut self, ar: &Arena, i: u32, args: &[T], w: u16) -> P {
        let a: Vec<P> = args.iter().map(|x| self.as_bv(ar, *x)).collect();
        let f = match self.funcs.get(&i) {
            Some(&f) => f,
            None => {
                let d: Vec<P> = args.iter().map(|x| self.sort(ar.w(*x))).collect();
                let r = self.sort(w);
                let n = CString::new(format!("f{i}")).unwrap();
                let f = Z3_mk_func_decl(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), d.len() as c_uint, d.as_ptr(), r);
                self.funcs.insert(i, f);
                f
            }
        };
        Z3_mk_app(self.c, f, a.len() as c_uint, a.as_ptr())
    }
    unsafe fn value(&mut self, m: P, t: P) -> u128 {
        let mut v: P = std::ptr::null_mut();
        if !Z3_model_eval(self.c, m, t, true, &mut v) { return 0; }
        let b = Z3_get_bool_value(self.c, v);
        if b == 1 { return 1; }
        if b == -1 { return 0; }
        let mut u = 0u64;
        if Z3_get_numeral_uint64(self.c, v, &mut u) { return u as u128; }
        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, v)).to_string_lossy().into_owned();
        s.parse::<u128>().unwrap_or(0)
    }
    fn run(&mut self, ar: &mut Arena, q: &[T]) -> Res {
        for &t in q { self.prepare(ar, t); }
        let start = Instant::now();
        self.queries += 1;
        let mut res = Res::Unknown;
        unsafe {
            // recycle the incremental solver now and then (its lemma store only grows)
            self.simple_uses += 1;
            let tiers = [(self.simple, 0u32, false), (std::ptr::null_mut(), self.hard_ms, true)];
            for (s0, ms, hard) in tiers {
                let s = if hard {
                    let hasuf = q.iter().any(|t| ar.leaves(*t).iter().any(|l| l & 0x8000_0000 != 0));
                    let l = CString::new(if hasuf { "QF_UFBV" } else { "QF_BV" }).unwrap();
                    let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
                    Z3_solver_inc_ref(self.c, s);
                    self.timeout(s, ms);
                    s
                } else { s0 };
                // the first tier keeps its assertions behind guard literals, so that later queries reuse the encoding
                let mut guards: Vec<P> = vec![];
                if hard {
                    for &t in q { let b = self.bo[&t]; Z3_solver_assert(self.c, s, b); }
                } else {
                    for &t in q {
                        let g = match self.guards.get(&t) {
                            Some(g) => *g,
                            None => {
                                let bs = Z3_mk_bool_sort(self.c);
                                let n = CString::new(format!("g!{}!{t}", self.generation)).unwrap();
                                let g = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), bs);
                                Z3_solver_assert(self.c, s, Z3_mk_implies(self.c, g, self.bo[&t]));
                                self.guards.insert(t, g);
                                g
                            }
                        };
                        guards.push(g);
                    }
                }
                if let Some(d) = &self.dump {
                    if !hard && (self.queries % 7 == 1) && self.dumped < 40 {
                        self.dumped += 1;
                        let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                        let _ = std::fs::write(format!("{d}.q{}.smt2", self.dumped), &txt);
                    }
                }
                let r = if hard { Z3_solver_check(self.c, s) } else { Z3_solver_check_assumptions(self.c, s, guards.len() as c_uint, guards.as_ptr()) };
                if r == 1 {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut model = Model::default();
                    // collect vars and UF applications
                    let mut seen: FxSet<T> = Default::default();
                    let mut st: Vec<T> = q.to_vec();
                    let mut apps = vec![];
                    while let Some(x) = st.pop() {
                        if !seen.insert(x) { continue; }
                        match &ar.nodes[x as usize] {
                            Node::Var(i) => {
                                let p = if ar.w(x) == 1 { self.bo[&x] } else { self.bv[&x] };
                                let v = self.value(m, p);
                                model.vars.insert(*i, v);
                            }
                            Node::Uf(..) => apps.push(x),
                            _ => {}
                        }
                        st.extend(ar.kids(x));
                    }
                    apps.sort_unstable();
                    for x in apps {
                        if let Node::Uf(i, args) = ar.nodes[x as usize].clone() {
                            let key: Vec<u128> = args.iter().map(|a| { let p = self.as_bv(ar, *a); self.value(m, p) }).collect();
                            let p = if ar.w(x) == 1 { self.bo[&x] } else { self.bv[&x] };
                            let v = self.value(m, p);
                            model.ufs.insert((i, key), v);
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    res = Res::Sat(Rc::new(model));
                } else if r == -1 {
                    res = Res::Unsat;
                }
                if hard { Z3_solver_dec_ref(self.c, s); }
                if r != 0 { break; }
            }
            if self.simple_uses > 400 {
                Z3_solver_dec_ref(self.c, self.simple);
                self.simple = Z3_mk_simple_solver(self.c);
                Z3_solver_inc_ref(self.c, self.simple);
                self.timeout(self.simple, 300);
                self.simple_uses = 0;
                self.guards.clear();
                self.generation += 1;
            }
        }
        let dt = start.elapsed().as_secs_f64();
        if dt > 0.5 && std::env::var("RSYM_SLOW").is_ok() {
            unsafe {
                let s = Z3_mk_simple_solver(self.c);
                Z3_solver_inc_ref(self.c, s);
                for &t in q { Z3_solver_assert(self.c, s, self.bo[&t]); }
                let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}.{}.smt2", std::env::var("RSYM_SLOW").unwrap(), self.queries), &txt);
                Z3_solver_dec_ref(self.c, s);
            }
            eprintln!("slow query {} {dt:.2}s", self.queries);
        }
        self.solver_s += dt;
        if dt > self.max_query_s { self.max_query_s = dt; }
        match res { Res::Sat(_) => self.n_sat += 1, Res::Unsat => self.n_unsat += 1, Res::Unknown => self.unknowns += 1 }
        res
    }
    /// Is pc /\ extra satisfiable?  `base` is a model of pc; a Sat answer is a model of all of it.
    pub fn check(&mut self, ar: &mut Arena, pc: &[T], extra: T, base: &Rc<Model>) -> Res {
        match ar.as_const(extra) {
            Some(0) => return Res::Unsat,
            Some(_) => return Res::Sat(base.clone()),
            None => {}
        }
        // slice
        let mut need: FxSet<u32> = ar.leaves(extra).iter().copied().collect();
        let lv: Vec<Rc<Vec<u32>>> = pc.iter().map(|t| ar.leaves(*t)).collect();
        let mut taken = vec![false; pc.len()];
        let mut q = vec![extra];
        loop {
            let mut ch = false;
            for i in (0..pc.len()).rev() {
                if !taken[i] && lv[i].iter().any(|l| need.contains(l)) {
                    taken[i] = true;
                    ch = true;
                    q.push(pc[i]);
                    need.extend(lv[i].iter().copied());
                }
            }
            if !ch { break; }
        }
        q.sort_unstable();
        q.dedup();
        let r = if let Some(r) = self.cache.get(&q) {
            self.cache_hits += 1;
            r.clone()
        } else {
            let r = self.run(ar, &q);
            self.cache.insert(q, r.clone());
            r
        };
        match r {
            Res::Sat(m) => {
                let mut full = (**base).clone();
                for (k, v) in &m.vars { full.vars.insert(*k, *v); }
                if !m.ufs.is_empty() {
                    let touched: FxSet<u32> = m.ufs.keys().map(|k| k.0).collect();
                    full.ufs.retain(|k, _| !touched.contains(&k.0));
                    for (k, v) in &m.ufs { full.ufs.insert(k.clone(), *v); }
                }
                Res::Sat(Rc::new(full))
            }
            o => o,
        }
    }
    /// Unsliced query, for final counterexamples.
    pub fn check_all(&mut self, ar: &mut Arena, q: &[T]) -> Res {
        let mut v: Vec<T> = vec![];
        for &t in q {
            match ar.as_const(t) { Some(0) => return Res::Unsat, Some(_) => {}, None => v.push(t) }
        }
        v.sort_unstable();
        v.dedup();
        self.run(ar, &v)
    }
}
