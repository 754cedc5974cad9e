//! Hash-consed bit-vector terms with a rewriting constructor set.
use std::collections::HashMap;
use std::rc::Rc;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Uf(u32, Box<[T]>),
    Bin(Op, T, T),
    Ite(T, T, T),
    Extract(T, u16, u16), // hi, lo
    Concat(T, T),         // high, low
    SExt(T),
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub width: u16,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext128(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u16>,
    map: FxMap<(Node, u16), T>,
    pub vars: Vec<VarInfo>,
    pub ufs: Vec<(String, u16)>,
    uf_map: HashMap<String, u32>,
    umax: FxMap<T, (u128, u128)>,
    lins: FxMap<T, Rc<Lin>>,
    sums: HashMap<(u16, i128, Vec<(T, i128)>), T>,
    parts: FxMap<(T, u16, u16), T>,
    leaves: FxMap<T, std::rc::Rc<Vec<u32>>>,
}

pub fn fold(op: Op, a: u128, b: u128, w: u16) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y)) as u128 & m }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y)) as u128 & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (x >> s.min(127)) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
    }
}

/// k + the sum of factors times terms: the term's value if exact, else equal to it modulo two to the power of its width
#[derive(Clone, Debug)]
pub struct Lin {
    exact: bool,
    k: i128,
    sum: Vec<(T, i128)>,
}
impl Lin {
    /// f * self + g * o
    fn plus(&self, f: i128, o: &Lin, g: i128, exact: bool) -> Option<Lin> {
        let big = 1i128 << 100;
        let ok = |v: i128| if v.abs() < big { Some(v) } else { None };
        let k = ok(self.k.checked_mul(f)?.checked_add(o.k.checked_mul(g)?)?)?;
        let mut sum: Vec<(T, i128)> = Vec::new();
        let (mut i, mut j) = (0, 0);
        while i < self.sum.len() || j < o.sum.len() {
            let (t, v) = match (self.sum.get(i), o.sum.get(j)) {
                (Some(a), Some(b)) if a.0 == b.0 => { i += 1; j += 1; (a.0, a.1.checked_mul(f)?.checked_add(b.1.checked_mul(g)?)?) }
                (Some(a), Some(b)) if a.0 > b.0 => { j += 1; (b.0, b.1.checked_mul(g)?) }
                (Some(a), _) => { i += 1; (a.0, a.1.checked_mul(f)?) }
                (None, Some(b)) => { j += 1; (b.0, b.1.checked_mul(g)?) }
                _ => break,
            };
            if v != 0 { sum.push((t, ok(v)?)); }
        }
        Some(Lin { exact, k, sum })
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: vec![], width: vec![], map: Default::default(), vars: vec![], ufs: vec![],
            uf_map: HashMap::new(), umax: Default::default(), lins: Default::default(), sums: Default::default(), parts: Default::default(), leaves: Default::default(),
        }
    }
    fn mk(&mut self, n: Node, w: u16) -> T {
        debug_assert!(w > 0);
        if let Some(&t) = self.map.get(&(n.clone(), w)) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.width.push(w);
        self.map.insert((n, w), t);
        t
    }
    pub fn w(&self, t: T) -> u16 {
        self.width[t as usize]
    }
    pub fn cst(&mut self, v: u128, w: u16) -> T {
        assert!(w <= 128);
        self.mk(Node::Const(v & mask(w)), w)
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        match self.nodes[t as usize] {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn var(&mut self, name: &str, w: u16) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), width: w });
        self.mk(Node::Var(id), w)
    }
    pub fn uf(&mut self, name: &str, args: &[T], w: u16) -> T {
        let mut key = format!("{}/{}", name, w);
        for a in args {
            key.push_str(&format!(",{}", self.w(*a)));
        }
        let id = match self.uf_map.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.ufs.len() as u32;
                self.ufs.push((key.clone(), w));
                self.uf_map.insert(key, i);
                i
            }
        };
        self.mk(Node::Uf(id, args.into()), w)
    }
    pub fn tru(&mut self) -> T {
        self.cst(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.cst(0, 1)
    }
    pub fn not1(&mut self, a: T) -> T {
        debug_assert!(self.w(a) == 1);
        let one = self.tru();
        self.bin(Op::Xor, a, one)
    }
    pub fn and1(&mut self, a: T, b: T) -> T {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: T, b: T) -> T {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.bin(Op::Eq, a, b)
    }

    /// Cheap unsigned interval of a term.
    pub fn range(&mut self, t: T) -> (u128, u128) {
        if let Some(&r) = self.umax.get(&t) {
            return r;
        }
        let w = self.w(t);
        let full = (0, mask(w));
        let r = match self.nodes[t as usize].clone() {
            Node::Const(c) => (c, c),
            Node::Concat(a, b) => {
                let (al, ah) = self.range(a);
                let (bl, bh) = self.range(b);
                let wb = self.w(b);
                if w <= 128 {
                    if al == ah { ((al << wb) + bl, (ah << wb) + bh) } else { ((al << wb) + bl, (ah << wb) + bh) }
                } else { full }
            }
            Node::Ite(_, a, b) => {
                let (al, ah) = self.range(a);
                let (bl, bh) = self.range(b);
                (al.min(bl), ah.max(bh))
            }
            Node::Extract(a, hi, lo) => {
                let (l, h) = self.range(a);
                if lo == 0 {
                    if h <= mask(hi + 1) { (l, h) } else { full }
                } else if h >> lo <= mask(w) && (hi as u32) < 128 { (l >> lo, h >> lo) } else { full }
            }
            Node::Bin(op, a, b) => {
                let (al, ah) = self.range(a);
                let (bl, bh) = self.range(b);
                match op {
                    Op::Add => match ah.checked_add(bh) {
                        Some(s) if s <= mask(w) => (al + bl, s),
                        _ => full,
                    },
                    Op::Mul => match ah.checked_mul(bh) {
                        Some(s) if s <= mask(w) => (al.wrapping_mul(bl), s),
                        _ => full,
                    },
                    Op::Sub => if al >= bh { (al - bh, ah - bl) } else { full },
                    Op::And => (0, ah.min(bh)),
                    Op::Or | Op::Xor => {
                        let m = ah | bh;
                        let bits = 128 - m.leading_zeros();
                        (0, mask(bits as u16).min(mask(w)))
                    }
                    Op::UDiv => if bl > 0 { (al / bh, ah / bl) } else { full },
                    Op::URem => if bl > 0 { (0, ah.min(bh - 1)) } else { full },
                    Op::LShr => (0, ah),
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => (0, 1),
                    _ => full,
                }
            }
            _ => full,
        };
        self.umax.insert(t, r);
        r
    }

    /// A term as a linear combination of others.
    fn linear(&mut self, t: T) -> Rc<Lin> {
        if let Some(l) = self.lins.get(&t) {
            return l.clone();
        }
        let w = self.w(t);
        let atom = || Rc::new(Lin { exact: true, k: 0, sum: vec![(t, 1)] });
        let l = if w > 64 { None } else {
            match self.nodes[t as usize].clone() {
                Node::Const(c) => Some(Lin { exact: true, k: c as i128, sum: vec![] }),
                Node::Concat(x, y) => self.linear_concat(x, y),
                Node::Extract(x, hi, 0) if self.w(x) <= 64 => {
                    let l = self.linear(x);
                    let exact = l.exact && self.range(x).1 <= mask(hi + 1);
                    Some(Lin { exact, ..(*l).clone() })
                }
                Node::Bin(op, x, y) if op == Op::Add || op == Op::Sub || op == Op::Mul => {
                    let ((xl, xh), (_, yh)) = (self.range(x), self.range(y));
                    let exact = match op {
                        Op::Add => xh + yh <= mask(w),
                        Op::Mul => xh.checked_mul(yh).map_or(false, |s| s <= mask(w)),
                        _ => xl >= yh,
                    };
                    let lx = self.linear(x);
                    match (op, self.as_const(y)) {
                        (Op::Mul, None) => None,
                        (Op::Mul, Some(c)) => lx.plus(0, &lx, c as i128, exact && lx.exact),
                        _ => {
                            let ly = self.linear(y);
                            lx.plus(1, &ly, if op == Op::Sub { -1 } else { 1 }, exact && lx.exact && ly.exact)
                        }
                    }
                }
                _ => None,
            }
        };
        let l = match l {
            Some(mut l) => {
                if !l.exact {
                    // modulo 2^w
                    let m = mask(w) as i128;
                    l.k &= m;
                    l.sum.retain_mut(|e| { e.1 &= m; e.1 != 0 });
                }
                if l.sum.len() > 64 { atom() } else { Rc::new(l) }
            }
            None => atom(),
        };
        self.lins.insert(t, l.clone());
        l
    }
    fn linear_concat(&mut self, x: T, y: T) -> Option<Lin> {
        let wy = self.w(y);
        // the upper and the lower part of one sum
        if let Node::Extract(t, hi, lo) = self.nodes[x as usize] {
            if lo == wy && self.w(t) <= 64 {
                let (lt, ly) = (self.linear(t), self.linear(y));
                let d = lt.plus(1, &ly, -1, false)?;
                let m = mask(wy) as i128;
                if d.k & m == 0 && d.sum.iter().all(|e| e.1 & m == 0) {
                    let exact = lt.exact && self.range(t).1 <= mask(hi + 1);
                    return Some(Lin { exact, ..(*lt).clone() });
                }
            }
        }
        let (lx, ly) = (self.linear(x), self.linear(y));
        let ly = if ly.exact { ly } else { Rc::new(Lin { exact: true, k: 0, sum: vec![(y, 1)] }) };
        ly.plus(1, &lx, 1i128 << wy, lx.exact)
    }
    /// The first term that was built with this one's linear form.
    fn canonical(&mut self, t: T) -> T {
        let w = self.w(t);
        if w > 64 || w < 4 || !matches!(self.nodes[t as usize], Node::Bin(Op::Add | Op::Sub | Op::Mul, ..) | Node::Concat(..)) { return t; }
        let l = self.linear(t);
        if l.sum.len() == 1 && l.sum[0].0 == t { return t; }
        let m = mask(w) as i128;
        let key = (w, l.k & m, l.sum.iter().map(|e| (e.0, e.1 & m)).filter(|e| e.1 != 0).collect());
        *self.sums.entry(key).or_insert(t)
    }
    /// Are two terms equal as linear combinations?
    fn same_linear(&mut self, a: T, b: T) -> bool {
        let w = self.w(a);
        if w > 64 || w < 4 { return false; }
        let (la, lb) = (self.linear(a), self.linear(b));
        let m = mask(w) as i128;
        la.plus(1, &lb, -1, false).map_or(false, |d| d.k & m == 0 && d.sum.iter().all(|e| e.1 & m == 0))
    }
    /// Does a >= b always hold, or never?
    fn order_linear(&mut self, a: T, b: T) -> Option<bool> {
        let w = self.w(a);
        if w > 64 || w < 4 { return None; }
        let (la, lb) = (self.linear(a), self.linear(b));
        if !la.exact || !lb.exact { return None; }
        let d = la.plus(1, &lb, -1, true)?;
        let (mut lo, mut hi) = (d.k, d.k);
        for (t, c) in d.sum {
            let (tl, th) = self.range(t);
            let (x, y) = (c.checked_mul(tl as i128)?, c.checked_mul(th as i128)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        if lo >= 0 { Some(true) } else if hi < 0 { Some(false) } else { None }
    }

    pub fn zext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        let z = self.cst(0, w - wa);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(c) = self.as_const(a) {
            return self.cst(sext128(c, wa) as u128, w);
        }
        let (_, h) = self.range(a);
        if h >> (wa - 1) == 0 {
            return self.zext(a, w);
        }
        if wa == 1 {
            let x = self.cst(mask(w), w);
            let z = self.cst(0, w);
            return self.ite(a, x, z);
        }
        self.mk(Node::SExt(a), w)
    }
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if w <= 128 {
                return self.cst((x << wb) | y, w);
            }
        }
        // right-associate: concat(concat(a1,a2), b) -> concat(a1, concat(a2,b))
        if let Node::Concat(a1, a2) = self.nodes[a as usize] {
            let r = self.concat(a2, b);
            return self.concat(a1, r);
        }
        // merge extracts
        if let Node::Extract(x, hi, lo) = self.nodes[a as usize] {
            if let Node::Extract(y, hi2, lo2) = self.nodes[b as usize] {
                if x == y && lo == hi2 + 1 {
                    return self.extract(x, hi, lo2);
                }
            }
            // the low part of a sum has become a sum of low parts
            if lo == wb && self.w(x) <= 64 && matches!(self.nodes[x as usize], Node::Bin(Op::Add | Op::Sub | Op::Mul, ..)) {
                let (lx, lb) = (self.linear(x), self.linear(b));
                let m = mask(lo) as i128;
                if lx.plus(1, &lb, -1, false).map_or(false, |d| d.k & m == 0 && d.sum.iter().all(|e| e.1 & m == 0)) {
                    return self.extract(x, hi, 0);
                }
            }
            if let Node::Concat(b1, b2) = self.nodes[b as usize] {
                if let Node::Extract(y, hi2, lo2) = self.nodes[b1 as usize] {
                    if x == y && lo == hi2 + 1 {
                        let e = self.extract(x, hi, lo2);
                        return self.concat(e, b2);
                    }
                }
            }
        }
        if let Some(x) = self.as_const(a) {
            if let Node::Concat(b1, b2) = self.nodes[b as usize] {
                if let Some(y) = self.as_const(b1) {
                    let w1 = self.w(b1);
                    if w1 + wa <= 128 {
                        let c = self.cst((x << w1) | y, w1 + wa);
                        return self.concat(c, b2);
                    }
                }
            }
        }
        let t = self.mk(Node::Concat(a, b), w);
        if self.as_const(a) == Some(0) && matches!(self.nodes[b as usize], Node::Bin(Op::Add | Op::Sub | Op::Mul, ..)) {
            return self.canonical(t);
        }
        t
    }
    pub fn extract(&mut self, a: T, hi: u16, lo: u16) -> T {
        let wa = self.w(a);
        let w = hi - lo + 1;
        if w == wa { return a; }
        let key = (a, hi, lo);
        if let Some(&t) = self.parts.get(&key) { return t; }
        let t = self.extract_(a, hi, lo);
        self.parts.insert(key, t);
        t
    }
    fn extract_(&mut self, a: T, hi: u16, lo: u16) -> T {
        let w = hi - lo + 1;
        match self.nodes[a as usize].clone() {
            Node::Const(c) => self.cst((c >> lo) & mask(w), w),
            Node::Extract(x, _, l0) => self.extract(x, hi + l0, lo + l0),
            Node::Concat(x, y) => {
                let wy = self.w(y);
                if hi < wy {
                    self.extract(y, hi, lo)
                } else if lo >= wy {
                    self.extract(x, hi - wy, lo - wy)
                } else {
                    let h = self.extract(x, hi - wy, 0);
                    let l = self.extract(y, wy - 1, lo);
                    self.concat(h, l)
                }
            }
            Node::SExt(x) => {
                let wx = self.w(x);
                if hi < wx {
                    self.extract(x, hi, lo)
                } else if lo == 0 {
                    self.sext(x, w)
                } else {
                    self.mk(Node::Extract(a, hi, lo), w)
                }
            }
            Node::Ite(c, x, y) => {
                let ex = self.extract(x, hi, lo);
                let ey = self.extract(y, hi, lo);
                self.ite(c, ex, ey)
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let ex = self.extract(x, hi, lo);
                let ey = self.extract(y, hi, lo);
                self.bin(op, ex, ey)
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let ex = self.extract(x, hi, lo);
                let ey = self.extract(y, hi, lo);
                self.bin(op, ex, ey)
            }
            _ => {
                let (_, h) = self.range(a);
                if lo > 0 && (h >> lo) == 0 {
                    return self.cst(0, w);
                }
                if lo == 0 && h <= mask(w) {
                    // may still be a genuine narrowing
                }
                self.mk(Node::Extract(a, hi, lo), w)
            }
        }
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b { return a; }
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        // ite(!c,a,b)
        if let Node::Bin(Op::Xor, x, y) = self.nodes[c as usize] {
            if self.as_const(y) == Some(1) && self.w(c) == 1 {
                return self.ite(x, b, a);
            }
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), _) => return self.or1(c, b),
                (Some(0), _) => { let n = self.not1(c); return self.and1(n, b); }
                (_, Some(0)) => return self.and1(c, a),
                (_, Some(1)) => { let n = self.not1(c); return self.or1(n, a); }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, y) = self.nodes[b as usize] {
            if c2 == c { return self.ite(c, a, y); }
            if x == a { let cc = self.or1(c, c2); return self.ite(cc, a, y); }
        }
        if let Node::Ite(c2, x, _) = self.nodes[a as usize] {
            if c2 == c { return self.ite(c, x, b); }
        }
        self.mk(Node::Ite(c, a, b), w)
    }

    fn concat_cut(&self, t: T) -> Option<(T, T)> {
        match self.nodes[t as usize] {
            Node::Concat(a, b) => Some((a, b)),
            _ => None,
        }
    }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let t = self.bin_(op, a, b);
        if matches!(op, Op::Add | Op::Sub | Op::Mul) { self.canonical(t) } else { t }
    }
    fn bin_(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert!(w == self.w(b), "width mismatch {:?} {} {}", op, w, self.w(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, x, y, w);
            return self.cst(v, rw);
        }
        // commutative: const to the right; otherwise order by id
        let (a, b, ca, cb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) { (b, a, cb, ca) } else { (a, b, ca, cb) }
            }
            _ => (a, b, ca, cb),
        };
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    if let Node::Bin(Op::Add, x, y) = self.nodes[a as usize] {
                        if let Some(k2) = self.as_const(y) {
                            let kk = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, x, kk);
                        }
                    }
                    if let Node::Bin(Op::Sub, x, y) = self.nodes[a as usize] {
                        if let Some(k2) = self.as_const(x) {
                            let kk = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Op::Sub, kk, y);
                        }
                    }
                    if let Node::Ite(c, x, y) = self.nodes[a as usize] {
                        if self.as_const(x).is_some() && self.as_const(y).is_some() {
                            let x2 = self.bin(Op::Add, x, b);
                            let y2 = self.bin(Op::Add, y, b);
                            return self.ite(c, x2, y2);
                        }
                    }
                }
                // (x + k) + y -> (x+y)+k
                if let Node::Bin(Op::Add, x, y) = self.nodes[a as usize] {
                    if self.as_const(y).is_some() && cb.is_none() {
                        let s = self.bin(Op::Add, x, b);
                        return self.bin(Op::Add, s, y);
                    }
                }
                if let Node::Bin(Op::Add, x, y) = self.nodes[b as usize] {
                    if self.as_const(y).is_some() {
                        let s = self.bin(Op::Add, a, x);
                        return self.bin(Op::Add, s, y);
                    }
                }
                // (x - y) + y
                if let Node::Bin(Op::Sub, x, y) = self.nodes[a as usize] {
                    if y == b { return x; }
                }
                if let Node::Bin(Op::Sub, x, y) = self.nodes[b as usize] {
                    if y == a { return x; }
                }
                if w == 1 { return self.bin(Op::Xor, a, b); }
            }
            Op::Sub => {
                if a == b { return self.cst(0, w); }
                if let Some(k) = cb {
                    let n = self.cst(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, a, n);
                }
                if let Node::Bin(Op::Add, x, y) = self.nodes[a as usize] {
                    if x == b { return y; }
                    if y == b { return x; }
                    if self.as_const(y).is_some() {
                        let s = self.bin(Op::Sub, x, b);
                        return self.bin(Op::Add, s, y);
                    }
                }
                if let Node::Bin(Op::Add, x, y) = self.nodes[b as usize] {
                    if let Some(k) = self.as_const(y) {
                        let s = self.bin(Op::Sub, a, x);
                        let n = self.cst(0u128.wrapping_sub(k), w);
                        return self.bin(Op::Add, s, n);
                    }
                }
                if w == 1 { return self.bin(Op::Xor, a, b); }
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 { return b; }
                    if k == 1 { return a; }
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                    if let Node::Ite(c, x, y) = self.nodes[a as usize] {
                        if self.as_const(x).is_some() && self.as_const(y).is_some() {
                            let x2 = self.bin(Op::Mul, x, b);
                            let y2 = self.bin(Op::Mul, y, b);
                            return self.ite(c, x2, y2);
                        }
                    }
                }
                if w == 1 { return self.bin(Op::And, a, b); }
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k == 1 { return a; }
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if k != 0 && self.range(a).1 < k { return self.cst(0, w); }
                    // narrow
                    if let Some(t) = self.narrow(op, a, b) { return t; }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k == 1 { return self.cst(0, w); }
                    if k.is_power_of_two() {
                        let s = self.cst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                    if k != 0 && self.range(a).1 < k { return a; }
                    if let Some(t) = self.narrow(op, a, b) { return t; }
                }
            }
            Op::SDiv => {
                let (ah, bh) = (self.range(a).1, self.range(b).1);
                if ah >> (w - 1) == 0 && bh >> (w - 1) == 0 { return self.bin(Op::UDiv, a, b); }
            }
            Op::SRem => {
                let (ah, bh) = (self.range(a).1, self.range(b).1);
                if ah >> (w - 1) == 0 && bh >> (w - 1) == 0 { return self.bin(Op::URem, a, b); }
            }
            Op::And | Op::Or | Op::Xor => {
                let m = mask(w);
                if a == b {
                    return if op == Op::Xor { self.cst(0, w) } else { a };
                }
                if op == Op::Xor {
                    for (p, q) in [(a, b), (b, a)] {
                        if let Node::Bin(Op::Xor, x, y) = self.nodes[q as usize] {
                            if x == p { return y; }
                            if y == p { return x; }
                        }
                    }
                }
                if let Some(k) = cb {
                    match op {
                        Op::And => {
                            if k == 0 { return b; }
                            if k == m { return a; }
                        }
                        Op::Or => {
                            if k == 0 { return a; }
                            if k == m { return b; }
                        }
                        _ => {
                            if k == 0 { return a; }
                        }
                    }
                    if let Node::Bin(op2, x, y) = self.nodes[a as usize] {
                        if op2 == op {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.cst(fold(op, k, k2, w), w);
                                return self.bin(op, x, kk);
                            }
                        }
                    }
                    if op == Op::And && w > 1 {
                        // split the mask into runs
                        let tz = k.trailing_zeros() as u16;
                        let run = (k >> tz).trailing_ones() as u16;
                        if k == mask(run) << tz {
                            let e = self.extract(a, tz + run - 1, tz);
                            let e = if tz > 0 { let z = self.cst(0, tz); self.concat(e, z) } else { e };
                            return self.zext(e, w);
                        }
                    }
                    if op == Op::Or && w > 1 {
                        let tz = k.trailing_zeros() as u16;
                        let run = (k >> tz).trailing_ones() as u16;
                        if k == mask(run) << tz && run <= 128 {
                            let mid = self.cst(mask(run), run);
                            let lo = if tz > 0 { let e = self.extract(a, tz - 1, 0); self.concat(mid, e) } else { mid };
                            if tz + run < w {
                                let h = self.extract(a, w - 1, tz + run);
                                return self.concat(h, lo);
                            }
                            return lo;
                        }
                    }
                    if op == Op::Xor && w == 1 {
                        // not of comparisons
                        match self.nodes[a as usize] {
                            Node::Bin(Op::Ult, x, y) => return self.bin(Op::Ule, y, x),
                            Node::Bin(Op::Ule, x, y) => return self.bin(Op::Ult, y, x),
                            Node::Bin(Op::Slt, x, y) => return self.bin(Op::Sle, y, x),
                            Node::Bin(Op::Sle, x, y) => return self.bin(Op::Slt, y, x),
                            _ => {}
                        }
                    }
                }
                if w == 1 && cb.is_none() {
                    // x & !x, x | !x
                    let na = self.is_not_of(a, b);
                    if na {
                        return match op { Op::And => self.fls(), _ => self.tru() };
                    }
                    if op != Op::Xor {
                        // absorption: a & (a & b), a | (a | b)
                        for (p, q) in [(a, b), (b, a)] {
                            if let Node::Bin(o2, x, y) = self.nodes[q as usize] {
                                if o2 == op && (x == p || y == p) { return q; }
                                if (o2 == Op::And && op == Op::Or || o2 == Op::Or && op == Op::And) && (x == p || y == p) { return p; }
                            }
                        }
                    }
                }
                // cut along concat boundaries when one side is constant there
                if w > 1 {
                    if let Some(t) = self.bit_cut(op, a, b) { return t; }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.cst(0, w); }
                    let k = k as u16;
                    let e = self.extract(a, w - 1 - k, 0);
                    let z = self.cst(0, k);
                    return self.concat(e, z);
                }
                if ca == Some(0) { return a; }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.cst(0, w); }
                    let k = k as u16;
                    let e = self.extract(a, w - 1, k);
                    return self.zext(e, w);
                }
                if ca == Some(0) { return a; }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    let k = k.min(w as u128 - 1) as u16;
                    let e = self.extract(a, w - 1, k);
                    return self.sext(e, w);
                }
            }
            Op::Eq => {
                if a == b { return self.tru(); }
                if w == 1 {
                    return match cb {
                        Some(1) => a,
                        Some(_) => self.not1(a),
                        None => { let x = self.bin(Op::Xor, a, b); self.not1(x) }
                    };
                }
                let (al, ah) = self.range(a);
                let (bl, bh) = self.range(b);
                if ah < bl || bh < al { return self.fls(); }
                if let Some(k) = cb {
                    match self.nodes[a as usize].clone() {
                        Node::Concat(x, y) => {
                            let wy = self.w(y);
                            let kx = self.cst(k >> wy, w - wy);
                            let ky = self.cst(k & mask(wy), wy);
                            let e1 = self.eq(x, kx);
                            let e2 = self.eq(y, ky);
                            return self.and1(e1, e2);
                        }
                        Node::Bin(Op::Add, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.cst(k.wrapping_sub(k2), w);
                                return self.eq(x, kk);
                            }
                        }
                        Node::Bin(Op::Sub, x, y) => {
                            if self.as_const(x).is_some() {
                                let kx = self.as_const(x).unwrap();
                                let kk = self.cst(kx.wrapping_sub(k), w);
                                return self.eq(y, kk);
                            }
                            if k == 0 { return self.eq(x, y); }
                        }
                        Node::Bin(Op::Xor, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.cst(k ^ k2, w);
                                return self.eq(x, kk);
                            }
                            if k == 0 { return self.eq(x, y); }
                        }
                        Node::Ite(c, x, y) => {
                            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                                let e1 = self.eq(x, b);
                                let e2 = self.eq(y, b);
                                return self.ite(c, e1, e2);
                            }
                        }
                        Node::SExt(x) => {
                            let wx = self.w(x);
                            let lo = k & mask(wx);
                            if (sext128(lo, wx) as u128) & mask(w) == k {
                                let kk = self.cst(lo, wx);
                                return self.eq(x, kk);
                            }
                            return self.fls();
                        }
                        _ => {}
                    }
                } else {
                    if self.same_linear(a, b) { return self.tru(); }
                    if let (Some((a1, a2)), Some((b1, b2))) = (self.concat_cut(a), self.concat_cut(b)) {
                        if self.w(a2) == self.w(b2) {
                            let e1 = self.eq(a1, b1);
                            let e2 = self.eq(a2, b2);
                            return self.and1(e1, e2);
                        }
                        let (wa, wb) = (self.w(a1), self.w(b1));
                        if self.as_const(a1).is_some() || self.as_const(b1).is_some() {
                            // split at the smaller high part
                            let h = wa.min(wb);
                            let (x1, x2) = (self.extract(a, w - 1, w - h), self.extract(a, w - h - 1, 0));
                            let (y1, y2) = (self.extract(b, w - 1, w - h), self.extract(b, w - h - 1, 0));
                            let e1 = self.eq(x1, y1);
                            let e2 = self.eq(x2, y2);
                            return self.and1(e1, e2);
                        }
                    }
                    // x + k1 == y + k2 / x+y == x
                    if let (Node::Bin(Op::Add, x, y), Node::Bin(Op::Add, x2, y2)) =
                        (self.nodes[a as usize].clone(), self.nodes[b as usize].clone())
                    {
                        if x == x2 { return self.eq(y, y2); }
                        if y == y2 { return self.eq(x, x2); }
                        if x == y2 { return self.eq(y, x2); }
                        if y == x2 { return self.eq(x, y2); }
                    }
                    for (p, q) in [(a, b), (b, a)] {
                        if let Node::Bin(Op::Add, x, y) = self.nodes[p as usize] {
                            if x == q { let z = self.cst(0, w); return self.eq(y, z); }
                            if y == q { let z = self.cst(0, w); return self.eq(x, z); }
                        }
                    }
                    if let (Node::Bin(Op::Xor, x, y), Node::Bin(Op::Xor, x2, y2)) =
                        (self.nodes[a as usize].clone(), self.nodes[b as usize].clone())
                    {
                        if x == x2 { return self.eq(y, y2); }
                        if y == y2 { return self.eq(x, x2); }
                        if x == y2 { return self.eq(y, x2); }
                        if y == x2 { return self.eq(x, y2); }
                    }
                }
            }
            Op::Ult => {
                if a == b { return self.fls(); }
                if cb == Some(0) { return self.fls(); }
                let (al, ah) = self.range(a);
                let (bl, bh) = self.range(b);
                if ah < bl { return self.tru(); }
                if al >= bh { return self.fls(); }
                if cb == Some(1) { let z = self.cst(0, w); return self.eq(a, z); }
                if ca == Some(0) { let e = self.eq(b, a); return self.not1(e); }
                if cb == Some(mask(w)) { let e = self.eq(a, b); return self.not1(e); }
                match self.order_linear(a, b) {
                    Some(true) => return self.fls(),
                    Some(false) => return self.tru(),
                    None => {}
                }
                if let Some(t) = self.cmp_narrow(op, a, b) { return t; }
            }
            Op::Ule => {
                if a == b { return self.tru(); }
                if let Some(k) = cb {
                    if k == mask(w) { return self.tru(); }
                    let kk = self.cst(k + 1, w);
                    return self.bin(Op::Ult, a, kk);
                }
                if ca == Some(0) { return self.tru(); }
                if let Some(k) = ca {
                    let kk = self.cst(k - 1, w);
                    return self.bin(Op::Ult, kk, b);
                }
                let (al, ah) = self.range(a);
                let (bl, bh) = self.range(b);
                if ah <= bl { return self.tru(); }
                if al > bh { return self.fls(); }
                match self.order_linear(b, a) {
                    Some(true) => return self.tru(),
                    Some(false) => return self.fls(),
                    None => {}
                }
                if let Some(t) = self.cmp_narrow(op, a, b) { return t; }
            }
            Op::Slt | Op::Sle => {
                if a == b { return if op == Op::Sle { self.tru() } else { self.fls() }; }
                let (al, ah) = self.range(a);
                let (bl, bh) = self.range(b);
                let s = w - 1;
                let uop = if op == Op::Slt { Op::Ult } else { Op::Ule };
                if ah >> s == 0 && bh >> s == 0 { return self.bin(uop, a, b); }
                if al >> s == 1 && bl >> s == 1 { return self.bin(uop, a, b); }
                if al >> s == 1 && bh >> s == 0 { return self.tru(); }
                if ah >> s == 0 && bl >> s == 1 { return self.fls(); }
                // sign test
                if op == Op::Slt && cb == Some(0) { return self.extract(a, s, s); }
                if op == Op::Sle && ca == Some(0) { let e = self.extract(b, s, s); return self.not1(e); }
                if op == Op::Slt && ca == Some(mask(w)) { let e = self.extract(b, s, s); return self.not1(e); }
            }
        }
        self.mk(Node::Bin(op, a, b), rw)
    }
    fn is_not_of(&self, a: T, b: T) -> bool {
        for (p, q) in [(a, b), (b, a)] {
            match self.nodes[p as usize] {
                Node::Bin(Op::Xor, x, y) if self.as_const(y) == Some(1) && x == q => return true,
                Node::Bin(Op::Ult, x, y) => {
                    if let Node::Bin(Op::Ule, x2, y2) = self.nodes[q as usize] {
                        if x == y2 && y == x2 { return true; }
                    }
                    // Ult(x, k) vs Ult(k-1, x)
                    if let Node::Bin(Op::Ult, x2, y2) = self.nodes[q as usize] {
                        if y2 == x {
                            if let (Some(k), Some(k2)) = (self.as_const(y), self.as_const(x2)) {
                                if k2.wrapping_add(1) == k { return true; }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        false
    }
    fn narrow(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let h = self.range(a).1.max(self.range(b).1);
        let need = (128 - h.leading_zeros()) as u16;
        if need < w && need > 0 {
            if let Node::Concat(x, y) = self.nodes[a as usize] {
                if self.as_const(x) == Some(0) {
                    let n = self.w(y).max(need);
                    if n < w {
                        let na = self.extract(a, n - 1, 0);
                        let nb = self.extract(b, n - 1, 0);
                        let r = self.bin(op, na, nb);
                        return Some(self.zext(r, w));
                    }
                }
            }
        }
        None
    }
    fn cmp_narrow(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let hz = |s: &Self, t: T| -> u16 {
            match s.nodes[t as usize] {
                Node::Const(c) => (128 - c.leading_zeros() as u16).max(1),
                Node::Concat(x, y) if s.as_const(x) == Some(0) => s.w(y),
                _ => w,
            }
        };
        let n = hz(self, a).max(hz(self, b));
        if n < w {
            let na = self.extract(a, n - 1, 0);
            let nb = self.extract(b, n - 1, 0);
            return Some(self.bin(op, na, nb));
        }
        // common equal high / low parts
        if let (Some((a1, a2)), Some((b1, b2))) = (self.concat_cut(a), self.concat_cut(b)) {
            if a1 == b1 { return Some(self.bin(op, a2, b2)); }
            if a2 == b2 && self.w(a2) == self.w(b2) { return Some(self.bin(op, a1, b1)); }
        }
        None
    }
    fn bit_cut(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let (xa, xb) = (self.concat_cut(a), self.concat_cut(b));
        let cut = match (xa, xb) {
            (Some((_, l1)), Some((_, l2))) => {
                let (c1, c2) = (self.w(l1), self.w(l2));
                // highest cut first
                c1.max(c2)
            }
            (Some((_, l1)), None) if self.as_const(b).is_some() => self.w(l1),
            (None, Some((_, l2))) if self.as_const(a).is_some() => self.w(l2),
            _ => return None,
        };
        let (ah, al) = (self.extract(a, w - 1, cut), self.extract(a, cut - 1, 0));
        let (bh, bl) = (self.extract(b, w - 1, cut), self.extract(b, cut - 1, 0));
        let c = |s: &Self, t: T| s.as_const(t).is_some();
        let both_concat = xa.is_some() && xb.is_some();
        if c(self, ah) || c(self, bh) || c(self, al) || c(self, bl) || both_concat {
            let h = self.bin(op, ah, bh);
            let l = self.bin(op, al, bl);
            return Some(self.concat(h, l));
        }
        None
    }

    /// Free leaves (variables; UF symbols offset by 1<<31) of a term, sorted.
    pub fn leaves(&mut self, t: T) -> std::rc::Rc<Vec<u32>> {
        if let Some(r) = self.leaves.get(&t) {
            return r.clone();
        }
        // iterative post-order
        let mut stack = vec![(t, false)];
        while let Some((x, done)) = stack.pop() {
            if self.leaves.contains_key(&x) { continue; }
            let kids = self.kids(x);
            if !done {
                stack.push((x, true));
                for k in kids { if !self.leaves.contains_key(&k) { stack.push((k, false)); } }
            } else {
                let mut v: Vec<u32> = vec![];
                match self.nodes[x as usize] {
                    Node::Var(i) => v.push(i),
                    Node::Uf(i, _) => v.push(i | 0x8000_0000),
                    _ => {}
                }
                let mut single: Option<std::rc::Rc<Vec<u32>>> = None;
                for k in &kids {
                    let l = self.leaves[k].clone();
                    if v.is_empty() && single.is_none() { single = Some(l); continue; }
                    if let Some(s) = single.take() {
                        if std::rc::Rc::ptr_eq(&s, &l) || l.is_empty() { single = Some(s); continue; }
                        v.extend(s.iter());
                    }
                    v.extend(l.iter());
                }
                let rc = match single {
                    Some(s) if v.is_empty() => s,
                    other => {
                        if let Some(s) = other { v.extend(s.iter()); }
                        v.sort_unstable();
                        v.dedup();
                        std::rc::Rc::new(v)
                    }
                };
                self.leaves.insert(x, rc);
            }
        }
        self.leaves[&t].clone()
    }
    pub fn kids(&self, t: T) -> Vec<T> {
        match &self.nodes[t as usize] {
            Node::Const(_) | Node::Var(_) => vec![],
            Node::Uf(_, a) => a.to_vec(),
            Node::Bin(_, a, b) | Node::Concat(a, b) => vec![*a, *b],
            Node::Ite(a, b, c) => vec![*a, *b, *c],
            Node::Extract(a, _, _) | Node::SExt(a) => vec![*a],
        }
    }
    pub fn show(&self, t: T, depth: u32) -> String {
        if depth == 0 { return "..".into(); }
        match &self.nodes[t as usize] {
            Node::Const(c) => format!("{}:{}", c, self.w(t)),
            Node::Var(i) => self.vars[*i as usize].name.clone(),
            Node::Uf(i, a) => format!("{}({})", self.ufs[*i as usize].0, a.iter().map(|x| self.show(*x, depth - 1)).collect::<Vec<_>>().join(",")),
            Node::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(*a, depth - 1), self.show(*b, depth - 1)),
            Node::Ite(a, b, c) => format!("(ite {} {} {})", self.show(*a, depth - 1), self.show(*b, depth - 1), self.show(*c, depth - 1)),
            Node::Extract(a, h, l) => format!("{}[{}:{}]", self.show(*a, depth - 1), h, l),
            Node::Concat(a, b) => format!("({}++{})", self.show(*a, depth - 1), self.show(*b, depth - 1)),
            Node::SExt(a) => format!("sext{}({})", self.w(t), self.show(*a, depth - 1)),
        }
    }
}

/// A (partial) assignment: variables and UF table; unlisted default to 0.
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vars: FxMap<u32, u128>,
    pub ufs: HashMap<(u32, Vec<u128>), u128>,
}

pub struct Evaluator<'a> {
    pub m: &'a Model,
    pub cache: FxMap<T, u128>,
    /// function symbols whose missing values may be anything (they get a mixture of their arguments), others are 0
    pub free: FxSet<u32>,
}
impl<'a> Evaluator<'a> {
    pub fn new(m: &'a Model) -> Self {
        Evaluator { m, cache: Default::default(), free: Default::default() }
    }
    pub fn eval(&mut self, ar: &Arena, t: T) -> u128 {
        if let Some(&v) = self.cache.get(&t) { return v; }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.cache.contains_key(&x) { stack.pop(); continue; }
            // lazily evaluate ite
            let w = ar.w(x);
            let v = match &ar.nodes[x as usize] {
                Node::Const(c) => Some(*c),
                Node::Var(i) => Some(*self.m.vars.get(i).unwrap_or(&0) & mask(w)),
                Node::Ite(c, a, b) => match self.cache.get(c) {
                    None => { stack.push(*c); None }
                    Some(&k) => {
                        let z = if k == 1 { *a } else { *b };
                        match self.cache.get(&z) { None => { stack.push(z); None } Some(&v) => Some(v) }
                    }
                },
                Node::Uf(i, args) => {
                    let mut ok = true;
                    for a in args.iter() { if !self.cache.contains_key(a) { stack.push(*a); ok = false; } }
                    if ok {
                        let key = (*i, args.iter().map(|a| self.cache[a]).collect::<Vec<_>>());
                        let d = if !self.free.is_empty() && self.free.contains(&(i | 0x8000_0000)) {
                            key.1.iter().fold(*i as u128 + 1, |z, a| (z ^ a).wrapping_mul(0x2360ed051fc65da44385df649fccf645).rotate_right(61))
                        } else { 0 };
                        Some(*self.m.ufs.get(&key).unwrap_or(&d) & mask(w))
                    } else { None }
                }
                Node::Bin(op, a, b) => match (self.cache.get(a), self.cache.get(b)) {
                    (Some(&x1), Some(&x2)) => Some(fold(*op, x1, x2, ar.w(*a))),
                    (p, q) => {
                        let (pn, qn) = (p.is_none(), q.is_none());
                        if pn { stack.push(*a); }
                        if qn { stack.push(*b); }
                        None
                    }
                },
                Node::Concat(a, b) => match (self.cache.get(a), self.cache.get(b)) {
                    (Some(&x1), Some(&x2)) => { assert!(w <= 128); Some((x1 << ar.w(*b)) | x2) }
                    (p, q) => {
                        let (pn, qn) = (p.is_none(), q.is_none());
                        if pn { stack.push(*a); }
                        if qn { stack.push(*b); }
                        None
                    }
                },
                Node::Extract(a, h, l) => match self.cache.get(a) {
                    Some(&v) => Some((v >> l) & mask(h - l + 1)),
                    None => { stack.push(*a); None }
                },
                Node::SExt(a) => match self.cache.get(a) {
                    Some(&v) => Some(sext128(v, ar.w(*a)) as u128 & mask(w)),
                    None => { stack.push(*a); None }
                },
            };
            if let Some(v) = v { self.cache.insert(x, v); stack.pop(); }
        }
        self.cache[&t]
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    /// random arithmetic terms: whatever is called equal has equal values
    #[test]
    fn linear_forms() {
        let mut seed = 1u64;
        let mut rnd = move |n: u64| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (seed >> 33) % n };
        let mut equal = 0;
        for _ in 0..20000 {
            let mut ar = Arena::new();
            let vars: Vec<T> = (0..3).map(|i| ar.var(&format!("v{i}"), 4)).collect();
            let w = 8u16;
            let mut pool: Vec<T> = vars.iter().map(|v| ar.zext(*v, w)).collect();
            for _ in 0..10 {
                let (a, b) = (pool[rnd(pool.len() as u64) as usize], pool[rnd(pool.len() as u64) as usize]);
                let t = match rnd(7) {
                    0 | 1 => ar.bin(Op::Add, a, b),
                    2 => ar.bin(Op::Sub, a, b),
                    3 => { let c = ar.cst(rnd(7) as u128, w); ar.bin(Op::Mul, a, c) }
                    4 => { let c = ar.cst(rnd(5) as u128, w); ar.bin(Op::Shl, a, c) }
                    5 => { let e = ar.extract(a, rnd(7) as u16 + 1, 0); ar.zext(e, w) }
                    _ => { let x = ar.bin(Op::Xor, a, b); ar.bin(Op::Xor, x, a) }
                };
                pool.push(t);
            }
            for i in 0..pool.len() {
                for j in 0..i {
                    if pool[i] != pool[j] && ar.same_linear(pool[i], pool[j]) {
                        equal += 1;
                        for v in 0..4096u64 {
                            let m = |n: u32| (v >> (4 * n) & 15) as u128;
                            assert_eq!(value(&ar, pool[i], &m), value(&ar, pool[j], &m));
                        }
                    }
                }
            }
        }
        assert!(equal > 100, "{equal}");
    }
    /// random terms of every kind: simplified terms have the values of the operations they stand for
    #[test]
    fn simplifications() {
        let mut seed = 7u64;
        let mut rnd = move |n: u64| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (seed >> 33) % n };
        for _ in 0..60000 {
            let mut ar = Arena::new();
            let envs: Vec<[u128; 3]> = (0..12).map(|i| [0, 1, 2].map(|_| if i == 0 { 0 } else if i == 1 { 15 } else { rnd(16) as u128 })).collect();
            // (term, its values)
            let mut pool: Vec<(T, Vec<u128>)> = (0..3).map(|i| (ar.var(&format!("v{i}"), 4), envs.iter().map(|e| e[i as usize]).collect())).collect();
            for _ in 0..14 {
                let (a, va) = pool[rnd(pool.len() as u64) as usize].clone();
                let wa = ar.w(a);
                let c = [0, 1, mask(wa), 1 << (wa - 1), rnd(1 << wa.min(20)) as u128 & mask(wa), 1 << rnd(wa as u64), 3 & mask(wa)][rnd(7) as usize];
                let k = ar.cst(c, wa);
                let same: Vec<_> = pool.iter().filter(|p| ar.w(p.0) == wa).cloned().collect();
                let (b, vb) = if rnd(3) == 0 { (k, vec![c; 12]) } else { same[rnd(same.len() as u64) as usize].clone() };
                let (a, va, b, vb) = if rnd(6) == 0 { (b, vb, a, va) } else { (a, va, b, vb) };
                let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
                let what = rnd(28);
                let x: (T, Vec<u128>) = match what {
                    i @ 0..=19 => {
                        let op = ops[(i as usize).min(19) % 18];
                        // undefined in the IR
                        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && vb.contains(&0) { continue; }
                        (ar.bin(op, a, b), va.iter().zip(&vb).map(|(x, y)| fold(op, *x, *y, wa)).collect())
                    }
                    20 | 21 if wa + ar.w(b) <= 20 => { let wb = ar.w(b); (ar.concat(a, b), va.iter().zip(&vb).map(|(x, y)| x << wb | y).collect()) }
                    22 | 23 => {
                        let lo = rnd(wa as u64) as u16;
                        let hi = lo + rnd((wa - lo) as u64) as u16;
                        (ar.extract(a, hi, lo), va.iter().map(|x| x >> lo & mask(hi - lo + 1)).collect())
                    }
                    24 if wa < 12 => { let w = wa + 1 + rnd(6) as u16; (ar.zext(a, w), va) }
                    25 if wa < 12 => { let w = wa + 1 + rnd(6) as u16; (ar.sext(a, w), va.iter().map(|x| sext128(*x, wa) as u128 & mask(w)).collect()) }
                    _ => {
                        let conds: Vec<_> = pool.iter().filter(|p| ar.w(p.0) == 1).cloned().collect();
                        if conds.is_empty() { continue; }
                        let (c, vc) = conds[rnd(conds.len() as u64) as usize].clone();
                        (ar.ite(c, a, b), (0..12).map(|i| if vc[i] == 1 { va[i] } else { vb[i] }).collect())
                    }
                };
                let r = ar.range(x.0);
                for (i, e) in envs.iter().enumerate() {
                    let v = value(&ar, x.0, &|n| e[n as usize]);
                    assert_eq!(v, x.1[i], "{what}: {} and {} give {}", ar.show(a, 5), ar.show(b, 5), ar.show(x.0, 5));
                    assert!(r.0 <= v && v <= r.1);
                }
                pool.push(x);
            }
        }
    }
    fn value(ar: &Arena, t: T, m: &dyn Fn(u32) -> u128) -> u128 {
        match &ar.nodes[t as usize] {
            Node::Const(c) => *c,
            Node::Var(i) => m(*i),
            Node::Bin(op, a, b) => fold(*op, value(ar, *a, m), value(ar, *b, m), ar.w(*a)),
            Node::Concat(a, b) => value(ar, *a, m) << ar.w(*b) | value(ar, *b, m),
            Node::Extract(a, hi, lo) => value(ar, *a, m) >> lo & mask(hi - lo + 1),
            Node::SExt(a) => sext128(value(ar, *a, m), ar.w(*a)) as u128 & mask(ar.w(t)),
            Node::Ite(c, a, b) => if value(ar, *c, m) == 1 { value(ar, *a, m) } else { value(ar, *b, m) },
            n => panic!("{n:?}"),
        }
    }
}
