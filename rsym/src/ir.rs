//! Parser for the textual LLVM IR that rustc's LLVM emits; functions are compiled on first use.
use crate::term::{mask, sext128};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}

#[derive(Clone, Copy, Debug)]
pub struct Leaf {
    pub off: u64,
    pub w: u16,
    pub ptr: bool,
}

fn al(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 1..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => al(self.size(), 1).next_power_of_two(),
            Ty::Struct(v, packed) => if *packed { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => al((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v {
                    if !packed { o = al(o, t.align()); }
                    o += t.size();
                }
                if *packed { o } else { al(o, self.align()) }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() {
                    if !packed { o = al(o, t.align()); }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(v, _) => &v[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem"),
        }
    }
    pub fn leaves(&self) -> Vec<Leaf> {
        let mut v = vec![];
        self.leaves_at(0, &mut v);
        v
    }
    fn leaves_at(&self, o: u64, out: &mut Vec<Leaf>) {
        match self {
            Ty::Void | Ty::Meta => {}
            Ty::Int(w) => out.push(Leaf { off: o, w: *w, ptr: false }),
            Ty::Ptr => out.push(Leaf { off: o, w: 64, ptr: true }),
            Ty::F64 => out.push(Leaf { off: o, w: 64, ptr: false }),
            Ty::F32 => out.push(Leaf { off: o, w: 32, ptr: false }),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n { t.leaves_at(o + i * t.size(), out); }
            }
            Ty::Struct(v, _) => {
                for (i, t) in v.iter().enumerate() { t.leaves_at(o + self.field_off(i), out); }
            }
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nleaves(),
            Ty::Struct(v, _) => v.iter().map(|t| t.nleaves()).sum(),
            _ => 1,
        }
    }
    pub fn width(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {self:?}"),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd {
    R(u32),
    C(u64),
    W(u128),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { k: BinK, w: u16, dst: u32, a: Opnd, b: Opnd },
    Icmp { p: Pred, w: u16, dst: u32, a: Opnd, b: Opnd },
    Fcmp { p: String, w: u16, dst: u32, a: Opnd, b: Opnd },
    Cast { k: CastK, fw: u16, tw: u16, dst: u32, a: Opnd },
    FNeg { w: u16, dst: u32, a: Opnd },
    Load { dst: u32, p: Opnd, leaves: Rc<Vec<Leaf>> },
    Store { v: Vec<Opnd>, p: Opnd, leaves: Rc<Vec<Leaf>> },
    Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u16, u64)> },
    Alloca { dst: u32, size: u64, n: Opnd },
    Call { dst: u32, rets: Rc<Vec<Leaf>>, callee: Callee, args: Rc<Vec<(Vec<Opnd>, u16)>> },
    Select { c: Opnd, dst: u32, a: Vec<Opnd>, b: Vec<Opnd>, leaves: Rc<Vec<Leaf>> },
    Move { dst: u32, src: Vec<Opnd> },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { v: Opnd, w: u16, def: u32, cases: Rc<Vec<(u128, u32)>> },
    Ret(Vec<Opnd>),
    Unreachable,
    Rmw { op: String, w: u16, dst: u32, p: Opnd, v: Opnd },
    CmpXchg { w: u16, dst: u32, p: Opnd, c: Opnd, n: Opnd },
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub n: u32,
    pub inc: Vec<(u32, Vec<Opnd>)>,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<(u32, u32)>,
    pub blocks: Vec<Block>,
    pub widths: Vec<u16>,
}

pub struct FuncInfo {
    pub name: String,
    pub text: Option<(usize, usize)>,
    pub weak: bool,
}
pub struct GlobalInfo {
    pub name: String,
    pub size: u64,
    pub init: Option<(usize, Ty)>,
    pub constant: bool,
    pub weak_null: bool,
}

pub const FN_BASE: u64 = 0x0800_0000_0000_0000 >> 8; // distinct region for code addresses
pub const OBJ_BASE: u64 = 0x1000;

pub fn obj_addr(id: u32) -> u64 {
    (OBJ_BASE + id as u64) << 32
}

pub struct Module {
    pub src: Vec<u8>,
    pub funcs: Vec<FuncInfo>,
    pub fmap: HashMap<String, u32>,
    pub slow_scan: Option<u32>,
    pub globals: Vec<GlobalInfo>,
    pub gmap: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    compiled: RefCell<Vec<Option<Rc<Func>>>>,
}

struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') { self.p += 1; }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() { self.s[self.p] } else { 0 }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            self.p += t.len();
            true
        } else { false }
    }
    fn eat_word(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            let n = self.s.get(self.p + t.len()).copied().unwrap_or(b' ');
            if n.is_ascii_alphanumeric() || n == b'_' || n == b'.' { return false; }
            self.p += t.len();
            return true;
        }
        false
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            let l = &self.s[self.p.saturating_sub(120)..(self.p + 120).min(self.s.len())];
            panic!("expected {t:?} near {:?}", String::from_utf8_lossy(l));
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || b"_.-$".contains(&self.s[self.p])) { self.p += 1; }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn name(&mut self) -> String {
        // after @ or %
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' { self.p += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            r
        } else {
            let st = self.p;
            while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || b"_.-$".contains(&self.s[self.p])) { self.p += 1; }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    fn parens(&mut self) {
        // skip a balanced (...) group
        self.expect("(");
        let mut d = 1;
        while d > 0 {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => { self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.p += 1;
                while self.s[self.p] != b'"' { self.p += 1; }
                self.p += 1;
                if self.eat("=") { self.expect("\""); while self.s[self.p] != b'"' { self.p += 1; } self.p += 1; }
                continue;
            }
            if c == b'#' { self.p += 1; self.word(); continue; }
            if !c.is_ascii_alphabetic() { return; }
            let save = self.p;
            let w = self.word();
            let is_attr = matches!(w, "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "writable"
                | "dead_on_unwind" | "signext" | "zeroext" | "inreg" | "nest" | "returned" | "noext" | "immarg" | "allocptr" | "allocalign"
                | "swiftself" | "nocapture" | "captures" | "align" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval"
                | "initializes" | "inalloca" | "byref" | "preallocated" | "elementtype" | "nofpclass" | "dead_on_return" | "noundef_or_null"
                | "fastcc" | "ccc" | "coldcc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "unnamed_addr" | "local_unnamed_addr" | "dso_local" | "internal" | "private" | "hidden"
                | "protected" | "linkonce_odr" | "weak" | "weak_odr" | "external" | "extern_weak" | "available_externally" | "linkonce" | "default" | "appending"
                | "tail" | "musttail" | "notail" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "dllimport" | "dllexport" | "common");
            if !is_attr { self.p = save; return; }
            if w == "align" && self.peek() != b'(' { self.word(); continue; }
            if self.p < self.s.len() && self.s[self.p] == b'(' { self.parens(); }
        }
    }
}

impl Module {
    pub fn load(src: Vec<u8>) -> Module {
        let mut m = Module {
            src: vec![], funcs: vec![], fmap: HashMap::new(), slow_scan: None, globals: vec![], gmap: HashMap::new(),
            types: HashMap::new(), compiled: RefCell::new(vec![]),
        };
        let mut p = 0;
        let n = src.len();
        let mut glob_lines = vec![];
        while p < n {
            let e = src[p..].iter().position(|&c| c == b'\n').map(|x| p + x).unwrap_or(n);
            let line = &src[p..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let mut c = Cur { s: line, p: at + 1 };
                let name = c.name();
                let weak = line.windows(12).any(|w| w == b"extern_weak ");
                let mut text = None;
                let mut next = e + 1;
                if line.starts_with(b"define ") {
                    let mut q = e + 1;
                    loop {
                        let e2 = src[q..].iter().position(|&c| c == b'\n').map(|x| q + x).unwrap_or(n);
                        if src[q] == b'}' { break; }
                        q = e2 + 1;
                    }
                    text = Some((p, q));
                    next = q + 2;
                }
                m.fmap.insert(name.clone(), m.funcs.len() as u32);
                if text.is_some() && name.contains("skip_to_escape_slow") { m.slow_scan = Some(m.funcs.len() as u32); }
                m.funcs.push(FuncInfo { name, text, weak });
                p = next;
                continue;
            }
            if line.starts_with(b"@") { glob_lines.push((p, e)); }
            if line.starts_with(b"%") {
                let mut c = Cur { s: line, p: 1 };
                let name = c.name();
                if c.eat("= type") {
                    let t = m.parse_ty(&mut c);
                    m.types.insert(name, t);
                }
            }
            p = e + 1;
        }
        for (s, e) in glob_lines {
            let line = &src[s..e];
            let mut c = Cur { s: line, p: 1 };
            let name = c.name();
            c.expect("=");
            let mut weak_null = false;
            let mut external = false;
            let constant;
            loop {
                let w = c.word();
                match w {
                    "global" => { constant = false; break; }
                    "constant" => { constant = true; break; }
                    "alias" => { constant = true; break; }
                    "extern_weak" => weak_null = true,
                    "external" => external = true,
                    "thread_local" | "addrspace" => { if c.peek() == b'(' { c.parens(); } }
                    "" => panic!("global line {}", String::from_utf8_lossy(line)),
                    _ => {}
                }
            }
            let ty = m.parse_ty(&mut c);
            m.gmap.insert(name.clone(), m.globals.len() as u32);
            let init = if weak_null || external { None } else { Some((s + c.p, ty.clone())) };
            m.globals.push(GlobalInfo { name, size: ty.size(), init, constant, weak_null });
        }
        m.compiled = RefCell::new((0..m.funcs.len()).map(|_| None).collect());
        m.src = src;
        m
    }
    pub fn fn_addr(&self, id: u32) -> u64 {
        FN_BASE + (id as u64) * 16
    }
    pub fn fn_of_addr(&self, a: u64) -> Option<u32> {
        if a < FN_BASE { return None; }
        let i = (a - FN_BASE) / 16;
        if (a - FN_BASE) % 16 == 0 && (i as usize) < self.funcs.len() { Some(i as u32) } else { None }
    }
    fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&g) = self.gmap.get(n) {
            if self.globals[g as usize].weak_null { return 0; }
            return obj_addr(g);
        }
        if let Some(&f) = self.fmap.get(n) {
            if self.funcs[f as usize].weak && self.funcs[f as usize].text.is_none() { return 0; }
            return self.fn_addr(f);
        }
        panic!("unknown symbol @{n}");
    }
    fn parse_ty(&self, c: &mut Cur) -> Ty {
        let b = c.peek();
        let t = match b {
            b'{' => {
                c.p += 1;
                let mut v = vec![];
                if !c.eat("}") {
                    loop { v.push(self.parse_ty(c)); if c.eat(",") { continue; } c.expect("}"); break; }
                }
                Ty::Struct(v, false)
            }
            b'<' => {
                c.p += 1;
                if c.eat("{") {
                    let mut v = vec![];
                    if !c.eat("}") {
                        loop { v.push(self.parse_ty(c)); if c.eat(",") { continue; } c.expect("}"); break; }
                    }
                    c.expect(">");
                    Ty::Struct(v, true)
                } else {
                    let n: u64 = c.word().parse().unwrap();
                    c.expect("x");
                    let t = self.parse_ty(c);
                    c.expect(">");
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'[' => {
                c.p += 1;
                let n: u64 = c.word().parse().unwrap();
                c.expect("x");
                let t = self.parse_ty(c);
                c.expect("]");
                Ty::Arr(n, Box::new(t))
            }
            b'%' => { c.p += 1; let n = c.name(); self.types.get(&n).cloned().unwrap_or_else(|| panic!("type {n}")) }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => { if c.peek() == b'a' && c.eat_word("addrspace") { c.parens(); } Ty::Ptr }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" => Ty::Meta,
                    "half" => Ty::Int(16),
                    "fp128" => Ty::Int(128),
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
                    _ => panic!("type {w:?} near {}", String::from_utf8_lossy(&c.s[c.p.saturating_sub(80)..(c.p + 40).min(c.s.len())])),
                }
            }
        };
        t
    }
    /// constant -> flattened values (u128 each)
    fn parse_const(&self, c: &mut Cur, ty: &Ty, out: &mut Vec<u128>) {
        let b = c.peek();
        if matches!(ty, Ty::F64 | Ty::F32) {
            let plus = b == b'+';
            if plus { c.p += 1; }
            let mut w = c.word().to_string();
            let single = *ty == Ty::F32;
            if let Some(h) = w.strip_prefix("f0x") {
                out.push(u64::from_str_radix(h, 16).unwrap() as u128);
                return;
            }
            let v = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else {
                match w.as_str() {
                    "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "zeroinitializer" | "undef" | "poison" => 0.0,
                    x if x.contains("nan") => f64::NAN,
                    _ => {
                        // decimal like 1.000000e+00 (the word stops at '+')
                        if c.s.get(c.p) == Some(&b'+') { c.p += 1; w.push('+'); w.push_str(c.word()); }
                        w.parse().unwrap_or_else(|_| panic!("float {w}"))
                    }
                }
            };
            out.push(if single { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 });
            return;
        }
        match b {
            b'@' => { c.p += 1; let n = c.name(); out.push(self.sym_addr(&n) as u128); }
            b'c' if c.s[c.p + 1] == b'"' => {
                c.p += 2;
                while c.s[c.p] != b'"' {
                    if c.s[c.p] == b'\\' && c.s[c.p + 1] == b'\\' {
                        out.push(b'\\' as u128);
                        c.p += 2;
                    } else if c.s[c.p] == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                        out.push(u8::from_str_radix(h, 16).unwrap() as u128);
                        c.p += 3;
                    } else { out.push(c.s[c.p] as u128); c.p += 1; }
                }
                c.p += 1;
            }
            b'{' | b'[' | b'<' => {
                let close = match b { b'{' => "}", b'[' => "]", _ => ">" };
                c.p += 1;
                let packed = b == b'<' && c.eat("{");
                if !c.eat(close) {
                    let mut i = 0;
                    loop {
                        if packed && c.eat("}") { c.expect(">"); break; }
                        let t = self.parse_ty(c);
                        self.parse_const(c, &t, out);
                        i += 1;
                        if c.eat(",") { continue; }
                        if packed { c.expect("}"); c.expect(">"); } else { c.expect(close); }
                        break;
                    }
                    let _ = i;
                }
            }
            b'-' | b'0'..=b'9' => {
                let w = c.word();
                let wd = ty.width();
                if let Some(r) = w.strip_prefix('-') {
                    let v: u128 = r.parse().unwrap();
                    out.push(0u128.wrapping_sub(v) & mask(wd));
                } else {
                    out.push(w.parse::<u128>().unwrap_or_else(|_| panic!("int {w}")) & mask(wd));
                }
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => out.push(1),
                    "false" | "null" => out.push(0),
                    "zeroinitializer" | "undef" | "poison" => out.extend(std::iter::repeat(0).take(ty.nleaves())),
                    "splat" => {
                        c.expect("(");
                        let t = self.parse_ty(c);
                        let mut o = vec![];
                        self.parse_const(c, &t, &mut o);
                        c.expect(")");
                        if let Ty::Vec(n, _) | Ty::Arr(n, _) = ty { for _ in 0..*n { out.extend(o.iter()); } }
                    }
                    "getelementptr" => {
                        while c.eat_word("inbounds") || c.eat_word("nuw") || c.eat_word("nusw") {}
                        if c.eat_word("inrange") { c.parens(); }
                        c.expect("(");
                        let t = self.parse_ty(c);
                        c.expect(",");
                        let pt = self.parse_ty(c);
                        let mut o = vec![];
                        self.parse_const(c, &pt, &mut o);
                        let mut off: i64 = 0;
                        let mut cur = t;
                        let mut first = true;
                        while c.eat(",") {
                            let it = self.parse_ty(c);
                            let mut iv = vec![];
                            self.parse_const(c, &it, &mut iv);
                            let i = sext128(iv[0], it.width()) as i64;
                            if first { off += i * cur.size() as i64; first = false; } else {
                                off += cur.field_off_i(i);
                                cur = cur.elem(i as usize).clone();
                            }
                        }
                        c.expect(")");
                        out.push((o[0] as u64).wrapping_add(off as u64) as u128);
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                        c.expect("(");
                        let t = self.parse_ty(c);
                        let mut o = vec![];
                        self.parse_const(c, &t, &mut o);
                        c.expect("to");
                        let t2 = self.parse_ty(c);
                        c.expect(")");
                        out.push(o[0] & mask(t2.width()));
                    }
                    "sub" | "add" | "xor" => {
                        while c.eat_word("nuw") || c.eat_word("nsw") {}
                        c.expect("(");
                        let t = self.parse_ty(c);
                        let mut o = vec![];
                        self.parse_const(c, &t, &mut o);
                        c.expect(",");
                        let t2 = self.parse_ty(c);
                        self.parse_const(c, &t2, &mut o);
                        c.expect(")");
                        let m = mask(t.width());
                        out.push(match w { "sub" => o[0].wrapping_sub(o[1]) & m, "add" => o[0].wrapping_add(o[1]) & m, _ => o[0] ^ o[1] });
                    }
                    _ => panic!("const {w:?} near {}", String::from_utf8_lossy(&c.s[c.p.saturating_sub(60)..(c.p + 60).min(c.s.len())])),
                }
            }
        }
    }
    /// Bytes of a global's initializer.
    pub fn global_bytes(&self, g: u32) -> Vec<u8> {
        let gi = &self.globals[g as usize];
        let mut bytes = vec![0u8; gi.size as usize];
        if let Some((pos, ty)) = &gi.init {
            let mut c = Cur { s: &self.src, p: *pos };
            let mut vals = vec![];
            if c.eat_word("zeroinitializer") { return bytes; }
            self.parse_const(&mut c, ty, &mut vals);
            let lv = ty.leaves();
            assert_eq!(lv.len(), vals.len(), "initializer of {}", gi.name);
            for (l, v) in lv.iter().zip(vals) {
                let nb = (l.w as usize + 7) / 8;
                bytes[l.off as usize..l.off as usize + nb].copy_from_slice(&v.to_le_bytes()[..nb]);
            }
        }
        bytes
    }
    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.compiled.borrow()[id as usize] { return Some(f.clone()); }
        let (s, e) = self.funcs[id as usize].text?;
        let f = Rc::new(self.compile(id, s, e));
        self.compiled.borrow_mut()[id as usize] = Some(f.clone());
        Some(f)
    }
    pub fn compiled_count(&self) -> usize {
        self.compiled.borrow().iter().filter(|x| x.is_some()).count()
    }
    pub fn compiled_names(&self) -> Vec<String> {
        self.compiled.borrow().iter().flatten().map(|f| f.name.clone()).collect()
    }

    fn compile(&self, id: u32, s: usize, e: usize) -> Func {
        let text = &self.src[s..e];
        let lines: Vec<&[u8]> = text.split(|&c| c == b'\n').collect();
        let mut fc = FC { m: self, regs: HashMap::new(), nregs: 0, labels: HashMap::new(), widths: vec![] };
        // header
        let at = lines[0].iter().position(|&c| c == b'@').unwrap();
        let mut c = Cur { s: lines[0], p: at + 1 };
        c.name();
        c.expect("(");
        let mut params = vec![];
        let mut unnamed = 0;
        if !c.eat(")") {
            loop {
                if c.eat("...") { c.expect(")"); break; }
                let t = self.parse_ty(&mut c);
                c.attrs();
                let n = if c.peek() == b'%' { c.p += 1; c.name() } else { let r = unnamed.to_string(); r };
                unnamed += 1;
                let d = fc.def(&n, &t);
                params.push((d, t.nleaves() as u32));
                if c.eat(",") { continue; }
                c.expect(")");
                break;
            }
        }
        // labels: the entry block may be unlabelled
        let mut blocks_txt: Vec<(String, Vec<Vec<u8>>)> = vec![];
        let mut cur: Vec<Vec<u8>> = vec![];
        let mut cur_name = String::new();
        let mut started = false;
        let mut i = 1;
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            if l.is_empty() { continue; }
            if l[0] != b' ' && l[0] != b'\t' && l[0] != b';' {
                // label
                let mut c = Cur { s: l, p: 0 };
                let nm = c.name();
                if started { blocks_txt.push((cur_name.clone(), std::mem::take(&mut cur))); }
                cur_name = nm;
                started = true;
                continue;
            }
            if !started { started = true; cur_name = unnamed.to_string(); }
            let mut l = l.to_vec();
            let t = String::from_utf8_lossy(&l).into_owned();
            if t.trim_start().starts_with("switch ") && t.trim_end().ends_with('[') {
                loop {
                    let l2 = lines[i];
                    i += 1;
                    l.push(b' ');
                    l.extend_from_slice(l2);
                    if l2.iter().find(|&&c| c != b' ') == Some(&b']') { break; }
                }
            }
            cur.push(l);
        }
        blocks_txt.push((cur_name, cur));
        for (k, (n, _)) in blocks_txt.iter().enumerate() { fc.labels.insert(n.clone(), k as u32); }
        let mut blocks = vec![];
        for (_, ls) in &blocks_txt {
            let mut b = Block::default();
            for l in ls { fc.inst(l, &mut b); }
            blocks.push(b);
        }
        Func { id, name: self.funcs[id as usize].name.clone(), nregs: fc.nregs, params, blocks, widths: fc.widths }
    }
}

impl Ty {
    fn field_off_i(&self, i: i64) -> i64 {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() as i64 * i,
            _ => self.field_off(i as usize) as i64,
        }
    }
}

struct FC<'a> {
    m: &'a Module,
    regs: HashMap<String, (u32, u32)>,
    nregs: u32,
    labels: HashMap<String, u32>,
    widths: Vec<u16>,
}
impl<'a> FC<'a> {
    /// register slots of a value; may be called before its definition (phi back edges)
    fn slot(&mut self, n: &str, ty: &Ty) -> (u32, u32) {
        if let Some(&r) = self.regs.get(n) { return r; }
        let k = ty.nleaves() as u32;
        let r = (self.nregs, k);
        for l in ty.leaves() { self.widths.push(l.w); }
        self.nregs += k;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn def(&mut self, n: &str, ty: &Ty) -> u32 {
        self.slot(n, ty).0
    }
    fn val(&mut self, c: &mut Cur, ty: &Ty) -> Vec<Opnd> {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            let (s, k) = self.slot(&n, ty);
            return (s..s + k).map(Opnd::R).collect();
        }
        let mut o = vec![];
        self.m.parse_const(c, ty, &mut o);
        let lv = ty.leaves();
        assert_eq!(lv.len(), o.len());
        lv.iter().zip(o).map(|(l, v)| if l.w <= 64 { Opnd::C(v as u64) } else { Opnd::W(v) }).collect()
    }
    fn val1(&mut self, c: &mut Cur, ty: &Ty) -> Opnd {
        self.val(c, ty)[0]
    }
    fn tyval(&mut self, c: &mut Cur) -> (Ty, Vec<Opnd>) {
        let t = self.m.parse_ty(c);
        c.attrs();
        let v = self.val(c, &t);
        (t, v)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        c.expect("label");
        c.expect("%");
        let n = c.name();
        self.labels[&n]
    }
    fn inst(&mut self, l: &[u8], b: &mut Block) {
        let mut c = Cur { s: l, p: 0 };
        c.ws();
        if c.peek() == b';' || c.peek() == b'#' { return; }
        let mut dst_name = None;
        if c.peek() == b'%' {
            c.p += 1;
            dst_name = Some(c.name());
            c.expect("=");
        }
        let save = c.p;
        c.attrs(); // tail, fast-math...
        let opw = c.word().to_string();
        let op = opw.as_str();
        let _ = save;
        let bink = match op {
            "add" => Some(BinK::Add), "sub" => Some(BinK::Sub), "mul" => Some(BinK::Mul), "udiv" => Some(BinK::UDiv), "sdiv" => Some(BinK::SDiv),
            "urem" => Some(BinK::URem), "srem" => Some(BinK::SRem), "and" => Some(BinK::And), "or" => Some(BinK::Or), "xor" => Some(BinK::Xor),
            "shl" => Some(BinK::Shl), "lshr" => Some(BinK::LShr), "ashr" => Some(BinK::AShr), "fadd" => Some(BinK::FAdd), "fsub" => Some(BinK::FSub),
            "fmul" => Some(BinK::FMul), "fdiv" => Some(BinK::FDiv), "frem" => Some(BinK::FRem),
            _ => None,
        };
        if let Some(k) = bink {
            while c.eat_word("nuw") || c.eat_word("nsw") || c.eat_word("exact") || c.eat_word("disjoint") {}
            c.attrs();
            let t = self.m.parse_ty(&mut c);
            let x = self.val(&mut c, &t);
            c.expect(",");
            let y = self.val(&mut c, &t);
            let d = self.def(dst_name.as_ref().unwrap(), &t);
            let lv = t.leaves();
            for i in 0..lv.len() { b.insts.push(Inst::Bin { k, w: lv[i].w, dst: d + i as u32, a: x[i], b: y[i] }); }
            return;
        }
        let castk = match op {
            "trunc" => Some(CastK::Trunc), "zext" => Some(CastK::ZExt), "sext" => Some(CastK::SExt),
            "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => Some(CastK::Bit),
            "fptoui" => Some(CastK::FpToUi), "fptosi" => Some(CastK::FpToSi), "uitofp" => Some(CastK::UiToFp), "sitofp" => Some(CastK::SiToFp),
            "fpext" => Some(CastK::FpExt), "fptrunc" => Some(CastK::FpTrunc),
            _ => None,
        };
        if let Some(mut k) = castk {
            while c.eat_word("nuw") || c.eat_word("nsw") || c.eat_word("nneg") || c.eat_word("samesign") {}
            c.attrs();
            let (t, v) = self.tyval(&mut c);
            c.expect("to");
            let t2 = self.m.parse_ty(&mut c);
            let d = self.def(dst_name.as_ref().unwrap(), &t2);
            let (l1, l2) = (t.leaves(), t2.leaves());
            if l1.len() != l2.len() { b.insts.push(Inst::Unsupported(String::from_utf8_lossy(l).into_owned())); return; }
            for i in 0..l1.len() {
                let mut kk = k;
                if k == CastK::Bit && l1[i].w != l2[i].w { kk = if l1[i].w < l2[i].w { CastK::ZExt } else { CastK::Trunc }; }
                b.insts.push(Inst::Cast { k: kk, fw: l1[i].w, tw: l2[i].w, dst: d + i as u32, a: v[i] });
            }
            k = CastK::Bit;
            let _ = k;
            return;
        }
        match op {
            "icmp" => {
                c.eat_word("samesign");
                let p = match c.word() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                    "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => panic!("icmp {x}"),
                };
                let t = self.m.parse_ty(&mut c);
                let x = self.val(&mut c, &t);
                c.expect(",");
                let y = self.val(&mut c, &t);
                let lv = t.leaves();
                let rt = match &t { Ty::Vec(n, _) => Ty::Vec(*n, Box::new(Ty::Int(1))), _ => Ty::Int(1) };
                let d = self.def(dst_name.as_ref().unwrap(), &rt);
                for i in 0..lv.len() { b.insts.push(Inst::Icmp { p, w: lv[i].w, dst: d + i as u32, a: x[i], b: y[i] }); }
            }
            "fcmp" => {
                c.attrs();
                let p = c.word().to_string();
                let t = self.m.parse_ty(&mut c);
                let x = self.val1(&mut c, &t);
                c.expect(",");
                let y = self.val1(&mut c, &t);
                let d = self.def(dst_name.as_ref().unwrap(), &Ty::Int(1));
                b.insts.push(Inst::Fcmp { p, w: t.width(), dst: d, a: x, b: y });
            }
            "fneg" => {
                c.attrs();
                let (t, v) = self.tyval(&mut c);
                let d = self.def(dst_name.as_ref().unwrap(), &t);
                b.insts.push(Inst::FNeg { w: t.width(), dst: d, a: v[0] });
            }
            "load" => {
                while c.eat_word("atomic") || c.eat_word("volatile") {}
                let t = self.m.parse_ty(&mut c);
                c.expect(",");
                let (_, p) = self.tyval(&mut c);
                let d = self.def(dst_name.as_ref().unwrap(), &t);
                b.insts.push(Inst::Load { dst: d, p: p[0], leaves: Rc::new(t.leaves()) });
            }
            "store" => {
                while c.eat_word("atomic") || c.eat_word("volatile") {}
                let (t, v) = self.tyval(&mut c);
                c.expect(",");
                let (_, p) = self.tyval(&mut c);
                b.insts.push(Inst::Store { v, p: p[0], leaves: Rc::new(t.leaves()) });
            }
            "getelementptr" => {
                while c.eat_word("inbounds") || c.eat_word("nuw") || c.eat_word("nusw") {}
                if c.eat_word("inrange") { c.parens(); }
                let t = self.m.parse_ty(&mut c);
                c.expect(",");
                let (_, base) = self.tyval(&mut c);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while c.eat(",") {
                    if c.peek() == b'!' { break; }
                    let (it, iv) = self.tyval(&mut c);
                    match iv[0] {
                        Opnd::C(v) => {
                            let i = sext128(v as u128, it.width()) as i64;
                            if first { off = off.wrapping_add(i.wrapping_mul(cur.size() as i64)); } else {
                                off = off.wrapping_add(cur.field_off_i(i));
                                cur = cur.elem(i as usize).clone();
                            }
                        }
                        o => {
                            if first { idx.push((o, it.width(), cur.size())); } else {
                                let e = cur.elem(0).clone();
                                idx.push((o, it.width(), e.size()));
                                cur = e;
                            }
                        }
                    }
                    first = false;
                }
                let d = self.def(dst_name.as_ref().unwrap(), &Ty::Ptr);
                b.insts.push(Inst::Gep { dst: d, base: base[0], off, idx });
            }
            "alloca" => {
                let t = self.m.parse_ty(&mut c);
                let mut n = Opnd::C(1);
                if c.eat(",") && c.peek() == b'i' {
                    let (_, v) = self.tyval(&mut c);
                    n = v[0];
                }
                let d = self.def(dst_name.as_ref().unwrap(), &Ty::Ptr);
                b.insts.push(Inst::Alloca { dst: d, size: t.size(), n });
            }
            "call" => self.call(c, l, dst_name, b),
            "select" => {
                c.attrs();
                let (ct, cv) = self.tyval(&mut c);
                c.expect(",");
                let (t, x) = self.tyval(&mut c);
                c.expect(",");
                let (_, y) = self.tyval(&mut c);
                let d = self.def(dst_name.as_ref().unwrap(), &t);
                let lv = t.leaves();
                if cv.len() > 1 {
                    for i in 0..cv.len() {
                        b.insts.push(Inst::Select { c: cv[i], dst: d + i as u32, a: vec![x[i]], b: vec![y[i]], leaves: Rc::new(vec![lv[i]]) });
                    }
                } else {
                    let _ = ct;
                    b.insts.push(Inst::Select { c: cv[0], dst: d, a: x, b: y, leaves: Rc::new(lv) });
                }
            }
            "freeze" => {
                let (t, v) = self.tyval(&mut c);
                let d = self.def(dst_name.as_ref().unwrap(), &t);
                b.insts.push(Inst::Move { dst: d, src: v });
            }
            "extractvalue" => {
                let (t, v) = self.tyval(&mut c);
                let (mut cur, mut base) = (t, 0usize);
                while c.eat(",") {
                    if c.peek() == b'!' { break; }
                    let i: usize = c.word().parse().unwrap();
                    for k in 0..i { base += cur.elem(k).nleaves(); }
                    cur = cur.elem(i).clone();
                }
                let n = cur.nleaves();
                let d = self.def(dst_name.as_ref().unwrap(), &cur);
                b.insts.push(Inst::Move { dst: d, src: v[base..base + n].to_vec() });
            }
            "insertvalue" => {
                let (t, mut v) = self.tyval(&mut c);
                c.expect(",");
                let (_, e) = self.tyval(&mut c);
                let (mut cur, mut base) = (t.clone(), 0usize);
                while c.eat(",") {
                    if c.peek() == b'!' { break; }
                    let i: usize = c.word().parse().unwrap();
                    for k in 0..i { base += cur.elem(k).nleaves(); }
                    cur = cur.elem(i).clone();
                }
                for (k, x) in e.into_iter().enumerate() { v[base + k] = x; }
                let d = self.def(dst_name.as_ref().unwrap(), &t);
                b.insts.push(Inst::Move { dst: d, src: v });
            }
            "phi" => {
                c.attrs();
                let t = self.m.parse_ty(&mut c);
                let mut inc = vec![];
                loop {
                    c.expect("[");
                    let v = self.val(&mut c, &t);
                    c.expect(",");
                    c.expect("%");
                    let n = c.name();
                    c.expect("]");
                    inc.push((self.labels[&n], v));
                    if !c.eat(",") { break; }
                    if c.peek() != b'[' { break; }
                }
                let d = self.def(dst_name.as_ref().unwrap(), &t);
                b.phis.push(Phi { dst: d, n: t.nleaves() as u32, inc });
            }
            "br" => {
                if c.peek() == b'l' {
                    let t = self.label(&mut c);
                    b.insts.push(Inst::Br(t));
                } else {
                    let (_, v) = self.tyval(&mut c);
                    c.expect(",");
                    let t = self.label(&mut c);
                    c.expect(",");
                    let f = self.label(&mut c);
                    b.insts.push(Inst::CondBr(v[0], t, f));
                }
            }
            "switch" => {
                let (t, v) = self.tyval(&mut c);
                c.expect(",");
                let def = self.label(&mut c);
                c.expect("[");
                let mut cases = vec![];
                while c.peek() != b']' {
                    let ct = self.m.parse_ty(&mut c);
                    let mut o = vec![];
                    self.m.parse_const(&mut c, &ct, &mut o);
                    c.expect(",");
                    let l = self.label(&mut c);
                    cases.push((o[0], l));
                }
                b.insts.push(Inst::Switch { v: v[0], w: t.width(), def, cases: Rc::new(cases) });
            }
            "ret" => {
                let t = self.m.parse_ty(&mut c);
                let v = if t == Ty::Void { vec![] } else { self.val(&mut c, &t) };
                b.insts.push(Inst::Ret(v));
            }
            "unreachable" => b.insts.push(Inst::Unreachable),
            "fence" => {}
            "atomicrmw" => {
                c.eat_word("volatile");
                let op = c.word().to_string();
                let (_, p) = self.tyval(&mut c);
                c.expect(",");
                let (t, v) = self.tyval(&mut c);
                let d = self.def(dst_name.as_ref().unwrap(), &t);
                b.insts.push(Inst::Rmw { op, w: t.width(), dst: d, p: p[0], v: v[0] });
            }
            "cmpxchg" => {
                while c.eat_word("weak") || c.eat_word("volatile") {}
                let (_, p) = self.tyval(&mut c);
                c.expect(",");
                let (t, x) = self.tyval(&mut c);
                c.expect(",");
                let (_, n) = self.tyval(&mut c);
                let rt = Ty::Struct(vec![t.clone(), Ty::Int(1)], false);
                let d = self.def(dst_name.as_ref().unwrap(), &rt);
                b.insts.push(Inst::CmpXchg { w: t.width(), dst: d, p: p[0], c: x[0], n: n[0] });
            }
            "insertelement" => {
                let (t, mut v) = self.tyval(&mut c);
                c.expect(",");
                let (_, e) = self.tyval(&mut c);
                c.expect(",");
                let (_, i) = self.tyval(&mut c);
                let d = self.def(dst_name.as_ref().unwrap(), &t);
                match i[0] {
                    Opnd::C(k) => { v[k as usize] = e[0]; b.insts.push(Inst::Move { dst: d, src: v }); }
                    _ => b.insts.push(Inst::Unsupported(String::from_utf8_lossy(l).into_owned())),
                }
            }
            "extractelement" => {
                let (t, v) = self.tyval(&mut c);
                c.expect(",");
                let (_, i) = self.tyval(&mut c);
                let d = self.def(dst_name.as_ref().unwrap(), t.elem(0));
                match i[0] {
                    Opnd::C(k) => b.insts.push(Inst::Move { dst: d, src: vec![v[k as usize]] }),
                    _ => b.insts.push(Inst::Unsupported(String::from_utf8_lossy(l).into_owned())),
                }
            }
            "shufflevector" => {
                let (t, v1) = self.tyval(&mut c);
                c.expect(",");
                let (_, v2) = self.tyval(&mut c);
                c.expect(",");
                let mt = self.m.parse_ty(&mut c);
                let mut mk = vec![];
                self.m.parse_const(&mut c, &mt, &mut mk);
                let n = v1.len();
                let rt = Ty::Vec(mk.len() as u64, Box::new(t.elem(0).clone()));
                let d = self.def(dst_name.as_ref().unwrap(), &rt);
                let src = mk.iter().map(|k| { let k = *k as usize; if k < n { v1[k] } else { v2[k - n] } }).collect();
                b.insts.push(Inst::Move { dst: d, src });
            }
            _ => b.insts.push(Inst::Unsupported(String::from_utf8_lossy(l).into_owned())),
        }
    }
    fn call(&mut self, mut c: Cur, l: &[u8], dst_name: Option<String>, b: &mut Block) {
        c.attrs();
        if c.peek() == b'c' && c.s[c.p..].starts_with(b"cc") { c.word(); c.attrs(); }
        let rt = self.m.parse_ty(&mut c);
        if c.peek() == b'(' { c.parens(); } // function type of a vararg call
        c.ws();
        let callee = if c.eat_word("asm") { Callee::Asm } else if c.eat("@") {
            let n = c.name();
            match self.m.fmap.get(&n) {
                Some(&f) => Callee::Fn(f),
                None => { let a = self.m.sym_addr(&n); Callee::Ind(Opnd::C(a)) }
            }
        } else {
            Callee::Ind(self.val1(&mut c, &Ty::Ptr))
        };
        if let Callee::Asm = callee {
            // only empty barriers and pause hints occur; a value-returning asm is unsupported
            if let Some(n) = dst_name {
                self.def(&n, &rt);
                b.insts.push(Inst::Unsupported(String::from_utf8_lossy(l).into_owned()));
            }
            return;
        }
        c.expect("(");
        let mut args = vec![];
        if !c.eat(")") {
            loop {
                let t = self.m.parse_ty(&mut c);
                c.attrs();
                if t == Ty::Meta {
                    // skip metadata operand
                    let mut d = 0;
                    while c.p < c.s.len() {
                        match c.s[c.p] { b'(' => d += 1, b')' if d == 0 => break, b')' => d -= 1, b',' if d == 0 => break, _ => {} }
                        c.p += 1;
                    }
                    args.push((vec![], 0));
                } else {
                    let v = self.val(&mut c, &t);
                    let w = if v.len() == 1 { t.leaves()[0].w } else { 0 };
                    args.push((v, w));
                }
                if c.eat(",") { continue; }
                c.expect(")");
                break;
            }
        }
        let d = match dst_name { Some(n) => self.def(&n, &rt), None => 0 };
        b.insts.push(Inst::Call { dst: d, rets: Rc::new(rt.leaves()), callee, args: Rc::new(args) });
    }
}
