//! Models of everything the IR calls but does not define: LLVM intrinsics, libc, and the harness interface;
//! plus hooks for a few library functions whose exact text output does not matter.
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local!(static DEM: RefCell<HashMap<String, String>> = Default::default());
pub fn demangle(n: &str) -> String {
    DEM.with(|d| d.borrow_mut().entry(n.to_string()).or_insert_with(|| format!("{:#}", rustc_demangle::demangle(n))).clone())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hook {
    None,
    Nop,
    MemCpy, MemSet, Bcmp, MemCmp, StrLen, MemChr,
    Malloc, Calloc, Realloc, Free, PosixMemalign,
    Open, Read, Write, Writev, Lseek, Fstat, Stat, Close, Unlink, Rename, Mkdir, Rmdir, Realpath, Ftruncate, Access,
    Errno, Ret0, RetM1, GetEnv, GetCwd, Clock, Abort, PthreadKeyCreate, PthreadGet, PthreadSet, Syscall, GetRandom, StrerrorR, Sysconf,
    ThreadLocal, Expect, WithOverflow(u8), Sat(u8), MinMax(u8), Ctlz, Cttz, Ctpop, Bswap, BitRev, Fsh(bool), Abs, Ucmp(bool), IsConst, Trap, Objsize,
    Panic, PanicNounwind, AllocError, HashKeys, SipWrite, SipFinish, FmtInt, FmtStrDebug, SkipToEscape, FAbs, FormatInner, Ok0,
    Sym(u8),
}
pub enum HookRes {
    Ret(Vec<V>),
    Fallthrough,
}

pub fn build(md: &Module) -> Vec<Hook> {
    md.funcs.iter().map(|f| classify(&f.name, f.text.is_some())).collect()
}

fn classify(n: &str, has_body: bool) -> Hook {
    use Hook::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let p: Vec<&str> = r.split('.').collect();
        return match p[0] {
            "lifetime" | "experimental" | "assume" | "dbg" | "prefetch" | "invariant" | "donothing" | "va_start" | "va_end" | "pseudoprobe" => Nop,
            "memcpy" | "memmove" => MemCpy,
            "memset" => MemSet,
            "threadlocal" | "launder" | "strip" | "ptrmask" => if p[0] == "ptrmask" { None } else { ThreadLocal },
            "expect" => Expect,
            "uadd" if p[1] == "with" => WithOverflow(0),
            "usub" if p[1] == "with" => WithOverflow(1),
            "umul" if p[1] == "with" => WithOverflow(2),
            "sadd" if p[1] == "with" => WithOverflow(3),
            "ssub" if p[1] == "with" => WithOverflow(4),
            "smul" if p[1] == "with" => WithOverflow(5),
            "uadd" => Sat(0),
            "usub" => Sat(1),
            "sadd" => Sat(2),
            "ssub" => Sat(3),
            "umin" => MinMax(0),
            "umax" => MinMax(1),
            "smin" => MinMax(2),
            "smax" => MinMax(3),
            "ctlz" => Ctlz,
            "cttz" => Cttz,
            "ctpop" => Ctpop,
            "bswap" => Bswap,
            "bitreverse" => BitRev,
            "fshl" => Fsh(true),
            "fshr" => Fsh(false),
            "abs" => Abs,
            "fabs" => FAbs,
            "ucmp" => Ucmp(false),
            "scmp" => Ucmp(true),
            "is" => IsConst,
            "trap" | "ubsantrap" => Trap,
            "objectsize" => Objsize,
            _ => None,
        };
    }
    if let Some(r) = n.strip_prefix("rsym_") {
        return match r {
            "bytes" => Sym(0), "wide" => Sym(1), "pick" => Sym(2), "assume" => Sym(3), "check" => Sym(4), "reach" => Sym(5),
            "case" => Sym(6), "alloc_limit" => Sym(7), "step_limit" => Sym(8), "uf" => Sym(9), "observe" => Sym(10), "opaque" => Sym(11),
            "hash_real" => Sym(12), "faults" => Sym(13), "drop" => Sym(14), "entropy" => Sym(15), "event" => Sym(16), "slot" => Sym(17), "eq" => Sym(18), "fork" => Sym(19), "fresh" => Sym(20), "must" => Sym(21), "field" => Sym(22),
            _ => None,
        };
    }
    match n {
        "bcmp" => return Bcmp,
        "memcmp" => return MemCmp,
        "memcpy" | "memmove" => return MemCpy,
        "memset" => return MemSet,
        "strlen" => return StrLen,
        "memchr" => return MemChr,
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "realloc" => return Realloc,
        "free" => return Free,
        "posix_memalign" => return PosixMemalign,
        "open64" | "open" => return Open,
        "read" => return Read,
        "write" => return Write,
        "writev" => return Writev,
        "lseek64" | "lseek" => return Lseek,
        "fstat64" | "fstat" => return Fstat,
        "stat64" | "lstat64" | "stat" | "lstat" => return Stat,
        "close" => return Close,
        "unlink" => return Unlink,
        "rename" => return Rename,
        "mkdir" => return Mkdir,
        "rmdir" => return Rmdir,
        "realpath" => return Realpath,
        "ftruncate64" | "ftruncate" => return Ftruncate,
        "access" => return Access,
        "__errno_location" => return Errno,
        "getenv" => return GetEnv,
        "getcwd" => return GetCwd,
        "clock_gettime" => return Clock,
        "abort" => return Abort,
        "pthread_key_create" => return PthreadKeyCreate,
        "pthread_getspecific" => return PthreadGet,
        "pthread_setspecific" => return PthreadSet,
        "pthread_atfork" | "pthread_key_delete" | "munmap" | "fsync" | "fdatasync" | "chmod" | "fchmod" | "flock" | "sigaction" | "signal" | "__cxa_thread_atexit_impl" | "sched_yield" => return Ret0,
        "syscall" => return Syscall,
        "getrandom" => return GetRandom,
        "__xpg_strerror_r" => return StrerrorR,
        "sysconf" | "getauxval" => return Ret0,
        "readlink" | "poll" | "mmap64" | "mmap" | "dl_iterate_phdr" | "isatty" => return RetM1,
        "getpid" | "gettid" => return Ret0,
        _ => {}
    }
    if n.starts_with("_Unwind_") { return Ret0; }
    let d = demangle(n);
    match d.as_str() {
        "core::panicking::panic_fmt" => return Panic,
        "core::panicking::panic_nounwind_fmt" | "core::panicking::panic_nounwind" => return PanicNounwind,
        "alloc::alloc::handle_alloc_error" => return AllocError,
        "std::io::stdio::_print" | "std::io::stdio::_eprint" => return Nop,
        "std::sys::random::hashmap_random_keys" | "std::sys::random::linux::hashmap_random_keys" => return HashKeys,
        "alloc::fmt::format::format_inner" | "alloc::fmt::format" => return if has_body { FormatInner } else { None },
        "<str as core::fmt::Debug>::fmt" => return FmtStrDebug,
        "<serde_json::read::SliceRead>::skip_to_escape" => return if has_body { SkipToEscape } else { None },
        _ => {}
    }
    if d.starts_with("core::fmt::num::imp::<impl core::fmt::Display for ") && d.ends_with(">::fmt") { return FmtInt; }
    if (d.starts_with("<u") || d.starts_with("<i")) && d.ends_with("as core::fmt::Display>::fmt") && d.len() < 40 { return FmtInt; }
    if (d.starts_with("<u") || d.starts_with("<i")) && d.ends_with("as core::fmt::Debug>::fmt") && d.len() < 40 { return FmtInt; }
    if d.contains("DefaultHasher as core::hash::Hasher>::write") || d.contains("SipHasher13 as core::hash::Hasher>::write") { return SipWrite; }
    if d.contains("std::hash::random::RandomState as core::hash::BuildHasher>::hash_one") || d.starts_with("hashbrown::map::make_hash::") && d.contains("RandomState") { return SipFinish; }
    if d.contains("DefaultHasher as core::hash::Hasher>::finish") || d.contains("SipHasher13 as core::hash::Hasher>::finish") { return SipFinish; }
    None
}

pub fn initial(ex: &mut Exec, entry: &str) -> State {
    let fid = *ex.md.fmap.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
    let f = ex.md.func(fid).expect("entry has no body");
    let mut st = State {
        stack: vec![], mem: vec![], nobj: ex.md.globals.len() as u32, free_ids: vec![], pc: vec![], known: Default::default(),
        kvars: Default::default(), model: MState::new(Rc::new(Model::default())), steps: 0, fs: Default::default(), inputs: vec![],
        observed: vec![], alloc_limit: 64 << 20, step_limit: 20_000_000, opaque: true, hash_real: false, faults: 0, uncertain: false,
        reached: vec![], errno_obj: 0, tls_keys: vec![], depth: 0, rng_ctr: 0, slots: [0; 8],
    };
    st.errno_obj = ex.new_obj(&mut st, 8);
    let mut fs = Fs::default();
    fs.fds = vec![None, None, None];
    for i in 0..3 { fs.fds[i] = Some(Fd { path: format!("<std{i}>"), pos: 0, far: None, read: false, write: true, append: false, dir: None }); }
    st.fs = Rc::new(fs);
    ex.push_call(&mut st, f, vec![], 0).ok();
    st
}

fn npath(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c { "" | "." => {}, ".." => { out.pop(); } c => out.push(c) }
    }
    out.join("/")
}

impl<'m> Exec<'m> {
    fn set_errno(&mut self, st: &mut State, e: u32) -> R<()> {
        let a = obj_addr(st.errno_obj);
        let b: Vec<V> = e.to_le_bytes().iter().map(|x| V::I(*x as u64)).collect();
        self.write_bytes(st, a, &b)
    }
    fn cu(&mut self, st: &mut State, v: V) -> R<u64> {
        Ok(self.conc(st, v, 64)? as u64)
    }
    /// size for an allocation: Err = above the limit (event)
    fn alloc_size(&mut self, st: &mut State, size: V) -> R<u64> {
        match size {
            V::I(n) => {
                if n > st.alloc_limit { return Err(Stop::Event("alloc".into(), format!("allocation of {n} bytes (limit {})", st.alloc_limit))); }
                Ok(n)
            }
            V::T(t) => {
                if let Some(k) = self.const_known(st, t) { return self.alloc_size(st, V::I(k as u64)); }
                let (_, hi) = self.ar.range(t);
                let mut cap = st.alloc_limit;
                if hi > st.alloc_limit as u128 {
                    let l = self.ar.cst(st.alloc_limit as u128, 64);
                    let c = self.ar.bin(Op::Ule, t, l);
                    if !self.decide_t(st, c)? {
                        let n = st.model.eval(&self.ar, t);
                        return Err(Stop::Event("alloc".into(), format!("allocation of {n} bytes (limit {})", st.alloc_limit)));
                    }
                } else { cap = hi as u64; }
                Ok(cap)
            }
        }
    }
    fn malloc(&mut self, st: &mut State, size: V) -> R<u64> {
        let n = self.alloc_size(st, size)?;
        let id = self.new_obj(st, n);
        Ok(obj_addr(id))
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        let id = (a >> 32) as i64 - OBJ_BASE as i64;
        if a & 0xffff_ffff != 0 || id < self.md.globals.len() as i64 || id >= st.nobj as i64 { return self.ub(format!("free of {a:#x}")); }
        self.obj(st, a, 0)?;
        self.free_obj(st, id as u32);
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()); }
        let (o, off) = self.obj(st, s, n)?;
        let o = o.clone();
        let n = n as usize;
        let (t, to) = self.obj_mut(st, d, n as u64)?;
        let avail = o.data.len().saturating_sub(off).min(n);
        if avail > 0 { t.data[to..to + avail].copy_from_slice(&o.data[off..off + avail]); }
        for x in &mut t.data[to + avail..to + n] { *x = 0; }
        if !o.sym.is_empty() || !t.sym.is_empty() {
            t.ensure_sym();
            for i in 0..n {
                t.sym[to + i] = if off + i < o.sym.len() { o.sym[off + i] } else { NOSYM };
            }
        }
        Ok(())
    }
    fn bytes_eq(&mut self, a: &[V], b: &[V]) -> V {
        // fold concrete parts first
        let mut acc: Option<T> = None;
        for (x, y) in a.iter().zip(b) {
            match (x, y) {
                (V::I(p), V::I(q)) => if p != q { return V::I(0); },
                _ => {}
            }
        }
        let mut i = 0;
        while i < a.len() {
            if let (V::I(_), V::I(_)) = (a[i], b[i]) { i += 1; continue; }
            // group up to 8 bytes
            let e = (i + 8).min(a.len());
            let (x, y) = (self.join(&a[i..e]), self.join(&b[i..e]));
            let q = self.ar.eq(x, y);
            if self.ar.as_const(q) == Some(0) { return V::I(0); }
            acc = Some(match acc { None => q, Some(r) => self.ar.and1(r, q) });
            i = e;
        }
        match acc { None => V::I(1), Some(t) => self.norm(t) }
    }
    fn open(&mut self, st: &mut State, path: String, flags: u64) -> R<i64> {
        let acc = flags & 3;
        let p = npath(&path);
        let exists = st.fs.files.contains_key(&p);
        let wr = acc != 0;
        if st.fs.dirs.contains(&p) && wr { self.set_errno(st, 21)?; return Ok(-1); }
        if wr && st.faults & 2 != 0 && self.fault(st)? { self.set_errno(st, 13)?; return Ok(-1); }
        if !exists && flags & 0x40 == 0 { self.set_errno(st, 2)?; return Ok(-1); }
        if exists && flags & 0xc0 == 0xc0 { self.set_errno(st, 17)?; return Ok(-1); }
        if !exists {
            if let Some((d, _)) = p.rsplit_once('/') {
                if !st.fs.dirs.contains(d) { self.set_errno(st, 2)?; return Ok(-1); }
            }
        }
        let fs = Rc::make_mut(&mut st.fs);
        if !exists || (flags & 0x200 != 0 && wr) { fs.files.insert(p.clone(), Rc::new(FileData::default())); }
        let fd = Fd { path: p, pos: 0, far: None, read: acc != 1, write: wr, append: flags & 0x400 != 0, dir: None };
        for i in 3..fs.fds.len() {
            if fs.fds[i].is_none() { fs.fds[i] = Some(fd); return Ok(i as i64); }
        }
        fs.fds.push(Some(fd));
        Ok(fs.fds.len() as i64 - 1)
    }
    fn fault(&mut self, st: &mut State) -> R<bool> {
        // a fresh boolean per potential fault, at most one fault per path
        if st.faults & 1 == 0 { return Ok(false); }
        let key = format!("fault{}", st.rng_ctr);
        let t = self.ar.uf(&key, &[], 1);
        let r = self.decide_t(st, t)?;
        st.rng_ctr += 1;
        if r { st.faults &= !1; let l = self.label("fault-injected"); st.reached.push(l); }
        Ok(r)
    }
    fn fd<'a>(&self, st: &'a State, fd: u64) -> Option<&'a Fd> {
        st.fs.fds.get(fd as usize).and_then(|f| f.as_ref())
    }
    fn do_write(&mut self, st: &mut State, fd: u64, data: &[V]) -> R<i64> {
        let f = match self.fd(st, fd) { Some(f) => f.clone(), None => { self.set_errno(st, 9)?; return Ok(-1); } };
        if fd < 3 { return Ok(data.len() as i64); }
        if !f.write { self.set_errno(st, 9)?; return Ok(-1); }
        if st.faults & 4 != 0 && self.fault(st)? { self.set_errno(st, 28)?; return Ok(-1); }
        let fs = Rc::make_mut(&mut st.fs);
        if let Some(file) = fs.files.get_mut(&f.path) {
            let file = Rc::make_mut(file);
            if f.far.is_some() && !f.append { return self.unsupported("write at a symbolic position".into()); }
            let pos = if f.append { file.data.len() } else { f.pos as usize };
            if file.data.len() < pos + data.len() { file.data.resize(pos + data.len(), V::I(0)); }
            file.data[pos..pos + data.len()].copy_from_slice(data);
            fs.fds[fd as usize].as_mut().unwrap().pos = (pos + data.len()) as u64;
        }
        Ok(data.len() as i64)
    }
    fn write_stat(&mut self, st: &mut State, a: u64, size: Option<u64>) -> R<()> {
        let mut b = vec![0u8; 128];
        let mode: u32 = if size.is_some() { 0o100644 } else { 0o040755 };
        b[16..20].copy_from_slice(&mode.to_le_bytes());
        b[20..24].copy_from_slice(&1u32.to_le_bytes());
        b[48..56].copy_from_slice(&size.unwrap_or(0).to_le_bytes());
        b[56..60].copy_from_slice(&4096u32.to_le_bytes());
        let v: Vec<V> = b.iter().map(|x| V::I(*x as u64)).collect();
        self.write_bytes(st, a, &v)
    }
    fn str_arg(&mut self, st: &mut State, p: V, n: V) -> R<String> {
        let (p, n) = (self.cu(st, p)?, self.cu(st, n)?);
        let b = self.read_conc(st, p, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn has_sym(&mut self, st: &mut State, a: u64, n: u64) -> bool {
        match self.read_bytes(st, a, n) { Ok(b) => b.iter().any(|v| matches!(v, V::T(_))), Err(_) => false }
    }

    pub fn hook(&mut self, st: &mut State, h: Hook, fid: u32, a: &[V], args: &[(Vec<Opnd>, u16)], rets: &[Leaf]) -> R<HookRes> {
        let ok = |v: Vec<V>| Ok(HookRes::Ret(v));
        let int = |x: i64| Ok(HookRes::Ret(vec![V::I(x as u64)]));
        let i32r = |x: i64| Ok(HookRes::Ret(vec![V::I(x as u32 as u64)]));
        let w0 = args.iter().find(|x| x.1 > 0).map_or(64, |x| x.1);
        match h {
            Hook::None => Ok(HookRes::Fallthrough),
            Hook::Nop => ok(rets.iter().map(|_| V::I(0)).collect()),
            Hook::Ok0 | Hook::Ret0 => ok(rets.iter().map(|_| V::I(0)).collect()),
            Hook::RetM1 => ok(rets.iter().map(|l| V::I(if l.w >= 64 { u64::MAX } else { (1u64 << l.w) - 1 })).collect()),
            Hook::MemCpy => {
                let (d, s, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?, self.cu(st, a[2])?);
                self.memcpy(st, d, s, n)?;
                ok(vec![V::I(d)])
            }
            Hook::MemSet => {
                let (d, n) = (self.cu(st, a[0])?, self.cu(st, a[2])?);
                if n > 0 {
                    let v = self.cast(CastK::Trunc, if args[1].1 > 8 { args[1].1 } else { 8 }, 8, a[1]).unwrap();
                    if let V::I(x) = v {
                        let (o, off) = self.obj_mut(st, d, n)?;
                        for b in &mut o.data[off..off + n as usize] { *b = x as u8; }
                        if !o.sym.is_empty() { for b in &mut o.sym[off..off + n as usize] { *b = NOSYM; } }
                    } else { self.write_bytes(st, d, &vec![v; n as usize])?; }
                }
                ok(vec![V::I(d)])
            }
            Hook::Bcmp => {
                let (p, q, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?, self.cu(st, a[2])?);
                let (x, y) = (self.read_bytes(st, p, n)?, self.read_bytes(st, q, n)?);
                let e = self.bytes_eq(&x, &y);
                let r = match e {
                    V::I(k) => V::I(1 - k),
                    V::T(t) => { let n = self.ar.not1(t); let z = self.ar.zext(n, 32); self.norm(z) }
                };
                ok(vec![r])
            }
            Hook::MemCmp => {
                let (p, q, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?, self.cu(st, a[2])?);
                let (x, y) = (self.read_bytes(st, p, n)?, self.read_bytes(st, q, n)?);
                let mut acc = self.ar.cst(0, 32);
                for i in (0..n as usize).rev() {
                    let (s, t) = (self.tt(x[i], 8), self.tt(y[i], 8));
                    let e = self.ar.eq(s, t);
                    let l = self.ar.bin(Op::Ult, s, t);
                    let (m1, p1) = (self.ar.cst(0xffff_ffff, 32), self.ar.cst(1, 32));
                    let d = self.ar.ite(l, m1, p1);
                    acc = self.ar.ite(e, acc, d);
                }
                let v = self.norm(acc);
                ok(vec![v])
            }
            Hook::StrLen => { let p = self.cu(st, a[0])?; let s = self.read_cstr(st, p)?; int(s.len() as i64) }
            Hook::MemChr => {
                let (p, c, n) = (self.cu(st, a[0])?, a[1], self.cu(st, a[2])?);
                let c = self.cast(CastK::Trunc, 32, 8, c).unwrap();
                let b = self.read_bytes(st, p, n)?;
                let mut acc = self.ar.cst(0, 64);
                for i in (0..n as usize).rev() {
                    let (s, t) = (self.tt(b[i], 8), self.tt(c, 8));
                    let e = self.ar.eq(s, t);
                    let k = self.ar.cst((p + i as u64) as u128, 64);
                    acc = self.ar.ite(e, k, acc);
                }
                let v = self.norm(acc);
                ok(vec![v])
            }
            Hook::Malloc => { let r = self.malloc(st, a[0])?; int(r as i64) }
            Hook::Calloc => {
                let s = self.binop(BinK::Mul, 64, a[0], a[1]).unwrap();
                let r = self.malloc(st, s)?;
                int(r as i64)
            }
            Hook::PosixMemalign => {
                let p = self.cu(st, a[0])?;
                let r = self.malloc(st, a[2])?;
                let b: Vec<V> = r.to_le_bytes().iter().map(|x| V::I(*x as u64)).collect();
                self.write_bytes(st, p, &b)?;
                i32r(0)
            }
            Hook::Realloc => {
                let p = self.cu(st, a[0])?;
                let n = self.alloc_size(st, a[1])?;
                if p == 0 { let r = self.malloc(st, V::I(n))?; return int(r as i64); }
                let old = self.obj(st, p, 0)?.0.clone();
                let id = self.new_obj(st, n);
                let r = obj_addr(id);
                let k = old.data.len().min(n as usize);
                if k > 0 { self.memcpy(st, r, p, k as u64)?; }
                self.free(st, p)?;
                int(r as i64)
            }
            Hook::Free => { let p = self.cu(st, a[0])?; self.free(st, p)?; ok(vec![]) }
            Hook::Open => {
                let p = self.cu(st, a[0])?;
                let path = self.read_cstr(st, p)?;
                let fl = self.cu(st, a[1])?;
                let r = self.open(st, path, fl)?;
                i32r(r)
            }
            Hook::Close => {
                let fd = self.cu(st, a[0])?;
                let fs = Rc::make_mut(&mut st.fs);
                if (fd as usize) < fs.fds.len() && fd >= 3 { fs.fds[fd as usize] = None; }
                i32r(0)
            }
            Hook::Read => {
                let fd = self.cu(st, a[0])?;
                let f = match self.fd(st, fd) { Some(f) => f.clone(), None => { self.set_errno(st, 9)?; return int(-1); } };
                let file = match st.fs.files.get(&f.path) { Some(f) => f.clone(), None => return int(0) };
                let rest = (file.data.len() as u64).saturating_sub(f.pos);
                // n = min(count, rest), forking only when count may be smaller than what is left
                let n = match a[2] {
                    V::I(c) => c.min(rest),
                    V::T(t) => {
                        let k = self.ar.cst(rest as u128, 64);
                        let c = self.ar.bin(Op::Ule, k, t);
                        if self.decide_t(st, c)? { rest } else { self.cu(st, a[2])? }
                    }
                };
                let p = self.cu(st, a[1])?;
                if n == 0 { return int(0); }
                let d = file.data[f.pos as usize..(f.pos + n) as usize].to_vec();
                self.write_bytes(st, p, &d)?;
                Rc::make_mut(&mut st.fs).fds[fd as usize].as_mut().unwrap().pos += n;
                int(n as i64)
            }
            Hook::Write => {
                let (fd, p, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?, self.cu(st, a[2])?);
                if fd < 3 { return int(n as i64); }
                let d = self.read_bytes(st, p, n)?;
                let r = self.do_write(st, fd, &d)?;
                int(r)
            }
            Hook::Writev => {
                let (fd, p, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?, self.cu(st, a[2])?);
                let mut d = vec![];
                for i in 0..n {
                    let iov = self.read_conc(st, p + 16 * i, 16)?;
                    let b = u64::from_le_bytes(iov[..8].try_into().unwrap());
                    let l = u64::from_le_bytes(iov[8..].try_into().unwrap());
                    d.extend(self.read_bytes(st, b, l)?);
                }
                let r = self.do_write(st, fd, &d)?;
                int(r)
            }
            Hook::Lseek => {
                let fd = self.cu(st, a[0])?;
                let wh = self.cu(st, a[2])?;
                let f = match self.fd(st, fd) { Some(f) => f.clone(), None => { self.set_errno(st, 9)?; return int(-1); } };
                let len = st.fs.files.get(&f.path).map_or(0, |f| f.data.len() as u64);
                let base = match (wh, f.far) { (0, _) => V::I(0), (1, Some(t)) => V::T(t), (1, None) => V::I(f.pos), _ => V::I(len) };
                let np = self.binop(BinK::Add, 64, a[1], base).unwrap();
                // negative -> EINVAL; beyond the end: any position reads as EOF
                let neg = self.icmp(Pred::Slt, 64, np, V::I(0));
                if self.decide(st, neg)? { self.set_errno(st, 22)?; return int(-1); }
                let pos = match np {
                    V::I(k) => k,
                    V::T(t) => {
                        let c = self.icmp(Pred::Ult, 64, np, V::I(len));
                        if self.decide(st, c)? { self.cu(st, np)? } else {
                            // past the end the exact offset only matters to the returned value
                            let f = Rc::make_mut(&mut st.fs).fds[fd as usize].as_mut().unwrap();
                            f.pos = len;
                            f.far = Some(t);
                            return ok(vec![np]);
                        }
                    }
                };
                let f = Rc::make_mut(&mut st.fs).fds[fd as usize].as_mut().unwrap();
                f.pos = pos;
                f.far = None;
                int(pos as i64)
            }
            Hook::Fstat => {
                let (fd, p) = (self.cu(st, a[0])?, self.cu(st, a[1])?);
                let size = match self.fd(st, fd) { Some(f) => st.fs.files.get(&f.path).map_or(0, |x| x.data.len() as u64), None => { self.set_errno(st, 9)?; return i32r(-1); } };
                self.write_stat(st, p, Some(size))?;
                i32r(0)
            }
            Hook::Stat => {
                let p = self.cu(st, a[0])?;
                let path = npath(&self.read_cstr(st, p)?);
                let p = self.cu(st, a[1])?;
                if let Some(f) = st.fs.files.get(&path) { let n = f.data.len() as u64; self.write_stat(st, p, Some(n))?; return i32r(0); }
                if path.is_empty() || st.fs.dirs.contains(&path) { self.write_stat(st, p, None)?; return i32r(0); }
                self.set_errno(st, 2)?;
                i32r(-1)
            }
            Hook::Access => {
                let p = self.cu(st, a[0])?;
                let path = npath(&self.read_cstr(st, p)?);
                if st.fs.files.contains_key(&path) || st.fs.dirs.contains(&path) { return i32r(0); }
                self.set_errno(st, 2)?;
                i32r(-1)
            }
            Hook::Unlink => {
                let p = self.cu(st, a[0])?;
                let path = npath(&self.read_cstr(st, p)?);
                if Rc::make_mut(&mut st.fs).files.remove(&path).is_some() { return i32r(0); }
                self.set_errno(st, 2)?;
                i32r(-1)
            }
            Hook::Rename => {
                let (p, q) = (self.cu(st, a[0])?, self.cu(st, a[1])?);
                let (x, y) = (npath(&self.read_cstr(st, p)?), npath(&self.read_cstr(st, q)?));
                let fs = Rc::make_mut(&mut st.fs);
                if let Some(f) = fs.files.remove(&x) { fs.files.insert(y, f); return i32r(0); }
                self.set_errno(st, 2)?;
                i32r(-1)
            }
            Hook::Mkdir => {
                let p = self.cu(st, a[0])?;
                let x = npath(&self.read_cstr(st, p)?);
                if !Rc::make_mut(&mut st.fs).dirs.insert(x) { self.set_errno(st, 17)?; return i32r(-1); }
                i32r(0)
            }
            Hook::Rmdir => {
                let p = self.cu(st, a[0])?;
                let x = npath(&self.read_cstr(st, p)?);
                Rc::make_mut(&mut st.fs).dirs.remove(&x);
                i32r(0)
            }
            Hook::Realpath => {
                let p = self.cu(st, a[0])?;
                let x = npath(&self.read_cstr(st, p)?);
                let q = self.cu(st, a[1])?;
                let exists = st.fs.files.contains_key(&x) || st.fs.dirs.contains(&x) || x.is_empty();
                if !exists { self.set_errno(st, 2)?; return int(0); }
                let mut b: Vec<u8> = format!("/{x}").into_bytes();
                b.push(0);
                let q = if q == 0 { self.malloc(st, V::I(b.len() as u64))? } else { q };
                let v: Vec<V> = b.iter().map(|x| V::I(*x as u64)).collect();
                self.write_bytes(st, q, &v)?;
                int(q as i64)
            }
            Hook::Ftruncate => {
                let (fd, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?);
                let path = match self.fd(st, fd) { Some(f) => f.path.clone(), None => { self.set_errno(st, 9)?; return i32r(-1); } };
                if let Some(f) = Rc::make_mut(&mut st.fs).files.get_mut(&path) { Rc::make_mut(f).data.resize(n as usize, V::I(0)); }
                i32r(0)
            }
            Hook::Errno => int(obj_addr(st.errno_obj) as i64),
            Hook::GetEnv => int(0),
            Hook::GetCwd => {
                let p = self.cu(st, a[0])?;
                self.write_bytes(st, p, &[V::I(b'/' as u64), V::I(0)])?;
                int(p as i64)
            }
            Hook::Clock => {
                let p = self.cu(st, a[1])?;
                self.write_bytes(st, p, &vec![V::I(0); 16])?;
                i32r(0)
            }
            Hook::Abort | Hook::Trap => Err(Stop::Event("abort".into(), "process abort".into())),
            Hook::PthreadKeyCreate => {
                let p = self.cu(st, a[0])?;
                st.tls_keys.push(0);
                let k = st.tls_keys.len() as u32;
                let b: Vec<V> = k.to_le_bytes().iter().map(|x| V::I(*x as u64)).collect();
                self.write_bytes(st, p, &b)?;
                i32r(0)
            }
            Hook::PthreadGet => { let k = self.cu(st, a[0])? as usize; int(*st.tls_keys.get(k.wrapping_sub(1)).unwrap_or(&0) as i64) }
            Hook::PthreadSet => {
                let k = self.cu(st, a[0])? as usize;
                let v = self.cu(st, a[1])?;
                if k >= 1 && k <= st.tls_keys.len() { st.tls_keys[k - 1] = v; }
                i32r(0)
            }
            Hook::Syscall => {
                let n = self.cu(st, a[0])?;
                if n == 278 {
                    let (p, n) = (self.cu(st, a[1])?, self.cu(st, a[2])?);
                    self.entropy(st, p, n)?;
                    return int(n as i64);
                }
                if n == 98 { return int(0); }
                self.set_errno(st, 38)?;
                int(-1)
            }
            Hook::GetRandom => {
                let (p, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?);
                self.entropy(st, p, n)?;
                int(n as i64)
            }
            Hook::StrerrorR => {
                let p = self.cu(st, a[1])?;
                self.write_bytes(st, p, &[V::I(b'e' as u64), V::I(0)])?;
                i32r(0)
            }
            Hook::Sysconf => int(4096),
            Hook::ThreadLocal | Hook::Expect => ok(vec![a[0]]),
            Hook::WithOverflow(k) => {
                let w = w0;
                let (x, y) = (a[0], a[1]);
                let bk = [BinK::Add, BinK::Sub, BinK::Mul][(k % 3) as usize];
                let r = self.binop(bk, w, x, y).unwrap();
                let ov = match (x, y) {
                    (V::I(p), V::I(q)) => {
                        let f = if k < 3 {
                            let (p, q) = (p as i128, q as i128);
                            let e = match k { 0 => p + q, 1 => p - q, _ => p.wrapping_mul(q) };
                            if k == 2 { (p as u128) * (q as u128) > mask(w) } else { e < 0 || e as u128 > mask(w) }
                        } else {
                            let (p, q) = (sext128(p as u128, w), sext128(q as u128, w));
                            let e = match k { 3 => p + q, 4 => p - q, _ => p * q };
                            sext128(e as u128 & mask(w), w) != e
                        };
                        V::I(f as u64)
                    }
                    _ => match k {
                        0 => self.icmp(Pred::Ult, w, r, x),
                        1 => self.icmp(Pred::Ult, w, x, y),
                        2 => {
                            // by a constant: compare against the quotient, otherwise widen
                            let cst = match (x, y) { (V::I(c), o) | (o, V::I(c)) => Some((c as u128, o)), _ => None };
                            match cst {
                                Some((0, _)) => V::I(0),
                                Some((c, o)) => { let lim = self.ar.cst(mask(w) / c, w); let t = self.tt(o, w); let b = self.ar.bin(Op::Ult, lim, t); self.norm(b) }
                                None => {
                                    let (p, q) = (self.tt(x, w), self.tt(y, w));
                                    let (_, ph) = self.ar.range(p);
                                    let (_, qh) = self.ar.range(q);
                                    if ph.checked_mul(qh).map_or(false, |m| m <= mask(w)) { V::I(0) } else if w <= 64 {
                                        let (p, q) = (self.ar.zext(p, 2 * w), self.ar.zext(q, 2 * w));
                                        let m = self.ar.bin(Op::Mul, p, q);
                                        let hi = self.ar.extract(m, 2 * w - 1, w);
                                        let z = self.ar.cst(0, w);
                                        let e = self.ar.eq(hi, z);
                                        let n = self.ar.not1(e);
                                        self.norm(n)
                                    } else { return self.unsupported("umul.with.overflow wider than 64".into()); }
                                }
                            }
                        }
                        _ => {
                            let ww = if k == 5 { 2 * w } else { w + 1 };
                            if ww > 128 { return self.unsupported("signed overflow wider than 64".into()); }
                            let (p, q) = (self.tt(x, w), self.tt(y, w));
                            let (p, q) = (self.ar.sext(p, ww), self.ar.sext(q, ww));
                            let e = self.ar.bin(match k { 3 => Op::Add, 4 => Op::Sub, _ => Op::Mul }, p, q);
                            let lo = self.ar.extract(e, w - 1, 0);
                            let back = self.ar.sext(lo, ww);
                            let q = self.ar.eq(back, e);
                            let n = self.ar.not1(q);
                            self.norm(n)
                        }
                    },
                };
                ok(vec![r, ov])
            }
            Hook::Sat(k) => {
                let w = w0;
                let bk = if k % 2 == 0 { BinK::Add } else { BinK::Sub };
                let r = self.binop(bk, w, a[0], a[1]).unwrap();
                match k {
                    0 => { let c = self.icmp(Pred::Ult, w, r, a[0]); let m = self.ar.cst(mask(w), w); let v = self.sel(c, V::T(m), r, w); ok(vec![v]) }
                    1 => { let c = self.icmp(Pred::Ult, w, a[0], a[1]); let z = self.ar.cst(0, w); let v = self.sel(c, V::T(z), r, w); ok(vec![v]) }
                    _ => match (a[0], a[1]) {
                        (V::I(x), V::I(y)) => {
                            let (x, y) = (sext128(x as u128, w), sext128(y as u128, w));
                            let e = if k == 2 { x + y } else { x - y };
                            let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                            ok(vec![V::I((e.clamp(lo, hi) as u128 & mask(w)) as u64)])
                        }
                        _ => {
                            let (p, q) = (self.tt(a[0], w), self.tt(a[1], w));
                            let (p, q) = (self.ar.sext(p, w + 2), self.ar.sext(q, w + 2));
                            let e = self.ar.bin(if k == 2 { Op::Add } else { Op::Sub }, p, q);
                            let (lo, hi) = ((-(1i128 << (w - 1))) as u128 & mask(w + 2), (1u128 << (w - 1)) - 1);
                            let (lo, hi) = (self.ar.cst(lo, w + 2), self.ar.cst(hi, w + 2));
                            let c = self.ar.bin(Op::Slt, e, lo);
                            let e = self.ar.ite(c, lo, e);
                            let c = self.ar.bin(Op::Slt, hi, e);
                            let e = self.ar.ite(c, hi, e);
                            let e = self.ar.extract(e, w - 1, 0);
                            let v = self.norm(e);
                            ok(vec![v])
                        }
                    },
                }
            }
            Hook::FAbs => {
                let m = mask(w0) >> 1;
                let v = match a[0] {
                    V::I(x) => V::I(x & m as u64),
                    V::T(t) => { let m = self.ar.cst(m, w0); let r = self.ar.bin(Op::And, t, m); self.norm(r) }
                };
                ok(vec![v])
            }
            Hook::MinMax(k) => {
                let p = [Pred::Ult, Pred::Ugt, Pred::Slt, Pred::Sgt][k as usize];
                let c = self.icmp(p, w0, a[0], a[1]);
                let v = self.sel(c, a[0], a[1], w0);
                ok(vec![v])
            }
            Hook::Ctlz | Hook::Cttz | Hook::Ctpop => {
                let w = w0;
                match a[0] {
                    V::I(x) => {
                        let r = match h {
                            Hook::Ctlz => (x.leading_zeros() as u64).saturating_sub(64 - w as u64),
                            Hook::Cttz => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 },
                            _ => x.count_ones() as u64,
                        };
                        ok(vec![V::I(r)])
                    }
                    V::T(t) => {
                        let mut acc = self.ar.cst(if h == Hook::Ctpop { 0 } else { w as u128 }, w);
                        let order: Vec<u16> = if h == Hook::Cttz { (0..w).rev().collect() } else { (0..w).collect() };
                        for i in order {
                            let b = self.ar.extract(t, i, i);
                            if h == Hook::Ctpop {
                                let z = self.ar.zext(b, w);
                                acc = self.ar.bin(Op::Add, acc, z);
                            } else {
                                let k = self.ar.cst(if h == Hook::Ctlz { (w - 1 - i) as u128 } else { i as u128 }, w);
                                acc = self.ar.ite(b, k, acc);
                            }
                        }
                        let v = self.norm(acc);
                        ok(vec![v])
                    }
                }
            }
            Hook::Bswap => {
                let w = w0;
                let t = self.tt(a[0], w);
                let mut acc: Option<T> = None;
                for i in 0..w / 8 {
                    let e = self.ar.extract(t, i * 8 + 7, i * 8);
                    acc = Some(match acc { None => e, Some(x) => self.ar.concat(x, e) });
                }
                let v = self.norm(acc.unwrap());
                ok(vec![v])
            }
            Hook::BitRev => {
                let w = w0;
                let t = self.tt(a[0], w);
                let mut acc: Option<T> = None;
                for i in 0..w {
                    let e = self.ar.extract(t, i, i);
                    acc = Some(match acc { None => e, Some(x) => self.ar.concat(x, e) });
                }
                let v = self.norm(acc.unwrap());
                ok(vec![v])
            }
            Hook::Fsh(left) => {
                let w = w0;
                let k = self.binop(BinK::URem, w, a[2], V::I(w as u64)).unwrap();
                if let (V::I(x), V::I(y), V::I(k)) = (a[0], a[1], k) {
                    let c = ((x as u128) << w) | y as u128;
                    let r = if left { (c << k) >> w } else { c >> k };
                    return ok(vec![V::I((r & mask(w)) as u64)]);
                }
                if w > 64 { return self.unsupported("funnel shift".into()); }
                let (x, y, k) = (self.tt(a[0], w), self.tt(a[1], w), self.tt(k, w));
                let c = self.ar.concat(x, y);
                let k2 = self.ar.zext(k, 2 * w);
                let r = if left { let s = self.ar.bin(Op::Shl, c, k2); self.ar.extract(s, 2 * w - 1, w) } else { let s = self.ar.bin(Op::LShr, c, k2); self.ar.extract(s, w - 1, 0) };
                let v = self.norm(r);
                ok(vec![v])
            }
            Hook::Abs => {
                let w = w0;
                let neg = self.icmp(Pred::Slt, w, a[0], V::I(0));
                let z = self.binop(BinK::Sub, w, V::I(0), a[0]).unwrap();
                let v = self.sel(neg, z, a[0], w);
                ok(vec![v])
            }
            Hook::Ucmp(s) => {
                let w = w0;
                let rw = rets[0].w;
                let lt = self.icmp(if s { Pred::Slt } else { Pred::Ult }, w, a[0], a[1]);
                let eq = self.icmp(Pred::Eq, w, a[0], a[1]);
                let v = self.sel(eq, V::I(0), V::I(1), rw);
                let m1 = if rw >= 64 { u64::MAX } else { (1u64 << rw) - 1 };
                let v = self.sel(lt, V::I(m1), v, rw);
                ok(vec![v])
            }
            Hook::IsConst => ok(vec![V::I(0)]),
            Hook::Objsize => ok(vec![V::I(u64::MAX)]),
            Hook::Panic | Hook::PanicNounwind => {
                let mut msg = String::new();
                if let Some(V::I(loc)) = a.last() {
                    if let Ok(b) = self.read_conc(st, *loc, 24) {
                        let p = u64::from_le_bytes(b[..8].try_into().unwrap());
                        let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                        let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                        if n < 300 { if let Ok(s) = self.read_conc(st, p, n) { msg = format!("{}:{}", String::from_utf8_lossy(&s), line); } }
                    }
                }
                Err(Stop::Event("panic".into(), format!("panic at {msg}")))
            }
            Hook::AllocError => Err(Stop::Event("alloc".into(), "allocation failure".into())),
            Hook::HashKeys => {
                let c = if st.hash_real { self.case.wrapping_mul(0x9E3779B97F4A7C15) } else { 1 };
                ok(vec![V::I(c ^ 0x1234_5678_9abc), V::I(c.rotate_left(17) ^ 0xfeed)])
            }
            Hook::SipWrite => if st.hash_real { Ok(HookRes::Fallthrough) } else { ok(vec![]) },
            Hook::SipFinish => if st.hash_real { Ok(HookRes::Fallthrough) } else { ok(vec![V::I(0)]) },
            Hook::FmtInt => {
                if !st.opaque { return Ok(HookRes::Fallthrough); }
                let d = demangle(&self.md.funcs[fid as usize].name);
                let sz = if d.contains("128") { 16 } else if d.contains("64") || d.contains("usize") || d.contains("isize") { 8 } else if d.contains("32") { 4 } else if d.contains("16") { 2 } else { 1 };
                let p = self.cu(st, a[0])?;
                if self.has_sym(st, p, sz) { ok(vec![V::I(0)]) } else { Ok(HookRes::Fallthrough) }
            }
            Hook::SkipToEscape => Ok(HookRes::Fallthrough),
            Hook::FmtStrDebug => {
                if !st.opaque { return Ok(HookRes::Fallthrough); }
                let (p, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?);
                if self.has_sym(st, p, n) { ok(vec![V::I(0)]) } else { Ok(HookRes::Fallthrough) }
            }
            Hook::FormatInner => {
                // error texts built by anyhow! are not part of any property
                let n = st.stack.len();
                let from_anyhow = (1..=3.min(n)).any(|k| { let d = demangle(&st.stack[n - k].f.name); d.starts_with("anyhow::") || d.starts_with("<anyhow::") });
                if st.opaque && from_anyhow && rets.is_empty() {
                    // sret: String { cap, ptr, len } with an empty buffer
                    let p = self.cu(st, a[0])?;
                    let mut b = vec![V::I(0); 24];
                    b[8] = V::I(1);
                    self.write_bytes(st, p, &b)?;
                    return ok(vec![]);
                }
                Ok(HookRes::Fallthrough)
            }
            Hook::Sym(k) => self.sym_hook(st, k, a),
        }
    }
    fn sel(&mut self, c: V, x: V, y: V, w: u16) -> V {
        match c {
            V::I(k) => { let r = if k & 1 == 1 { x } else { y }; match r { V::T(t) => self.norm(t), r => r } }
            V::T(t) => self.select(t, x, y, w),
        }
    }
    fn entropy(&mut self, st: &mut State, p: u64, n: u64) -> R<()> {
        let mut b = vec![];
        for _ in 0..n {
            let t = self.ar.uf(&format!("entropy{}", st.rng_ctr), &[], 8);
            st.rng_ctr += 1;
            b.push(V::T(t));
        }
        self.write_bytes(st, p, &b)
    }
    /// input variables are shared between paths: the k-th input of a given width is the same variable on every path
    fn input_var(&mut self, idx: usize, w: u16, sub: u32) -> T {
        if let Some(&t) = self.var_names.get(&(idx as u32, w, sub)) { return t; }
        let t = self.ar.var(&format!("in{idx}_{sub}"), w);
        self.var_names.insert((idx as u32, w, sub), t);
        t
    }
    fn sym_hook(&mut self, st: &mut State, k: u8, a: &[V]) -> R<HookRes> {
        let ok = |v: Vec<V>| Ok(HookRes::Ret(v));
        match k {
            0 => {
                // bytes(ptr, len)
                let (p, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?);
                let idx = st.inputs.len();
                let ts: Vec<T> = (0..n).map(|i| self.input_var(idx, 8, i as u32)).collect();
                let b: Vec<V> = ts.iter().map(|t| V::T(*t)).collect();
                self.write_bytes(st, p, &b)?;
                st.inputs.push(Rec::Bytes(Rc::new(ts)));
                ok(vec![])
            }
            1 => {
                // wide(bits) -> u64
                let w = self.cu(st, a[0])? as u16;
                let t = self.input_var(st.inputs.len(), w, 0);
                st.inputs.push(Rec::Wide(t));
                let z = self.ar.zext(t, 64);
                let v = self.norm(z);
                ok(vec![v])
            }
            2 => {
                // pick(n): a value below n, enumerated
                let n = self.cu(st, a[0])?;
                let t = self.input_var(st.inputs.len(), 64, 1);
                let lim = self.ar.cst(n as u128, 64);
                let c = self.ar.bin(Op::Ult, t, lim);
                self.assume(st, V::T(c)).or_else(|e| match e { Stop::Drop if n == 0 => Err(Stop::Drop), e => Err(e) })?;
                let v = self.conc(st, V::T(t), 64)? as u64;
                st.inputs.push(Rec::Pick(t, n));
                ok(vec![V::I(v)])
            }
            3 => {
                let c = self.cast(CastK::Trunc, 8, 1, a[0]).unwrap();
                self.assume(st, c)?;
                ok(vec![])
            }
            4 => {
                let c = self.cast(CastK::Trunc, 8, 1, a[0]).unwrap();
                let l = self.str_arg(st, a[1], a[2])?;
                self.check(st, c, &l)?;
                ok(vec![])
            }
            5 => {
                let l = self.str_arg(st, a[0], a[1])?;
                let i = self.label(&l);
                if !st.reached.contains(&i) { st.reached.push(i); }
                ok(vec![])
            }
            6 => ok(vec![V::I(self.case)]),
            7 => { st.alloc_limit = self.cu(st, a[0])?; ok(vec![]) }
            8 => { st.step_limit = st.steps + self.cu(st, a[0])?; ok(vec![]) }
            9 => {
                // uf(name, nlen, in, inlen, out, outlen)
                let name = self.str_arg(st, a[0], a[1])?;
                let (ip, il, op, ol) = (self.cu(st, a[2])?, self.cu(st, a[3])?, self.cu(st, a[4])?, self.cu(st, a[5])?);
                let b = self.read_bytes(st, ip, il)?;
                let mut argv = vec![];
                for c in b.chunks(16) { let t = self.join(c); argv.push(t); }
                let mut out = vec![];
                let mut i = 0;
                while i < ol {
                    let n = (ol - i).min(16);
                    let t = self.ar.uf(&format!("{name}.{}", i / 16), &argv, n as u16 * 8);
                    for j in 0..n as u16 { let e = self.ar.extract(t, j * 8 + 7, j * 8); out.push(self.norm(e)); }
                    i += n;
                }
                self.write_bytes(st, op, &out)?;
                ok(vec![])
            }
            10 => {
                let name = self.str_arg(st, a[0], a[1])?;
                let (p, n) = (self.cu(st, a[2])?, self.cu(st, a[3])?);
                let b = self.read_bytes(st, p, n)?;
                st.observed.push((name, b));
                ok(vec![])
            }
            11 => { st.opaque = self.cu(st, a[0])? != 0; ok(vec![]) }
            12 => { st.hash_real = self.cu(st, a[0])? != 0; ok(vec![]) }
            13 => { st.faults = self.cu(st, a[0])?; ok(vec![]) }
            14 => Err(Stop::Drop),
            15 => {
                let (p, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?);
                self.entropy(st, p, n)?;
                ok(vec![])
            }
            16 => { let l = self.str_arg(st, a[0], a[1])?; Err(Stop::Event(l, "reported by the harness".into())) }
            17 => {
                // slot(i, set, v) -> old value; scratch shared by the harness and its stubs
                let (i, s, v) = (self.cu(st, a[0])? as usize & 7, self.cu(st, a[1])?, self.cu(st, a[2])?);
                let o = st.slots[i];
                if s != 0 { st.slots[i] = v; }
                ok(vec![V::I(o)])
            }
            18 => {
                let (p, q, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?, self.cu(st, a[2])?);
                let (x, y) = (self.read_bytes(st, p, n)?, self.read_bytes(st, q, n)?);
                let e = self.bytes_eq(&x, &y);
                let v = match e { V::T(t) => { let z = self.ar.zext(t, 8); self.norm(z) } v => v };
                ok(vec![v])
            }
            19 => {
                // fork(bool) -> concrete bool
                let c = self.cast(CastK::Trunc, 8, 1, a[0]).unwrap();
                let r = self.decide(st, c)?;
                ok(vec![V::I(r as u64)])
            }
            20 => {
                // fresh(ptr,len): unconstrained values that are not harness inputs
                let (p, n) = (self.cu(st, a[0])?, self.cu(st, a[1])?);
                let mut b = vec![];
                for _ in 0..n { let t = self.ar.uf(&format!("fresh{}", st.rng_ctr), &[], 8); st.rng_ctr += 1; b.push(V::T(t)); }
                self.write_bytes(st, p, &b)?;
                ok(vec![])
            }
            21 => {
                // must(bool): is it true for every value on this path?
                let c = self.cast(CastK::Trunc, 8, 1, a[0]).unwrap();
                let r = match c {
                    V::I(k) => k & 1 == 1,
                    V::T(t) => {
                        if let Some(k) = self.const_known(st, t) { k == 1 } else if st.model.eval(&self.ar, t) == 0 { false } else {
                            // another model of the same path: variables the path condition does not mention, at will
                            let mut used: FxSet<u32> = Default::default();
                            for &p in &st.pc.clone() { used.extend(self.ar.leaves(p).iter().copied()); }
                            let mut m = (*st.model.m).clone();
                            let mut z = 0x9e3779b97f4a7c15u128;
                            let mut free: FxSet<u32> = Default::default();
                            for &v in self.ar.leaves(t).iter() {
                                if v & 0x8000_0000 != 0 && !used.contains(&v) { free.insert(v); m.ufs.retain(|k, _| k.0 | 0x8000_0000 != v); }
                                z = z.wrapping_mul(0x2360ed051fc65da44385df649fccf645).wrapping_add(v as u128 * 2 + 1);
                                if v & 0x8000_0000 == 0 && !used.contains(&v) { m.vars.insert(v, z >> 61); }
                            }
                            let mut e = crate::term::Evaluator::new(&m);
                            e.free = free;
                            if e.eval(&self.ar, t) == 0 { return ok(vec![V::I(0)]); }
                            let n = self.ar.not1(t);
                            matches!(self.z.check(&mut self.ar, &st.pc, n, &st.model.m.clone()), crate::z3::Res::Unsat)
                        }
                    }
                };
                ok(vec![V::I(r as u64)])
            }
            22 => {
                // field(op, a, b): arithmetic of the integers modulo 17, as polynomials in normal form
                let op = self.cu(st, a[0])?;
                let x = self.poly(a[1]);
                let y = self.poly(a[2]);
                let r = match op {
                    0 => x.add(&y, 1),
                    1 => x.add(&y, 16),
                    2 => x.mul(&y, &self.units),
                    3 => match x.inverse(&self.units) {
                        Some(r) => r,
                        None => {
                            // the 15th power of the value as a new unknown
                            let v = self.poly_term(&x);
                            let mut r = self.poly(V::I(1));
                            let b = crate::field::Poly::atom(match v { V::T(t) => self.ar.extract(t, 4, 0), V::I(_) => unreachable!() });
                            for _ in 0..15 { r = r.mul(&b, &self.units); }
                            r
                        }
                    },
                    _ => { if let V::T(t) = a[1] { let t = self.ar.extract(t, 4, 0); self.units.insert(t); } return ok(vec![a[1]]); }
                };
                let v = self.poly_term(&r);
                // the normal form is itself put to the solver, on the first products and sums of few unknowns
                if op < 3 && self.proved < 24 {
                    if let (V::T(_), V::T(_), V::T(z)) = (a[1], a[2], v) {
                        let z = self.ar.extract(z, 4, 0);
                        let mut atoms = x.atoms();
                        atoms.extend(y.atoms());
                        let (x, y) = (self.poly_term(&x), self.poly_term(&y));
                        let (x, y) = (self.tt(x, 64), self.tt(y, 64));
                        let (x, y) = (self.ar.extract(x, 15, 0), self.ar.extract(y, 15, 0));
                        let raw = match op {
                            0 => self.ar.bin(Op::Add, x, y),
                            1 => { let k = self.ar.cst(16, 16); let y = self.ar.bin(Op::Mul, y, k); self.ar.bin(Op::Add, x, y) }
                            _ => self.ar.bin(Op::Mul, x, y),
                        };
                        let m = self.ar.cst(17, 16);
                        let raw = self.ar.bin(Op::URem, raw, m);
                        let z = self.ar.zext(z, 16);
                        let ne = self.ar.bin(Op::Eq, raw, z);
                        let ne = self.ar.not1(ne);
                        if self.ar.leaves(ne).len() <= 2 {
                            self.proved += 1;
                            // atoms are below 17
                            let mut pc = vec![];
                            for q in atoms {
                                let k = self.ar.cst(17, 5);
                                pc.push(self.ar.bin(Op::Ult, q, k));
                            }
                            if let crate::z3::Res::Sat(_) = self.z.check(&mut self.ar, &pc, ne, &Default::default()) { return self.unsupported("normal form refuted".into()); }
                        }
                    }
                }
                ok(vec![v])
            }
            _ => self.unsupported("harness call".into()),
        }
    }
    fn poly(&mut self, v: V) -> crate::field::Poly {
        match v {
            V::I(k) => crate::field::Poly::constant((k % 17) as u8),
            V::T(t) => { let t = self.ar.extract(t, 4, 0); self.polys.get(&t).cloned().unwrap_or_else(|| crate::field::Poly::atom(t)) }
        }
    }
    fn poly_term(&mut self, p: &crate::field::Poly) -> V {
        if let Some(k) = p.as_const() { return V::I(k as u64); }
        if let Some(t) = p.as_atom() { let t = self.ar.zext(t, 64); return self.norm(t); }
        let m = self.ar.cst(17, 16);
        let mut sum = self.ar.cst(0, 16);
        for (mono, c) in &p.0 {
            let mut r = self.ar.cst(*c as u128, 16);
            for (t, e) in mono {
                let x = self.ar.zext(*t, 16);
                // square and multiply, one shared power table per atom
                let mut pw = self.ar.cst(1, 16);
                for k in (0..5).rev() {
                    pw = self.ar.bin(Op::Mul, pw, pw);
                    pw = self.ar.bin(Op::URem, pw, m);
                    if e >> k & 1 == 1 { pw = self.ar.bin(Op::Mul, pw, x); pw = self.ar.bin(Op::URem, pw, m); }
                }
                r = self.ar.bin(Op::Mul, r, pw);
                r = self.ar.bin(Op::URem, r, m);
            }
            sum = self.ar.bin(Op::Add, sum, r);
        }
        let s = self.ar.bin(Op::URem, sum, m);
        let s = self.ar.extract(s, 4, 0);
        self.polys.insert(s, p.clone());
        let t = self.ar.zext(s, 64);
        self.norm(t)
    }
}
