//! Building input files.
pub fn p32(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_le_bytes()) }
pub fn p64(v: &mut Vec<u8>, x: u64) { v.extend_from_slice(&x.to_le_bytes()) }
pub fn perms(items: &[usize]) -> Vec<Vec<usize>> {
    if items.is_empty() { return vec![vec![]]; }
    let mut out = vec![];
    for i in 0..items.len() {
        let mut rest = items.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) { p.insert(0, x); out.push(p); }
    }
    out
}
/// a .wtns file; sections: 1 header, 2 data, otherwise an unknown one with k - 10 bytes of payload
pub fn wtns(fs: usize, prime: &[u8], vals: &[Vec<u8>], order: &[usize]) -> Vec<u8> {
    let mut f = b"wtns".to_vec();
    p32(&mut f, 2);
    p32(&mut f, order.len() as u32);
    for &k in order {
        let mut d = vec![];
        let t = match k {
            1 => {
                p32(&mut d, fs as u32);
                d.extend_from_slice(prime);
                p32(&mut d, vals.len() as u32);
                1
            }
            2 => {
                for v in vals { d.extend_from_slice(v); }
                2
            }
            k => {
                d = if k > 1000 { vec![0x5a; k - 10] } else { sy::bytes(k - 10) };
                let t = sy::u32();
                sy::assume(t == 0 || t > 2);
                t
            }
        };
        p32(&mut f, t);
        p64(&mut f, d.len() as u64);
        f.extend_from_slice(&d);
    }
    f
}
/// one path per value
pub fn each(x: u64, max: u64) -> u64 {
    for v in 0..max { if sy::fork(x == v) { return v; } }
    max
}
pub struct Rd<'a>(pub &'a [u8], pub usize);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() - self.1 < n { return None; }
        self.1 += n;
        Some(&self.0[self.1 - n..self.1])
    }
    pub fn u32(&mut self) -> Option<u32> { self.take(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])) }
    pub fn u64(&mut self) -> Option<u64> { self.take(8).map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])) }
}
/// the witness values a complete .wtns file holds; Ok(None): no statement
pub fn wtns_values(f: &[u8]) -> Result<Option<(usize, Vec<Vec<u8>>)>, ()> {
    fn go(f: &[u8]) -> Option<Option<(usize, Vec<Vec<u8>>)>> {
        let mut r = Rd(f, 0);
        if r.take(4)? != b"wtns" { return None; }
        if r.u32()? != 2 { return None; }
        let n = r.u32()?;
        let mut head: Option<&[u8]> = None;
        let mut data: Option<&[u8]> = None;
        let mut odd = false;
        let mut i = 0;
        while i < n {
            let t = r.u32()?;
            let s = r.u64()?;
            let left = (f.len() - r.1) as u64;
            if s > left { return None; }
            let d = r.take(each(s, left) as usize)?;
            if t == 1 { odd |= head.is_some(); head = Some(d); }
            if t == 2 { odd |= data.is_some(); data = Some(d); }
            i += 1;
        }
        let h = head?;
        let d = data?;
        let mut r = Rd(h, 0);
        let fs = r.u32()?;
        if fs as usize > h.len() { return None; }
        let fs = each(fs as u64, h.len() as u64) as usize;
        r.take(fs)?;
        let count = r.u32()? as u64;
        // a header longer than its contents and empty fields or witnesses are not described by the format
        if r.1 != h.len() || odd || fs == 0 || d.is_empty() { return Some(None); }
        if count * fs as u64 != d.len() as u64 { return None; }
        Some(Some((fs, d.chunks(fs).map(|c| c.to_vec()).collect())))
    }
    go(f).ok_or(())
}
