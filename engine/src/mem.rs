//! Copy-on-write flat memory with symbolic bytes and heap liveness.
use crate::expr::{Arena, E};
use crate::ir::Val;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const HEAP: u64 = 2 << 32;
pub const STACK: u64 = 3 << 32;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; 4096],
    pub live: [u64; 64],
    pub count: u32,
    pub sym: Option<Box<BTreeMap<u16, (E, u8)>>>,
}

impl Page {
    fn new(all: bool) -> Page {
        Page { data: [0; 4096], live: [if all { !0 } else { 0 }; 64], count: 0, sym: None }
    }
}

type Chunk = Vec<Option<Rc<Page>>>;

#[derive(Clone)]
pub struct Mem {
    reg: [Vec<Rc<Chunk>>; 4],
    pub heap_top: u64,
    pub sp: u64,
}

pub type MR<T> = Result<T, String>;

impl Mem {
    pub fn new(image: &[u8]) -> Mem {
        let mut m = Mem { reg: [vec![], vec![], vec![], vec![]], heap_top: HEAP + 64, sp: STACK + 64 };
        let base = crate::ir::G_BASE;
        let mut i = 0;
        while i < image.len() {
            let p = m.page_mut(base + i as u64);
            let n = (image.len() - i).min(4096);
            p.data[..n].copy_from_slice(&image[i..i + n]);
            p.live = [!0; 64];
            i += 4096;
        }
        m
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let r = (a >> 32) as usize;
        if r == 0 || r > 3 {
            return None;
        }
        let o = (a & 0xffff_ffff) >> 12;
        let c = self.reg[r].get((o >> 6) as usize)?;
        c[(o & 63) as usize].as_deref()
    }
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let r = (a >> 32) as usize;
        assert!(r >= 1 && r <= 3);
        let o = (a & 0xffff_ffff) >> 12;
        let ci = (o >> 6) as usize;
        let v = &mut self.reg[r];
        while v.len() <= ci {
            v.push(Rc::new(vec![None; 64]));
        }
        let c = Rc::make_mut(&mut v[ci]);
        let slot = &mut c[(o & 63) as usize];
        if slot.is_none() {
            *slot = Some(Rc::new(Page::new(r == 3)));
        }
        Rc::make_mut(slot.as_mut().unwrap())
    }
    #[inline]
    fn live(p: &Page, off: usize, n: usize) -> bool {
        // n <= 8, within the page
        let w = off >> 6;
        let b = off & 63;
        let m = if n >= 64 { !0 } else { (1u64 << n) - 1 };
        let lo = p.live[w] >> b;
        let bits = if b + n > 64 { lo | (p.live[w + 1] << (64 - b)) } else { lo };
        bits & m == m
    }
    #[cold]
    fn bad(&self, what: &str, a: u64, n: u64) -> String {
        format!("invalid memory {} of {} bytes at {:#x}", what, n, a)
    }
    pub fn load(&self, ar: &mut Arena, a: u64, n: u32) -> MR<Val> {
        let off = (a & 4095) as usize;
        if off + n as usize <= 4096 && n <= 8 {
            let p = match self.page(a) {
                Some(p) => p,
                None if (a >> 32) == 3 => return Ok(Val::I(0)),
                None => return Err(self.bad("read", a, n as u64)),
            };
            if !Self::live(p, off, n as usize) {
                return Err(self.bad("read", a, n as u64));
            }
            if p.sym.is_none() {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(&p.data[off..off + n as usize]);
                return Ok(Val::I(u64::from_le_bytes(b)));
            }
        }
        // slow path, byte by byte
        let mut all_conc = true;
        let mut bytes: Vec<Result<u8, (E, u8)>> = Vec::with_capacity(n as usize);
        for i in 0..n as u64 {
            let b = self.byte(a + i)?;
            if b.is_err() {
                all_conc = false;
            }
            bytes.push(b);
        }
        Ok(Self::join(ar, &bytes, all_conc))
    }
    pub fn join(ar: &mut Arena, bytes: &[Result<u8, (E, u8)>], all_conc: bool) -> Val {
        let n = bytes.len();
        if all_conc {
            if n <= 8 {
                let mut v = 0u64;
                for (i, b) in bytes.iter().enumerate() {
                    v |= (*b.as_ref().unwrap() as u64) << (8 * i);
                }
                return Val::I(v);
            }
            let mut v = 0u128;
            for (i, b) in bytes.iter().enumerate() {
                v |= (*b.as_ref().unwrap() as u128) << (8 * i);
            }
            return Val::B(Rc::new(v));
        }
        if let Err((e, 0)) = bytes[0] {
            if ar.w(e) as usize == 8 * n && bytes.iter().enumerate().all(|(i, b)| *b == Err((e, i as u8))) {
                return Val::S(e);
            }
        }
        let mut acc: Option<E> = None;
        for b in bytes.iter() {
            let be = match b {
                Ok(k) => ar.konst(8, *k as u128),
                Err((e, i)) => ar.extract(*e, 8 * *i as u32, 8),
            };
            acc = Some(match acc {
                None => be,
                Some(l) => ar.concat(be, l),
            });
        }
        let e = acc.unwrap();
        if let Some(k) = ar.as_const(e) {
            return if n <= 8 { Val::I(k as u64) } else { Val::B(Rc::new(k)) };
        }
        Val::S(e)
    }
    /// One byte: concrete or (expression, byte index).
    pub fn byte(&self, a: u64) -> MR<Result<u8, (E, u8)>> {
        let off = (a & 4095) as usize;
        let p = match self.page(a) {
            Some(p) => p,
            None if (a >> 32) == 3 => return Ok(Ok(0)),
            None => return Err(self.bad("read", a, 1)),
        };
        if !Self::live(p, off, 1) {
            return Err(self.bad("read", a, 1));
        }
        if let Some(s) = &p.sym {
            if let Some(x) = s.get(&(off as u16)) {
                return Ok(Err(*x));
            }
        }
        Ok(Ok(p.data[off]))
    }
    pub fn store(&mut self, ar: &mut Arena, a: u64, n: u32, v: &Val) -> MR<()> {
        match v {
            Val::I(x) if n <= 8 => {
                let off = (a & 4095) as usize;
                let b = x.to_le_bytes();
                if off + n as usize <= 4096 {
                    if (a >> 32) == 0 || (a >> 32) > 3 {
                        return Err(self.bad("write", a, n as u64));
                    }
                    let ok = match self.page(a) {
                        Some(p) => Self::live(p, off, n as usize),
                        None => (a >> 32) == 3,
                    };
                    if !ok {
                        return Err(self.bad("write", a, n as u64));
                    }
                    let p = self.page_mut(a);
                    p.data[off..off + n as usize].copy_from_slice(&b[..n as usize]);
                    if let Some(s) = &mut p.sym {
                        for i in 0..n as u16 {
                            s.remove(&(off as u16 + i));
                        }
                        if s.is_empty() {
                            p.sym = None;
                        }
                    }
                    return Ok(());
                }
                for i in 0..n as u64 {
                    self.set_byte(a + i, Ok(b[i as usize]))?;
                }
                Ok(())
            }
            Val::I(x) => {
                let b = (*x as u128).to_le_bytes();
                for i in 0..n as u64 {
                    self.set_byte(a + i, Ok(b[i as usize]))?;
                }
                Ok(())
            }
            Val::B(x) => {
                let b = x.to_le_bytes();
                for i in 0..n as u64 {
                    self.set_byte(a + i, Ok(b[i as usize]))?;
                }
                Ok(())
            }
            Val::S(e) => {
                let mut e = *e;
                if ar.w(e) != n * 8 {
                    e = ar.zext(e, n * 8);
                }
                for i in 0..n as u64 {
                    let be = ar.extract(e, 8 * i as u32, 8);
                    match ar.as_const(be) {
                        Some(k) => self.set_byte(a + i, Ok(k as u8))?,
                        None => self.set_byte(a + i, Err((e, i as u8)))?,
                    }
                }
                Ok(())
            }
            Val::A(_) => Err("store of aggregate".into()),
        }
    }
    pub fn set_byte(&mut self, a: u64, v: Result<u8, (E, u8)>) -> MR<()> {
        let off = (a & 4095) as usize;
        if (a >> 32) == 0 || (a >> 32) > 3 {
            return Err(self.bad("write", a, 1));
        }
        let ok = match self.page(a) {
            Some(p) => Self::live(p, off, 1),
            None => (a >> 32) == 3,
        };
        if !ok {
            return Err(self.bad("write", a, 1));
        }
        let p = self.page_mut(a);
        match v {
            Ok(b) => {
                p.data[off] = b;
                if let Some(s) = &mut p.sym {
                    s.remove(&(off as u16));
                    if s.is_empty() {
                        p.sym = None;
                    }
                }
            }
            Err(x) => {
                p.sym.get_or_insert_with(Default::default).insert(off as u16, x);
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> MR<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        // fast path: chunks within pages without symbolic bytes
        let mut tmp: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Vec<(u64, (E, u8))> = Vec::new();
        let mut i = 0;
        while i < n {
            let a = src + i;
            let off = (a & 4095) as usize;
            let len = (4096 - off as u64).min(n - i) as usize;
            let p = match self.page(a) {
                Some(p) => p,
                None if (a >> 32) == 3 => {
                    tmp.resize(tmp.len() + len, 0);
                    i += len as u64;
                    continue;
                }
                None => return Err(self.bad("read", a, n)),
            };
            let mut k = 0;
            while k < len {
                let m = (len - k).min(8);
                if !Self::live(p, off + k, m) {
                    return Err(self.bad("read", a + k as u64, n));
                }
                k += m;
            }
            tmp.extend_from_slice(&p.data[off..off + len]);
            if let Some(s) = &p.sym {
                for (o, x) in s.range(off as u16..=(off + len - 1) as u16) {
                    syms.push((i + (*o as u64 - off as u64), *x));
                }
            }
            i += len as u64;
        }
        self.write_raw(dst, &tmp)?;
        for (o, x) in syms {
            self.set_byte(dst + o, Err(x))?;
        }
        Ok(())
    }
    /// Concrete bytes (clears symbolic ones).
    pub fn write_raw(&mut self, dst: u64, b: &[u8]) -> MR<()> {
        let n = b.len() as u64;
        let mut i = 0u64;
        while i < n {
            let a = dst + i;
            let off = (a & 4095) as usize;
            let len = (4096 - off as u64).min(n - i) as usize;
            if (a >> 32) == 0 || (a >> 32) > 3 {
                return Err(self.bad("write", a, n));
            }
            match self.page(a) {
                Some(p) => {
                    let mut k = 0;
                    while k < len {
                        let m = (len - k).min(8);
                        if !Self::live(p, off + k, m) {
                            return Err(self.bad("write", a + k as u64, n));
                        }
                        k += m;
                    }
                }
                None if (a >> 32) == 3 => {}
                None => return Err(self.bad("write", a, n)),
            }
            let p = self.page_mut(a);
            p.data[off..off + len].copy_from_slice(&b[i as usize..i as usize + len]);
            if let Some(s) = &mut p.sym {
                let keys: Vec<u16> = s.range(off as u16..=(off + len - 1) as u16).map(|x| *x.0).collect();
                for k in keys {
                    s.remove(&k);
                }
                if s.is_empty() {
                    p.sym = None;
                }
            }
            i += len as u64;
        }
        Ok(())
    }
    pub fn read_conc(&self, a: u64, n: u64) -> Option<Vec<u8>> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            match self.byte(a + i) {
                Ok(Ok(b)) => v.push(b),
                _ => return None,
            }
        }
        Some(v)
    }
    fn set_live(&mut self, a: u64, n: u64, on: bool) {
        let top_page = self.heap_top >> 12;
        let mut i = 0;
        while i < n {
            let x = a + i;
            let off = (x & 4095) as usize;
            let len = (4096 - off as u64).min(n - i) as usize;
            let p = self.page_mut(x);
            let mut k = off;
            let end = off + len;
            while k < end {
                if k & 63 == 0 && end - k >= 64 {
                    p.live[k >> 6] = if on { !0 } else { 0 };
                    k += 64;
                } else {
                    let bit = 1u64 << (k & 63);
                    if on {
                        p.live[k >> 6] |= bit;
                    } else {
                        p.live[k >> 6] &= !bit;
                    }
                    k += 1;
                }
            }
            if on {
                p.count += len as u32;
            } else {
                p.count -= len as u32;
                if p.sym.is_some() {
                    let s = p.sym.as_mut().unwrap();
                    let keys: Vec<u16> = s.range(off as u16..=(end - 1) as u16).map(|x| *x.0).collect();
                    for k in keys {
                        s.remove(&k);
                    }
                    if s.is_empty() {
                        p.sym = None;
                    }
                }
                let empty = p.count == 0;
                if empty {
                    self.drop_page(x, top_page);
                }
            }
            i += len as u64;
        }
    }
    fn drop_page(&mut self, a: u64, top_page: u64) {
        if a >> 12 >= top_page {
            return;
        }
        let r = (a >> 32) as usize;
        let o = (a & 0xffff_ffff) >> 12;
        let c = Rc::make_mut(&mut self.reg[r][(o >> 6) as usize]);
        c[(o & 63) as usize] = None;
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (self.heap_top + 16 + al - 1) / al * al;
        let h = a - 16;
        self.heap_top = a + size;
        {
            let p = self.page_mut(h);
            let off = (h & 4095) as usize;
            p.data[off..off + 8].copy_from_slice(&size.to_le_bytes());
            p.data[off + 8..off + 16].copy_from_slice(&0x5ca1ab1e_a110ca7eu64.to_le_bytes());
            p.count += 1;
        }
        if size > 0 {
            self.set_live(a, size, true);
        }
        a
    }
    pub fn alloc_size(&self, a: u64) -> MR<u64> {
        let h = a.wrapping_sub(16);
        if (h >> 32) != 2 {
            return Err(self.bad("free", a, 0));
        }
        let p = self.page(h).ok_or_else(|| self.bad("free", a, 0))?;
        let off = (h & 4095) as usize;
        if p.data[off + 8..off + 16] != 0x5ca1ab1e_a110ca7eu64.to_le_bytes() {
            return Err(self.bad("free", a, 0));
        }
        Ok(u64::from_le_bytes(p.data[off..off + 8].try_into().unwrap()))
    }
    pub fn free(&mut self, a: u64) -> MR<()> {
        let size = self.alloc_size(a)?;
        let h = a - 16;
        if size > 0 {
            self.set_live(a, size, false);
        }
        let top = self.heap_top >> 12;
        let p = self.page_mut(h);
        let off = (h & 4095) as usize;
        p.data[off + 8..off + 16].copy_from_slice(&[0; 8]);
        p.count -= 1;
        if p.count == 0 {
            self.drop_page(h, top);
        }
        Ok(())
    }
}
