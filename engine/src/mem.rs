//! Copy-on-write byte memory with per-byte symbolic overlay.
use crate::sym::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub const PS: usize = 64;
const CHUNK: usize = 64; // pages per chunk (4 KiB)
pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const STACK_BASE: u64 = 0x2000_0000;
pub const HEAP_BASE: u64 = 0x3000_0000;
pub const FUNC_BASE: u64 = 0x7000_0000;

static NEXT: AtomicU64 = AtomicU64::new(1);
pub fn fresh_id() -> u64 {
    NEXT.fetch_add(1, Ordering::Relaxed)
}

#[derive(Clone)]
pub struct SymByte(pub Arc<Node>, pub u8);

struct Page {
    owner: u64,
    data: [u8; PS],
    nsym: u32,
    sym: Option<Box<[Option<SymByte>]>>,
}
struct Chunk {
    owner: u64,
    pages: Vec<Option<Arc<Page>>>,
}

pub struct Mem {
    id: u64,
    regions: [Arc<Vec<Option<Arc<Chunk>>>>; 3],
}

fn region(addr: u64) -> Option<usize> {
    match addr >> 28 {
        1 => Some(0),
        2 => Some(1),
        3..=6 => Some(2),
        _ => None,
    }
}
fn base(r: usize) -> u64 {
    [GLOBAL_BASE, STACK_BASE, HEAP_BASE][r]
}

impl Clone for Mem {
    fn clone(&self) -> Mem {
        // the caller must call `split` on both copies
        Mem { id: fresh_id(), regions: self.regions.clone() }
    }
}

impl Mem {
    pub fn new() -> Mem {
        Mem { id: fresh_id(), regions: Default::default() }
    }
    /// Copy for a forked state: neither copy owns the pages shared between them.
    pub fn fork(&mut self) -> Mem {
        self.id = fresh_id();
        self.clone()
    }
    #[inline]
    fn page(&self, addr: u64) -> Option<&Page> {
        let r = region(addr)?;
        let off = (addr - base(r)) as usize;
        let c = self.regions[r].get(off / (PS * CHUNK))?.as_ref()?;
        c.pages[off / PS % CHUNK].as_deref()
    }
    #[inline]
    fn page_mut(&mut self, addr: u64) -> Result<&mut Page, String> {
        let r = region(addr).ok_or_else(|| format!("write to invalid address {:#x}", addr))?;
        let off = (addr - base(r)) as usize;
        let ci = off / (PS * CHUNK);
        let id = self.id;
        // fast path: the page is already ours
        if let Some(Some(c)) = self.regions[r].get(ci) {
            if c.owner == id {
                if let Some(p) = &c.pages[off / PS % CHUNK] {
                    if p.owner == id {
                        // SAFETY: owner == id means that only this state refers to the page
                        return Ok(unsafe { &mut *(Arc::as_ptr(p) as *mut Page) });
                    }
                }
            }
        }
        let reg = Arc::make_mut(&mut self.regions[r]);
        if reg.len() <= ci {
            if ci > 200_000 {
                return Err("out of memory".into());
            }
            reg.resize(ci + 1, None);
        }
        let slot = &mut reg[ci];
        if slot.is_none() {
            *slot = Some(Arc::new(Chunk { owner: id, pages: vec![None; CHUNK] }));
        }
        let ch = slot.as_mut().unwrap();
        if ch.owner != id {
            *ch = Arc::new(Chunk { owner: id, pages: ch.pages.clone() });
        }
        // SAFETY: owner == id means that only this state refers to the chunk
        let ch = unsafe { &mut *(Arc::as_ptr(ch) as *mut Chunk) };
        let p = &mut ch.pages[off / PS % CHUNK];
        match p {
            None => *p = Some(Arc::new(Page { owner: id, data: [0; PS], nsym: 0, sym: None })),
            Some(a) if a.owner != id => {
                let n = Page { owner: id, data: a.data, nsym: a.nsym, sym: if a.nsym > 0 { a.sym.clone() } else { None } };
                *a = Arc::new(n);
            }
            _ => {}
        }
        Ok(unsafe { &mut *(Arc::as_ptr(p.as_ref().unwrap()) as *mut Page) })
    }
    /// (concrete byte, or symbolic byte)
    #[inline]
    pub fn byte(&self, addr: u64) -> Result<Result<u8, SymByte>, String> {
        match self.page(addr) {
            Some(p) => {
                let o = addr as usize % PS;
                if p.nsym > 0 {
                    if let Some(s) = &p.sym.as_ref().unwrap()[o] {
                        return Ok(Err(s.clone()));
                    }
                }
                Ok(Ok(p.data[o]))
            }
            None => {
                if region(addr).is_none() {
                    return Err(format!("read from invalid address {:#x}", addr));
                }
                Ok(Ok(0))
            }
        }
    }
    pub fn set_byte(&mut self, addr: u64, v: Result<u8, SymByte>) -> Result<(), String> {
        let p = self.page_mut(addr)?;
        let o = addr as usize % PS;
        match v {
            Ok(b) => {
                p.data[o] = b;
                if p.nsym > 0 {
                    if p.sym.as_mut().unwrap()[o].take().is_some() {
                        p.nsym -= 1;
                    }
                }
            }
            Err(s) => {
                if p.sym.is_none() {
                    p.sym = Some((0..PS).map(|_| None).collect());
                }
                if p.sym.as_mut().unwrap()[o].replace(s).is_none() {
                    p.nsym += 1;
                }
            }
        }
        Ok(())
    }
    #[inline]
    pub fn load(&self, doms: &Doms, addr: u64, w: u32) -> Result<Val, String> {
        let n = ((w + 7) / 8) as usize;
        let o = addr as usize % PS;
        if o + n <= PS {
            if let Some(p) = self.page(addr) {
                let mut clean = p.nsym == 0;
                if !clean {
                    let s = p.sym.as_ref().unwrap();
                    clean = s[o..o + n].iter().all(|x| x.is_none());
                }
                if clean {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&p.data[o..o + n]);
                    return Ok(Val::C(u64::from_le_bytes(b) & mask(w)));
                }
                // whole node?
                let s = p.sym.as_ref().unwrap();
                if let Some(SymByte(nd, 0)) = &s[o] {
                    if nd.w == (n as u32) * 8 && s[o..o + n].iter().enumerate().all(|(i, x)| matches!(x, Some(SymByte(m, k)) if *k as usize == i && Arc::ptr_eq(m, nd))) {
                        let v = Val::S(nd.clone());
                        let v = refresh(&v, doms);
                        return Ok(if w < nd.w { apply(doms, SOp::Trunc, nd.w, w, &[v]) } else { v });
                    }
                }
            } else if region(addr).is_none() {
                return Err(format!("read from invalid address {:#x}", addr));
            } else {
                return Ok(Val::C(0));
            }
        }
        let mut bytes: Vec<Val> = Vec::with_capacity(n);
        for i in 0..n {
            bytes.push(match self.byte(addr + i as u64)? {
                Ok(b) => Val::C(b as u64),
                Err(SymByte(nd, k)) => {
                    if nd.w <= 8 {
                        Val::S(nd)
                    } else {
                        let w = nd.w;
                        apply(doms, SOp::Byte, w, 8, &[Val::S(nd), Val::C(k as u64)])
                    }
                }
            });
        }
        if n == 1 {
            let b = bytes.pop().unwrap();
            let b = refresh(&b, doms);
            return Ok(if w < 8 { apply(doms, SOp::Trunc, 8, w, &[b]) } else { b });
        }
        Ok(apply(doms, SOp::Concat, 8, w, &bytes))
    }
    #[inline]
    pub fn store(&mut self, doms: &Doms, addr: u64, w: u32, v: &Val) -> Result<(), String> {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::C(x) => {
                let o = addr as usize % PS;
                let b = x.to_le_bytes();
                if o + n <= PS {
                    let p = self.page_mut(addr)?;
                    p.data[o..o + n].copy_from_slice(&b[..n]);
                    if p.nsym > 0 {
                        let s = p.sym.as_mut().unwrap();
                        for q in &mut s[o..o + n] {
                            if q.take().is_some() {
                                p.nsym -= 1;
                            }
                        }
                    }
                } else {
                    for i in 0..n {
                        self.set_byte(addr + i as u64, Ok(b[i]))?;
                    }
                }
            }
            Val::S(nd) => {
                let nd = if nd.w != 8 * n as u32 {
                    match apply(doms, SOp::ZExt, nd.w, 8 * n as u32, &[v.clone()]) {
                        Val::S(nd) => nd,
                        c => return self.store(doms, addr, 8 * n as u32, &c),
                    }
                } else {
                    nd.clone()
                };
                for i in 0..n {
                    self.set_byte(addr + i as u64, Err(SymByte(nd.clone(), i as u8)))?;
                }
            }
        }
        Ok(())
    }
    /// memmove of `n` bytes
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), String> {
        if n == 0 || dst == src {
            return Ok(());
        }
        if n <= 4096 {
            // snapshot, then write
            let mut data = [0u8; 4096];
            let mut syms: Vec<(usize, SymByte)> = Vec::new();
            let mut i = 0usize;
            let n = n as usize;
            while i < n {
                let a = src + i as u64;
                let o = a as usize % PS;
                let k = (PS - o).min(n - i);
                match self.page(a) {
                    Some(p) => {
                        data[i..i + k].copy_from_slice(&p.data[o..o + k]);
                        if p.nsym > 0 {
                            for (j, s) in p.sym.as_ref().unwrap()[o..o + k].iter().enumerate() {
                                if let Some(s) = s {
                                    syms.push((i + j, s.clone()));
                                }
                            }
                        }
                    }
                    None => {
                        if region(a).is_none() {
                            return Err(format!("read from invalid address {:#x}", a));
                        }
                    }
                }
                i += k;
            }
            self.write(dst, &data[..n])?;
            for (i, s) in syms {
                self.set_byte(dst + i as u64, Err(s))?;
            }
            Ok(())
        } else {
            if dst < src {
                let mut i = 0;
                while i < n {
                    let k = (n - i).min(4096);
                    self.copy(dst + i, src + i, k)?;
                    i += k;
                }
            } else {
                let mut i = n;
                while i > 0 {
                    let k = i.min(4096);
                    i -= k;
                    self.copy(dst + i, src + i, k)?;
                }
            }
            Ok(())
        }
    }
    /// Writes concrete bytes, clearing symbolic ones.
    pub fn write(&mut self, dst: u64, data: &[u8]) -> Result<(), String> {
        let n = data.len();
        let mut i = 0;
        while i < n {
            let a = dst + i as u64;
            let o = a as usize % PS;
            let k = (PS - o).min(n - i);
            let p = self.page_mut(a)?;
            p.data[o..o + k].copy_from_slice(&data[i..i + k]);
            if p.nsym > 0 {
                let s = p.sym.as_mut().unwrap();
                for q in &mut s[o..o + k] {
                    if q.take().is_some() {
                        p.nsym -= 1;
                    }
                }
            }
            i += k;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, b: u8, n: u64) -> Result<(), String> {
        let buf = [b; 64];
        let mut i = 0;
        while i < n {
            let k = (n - i).min(64);
            self.write(dst + i, &buf[..k as usize])?;
            i += k;
        }
        Ok(())
    }
}
