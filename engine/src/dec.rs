//! Decodes LLVM IR text into a flat register code.  Aggregates and vectors become consecutive
//! scalar registers; phi nodes become copies on edges.
use crate::ir::*;
use crate::mem::FUNC_BASE;
use crate::sym::SOp;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum O {
    R(u32),
    K(u64),
}

#[derive(Debug, Clone)]
pub enum Ext {
    Alloc,        // (size, align)
    AllocZ,
    Realloc,      // (ptr, old, align, new)
    Malloc,
    Calloc,
    LibcRealloc,
    PosixMemalign,
    Nop,          // returns 0
    Memcmp,
    Memcpy,
    Memset,
    Strlen,
    Choice,
    One,
    Assume,
    Check,
    Reach,
    Select,
    EqV,
    MemEq,
    Format,
    HashKeys,
    Panic(String),
    LoadRelative,
    Unsup(String),
}

#[derive(Debug)]
pub enum Op {
    Bin { op: SOp, w: u8, d: u32, a: O, b: O },
    Cmp { op: SOp, w: u8, d: u32, a: O, b: O },
    Un { op: SOp, w: u8, d: u32, a: O },
    Tri { op: SOp, w: u8, d: u32, a: O, b: O, c: O },
    Select { w: u8, d: u32, c: O, a: O, b: O },
    Cast { op: SOp, iw: u8, w: u8, d: u32, a: O },
    Mov { d: u32, a: O },
    Gep { d: u32, base: O, off: u64, terms: Box<[(O, u8, u64)]> },
    Load { d: u32, w: u8, addr: O, off: u64 },
    Store { w: u8, addr: O, off: u64, v: O },
    Alloca { d: u32, size: u64, align: u64 },
    Br(u32),
    CondBr { c: O, t: u32, f: u32 },
    Switch { w: u8, v: O, cases: Box<[(u64, u32)]>, def: u32 },
    Call { f: u32, args: Box<[O]>, d: u32, n: u32, next: u32 },
    CallInd { f: O, args: Box<[O]>, d: u32, n: u32, next: u32 },
    Ext { e: Ext, args: Box<[O]>, d: u32, n: u32, next: u32 },
    Ret(Box<[O]>),
    Unreachable,
    Unsup(String),
}

#[derive(Debug, Default)]
pub struct Edge {
    pub target: u32,
    pub copies: Box<[(u32, O)]>,
    pub conflict: bool,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<Op>,
    pub edges: Vec<Edge>,
}

pub struct Env<'a> {
    pub m: &'a Module<'a>,
    pub fid: HashMap<String, u32>,
    pub gaddr: HashMap<String, u64>,
}

impl<'a> Env<'a> {
    pub fn addr(&self, n: &str) -> Result<u64, String> {
        if let Some(a) = self.m.aliases.get(n) {
            return self.addr(a);
        }
        if let Some(i) = self.fid.get(n) {
            return Ok(FUNC_BASE + *i as u64 * 16);
        }
        if let Some(a) = self.gaddr.get(n) {
            return Ok(*a);
        }
        Err(format!("address of {}", n))
    }
    pub fn scalar(&self, c: &Const) -> Result<u64, String> {
        Ok(match c {
            Const::Int(v) => *v,
            Const::Zero | Const::Undef => 0,
            Const::Global(n) => self.addr(n)?,
            Const::Cast(c) => self.scalar(c)?,
            Const::Trunc(c, w) => self.scalar(c)? & crate::sym::mask(*w),
            Const::Bin(op, a, b) => {
                let (a, b) = (self.scalar(a)?, self.scalar(b)?);
                match *op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    _ => a ^ b,
                }
            }
            Const::Gep(t, base, idx) => {
                let mut a = self.scalar(base)?;
                let mut cur = t.clone();
                for (k, (it, i)) in idx.iter().enumerate() {
                    let iw = if let Ty::Int(w) = it { *w } else { 64 };
                    let i = crate::sym::sx(self.scalar(i)?, iw);
                    if k == 0 {
                        a = a.wrapping_add((cur.size() as i64).wrapping_mul(i) as u64);
                    } else {
                        a = a.wrapping_add(match &cur {
                            Ty::Struct(..) => cur.offset(i as usize),
                            _ => (cur.elem(0).size() as i64).wrapping_mul(i) as u64,
                        });
                        cur = cur.elem(i as usize).clone();
                    }
                }
                a
            }
            _ => return Err(format!("scalar const {:?}", c)),
        })
    }
    pub fn leaves(&self, t: &Ty, c: &Const, out: &mut Vec<O>) -> Result<(), String> {
        match (t, c) {
            (Ty::Int(_), _) | (Ty::Ptr, _) | (Ty::Float(_), _) => out.push(O::K(self.scalar(c)?)),
            (_, Const::Zero) | (_, Const::Undef) => {
                for _ in 0..t.nleaves() {
                    out.push(O::K(0));
                }
            }
            (_, Const::Splat(b)) => {
                for _ in 0..t.count() {
                    self.leaves(&b.0, &b.1, out)?;
                }
            }
            (_, Const::Agg(v)) => {
                for (t, c) in v {
                    self.leaves(t, c, out)?;
                }
            }
            (_, Const::Bytes(b)) => out.extend(b.iter().map(|x| O::K(*x as u64))),
            _ => return Err(format!("const {:?}", c)),
        }
        Ok(())
    }
}

struct Dec<'e, 'a> {
    env: &'e Env<'a>,
    names: HashMap<String, u32>,
    widths: Vec<(u32, u32)>,
    nregs: u32,
    code: Vec<Op>,
    edges: Vec<(u32, u32)>, // (pred block, succ block)
    edge_ids: HashMap<(u32, u32), u32>,
    blocks: HashMap<String, u32>,
    cur: u32,
}

type R<T> = Result<T, String>;

fn flags(lx: &mut Lx) {
    while matches!(
        lx.word_peek(),
        "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak"
    ) {
        lx.word();
    }
}

fn split_body(body: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut open = false;
    for l in body.lines() {
        if l.is_empty() {
            continue;
        }
        if !l.starts_with(' ') {
            out.push(l.to_string());
            continue;
        }
        let t = l.trim_start();
        if t.starts_with(';') {
            continue;
        }
        if t.starts_with('#') {
            continue; // debug records
        }
        let cont = open
            || t.starts_with("to label ")
            || t.starts_with("cleanup")
            || t.starts_with("catch ")
            || t.starts_with("filter ")
            || t.starts_with("unwind label ");
        if cont {
            let last = out.last_mut().unwrap();
            last.push(' ');
            last.push_str(t);
            if open && t.starts_with(']') {
                open = false;
            }
            continue;
        }
        if t.starts_with("switch ") && t.trim_end().ends_with('[') {
            open = true;
        }
        out.push(l.to_string());
    }
    out
}

/// Strips `; comment` and trailing `, !md !n` attachments.
fn strip(l: &str) -> &str {
    let b = l.as_bytes();
    let mut q = false;
    let mut end = l.len();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => q = !q,
            b';' if !q => {
                end = i;
                break;
            }
            b',' if !q && i + 2 < b.len() && b[i + 1] == b' ' && b[i + 2] == b'!' => {
                end = i;
                break;
            }
            _ => {}
        }
        i += 1;
    }
    l[..end].trim_end()
}

impl<'e, 'a> Dec<'e, 'a> {
    fn reg(&mut self, n: &str, leaves: usize) -> u32 {
        if let Some(r) = self.names.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += leaves as u32;
        self.names.insert(n.to_string(), r);
        self.widths.push((r, leaves as u32));
        r
    }
    fn tmp(&mut self) -> u32 {
        self.nregs += 1;
        self.nregs - 1
    }
    fn ops(&mut self, lx: &mut Lx, t: &Ty) -> R<Vec<O>> {
        check_ty(t)?;
        match lx.opd(t)? {
            Opd::Local(n) => {
                let k = t.nleaves();
                let r = self.reg(&n, k);
                Ok((0..k as u32).map(|i| O::R(r + i)).collect())
            }
            Opd::Const(c) => {
                let mut v = vec![];
                self.env.leaves(t, &c, &mut v)?;
                Ok(v)
            }
        }
    }
    fn op1(&mut self, lx: &mut Lx, t: &Ty) -> R<O> {
        let v = self.ops(lx, t)?;
        if v.len() != 1 {
            return Err(format!("scalar expected, {:?}", t));
        }
        Ok(v[0])
    }
    fn label(&mut self, lx: &mut Lx) -> R<u32> {
        if !lx.eat_word("label") {
            return Err("label".into());
        }
        lx.expect(b'%')?;
        let n = lx.name()?;
        let b = *self.blocks.get(&n).ok_or_else(|| format!("block {}", n))?;
        Ok(self.edge(b))
    }
    fn edge(&mut self, to: u32) -> u32 {
        let k = (self.cur, to);
        if let Some(e) = self.edge_ids.get(&k) {
            return *e;
        }
        self.edges.push(k);
        let id = self.edges.len() as u32 - 1;
        self.edge_ids.insert(k, id);
        id
    }

    fn inst(&mut self, line: &str) -> R<()> {
        let types = &self.env.m.types;
        let line = strip(line);
        let mut lx = Lx::new(line, types);
        let mut dst: Option<String> = None;
        if lx.peek() == b'%' {
            lx.p += 1;
            dst = Some(lx.name()?);
            lx.expect(b'=')?;
        }
        let mut w = lx.word();
        while matches!(w, "tail" | "musttail" | "notail") {
            w = lx.word();
        }
        let d = dst.clone().unwrap_or_default();
        match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                flags(&mut lx);
                let t = lx.ty()?;
                let a = self.ops(&mut lx, &t)?;
                lx.expect(b',')?;
                let b = self.ops(&mut lx, &t)?;
                let op = match w {
                    "add" => SOp::Add,
                    "sub" => SOp::Sub,
                    "mul" => SOp::Mul,
                    "udiv" => SOp::UDiv,
                    "sdiv" => SOp::SDiv,
                    "urem" => SOp::URem,
                    "srem" => SOp::SRem,
                    "shl" => SOp::Shl,
                    "lshr" => SOp::LShr,
                    "ashr" => SOp::AShr,
                    "and" => SOp::And,
                    "or" => SOp::Or,
                    _ => SOp::Xor,
                };
                let wd = width(&t)?;
                let r = self.reg(&d, a.len());
                for i in 0..a.len() {
                    self.code.push(Op::Bin { op, w: wd, d: r + i as u32, a: a[i], b: b[i] });
                }
            }
            "icmp" => {
                flags(&mut lx);
                let p = lx.word();
                let t = lx.ty()?;
                let a = self.ops(&mut lx, &t)?;
                lx.expect(b',')?;
                let b = self.ops(&mut lx, &t)?;
                let (op, sw) = match p {
                    "eq" => (SOp::Eq, false),
                    "ne" => (SOp::Ne, false),
                    "ult" => (SOp::Ult, false),
                    "ule" => (SOp::Ule, false),
                    "ugt" => (SOp::Ult, true),
                    "uge" => (SOp::Ule, true),
                    "slt" => (SOp::Slt, false),
                    "sle" => (SOp::Sle, false),
                    "sgt" => (SOp::Slt, true),
                    "sge" => (SOp::Sle, true),
                    _ => return Err(format!("icmp {}", p)),
                };
                let wd = width(&t)?;
                let r = self.reg(&d, a.len());
                for i in 0..a.len() {
                    let (x, y) = if sw { (b[i], a[i]) } else { (a[i], b[i]) };
                    self.code.push(Op::Cmp { op, w: wd, d: r + i as u32, a: x, b: y });
                }
            }
            "select" => {
                flags(&mut lx);
                let ct = lx.ty()?;
                let c = self.ops(&mut lx, &ct)?;
                lx.expect(b',')?;
                let t = lx.ty()?;
                let a = self.ops(&mut lx, &t)?;
                lx.expect(b',')?;
                let _ = lx.ty()?;
                let b = self.ops(&mut lx, &t)?;
                let r = self.reg(&d, a.len());
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                for i in 0..a.len() {
                    let cc = if c.len() == 1 { c[0] } else { c[i] };
                    self.code.push(Op::Select { w: lv[i].1 as u8, d: r + i as u32, c: cc, a: a[i], b: b[i] });
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                flags(&mut lx);
                let t = lx.ty()?;
                let a = self.ops(&mut lx, &t)?;
                if !lx.eat_word("to") {
                    return Err("cast".into());
                }
                let t2 = lx.ty()?;
                check_ty(&t2)?;
                let (iw, ow) = (width(&t)?, width(&t2)?);
                let op = match w {
                    "zext" => SOp::ZExt,
                    "sext" => SOp::SExt,
                    "trunc" => SOp::Trunc,
                    _ => {
                        if ow < iw {
                            SOp::Trunc
                        } else {
                            SOp::ZExt
                        }
                    }
                };
                let r = self.reg(&d, a.len());
                for i in 0..a.len() {
                    if iw == ow {
                        self.code.push(Op::Mov { d: r + i as u32, a: a[i] });
                    } else {
                        self.code.push(Op::Cast { op, iw, w: ow, d: r + i as u32, a: a[i] });
                    }
                }
            }
            "freeze" => {
                let t = lx.ty()?;
                let a = self.ops(&mut lx, &t)?;
                let r = self.reg(&d, a.len());
                for i in 0..a.len() {
                    self.code.push(Op::Mov { d: r + i as u32, a: a[i] });
                }
            }
            "bitcast" => {
                let t = lx.ty()?;
                let a = self.ops(&mut lx, &t)?;
                if !lx.eat_word("to") {
                    return Err("cast".into());
                }
                let t2 = lx.ty()?;
                check_ty(&t2)?;
                let (mut l1, mut l2) = (vec![], vec![]);
                t.leaves(0, &mut l1);
                t2.leaves(0, &mut l2);
                let r = self.reg(&d, l2.len());
                if l1.len() == l2.len() {
                    for i in 0..a.len() {
                        self.code.push(Op::Mov { d: r + i as u32, a: a[i] });
                    }
                } else if l1.len() % l2.len() == 0 {
                    let k = l1.len() / l2.len();
                    let (ew, ow) = (l1[0].1 as u8, l2[0].1 as u8);
                    for j in 0..l2.len() {
                        let mut acc = O::K(0);
                        for i in 0..k {
                            let z = self.tmp();
                            self.code.push(Op::Cast { op: SOp::ZExt, iw: ew, w: ow, d: z, a: a[j * k + i] });
                            let s = self.tmp();
                            self.code.push(Op::Bin { op: SOp::Shl, w: ow, d: s, a: O::R(z), b: O::K(i as u64 * ew as u64) });
                            let o = if i == k - 1 { r + j as u32 } else { self.tmp() };
                            self.code.push(Op::Bin { op: SOp::Or, w: ow, d: o, a: acc, b: O::R(s) });
                            acc = O::R(o);
                        }
                    }
                } else if l2.len() % l1.len() == 0 {
                    let k = l2.len() / l1.len();
                    let (iw, ow) = (l1[0].1 as u8, l2[0].1 as u8);
                    for j in 0..l2.len() {
                        let s = self.tmp();
                        self.code.push(Op::Bin { op: SOp::LShr, w: iw, d: s, a: a[j / k], b: O::K((j % k) as u64 * ow as u64) });
                        self.code.push(Op::Cast { op: SOp::Trunc, iw, w: ow, d: r + j as u32, a: O::R(s) });
                    }
                } else {
                    return Err("bitcast".into());
                }
            }
            "getelementptr" => {
                loop {
                    flags(&mut lx);
                    if lx.word_peek() == "inrange" {
                        return Err("inrange".into());
                    }
                    break;
                }
                let t = lx.ty()?;
                lx.expect(b',')?;
                let pt = lx.ty()?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let base = self.op1(&mut lx, &pt)?;
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = t;
                let mut k = 0;
                while lx.eat(b',') {
                    let it = lx.ty()?;
                    let i = self.op1(&mut lx, &it)?;
                    let iw = width(&it)?;
                    if k > 0 {
                        if let Ty::Struct(..) = cur {
                            let n = match i {
                                O::K(n) => n as usize,
                                _ => return Err("gep".into()),
                            };
                            off = off.wrapping_add(cur.offset(n));
                            cur = cur.elem(n).clone();
                            k += 1;
                            continue;
                        }
                        cur = cur.elem(0).clone();
                    }
                    let sz = cur.size();
                    match i {
                        O::K(n) => off = off.wrapping_add((crate::sym::sx(n, iw as u32) as u64).wrapping_mul(sz)),
                        r => terms.push((r, iw, sz)),
                    }
                    k += 1;
                }
                let r = self.reg(&d, 1);
                self.code.push(Op::Gep { d: r, base, off, terms: terms.into() });
            }
            "load" => {
                flags(&mut lx);
                let t = lx.ty()?;
                check_ty(&t)?;
                lx.expect(b',')?;
                let pt = lx.ty()?;
                let a = self.op1(&mut lx, &pt)?;
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                let r = self.reg(&d, lv.len());
                for (i, (off, w)) in lv.iter().enumerate() {
                    self.code.push(Op::Load { d: r + i as u32, w: *w as u8, addr: a, off: *off });
                }
            }
            "store" => {
                flags(&mut lx);
                let t = lx.ty()?;
                check_ty(&t)?;
                let v = self.ops(&mut lx, &t)?;
                lx.expect(b',')?;
                let pt = lx.ty()?;
                let a = self.op1(&mut lx, &pt)?;
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                for (i, (off, w)) in lv.iter().enumerate() {
                    self.code.push(Op::Store { w: *w as u8, addr: a, off: *off, v: v[i] });
                }
            }
            "alloca" => {
                let t = lx.ty()?;
                let mut align = t.align();
                let mut n = 1;
                while lx.eat(b',') {
                    if lx.eat_word("align") {
                        align = lx.number()?;
                    } else {
                        let it = lx.ty()?;
                        match self.op1(&mut lx, &it)? {
                            O::K(k) => n = k,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                }
                let r = self.reg(&d, 1);
                self.code.push(Op::Alloca { d: r, size: t.size() * n, align });
            }
            "br" => {
                if lx.word_peek() == "label" {
                    let e = self.label(&mut lx)?;
                    self.code.push(Op::Br(e));
                } else {
                    let t = lx.ty()?;
                    let c = self.op1(&mut lx, &t)?;
                    lx.expect(b',')?;
                    let t = self.label(&mut lx)?;
                    lx.expect(b',')?;
                    let f = self.label(&mut lx)?;
                    self.code.push(Op::CondBr { c, t, f });
                }
            }
            "switch" => {
                let t = lx.ty()?;
                let v = self.op1(&mut lx, &t)?;
                lx.expect(b',')?;
                let def = self.label(&mut lx)?;
                lx.expect(b'[')?;
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let ct = lx.ty()?;
                    let k = match self.op1(&mut lx, &ct)? {
                        O::K(k) => k,
                        _ => return Err("case".into()),
                    };
                    lx.expect(b',')?;
                    let e = self.label(&mut lx)?;
                    cases.push((k, e));
                }
                self.code.push(Op::Switch { w: width(&t)?, v, cases: cases.into(), def });
            }
            "ret" => {
                let t = lx.ty()?;
                let v = if t == Ty::Void { vec![] } else { self.ops(&mut lx, &t)? };
                self.code.push(Op::Ret(v.into()));
            }
            "unreachable" => self.code.push(Op::Unreachable),
            "extractvalue" => {
                let t = lx.ty()?;
                let a = self.ops(&mut lx, &t)?;
                let (mut lo, mut cur) = (0usize, t);
                while lx.eat(b',') {
                    let i = lx.number()? as usize;
                    lo += (0..i).map(|k| cur.elem(k).nleaves()).sum::<usize>();
                    cur = cur.elem(i).clone();
                }
                let n = cur.nleaves();
                let r = self.reg(&d, n);
                for i in 0..n {
                    self.code.push(Op::Mov { d: r + i as u32, a: a[lo + i] });
                }
            }
            "insertvalue" => {
                let t = lx.ty()?;
                let mut a = self.ops(&mut lx, &t)?;
                lx.expect(b',')?;
                let vt = lx.ty()?;
                let v = self.ops(&mut lx, &vt)?;
                let (mut lo, mut cur) = (0usize, t.clone());
                while lx.eat(b',') {
                    let i = lx.number()? as usize;
                    lo += (0..i).map(|k| cur.elem(k).nleaves()).sum::<usize>();
                    cur = cur.elem(i).clone();
                }
                for (i, x) in v.iter().enumerate() {
                    a[lo + i] = *x;
                }
                let r = self.reg(&d, a.len());
                for (i, x) in a.iter().enumerate() {
                    self.code.push(Op::Mov { d: r + i as u32, a: *x });
                }
            }
            "insertelement" => {
                let t = lx.ty()?;
                let mut a = self.ops(&mut lx, &t)?;
                lx.expect(b',')?;
                let vt = lx.ty()?;
                let v = self.op1(&mut lx, &vt)?;
                lx.expect(b',')?;
                let it = lx.ty()?;
                match self.op1(&mut lx, &it)? {
                    O::K(i) => a[i as usize] = v,
                    _ => return Err("insertelement".into()),
                }
                let r = self.reg(&d, a.len());
                for (i, x) in a.iter().enumerate() {
                    self.code.push(Op::Mov { d: r + i as u32, a: *x });
                }
            }
            "extractelement" => {
                let t = lx.ty()?;
                let a = self.ops(&mut lx, &t)?;
                lx.expect(b',')?;
                let it = lx.ty()?;
                let i = match self.op1(&mut lx, &it)? {
                    O::K(i) => i as usize,
                    _ => return Err("extractelement".into()),
                };
                let r = self.reg(&d, 1);
                self.code.push(Op::Mov { d: r, a: a[i] });
            }
            "shufflevector" => {
                let t = lx.ty()?;
                let mut a = self.ops(&mut lx, &t)?;
                lx.expect(b',')?;
                let t = lx.ty()?;
                a.extend(self.ops(&mut lx, &t)?);
                lx.expect(b',')?;
                let mt = lx.ty()?;
                let m = self.ops(&mut lx, &mt)?;
                let r = self.reg(&d, m.len());
                for (i, x) in m.iter().enumerate() {
                    let k = match x {
                        O::K(k) => *k as usize,
                        _ => unreachable!(),
                    };
                    self.code.push(Op::Mov { d: r + i as u32, a: a[k] });
                }
            }
            "fence" => {}
            "atomicrmw" => {
                flags(&mut lx);
                let op = lx.word();
                let pt = lx.ty()?;
                let a = self.op1(&mut lx, &pt)?;
                lx.expect(b',')?;
                let t = lx.ty()?;
                let v = self.op1(&mut lx, &t)?;
                let wd = width(&t)?;
                let r = self.reg(&d, 1);
                self.code.push(Op::Load { d: r, w: wd, addr: a, off: 0 });
                let n = self.tmp();
                match op {
                    "xchg" => self.code.push(Op::Mov { d: n, a: v }),
                    "add" | "sub" | "and" | "or" | "xor" => {
                        let sop = match op {
                            "add" => SOp::Add,
                            "sub" => SOp::Sub,
                            "and" => SOp::And,
                            "or" => SOp::Or,
                            _ => SOp::Xor,
                        };
                        self.code.push(Op::Bin { op: sop, w: wd, d: n, a: O::R(r), b: v });
                    }
                    _ => return Err(format!("atomicrmw {}", op)),
                }
                self.code.push(Op::Store { w: wd, addr: a, off: 0, v: O::R(n) });
            }
            "cmpxchg" => {
                flags(&mut lx);
                let pt = lx.ty()?;
                let a = self.op1(&mut lx, &pt)?;
                lx.expect(b',')?;
                let t = lx.ty()?;
                let e = self.op1(&mut lx, &t)?;
                lx.expect(b',')?;
                let t = lx.ty()?;
                let v = self.op1(&mut lx, &t)?;
                let wd = width(&t)?;
                let r = self.reg(&d, 2);
                self.code.push(Op::Load { d: r, w: wd, addr: a, off: 0 });
                self.code.push(Op::Cmp { op: SOp::Eq, w: wd, d: r + 1, a: O::R(r), b: e });
                let n = self.tmp();
                self.code.push(Op::Select { w: wd, d: n, c: O::R(r + 1), a: v, b: O::R(r) });
                self.code.push(Op::Store { w: wd, addr: a, off: 0, v: O::R(n) });
            }
            "landingpad" | "resume" | "cleanupret" => {
                if dst.is_some() {
                    self.reg(&d, 2);
                }
                self.code.push(Op::Unsup("unwinding".into()));
            }
            "call" | "invoke" => {
                lx.skip_attrs();
                // fast-math flags etc. never occur
                let rt = lx.ty()?;
                let rt = if lx.peek() == b'(' {
                    // function type
                    let mut depth = 0;
                    loop {
                        match lx.s[lx.p] {
                            b'(' => depth += 1,
                            b')' => depth -= 1,
                            _ => {}
                        }
                        lx.p += 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    rt
                } else {
                    rt
                };
                let n = rt.nleaves();
                check_ty(&rt)?;
                let mut callee: Option<String> = None;
                let mut ind = O::K(0);
                match lx.peek() {
                    b'@' => {
                        lx.p += 1;
                        callee = Some(lx.name()?);
                    }
                    b'%' => {
                        ind = self.op1(&mut lx, &Ty::Ptr)?;
                    }
                    _ => {
                        if lx.word_peek() == "asm" {
                            if n == 0 && line.contains("asm sideeffect \"\"") {
                                return Ok(());
                            }
                            let r = if n > 0 { self.reg(&d, n) } else { 0 };
                            let _ = r;
                            return Err("asm".into());
                        }
                        return Err(format!("callee {}", lx.rest()));
                    }
                }
                lx.expect(b'(')?;
                let mut args = vec![];
                let mut meta = false;
                if !lx.eat(b')') {
                    loop {
                        let t = lx.ty()?;
                        if t == Ty::Meta {
                            meta = true;
                            break;
                        }
                        lx.skip_attrs();
                        let v = self.ops(&mut lx, &t)?;
                        args.push((t, v));
                        if !lx.eat(b',') {
                            break;
                        }
                    }
                }
                let d = if n > 0 { if dst.is_some() { self.reg(&d, n) } else { let r = self.nregs; self.nregs += n as u32; self.widths.push((r, n as u32)); r } } else { 0 };
                let next = if w == "invoke" {
                    let i = line.rfind(" to label ").ok_or("invoke")?;
                    let mut l2 = Lx::new(&line[i + 4..], types);
                    self.label(&mut l2)?
                } else {
                    u32::MAX
                };
                if meta {
                    return Ok(());
                }
                match callee {
                    None => {
                        let a: Vec<O> = args.into_iter().flat_map(|x| x.1).collect();
                        self.code.push(Op::CallInd { f: ind, args: a.into(), d, n: n as u32, next });
                    }
                    Some(name) => self.call(&name, args, d, n as u32, next, &rt)?,
                }
            }
            _ => {
                return Err(format!("instruction {}", w));
            }
        }
        Ok(())
    }

    fn call(&mut self, name: &str, args: Vec<(Ty, Vec<O>)>, d: u32, n: u32, next: u32, rt: &Ty) -> R<()> {
        let flat: Vec<O> = args.iter().flat_map(|x| x.1.iter().copied()).collect();
        if let Some(i) = name.strip_prefix("llvm.") {
            let wd = args.first().and_then(|a| width(&a.0).ok()).unwrap_or(64);
            let two = |op| -> R<Op> { Ok(Op::Bin { op, w: wd, d, a: flat[0], b: flat[1] }) };
            let base = i.split('.').next().unwrap();
            let op = match base {
                "lifetime" | "assume" | "experimental" | "invariant" | "prefetch" | "dbg" | "x86" | "va_start" | "donothing" => return Ok(()),
                "trap" | "debugtrap" | "ubsantrap" => Op::Ext { e: Ext::Panic("trap".into()), args: [].into(), d, n, next },
                "memcpy" | "memmove" => Op::Ext { e: Ext::Memcpy, args: flat.into(), d, n, next },
                "memset" => Op::Ext { e: Ext::Memset, args: flat.into(), d, n, next },
                "is" => Op::Mov { d, a: O::K(0) },
                "expect" => Op::Mov { d, a: flat[0] },
                "threadlocal" => Op::Mov { d, a: flat[0] },
                "load" => Op::Ext { e: Ext::LoadRelative, args: flat.into(), d, n, next },
                "umax" | "umin" | "smax" | "smin" => {
                    for k in 0..n as usize {
                        let c = self.tmp();
                        let cmp = if base.starts_with('u') { SOp::Ult } else { SOp::Slt };
                        let (a, b) = (flat[k], flat[k + n as usize]);
                        self.code.push(Op::Cmp { op: cmp, w: wd, d: c, a, b });
                        let (x, y) = if base.ends_with("max") { (b, a) } else { (a, b) };
                        self.code.push(Op::Select { w: wd, d: d + k as u32, c: O::R(c), a: x, b: y });
                    }
                    return Ok(());
                }
                "usub" | "uadd" | "ssub" | "sadd" | "umul" | "smul" => {
                    if i.contains(".sat.") {
                        match base {
                            "usub" => two(SOp::USubSat)?,
                            "uadd" => two(SOp::UAddSat)?,
                            _ => return Err(format!("intrinsic {}", name)),
                        }
                    } else {
                        let (o1, o2) = match base {
                            "usub" => (SOp::Sub, SOp::USubO),
                            "uadd" => (SOp::Add, SOp::UAddO),
                            "ssub" => (SOp::Sub, SOp::SSubO),
                            "sadd" => (SOp::Add, SOp::SAddO),
                            "umul" => (SOp::Mul, SOp::UMulO),
                            _ => (SOp::Mul, SOp::SMulO),
                        };
                        self.code.push(Op::Bin { op: o1, w: wd, d, a: flat[0], b: flat[1] });
                        Op::Cmp { op: o2, w: wd, d: d + 1, a: flat[0], b: flat[1] }
                    }
                }
                "ctpop" => Op::Un { op: SOp::CtPop, w: wd, d, a: flat[0] },
                "ctlz" => Op::Un { op: SOp::CtLz, w: wd, d, a: flat[0] },
                "cttz" => Op::Un { op: SOp::CtTz, w: wd, d, a: flat[0] },
                "bswap" => Op::Un { op: SOp::BSwap, w: wd, d, a: flat[0] },
                "bitreverse" => Op::Un { op: SOp::BitRev, w: wd, d, a: flat[0] },
                "abs" => {
                    let (s, c) = (self.tmp(), self.tmp());
                    self.code.push(Op::Bin { op: SOp::Sub, w: wd, d: s, a: O::K(0), b: flat[0] });
                    self.code.push(Op::Cmp { op: SOp::Slt, w: wd, d: c, a: flat[0], b: O::K(0) });
                    Op::Select { w: wd, d, c: O::R(c), a: O::R(s), b: flat[0] }
                }
                "fshl" | "fshr" => Op::Tri { op: if base == "fshl" { SOp::FShl } else { SOp::FShr }, w: wd, d, a: flat[0], b: flat[1], c: flat[2] },
                "ucmp" | "scmp" => {
                    // -1, 0, 1 in the result width
                    let ow = width(rt)?;
                    let (lt, gt) = (self.tmp(), self.tmp());
                    let cmp = if base == "ucmp" { SOp::Ult } else { SOp::Slt };
                    self.code.push(Op::Cmp { op: cmp, w: wd, d: lt, a: flat[0], b: flat[1] });
                    self.code.push(Op::Cmp { op: cmp, w: wd, d: gt, a: flat[1], b: flat[0] });
                    let t = self.tmp();
                    self.code.push(Op::Select { w: ow, d: t, c: O::R(gt), a: O::K(1), b: O::K(0) });
                    Op::Select { w: ow, d, c: O::R(lt), a: O::K(crate::sym::mask(ow as u32)), b: O::R(t) }
                }
                _ => Op::Unsup(format!("intrinsic {}", name)),
            };
            self.code.push(op);
            return Ok(());
        }
        let real = self.env.m.aliases.get(name).map(|s| s.as_str()).unwrap_or(name);
        if let Some(e) = ext(real) {
            let term = matches!(e, Ext::Panic(_));
            self.code.push(Op::Ext { e, args: flat.into(), d, n, next });
            let _ = term;
            return Ok(());
        }
        if let Some(f) = self.env.fid.get(real) {
            self.code.push(Op::Call { f: *f, args: flat.into(), d, n, next });
        } else {
            self.code.push(Op::Ext { e: Ext::Unsup(format!("external {}", real)), args: [].into(), d, n, next });
        }
        Ok(())
    }
}

/// Functions replaced by models.
pub fn ext(name: &str) -> Option<Ext> {
    let has = |s: &str| name.contains(s);
    Some(match name {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::LibcRealloc,
        "posix_memalign" => Ext::PosixMemalign,
        "free" => Ext::Nop,
        "memcmp" | "bcmp" => Ext::Memcmp,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "strlen" => Ext::Strlen,
        "vsym_choice" => Ext::Choice,
        "vsym_one" => Ext::One,
        "vsym_assume" => Ext::Assume,
        "vsym_check" => Ext::Check,
        "vsym_reach" => Ext::Reach,
        "vsym_select" => Ext::Select,
        "vsym_eq" => Ext::EqV,
        "vsym_memeq" => Ext::MemEq,
        "abort" => Ext::Panic("abort".into()),
        _ => {
            if has("___rust_alloc_zeroed") || has("___rdl_alloc_zeroed") || has("__rustc") && has("19___rust_alloc_zeroed") {
                Ext::AllocZ
            } else if has("___rust_no_alloc_shim") {
                Ext::Nop
            } else if has("___rust_alloc_error_handler") {
                Ext::Panic("allocation error".into())
            } else if has("12___rust_alloc") || has("11___rdl_alloc") {
                Ext::Alloc
            } else if has("14___rust_realloc") || has("13___rdl_realloc") {
                Ext::Realloc
            } else if has("14___rust_dealloc") || has("13___rdl_dealloc") {
                Ext::Nop
            } else if has("5alloc3fmt6format12format_inner") {
                Ext::Format
            } else if has("hashmap_random_keys") {
                Ext::HashKeys
            } else if has("4core9panicking")
                || has("slice_error_fail")
                || has("4core6option13unwrap_failed")
                || has("4core6option13expect_failed")
                || has("4core6result13unwrap_failed")
                || has("slice_index_fail")
                || has("slice_start_index_")
                || has("slice_end_index_")
                || has("slice_index_order_fail")
                || has("5alloc7raw_vec12handle_error")
                || has("capacity_overflow")
                || has("panic_already_borrowed")
                || has("panic_already_mutably_borrowed")
                || has("3std9panicking")
                || has("rust_begin_unwind")
                || has("begin_panic")
                || has("handle_alloc_error")
                || has("assert_failed")
                || has("3std7process5abort")
                || has("3std6thread5local18panic_access_error")
                || has("len_mismatch_fail")
                || (has("5alloc3vec") && has("13assert_failed"))
            {
                Ext::Panic(name.to_string())
            } else {
                return None;
            }
        }
    })
}

fn check_ty(t: &Ty) -> R<()> {
    match t {
        Ty::Int(w) if *w > 64 => Err(format!("i{}", w)),
        Ty::Float(w) if *w > 64 => Err("float".into()),
        Ty::Arr(_, t) | Ty::Vec(_, t) => check_ty(t),
        Ty::Struct(v, _) => v.iter().try_for_each(check_ty),
        _ => Ok(()),
    }
}
fn width(t: &Ty) -> R<u8> {
    match t {
        Ty::Int(w) if *w <= 64 => Ok(*w as u8),
        Ty::Ptr => Ok(64),
        Ty::Float(w) => Ok(*w as u8),
        Ty::Vec(_, t) => width(t),
        _ => Err(format!("width of {:?}", t)),
    }
}

pub fn decode(env: &Env, name: &str) -> R<Func> {
    let ft = env.m.funcs.get(name).ok_or_else(|| format!("function {}", name))?;
    let mut de = Dec {
        env,
        names: HashMap::new(),
        widths: vec![],
        nregs: 0,
        code: vec![],
        edges: vec![],
        edge_ids: HashMap::new(),
        blocks: HashMap::new(),
        cur: 0,
    };
    // parameters
    let h = ft.header;
    let at = h.find(" @").unwrap() + 1;
    let mut lx = Lx::new(&h[at..], &env.m.types);
    lx.p += 1;
    lx.name()?;
    lx.expect(b'(')?;
    let mut unnamed = 0;
    if !lx.eat(b')') {
        loop {
            if lx.s[lx.p..].starts_with(b"...") {
                break;
            }
            let t = lx.ty()?;
            lx.skip_attrs();
            if lx.peek() == b'%' {
                lx.p += 1;
                let n = lx.name()?;
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                de.reg(&n, t.nleaves());
            } else {
                de.nregs += t.nleaves() as u32;
            }
            if !lx.eat(b',') {
                break;
            }
        }
    }
    let nparams = de.nregs;
    let mut lines = split_body(ft.body);
    if lines.first().map_or(true, |l| l.starts_with(' ')) {
        // the entry block has an implicit number
        lines.insert(0, format!("{}:", unnamed));
    }
    let mut nb = 0;
    for l in &lines {
        if !l.starts_with(' ') {
            if let Some(n) = label_name(l) {
                de.blocks.insert(n, nb);
                nb += 1;
            }
        }
    }
    let mut starts = vec![0u32; nb as usize];
    // phi: block -> (dst reg, width n, ty, [(val, pred)])
    let mut phis: Vec<(u32, u32, Vec<(Vec<O>, u32)>)> = vec![];
    let mut bi: i64 = -1;
    for l in &lines {
        if !l.starts_with(' ') {
            if label_name(l).is_some() {
                bi += 1;
                de.cur = bi as u32;
                starts[bi as usize] = de.code.len() as u32;
            }
            continue;
        }
        if l.contains(" = phi ") {
            let l = strip(l);
            let mut lx = Lx::new(l, &env.m.types);
            lx.expect(b'%')?;
            let d = lx.name()?;
            lx.expect(b'=')?;
            lx.word();
            let t = lx.ty()?;
            let k = t.nleaves();
            let r = de.reg(&d, k);
            let mut inc = vec![];
            let mut err = None;
            loop {
                lx.expect(b'[')?;
                let v = match de.ops(&mut lx, &t) {
                    Ok(v) => v,
                    Err(e) => {
                        err = Some(e);
                        break;
                    }
                };
                lx.expect(b',')?;
                lx.expect(b'%')?;
                let b = lx.name()?;
                lx.expect(b']')?;
                inc.push((v, *de.blocks.get(&b).ok_or_else(|| format!("phi block {} in {}", b, name))?));
                if !lx.eat(b',') {
                    break;
                }
            }
            if let Some(e) = err {
                return Err(e);
            }
            phis.push((bi as u32, r, inc));
            continue;
        }
        let mark = de.code.len();
        if let Err(e) = de.inst(l) {
            de.code.truncate(mark);
            de.code.push(Op::Unsup(format!("{}: {}", e, l.trim())));
        }
    }
    let mut edges = vec![];
    for (p, s) in de.edges.clone() {
        let mut copies = vec![];
        for (b, r, inc) in &phis {
            if *b == s {
                if let Some((v, _)) = inc.iter().find(|x| x.1 == p) {
                    for (i, o) in v.iter().enumerate() {
                        if *o != O::R(r + i as u32) {
                            copies.push((r + i as u32, *o));
                        }
                    }
                }
            }
        }
        let mut conflict = false;
        for (i, (_, o)) in copies.iter().enumerate() {
            if let O::R(x) = o {
                if copies[..i].iter().any(|c| c.0 == *x) {
                    conflict = true;
                }
            }
        }
        edges.push(Edge { target: starts[s as usize], copies: copies.into(), conflict });
    }
    let mut f = Func { name: name.to_string(), nparams, nregs: de.nregs, code: de.code, edges };
    let mut units: Vec<(u32, u32)> = vec![];
    {
        let mut st: Vec<u32> = de.names.values().copied().collect();
        st.sort();
        st.dedup();
        // values of one name are consecutive; everything between two names is temporaries
        let mut ends: HashMap<u32, u32> = HashMap::new();
        for (r, n) in &de.widths {
            ends.insert(*r, *n);
        }
        let mut at = nparams;
        let _ = st;
        while at < f.nregs {
            let n = ends.get(&at).copied().unwrap_or(1).max(1);
            units.push((at, n));
            at += n;
        }
    }
    compact(&mut f, &starts, &units);
    Ok(f)
}

/// Calls `u` on every operand and `d` on every defined register range.
fn visit(op: &mut Op, u: &mut dyn FnMut(&mut O), d: &mut dyn FnMut(&mut u32, u32)) {
    match op {
        Op::Bin { d: r, a, b, .. } | Op::Cmp { d: r, a, b, .. } => {
            u(a);
            u(b);
            d(r, 1);
        }
        Op::Un { d: r, a, .. } | Op::Cast { d: r, a, .. } | Op::Mov { d: r, a } => {
            u(a);
            d(r, 1);
        }
        Op::Tri { d: r, a, b, c, .. } | Op::Select { d: r, c, a, b, .. } => {
            u(a);
            u(b);
            u(c);
            d(r, 1);
        }
        Op::Gep { d: r, base, terms, .. } => {
            u(base);
            for t in terms.iter_mut() {
                u(&mut t.0);
            }
            d(r, 1);
        }
        Op::Load { d: r, addr, .. } => {
            u(addr);
            d(r, 1);
        }
        Op::Store { addr, v, .. } => {
            u(addr);
            u(v);
        }
        Op::Alloca { d: r, .. } => d(r, 1),
        Op::CondBr { c, .. } => u(c),
        Op::Switch { v, .. } => u(v),
        Op::Call { args, d: r, n, .. } | Op::Ext { args, d: r, n, .. } => {
            for a in args.iter_mut() {
                u(a);
            }
            if *n > 0 {
                d(r, *n);
            }
        }
        Op::CallInd { f, args, d: r, n, .. } => {
            u(f);
            for a in args.iter_mut() {
                u(a);
            }
            if *n > 0 {
                d(r, *n);
            }
        }
        Op::Ret(v) => {
            for a in v.iter_mut() {
                u(a);
            }
        }
        Op::Br(_) | Op::Unreachable | Op::Unsup(_) => {}
    }
}
fn edges_of(op: &Op) -> Vec<u32> {
    let mut v = match op {
        Op::Br(e) => vec![*e],
        Op::CondBr { t, f, .. } => vec![*t, *f],
        Op::Switch { cases, def, .. } => {
            let mut v: Vec<u32> = cases.iter().map(|c| c.1).collect();
            v.push(*def);
            v
        }
        Op::Call { next, .. } | Op::Ext { next, .. } | Op::CallInd { next, .. } if *next != u32::MAX => vec![*next],
        _ => vec![],
    };
    v.sort();
    v.dedup();
    v
}

/// Register allocation: values whose live ranges do not overlap share a register.
fn compact(f: &mut Func, starts: &[u32], units: &[(u32, u32)]) {
    let nu = units.len();
    if nu == 0 {
        return;
    }
    let np = f.nparams;
    let mut unit_of = vec![u32::MAX; f.nregs as usize];
    for (i, (s, n)) in units.iter().enumerate() {
        for k in *s..*s + *n {
            unit_of[k as usize] = i as u32;
        }
    }
    let nb = starts.len();
    let end_of = |b: usize| if b + 1 < nb { starts[b + 1] } else { f.code.len() as u32 };
    let ends: Vec<u32> = (0..nb).map(end_of).collect();
    let block_at: HashMap<u32, usize> = starts.iter().enumerate().map(|(i, s)| (*s, i)).collect();
    let words = (nu + 63) / 64;
    let mut code = std::mem::take(&mut f.code);
    // per block: upward-exposed uses, defs
    let mut gen = vec![vec![0u64; words]; nb];
    let mut kill = vec![vec![0u64; words]; nb];
    let mut succ: Vec<Vec<(usize, u32)>> = vec![vec![]; nb];
    for b in 0..nb {
        for p in starts[b]..ends[b] {
            let (g, k) = (&mut gen[b], &mut kill[b]);
            let mut du: Vec<u32> = vec![];
            visit(
                &mut code[p as usize],
                &mut |o| {
                    if let O::R(r) = o {
                        let u = unit_of[*r as usize];
                        if u != u32::MAX && k[u as usize / 64] >> (u % 64) & 1 == 0 {
                            g[u as usize / 64] |= 1 << (u % 64);
                        }
                    }
                },
                &mut |r, _| {
                    let u = unit_of[*r as usize];
                    if u != u32::MAX {
                        du.push(u);
                    }
                },
            );
            for u in du {
                k[u as usize / 64] |= 1 << (u % 64);
            }
            for e in edges_of(&code[p as usize]) {
                let ed = &f.edges[e as usize];
                // the sources of edge copies are used here
                for (_, o) in ed.copies.iter() {
                    if let O::R(r) = o {
                        let u = unit_of[*r as usize];
                        if u != u32::MAX && k[u as usize / 64] >> (u % 64) & 1 == 0 {
                            g[u as usize / 64] |= 1 << (u % 64);
                        }
                    }
                }
                succ[b].push((block_at[&ed.target], e));
            }
        }
    }
    let mut live_in = gen.clone();
    let mut live_out = vec![vec![0u64; words]; nb];
    loop {
        let mut changed = false;
        for b in (0..nb).rev() {
            let mut out = vec![0u64; words];
            for (t, e) in &succ[b] {
                let mut li = live_in[*t].clone();
                for (d, _) in f.edges[*e as usize].copies.iter() {
                    let u = unit_of[*d as usize];
                    if u != u32::MAX {
                        li[u as usize / 64] &= !(1 << (u % 64));
                    }
                }
                for w in 0..words {
                    out[w] |= li[w];
                }
            }
            let mut inn = gen[b].clone();
            for w in 0..words {
                inn[w] |= out[w] & !kill[b][w];
            }
            if inn != live_in[b] {
                live_in[b] = inn;
                changed = true;
            }
            live_out[b] = out;
        }
        if !changed {
            break;
        }
    }
    let mut lo = vec![u32::MAX; nu];
    let mut hi = vec![0u32; nu];
    let mut touch = |u: u32, p: u32| {
        if u != u32::MAX {
            lo[u as usize] = lo[u as usize].min(p);
            hi[u as usize] = hi[u as usize].max(p);
        }
    };
    for b in 0..nb {
        for w in 0..words {
            let mut x = live_in[b][w];
            while x != 0 {
                touch((w * 64) as u32 + x.trailing_zeros(), starts[b]);
                x &= x - 1;
            }
            let mut x = live_out[b][w];
            while x != 0 {
                touch((w * 64) as u32 + x.trailing_zeros(), ends[b].saturating_sub(1));
                x &= x - 1;
            }
        }
        for p in starts[b]..ends[b] {
            let mut us = vec![];
            let us2 = std::cell::RefCell::new(&mut us);
            visit(
                &mut code[p as usize],
                &mut |o| {
                    if let O::R(r) = o {
                        us2.borrow_mut().push(*r);
                    }
                },
                &mut |r, n| {
                    for k in 0..n {
                        us2.borrow_mut().push(*r + k);
                    }
                },
            );
            for e in edges_of(&code[p as usize]) {
                let ed = &f.edges[e as usize];
                for (d, o) in ed.copies.iter() {
                    us.push(*d);
                    if unit_of[*d as usize] != u32::MAX {
                        touch(unit_of[*d as usize], ed.target);
                    }
                    if let O::R(r) = o {
                        us.push(*r);
                    }
                }
            }
            for r in us {
                touch(unit_of[r as usize], p);
            }
        }
    }
    // linear scan
    let mut order: Vec<usize> = (0..nu).filter(|u| lo[*u] != u32::MAX).collect();
    order.sort_by_key(|u| lo[*u]);
    let mut free_at: Vec<u32> = vec![]; // register -> first free position
    let mut map = vec![0u32; nu];
    let mut heap: std::collections::BTreeSet<(u32, u32)> = Default::default(); // (free position, reg) of single registers
    for u in order {
        let n = units[u].1 as usize;
        if n == 1 {
            let pick = heap.iter().next().copied();
            if let Some((fp, r)) = pick {
                if fp <= lo[u] {
                    heap.remove(&(fp, r));
                    heap.insert((hi[u] + 1, r));
                    free_at[r as usize] = hi[u] + 1;
                    map[u] = r;
                    continue;
                }
            }
            let r = free_at.len() as u32;
            free_at.push(hi[u] + 1);
            heap.insert((hi[u] + 1, r));
            map[u] = r;
        } else {
            let mut k = 0;
            'o: while k < free_at.len() {
                for j in 0..n.min(free_at.len() - k) {
                    if free_at[k + j] > lo[u] {
                        k += j + 1;
                        continue 'o;
                    }
                }
                break;
            }
            while free_at.len() < k + n {
                free_at.push(0);
                heap.insert((0, free_at.len() as u32 - 1));
            }
            for j in 0..n {
                heap.remove(&(free_at[k + j], (k + j) as u32));
                free_at[k + j] = hi[u] + 1;
                heap.insert((hi[u] + 1, (k + j) as u32));
            }
            map[u] = k as u32;
        }
    }
    let rn = |r: u32| -> u32 {
        let u = unit_of[r as usize];
        if u == u32::MAX {
            r
        } else {
            np + map[u as usize] + (r - units[u as usize].0)
        }
    };
    for op in code.iter_mut() {
        visit(
            op,
            &mut |o| {
                if let O::R(r) = o {
                    *r = rn(*r);
                }
            },
            &mut |r, _| *r = rn(*r),
        );
    }
    f.code = code;
    for e in f.edges.iter_mut() {
        let mut c: Vec<(u32, O)> = vec![];
        for (d, o) in e.copies.iter() {
            let d = rn(*d);
            let o = match o {
                O::R(r) => O::R(rn(*r)),
                k => *k,
            };
            if o != O::R(d) {
                c.push((d, o));
            }
        }
        e.conflict = false;
        for (i, (_, o)) in c.iter().enumerate() {
            if let O::R(x) = o {
                if c[..i].iter().any(|c| c.0 == *x) {
                    e.conflict = true;
                }
            }
        }
        e.copies = c.into();
    }
    f.nregs = np + free_at.len() as u32;
}

fn label_name(l: &str) -> Option<String> {
    let b = l.as_bytes();
    if b[0] == b'"' {
        let e = l[1..].find('"')? + 1;
        if b.get(e + 1) == Some(&b':') {
            return Some(l[1..e].to_string());
        }
        return None;
    }
    let mut i = 0;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'-' | b'$')) {
        i += 1;
    }
    if i > 0 && b.get(i) == Some(&b':') {
        return Some(l[..i].to_string());
    }
    None
}
