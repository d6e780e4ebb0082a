//! Symbolic values.  A value is concrete, a *table* (an exact function of one finite-domain
//! symbolic variable), or a general bit-vector term over several variables.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ne, Ult, Ule, Slt, Sle,
    Select, ZExt, SExt, Trunc, Byte, Concat,
    CtPop, CtLz, CtTz, BSwap, BitRev,
    UAddO, SAddO, USubO, SSubO, UMulO, SMulO,
    FShl, FShr, UAddSat, USubSat,
}

#[derive(Debug)]
pub struct Node {
    pub w: u32,
    pub kind: Kind,
}
#[derive(Debug)]
pub enum Kind {
    Tab { var: u16, vals: Box<[u64]> },
    Ex { op: SOp, iw: u32, args: Box<[Val]>, vars: Box<[u16]> },
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(Arc<Node>),
}

impl Val {
    #[inline]
    pub fn is_c(&self) -> bool {
        matches!(self, Val::C(_))
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Dom {
    pub bits: [u64; 4],
    pub n: u16,
    pub count: u16,
}
impl Dom {
    pub fn full(n: usize) -> Dom {
        assert!(n <= 256 && n > 0);
        let mut bits = [0u64; 4];
        for i in 0..n {
            bits[i / 64] |= 1 << (i % 64);
        }
        Dom { bits, n: n as u16, count: n as u16 }
    }
    #[inline]
    pub fn has(&self, i: usize) -> bool {
        self.bits[i >> 6] >> (i & 63) & 1 == 1
    }
    pub fn from_bits(bits: [u64; 4], n: u16) -> Dom {
        let count = bits.iter().map(|b| b.count_ones()).sum::<u32>() as u16;
        Dom { bits, n, count }
    }
    #[inline]
    pub fn iter(&self) -> DomIter {
        DomIter { bits: self.bits, w: 0 }
    }
    pub fn first(&self) -> usize {
        for i in 0..4 {
            if self.bits[i] != 0 {
                return i * 64 + self.bits[i].trailing_zeros() as usize;
            }
        }
        panic!("empty domain")
    }
}
pub struct DomIter {
    bits: [u64; 4],
    w: usize,
}
impl Iterator for DomIter {
    type Item = usize;
    #[inline]
    fn next(&mut self) -> Option<usize> {
        while self.w < 4 {
            let b = self.bits[self.w];
            if b != 0 {
                self.bits[self.w] = b & (b - 1);
                return Some(self.w * 64 + b.trailing_zeros() as usize);
            }
            self.w += 1;
        }
        None
    }
}

#[inline]
pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

#[inline]
pub fn eval(op: SOp, iw: u32, w: u32, a: &[u64]) -> u64 {
    use SOp::*;
    let m = mask(w);
    match op {
        Add => a[0].wrapping_add(a[1]) & m,
        Sub => a[0].wrapping_sub(a[1]) & m,
        Mul => a[0].wrapping_mul(a[1]) & m,
        UDiv => if a[1] == 0 { m } else { a[0] / a[1] },
        URem => if a[1] == 0 { a[0] } else { a[0] % a[1] },
        SDiv => if a[1] == 0 { m } else { (sx(a[0], iw).wrapping_div(sx(a[1], iw))) as u64 & m },
        SRem => if a[1] == 0 { a[0] } else { (sx(a[0], iw).wrapping_rem(sx(a[1], iw))) as u64 & m },
        Shl => if a[1] >= iw as u64 { 0 } else { (a[0] << a[1]) & m },
        LShr => if a[1] >= iw as u64 { 0 } else { a[0] >> a[1] },
        AShr => if a[1] >= iw as u64 { if sx(a[0], iw) < 0 { m } else { 0 } } else { (sx(a[0], iw) >> a[1]) as u64 & m },
        And => a[0] & a[1],
        Or => a[0] | a[1],
        Xor => a[0] ^ a[1],
        Eq => (a[0] == a[1]) as u64,
        Ne => (a[0] != a[1]) as u64,
        Ult => (a[0] < a[1]) as u64,
        Ule => (a[0] <= a[1]) as u64,
        Slt => (sx(a[0], iw) < sx(a[1], iw)) as u64,
        Sle => (sx(a[0], iw) <= sx(a[1], iw)) as u64,
        Select => if a[0] != 0 { a[1] } else { a[2] },
        ZExt => a[0],
        SExt => sx(a[0], iw) as u64 & m,
        Trunc => a[0] & m,
        Byte => (a[0] >> (8 * a[1])) & 0xff & m,
        Concat => {
            let mut r = 0;
            for (i, b) in a.iter().enumerate() {
                r |= b << (8 * i);
            }
            r & m
        }
        CtPop => a[0].count_ones() as u64,
        CtLz => (a[0].leading_zeros() - (64 - iw)) as u64,
        CtTz => if a[0] == 0 { iw as u64 } else { a[0].trailing_zeros() as u64 },
        BSwap => (a[0].swap_bytes()) >> (64 - iw),
        BitRev => (a[0].reverse_bits()) >> (64 - iw),
        UAddO => {
            if iw == 64 { a[0].checked_add(a[1]).is_none() as u64 } else { (a[0] + a[1] > mask(iw)) as u64 }
        }
        USubO => (a[0] < a[1]) as u64,
        UMulO => ((a[0] as u128 * a[1] as u128) > mask(iw) as u128) as u64,
        SAddO => { let r = sx(a[0], iw) as i128 + sx(a[1], iw) as i128; (r != sx(r as u64 & mask(iw), iw) as i128) as u64 }
        SSubO => { let r = sx(a[0], iw) as i128 - sx(a[1], iw) as i128; (r != sx(r as u64 & mask(iw), iw) as i128) as u64 }
        SMulO => { let r = sx(a[0], iw) as i128 * sx(a[1], iw) as i128; (r != sx(r as u64 & mask(iw), iw) as i128) as u64 }
        FShl => { let s = a[2] % iw as u64; if s == 0 { a[0] } else { ((a[0] << s) | (a[1] >> (iw as u64 - s))) & m } }
        FShr => { let s = a[2] % iw as u64; if s == 0 { a[1] } else { ((a[0] << (iw as u64 - s)) | (a[1] >> s)) & m } }
        UAddSat => { let r = a[0] as u128 + a[1] as u128; if r > m as u128 { m } else { r as u64 } }
        USubSat => a[0].saturating_sub(a[1]),
    }
}

pub type Doms = [Dom];

/// Value of `v` when variable `var` has value `x` and every other variable has its (single) value.
pub fn eval_at(v: &Val, doms: &Doms, var: u16, x: usize, memo: &mut HashMap<*const Node, u64>) -> u64 {
    match v {
        Val::C(c) => *c,
        Val::S(n) => match &n.kind {
            Kind::Tab { var: tv, vals } => {
                if *tv == var { vals[x] } else { vals[doms[*tv as usize].first()] }
            }
            Kind::Ex { op, iw, args, .. } => {
                if let Some(r) = memo.get(&Arc::as_ptr(n)) {
                    return *r;
                }
                let av: Vec<u64> = args.iter().map(|a| eval_at(a, doms, var, x, memo)).collect();
                let r = eval(*op, *iw, n.w, &av);
                memo.insert(Arc::as_ptr(n), r);
                r
            }
        },
    }
}
/// Value under a complete assignment.
pub fn eval_model(v: &Val, model: &[u64], memo: &mut HashMap<*const Node, u64>) -> u64 {
    match v {
        Val::C(c) => *c,
        Val::S(n) => match &n.kind {
            Kind::Tab { var, vals } => vals[model[*var as usize] as usize],
            Kind::Ex { op, iw, args, .. } => {
                if let Some(r) = memo.get(&Arc::as_ptr(n)) {
                    return *r;
                }
                let av: Vec<u64> = args.iter().map(|a| eval_model(a, model, memo)).collect();
                let r = eval(*op, *iw, n.w, &av);
                memo.insert(Arc::as_ptr(n), r);
                r
            }
        },
    }
}

/// Distinct variables of `v` whose domain is not a single value.
pub fn live_vars(v: &Val, doms: &Doms, out: &mut Vec<u16>) {
    if let Val::S(n) = v {
        match &n.kind {
            Kind::Tab { var, .. } => {
                if doms[*var as usize].count > 1 && !out.contains(var) {
                    out.push(*var);
                }
            }
            Kind::Ex { vars, .. } => {
                for v in vars.iter() {
                    if doms[*v as usize].count > 1 && !out.contains(v) {
                        out.push(*v);
                    }
                }
            }
        }
    }
}

pub fn make_tab(w: u32, var: u16, doms: &Doms, f: &mut dyn FnMut(usize) -> u64) -> Val {
    let d = &doms[var as usize];
    let mut vals = vec![0u64; d.n as usize].into_boxed_slice();
    let mut first = None;
    let mut same = true;
    for x in d.iter() {
        let r = f(x);
        vals[x] = r;
        match first {
            None => first = Some(r),
            Some(f) => same &= f == r,
        }
    }
    if same {
        return Val::C(first.unwrap());
    }
    Val::S(Arc::new(Node { w, kind: Kind::Tab { var, vals } }))
}

/// Re-simplifies a value under the current domains.
pub fn refresh(v: &Val, doms: &Doms) -> Val {
    match v {
        Val::C(_) => v.clone(),
        Val::S(n) => match &n.kind {
            Kind::Tab { var, vals } => {
                let d = &doms[*var as usize];
                let mut it = d.iter();
                let f = vals[it.next().unwrap()];
                if it.all(|x| vals[x] == f) { Val::C(f) } else { v.clone() }
            }
            Kind::Ex { .. } => {
                let mut lv = vec![];
                live_vars(v, doms, &mut lv);
                if lv.len() <= 1 {
                    let var = lv.first().copied().unwrap_or(0);
                    if lv.is_empty() {
                        return Val::C(eval_at(v, doms, u16::MAX, 0, &mut HashMap::new()));
                    }
                    return make_tab(n.w, var, doms, &mut |x| eval_at(v, doms, var, x, &mut HashMap::new()));
                }
                v.clone()
            }
        },
    }
}

pub fn apply(doms: &Doms, op: SOp, iw: u32, w: u32, args: &[Val]) -> Val {
    // fast paths
    let mut lv: Vec<u16> = Vec::new();
    let mut any_ex = false;
    for a in args {
        if let Val::S(n) = a {
            match &n.kind {
                Kind::Tab { var, .. } => {
                    if !lv.contains(var) {
                        lv.push(*var)
                    }
                }
                Kind::Ex { .. } => any_ex = true,
            }
        }
    }
    if any_ex || lv.len() > 1 {
        lv.clear();
        for a in args {
            live_vars(a, doms, &mut lv);
        }
    }
    if lv.is_empty() {
        let av: Vec<u64> = args.iter().map(|a| eval_at(a, doms, u16::MAX, 0, &mut HashMap::new())).collect();
        return Val::C(eval(op, iw, w, &av));
    }
    if lv.len() == 1 {
        let var = lv[0];
        if !any_ex {
            let mut av = [0u64; 8];
            let n = args.len();
            if n <= 8 {
                return make_tab(w, var, doms, &mut |x| {
                    for i in 0..n {
                        av[i] = match &args[i] {
                            Val::C(c) => *c,
                            Val::S(nd) => match &nd.kind {
                                Kind::Tab { var: tv, vals } => if *tv == var { vals[x] } else { vals[doms[*tv as usize].first()] },
                                _ => unreachable!(),
                            },
                        };
                    }
                    eval(op, iw, w, &av[..n])
                });
            }
        }
        return make_tab(w, var, doms, &mut |x| {
            let mut memo = HashMap::new();
            let av: Vec<u64> = args.iter().map(|a| eval_at(a, doms, var, x, &mut memo)).collect();
            eval(op, iw, w, &av)
        });
    }
    // algebraic simplifications worth having
    match op {
        SOp::And if w == 1 => {
            for i in 0..2 {
                if let Val::C(c) = args[i] {
                    return if c == 0 { Val::C(0) } else { args[1 - i].clone() };
                }
            }
        }
        SOp::Or if w == 1 => {
            for i in 0..2 {
                if let Val::C(c) = args[i] {
                    return if c == 1 { Val::C(1) } else { args[1 - i].clone() };
                }
            }
        }
        SOp::Select => {
            if let Val::C(c) = args[0] {
                return if c != 0 { args[1].clone() } else { args[2].clone() };
            }
            if same(&args[1], &args[2]) {
                return args[1].clone();
            }
        }
        SOp::ZExt if iw == w => return args[0].clone(),
        SOp::Eq | SOp::Ule | SOp::Sle if same(&args[0], &args[1]) => return Val::C(1),
        SOp::Ne | SOp::Ult | SOp::Slt | SOp::Xor | SOp::Sub if same(&args[0], &args[1]) => return Val::C(0),
        _ => {}
    }
    let args: Vec<Val> = args.iter().map(|a| refresh(a, doms)).collect();
    lv.sort();
    Val::S(Arc::new(Node { w, kind: Kind::Ex { op, iw, args: args.into_boxed_slice(), vars: lv.into_boxed_slice() } }))
}

pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::C(x), Val::C(y)) => x == y,
        (Val::S(x), Val::S(y)) => {
            if Arc::ptr_eq(x, y) {
                return true;
            }
            match (&x.kind, &y.kind) {
                (Kind::Tab { var: v1, vals: t1 }, Kind::Tab { var: v2, vals: t2 }) => v1 == v2 && t1 == t2,
                _ => false,
            }
        }
        _ => false,
    }
}
