//! Minimal binding to libz3 and the translation of symbolic values to bit-vector terms.
use crate::sym::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::sync::Arc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, l: P, r: P) -> P;
    fn Z3_mk_not(c: P, l: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
}

extern "C" fn on_error(_: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::abort();
}

pub struct Z3 {
    ctx: P,
    since: u32,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nanos: u64,
}

#[derive(Debug, PartialEq)]
pub enum Ans {
    Unsat,
    Sat(Vec<u64>),
    Unknown,
}

pub const VARW: u32 = 8;

impl Z3 {
    pub fn new() -> Z3 {
        let mut z = Z3 { ctx: std::ptr::null_mut(), since: 0, queries: 0, sat: 0, unsat: 0, unknown: 0, nanos: 0 };
        z.open();
        z
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, on_error);
        }
        self.since = 0;
    }
    unsafe fn bv(&self, w: u32, v: u64) -> P {
        Z3_mk_unsigned_int64(self.ctx, v, Z3_mk_bv_sort(self.ctx, w))
    }
    unsafe fn var(&self, i: u16) -> P {
        let n = CString::new(format!("k{}", i)).unwrap();
        let s = Z3_mk_string_symbol(self.ctx, n.as_ptr());
        Z3_mk_const(self.ctx, s, Z3_mk_bv_sort(self.ctx, VARW))
    }
    unsafe fn b2v(&self, b: P) -> P {
        Z3_mk_ite(self.ctx, b, self.bv(1, 1), self.bv(1, 0))
    }
    unsafe fn term(&self, v: &Val, w: u32, doms: &Doms, memo: &mut HashMap<*const Node, P>) -> P {
        let c = self.ctx;
        match v {
            Val::C(x) => self.bv(w, *x & mask(w)),
            Val::S(n) => {
                if let Some(p) = memo.get(&Arc::as_ptr(n)) {
                    return *p;
                }
                let r = match &n.kind {
                    Kind::Tab { var, vals } => {
                        let d = &doms[*var as usize];
                        let kv = self.var(*var);
                        // group equal results
                        let mut groups: Vec<(u64, Vec<usize>)> = vec![];
                        for x in d.iter() {
                            match groups.iter_mut().find(|g| g.0 == vals[x]) {
                                Some(g) => g.1.push(x),
                                None => groups.push((vals[x], vec![x])),
                            }
                        }
                        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                        let mut t = self.bv(n.w, groups[0].0);
                        for g in &groups[1..] {
                            let eqs: Vec<P> = g.1.iter().map(|x| Z3_mk_eq(c, kv, self.bv(VARW, *x as u64))).collect();
                            let cond = if eqs.len() == 1 { eqs[0] } else { Z3_mk_or(c, eqs.len() as c_uint, eqs.as_ptr()) };
                            t = Z3_mk_ite(c, cond, self.bv(n.w, g.0), t);
                        }
                        t
                    }
                    Kind::Ex { op, iw, args, .. } => {
                        use SOp::*;
                        let w = n.w;
                        let iw = *iw;
                        let mut t = |i: usize, w: u32, s: &Self| s.term(&args[i], w, doms, memo);
                        match op {
                            Add => Z3_mk_bvadd(c, t(0, iw, self), t(1, iw, self)),
                            Sub => Z3_mk_bvsub(c, t(0, iw, self), t(1, iw, self)),
                            Mul => Z3_mk_bvmul(c, t(0, iw, self), t(1, iw, self)),
                            UDiv => Z3_mk_bvudiv(c, t(0, iw, self), t(1, iw, self)),
                            SDiv => Z3_mk_bvsdiv(c, t(0, iw, self), t(1, iw, self)),
                            URem => Z3_mk_bvurem(c, t(0, iw, self), t(1, iw, self)),
                            SRem => Z3_mk_bvsrem(c, t(0, iw, self), t(1, iw, self)),
                            Shl => Z3_mk_bvshl(c, t(0, iw, self), t(1, iw, self)),
                            LShr => Z3_mk_bvlshr(c, t(0, iw, self), t(1, iw, self)),
                            AShr => Z3_mk_bvashr(c, t(0, iw, self), t(1, iw, self)),
                            And => Z3_mk_bvand(c, t(0, iw, self), t(1, iw, self)),
                            Or => Z3_mk_bvor(c, t(0, iw, self), t(1, iw, self)),
                            Xor => Z3_mk_bvxor(c, t(0, iw, self), t(1, iw, self)),
                            Eq => { let (a, b) = (t(0, iw, self), t(1, iw, self)); self.b2v(Z3_mk_eq(c, a, b)) }
                            Ne => { let (a, b) = (t(0, iw, self), t(1, iw, self)); self.b2v(Z3_mk_not(c, Z3_mk_eq(c, a, b))) }
                            Ult | USubO => { let (a, b) = (t(0, iw, self), t(1, iw, self)); self.b2v(Z3_mk_bvult(c, a, b)) }
                            Ule => { let (a, b) = (t(0, iw, self), t(1, iw, self)); self.b2v(Z3_mk_bvule(c, a, b)) }
                            Slt => { let (a, b) = (t(0, iw, self), t(1, iw, self)); self.b2v(Z3_mk_bvslt(c, a, b)) }
                            Sle => { let (a, b) = (t(0, iw, self), t(1, iw, self)); self.b2v(Z3_mk_bvsle(c, a, b)) }
                            Select => {
                                let cc = t(0, 1, self);
                                let (a, b) = (t(1, w, self), t(2, w, self));
                                Z3_mk_ite(c, Z3_mk_eq(c, cc, self.bv(1, 1)), a, b)
                            }
                            ZExt => if w > iw { Z3_mk_zero_ext(c, w - iw, t(0, iw, self)) } else { t(0, iw, self) },
                            SExt => if w > iw { Z3_mk_sign_ext(c, w - iw, t(0, iw, self)) } else { t(0, iw, self) },
                            Trunc => Z3_mk_extract(c, w - 1, 0, t(0, iw, self)),
                            Byte => {
                                let a = t(0, iw, self);
                                let i = match args[1] { Val::C(x) => x as u32, _ => unreachable!() };
                                let hi = (8 * i + 7).min(iw - 1);
                                let e = Z3_mk_extract(c, hi, 8 * i, a);
                                let ew = hi - 8 * i + 1;
                                if ew < 8 { Z3_mk_zero_ext(c, 8 - ew, e) } else { e }
                            }
                            Concat => {
                                let mut r = t(0, 8, self);
                                for i in 1..args.len() {
                                    let h = t(i, 8, self);
                                    r = Z3_mk_concat(c, h, r);
                                }
                                if w < 8 * args.len() as u32 { r = Z3_mk_extract(c, w - 1, 0, r) }
                                r
                            }
                            UAddO => {
                                let (a, b) = (t(0, iw, self), t(1, iw, self));
                                let s = Z3_mk_bvadd(c, a, b);
                                self.b2v(Z3_mk_bvult(c, s, a))
                            }
                            SAddO | SSubO | SMulO | UMulO => {
                                let (a, b) = (t(0, iw, self), t(1, iw, self));
                                let x = if *op == SMulO || *op == UMulO { iw } else { 1 };
                                let signed = *op != UMulO;
                                let ext = |p: P, n: u32| if signed { Z3_mk_sign_ext(c, n, p) } else { Z3_mk_zero_ext(c, n, p) };
                                let (ea, eb) = (ext(a, x), ext(b, x));
                                let wide = match op { SAddO => Z3_mk_bvadd(c, ea, eb), SSubO => Z3_mk_bvsub(c, ea, eb), _ => Z3_mk_bvmul(c, ea, eb) };
                                let back = ext(Z3_mk_extract(c, iw - 1, 0, wide), x);
                                self.b2v(Z3_mk_not(c, Z3_mk_eq(c, wide, back)))
                            }
                            FShl | FShr => {
                                let s = match args[2] { Val::C(x) => x % iw as u64, _ => panic!("symbolic funnel shift") } as u32;
                                let (a, b) = (t(0, iw, self), t(1, iw, self));
                                let s = if *op == FShl { s } else { (iw - s) % iw };
                                if s == 0 { if *op == FShl { a } else { b } } else {
                                    Z3_mk_concat(c, Z3_mk_extract(c, iw - 1 - s, 0, a), Z3_mk_extract(c, iw - 1, iw - s, b))
                                }
                            }
                            UAddSat => {
                                let (a, b) = (t(0, iw, self), t(1, iw, self));
                                let s = Z3_mk_bvadd(c, a, b);
                                Z3_mk_ite(c, Z3_mk_bvult(c, s, a), self.bv(w, mask(w)), s)
                            }
                            USubSat => {
                                let (a, b) = (t(0, iw, self), t(1, iw, self));
                                Z3_mk_ite(c, Z3_mk_bvult(c, a, b), self.bv(w, 0), Z3_mk_bvsub(c, a, b))
                            }
                            CtPop | CtLz | CtTz | BSwap | BitRev => panic!("unsupported multi-variable term {:?}", op),
                        }
                    }
                };
                memo.insert(Arc::as_ptr(n), r);
                r
            }
        }
    }
    /// Is there an assignment within the domains that satisfies every `(value, truth)`?
    pub fn solve(&mut self, doms: &Doms, conds: &[(Val, bool)], timeout_ms: u32) -> Ans {
        self.query(doms, conds, None, timeout_ms)
    }
    /// Is there an assignment under `conds` where `a` and `b` differ?
    pub fn differ(&mut self, doms: &Doms, conds: &[(Val, bool)], a: &Val, b: &Val, w: u32, timeout_ms: u32) -> Ans {
        self.query(doms, conds, Some((a, b, w)), timeout_ms)
    }
    fn query(&mut self, doms: &Doms, conds: &[(Val, bool)], ne: Option<(&Val, &Val, u32)>, timeout_ms: u32) -> Ans {
        let t0 = Instant::now();
        if self.since > 3000 {
            unsafe { Z3_del_context(self.ctx) };
            self.open();
        }
        self.since += 1;
        self.queries += 1;
        let c = self.ctx;
        let r = unsafe {
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            for (i, d) in doms.iter().enumerate() {
                let kv = self.var(i as u16);
                if d.count == d.n && d.n == 256 {
                    continue;
                }
                let out: Vec<usize> = d.iter().collect();
                if out.len() as u16 == d.n {
                    Z3_solver_assert(c, s, Z3_mk_bvult(c, kv, self.bv(VARW, d.n as u64)));
                } else {
                    let eqs: Vec<P> = out.iter().map(|x| Z3_mk_eq(c, kv, self.bv(VARW, *x as u64))).collect();
                    Z3_solver_assert(c, s, if eqs.len() == 1 { eqs[0] } else { Z3_mk_or(c, eqs.len() as c_uint, eqs.as_ptr()) });
                }
            }
            let mut memo = HashMap::new();
            for (v, truth) in conds {
                let t = match v {
                    Val::C(x) => if (*x != 0) == *truth { Z3_mk_true(c) } else { Z3_mk_false(c) },
                    _ => { let t = self.term(v, 1, doms, &mut memo); Z3_mk_eq(c, t, self.bv(1, *truth as u64)) }
                };
                Z3_solver_assert(c, s, t);
            }
            if let Some((a, b, w)) = ne {
                let mut side = |v: &Val| match v {
                    Val::C(x) => self.bv(w, *x),
                    _ => self.term(v, w, doms, &mut memo),
                };
                let (x, y) = (side(a), side(b));
                let e = Z3_mk_eq(c, x, y);
                Z3_solver_assert(c, s, Z3_mk_not(c, e));
            }
            let r = match Z3_solver_check(c, s) {
                -1 => Ans::Unsat,
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    let mut out = vec![];
                    for i in 0..doms.len() {
                        let mut v: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, self.var(i as u16), true, &mut v);
                        let mut x = 0u64;
                        Z3_get_numeral_uint64(c, v, &mut x);
                        out.push(x);
                    }
                    Ans::Sat(out)
                }
                _ => Ans::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            r
        };
        match r {
            Ans::Unsat => self.unsat += 1,
            Ans::Sat(_) => self.sat += 1,
            Ans::Unknown => self.unknown += 1,
        }
        self.nanos += t0.elapsed().as_nanos() as u64;
        let _ = Z3_mk_and as *const ();
        r
    }
}
