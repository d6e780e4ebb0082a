//! Symbolic execution of decoded code: forks on branches that the path condition leaves open.
use crate::dec::*;
use crate::mem::*;
use crate::sym::*;
use crate::z3::{Ans, Z3};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::Instant;

pub struct Program {
    pub names: Vec<String>,
    pub funcs: Vec<OnceLock<Func>>,
    pub env: Env<'static>,
    pub init: Mutex<Mem>,
}

impl Program {
    pub fn func(&'static self, id: u32) -> &'static Func {
        self.funcs[id as usize].get_or_init(|| match decode(&self.env, &self.names[id as usize]) {
            Ok(f) => f,
            Err(e) => Func {
                name: self.names[id as usize].clone(),
                nparams: 0,
                nregs: 0,
                code: vec![Op::Unsup(format!("decode: {}", e))],
                edges: vec![],
            },
        })
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: &'static Func,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub d: u32,
    pub n: u32,
    pub next: u32,
    pub sp: u64,
}

pub struct State {
    pub entry: u32,
    pub frames: Vec<Arc<Frame>>,
    pub cur: Frame,
    pub mem: Mem,
    pub doms: Vec<Dom>,
    pub res: Vec<(Val, bool)>,
    pub heap: u64,
    pub sp: u64,
    pub steps: u64,
    pub weight: f64,
    pub reach: u64,
    pub trace: Option<u64>,
    /// pairs the property compared (value, value, width), not yet confirmed by the solver
    pub claims: Vec<(Val, Val, u32)>,
}

impl State {
    fn fork(&mut self) -> State {
        State {
            entry: self.entry,
            frames: self.frames.clone(),
            cur: self.cur.clone(),
            mem: self.mem.fork(),
            doms: self.doms.clone(),
            res: self.res.clone(),
            heap: self.heap,
            sp: self.sp,
            steps: self.steps,
            weight: self.weight,
            reach: self.reach,
            trace: None,
            claims: self.claims.clone(),
        }
    }
}

pub struct Entry {
    pub name: String,
    pub arg: u64,
}

pub struct Cfg {
    pub max_steps: u64,
    pub panic_bad: bool,
    pub deadline: Instant,
    pub max_viol: usize,
    /// stop after this many violating paths
    pub stop_after: u64,
    pub samples: usize,
    pub solver_timeout: u32,
    pub sample_final: u64,
    pub verbose: bool,
    pub fork_sites: bool,
}
/// The readable tail of a mangled name.
pub fn short(n: &str) -> String {
    let mut out: Vec<String> = vec![];
    let b: Vec<char> = n.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + b[j].to_digit(10).unwrap() as usize;
                j += 1;
            }
            if k > 1 && j + k <= b.len() {
                out.push(b[j..j + k].iter().collect());
                i = j + k;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    let k = out.len().saturating_sub(2);
    out[k..].join("::")
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub entry: u32,
    pub code: u64,
    pub kind: String,
    pub model: Vec<u64>,
    pub detail: String,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub panics: u64,
    pub hangs: u64,
    pub errors: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_unsat: u64,
    pub checks_sat: u64,
    pub unknown: u64,
    pub forks: u64,
    pub steps: u64,
    pub weight: BTreeMap<u32, f64>,
    pub pruned_weight: BTreeMap<u32, f64>,
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_nanos: u64,
    pub max_steps: u64,
    pub max_vars: usize,
    pub final_checked: u64,
    pub final_unsat: u64,
    pub reach: BTreeMap<u64, u64>,
    pub panic_sites: BTreeMap<String, u64>,
    pub fork_sites: BTreeMap<String, u64>,
    pub err_sites: BTreeMap<String, u64>,
    pub codes: BTreeMap<u64, u64>,
    pub claims: u64,
    pub claims_same: u64,
    pub claims_cached: u64,
    pub claims_unsat: u64,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.pruned += o.pruned;
        self.panics += o.panics;
        self.hangs += o.hangs;
        self.errors += o.errors;
        self.checks += o.checks;
        self.checks_const += o.checks_const;
        self.checks_unsat += o.checks_unsat;
        self.checks_sat += o.checks_sat;
        self.unknown += o.unknown;
        self.claims += o.claims;
        self.claims_same += o.claims_same;
        self.claims_cached += o.claims_cached;
        self.claims_unsat += o.claims_unsat;
        self.forks += o.forks;
        self.steps += o.steps;
        for (k, v) in &o.weight {
            *self.weight.entry(*k).or_default() += v;
        }
        for (k, v) in &o.pruned_weight {
            *self.pruned_weight.entry(*k).or_default() += v;
        }
        self.z3_queries += o.z3_queries;
        self.z3_sat += o.z3_sat;
        self.z3_unsat += o.z3_unsat;
        self.z3_nanos += o.z3_nanos;
        self.max_steps = self.max_steps.max(o.max_steps);
        self.max_vars = self.max_vars.max(o.max_vars);
        self.final_checked += o.final_checked;
        self.final_unsat += o.final_unsat;
        for (k, v) in &o.reach {
            *self.reach.entry(*k).or_default() += v;
        }
        for (k, v) in &o.fork_sites {
            *self.fork_sites.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.panic_sites {
            *self.panic_sites.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.err_sites {
            *self.err_sites.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.codes {
            *self.codes.entry(*k).or_default() += v;
        }
    }
}

pub struct Shared {
    pub queue: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub nworkers: usize,
    pub stop: AtomicBool,
    pub timed_out: AtomicBool,
    pub viols: Mutex<Vec<Viol>>,
    /// models of some of the paths: entry, what was reached, the values
    pub samples: Mutex<Vec<(u32, u64, Vec<u64>)>>,
    pub violating: AtomicU64,
    pub cut: AtomicBool,
    /// comparisons the solver has already confirmed (canonical form)
    pub confirmed: Mutex<std::collections::HashSet<Vec<u64>>>,
    pub viol_count: Mutex<HashMap<(u32, u64, String), u64>>,
    pub stats: Mutex<Stats>,
    pub done_paths: AtomicU64,
}

pub struct Worker {
    pub prog: &'static Program,
    pub cfg: &'static Cfg,
    pub sh: &'static Shared,
    pub z3: Z3,
    pub st: Stats,
    pub stack: Vec<State>,
    pub pool: Vec<Vec<Val>>,
    pub executed: Vec<bool>,
    pub rng: u64,
}

enum Stop {
    /// path finished normally
    Done,
    /// excluded by an assumption or found infeasible
    Pruned,
    Panic(String),
    Error(String),
    /// instruction has to be executed again under narrowed domains
    Again,
}

type X<T> = Result<T, Stop>;
fn err<T>(s: String) -> X<T> {
    Err(Stop::Error(s))
}

impl Worker {
    pub fn run(&mut self) {
        loop {
            let mut s = match self.stack.pop() {
                Some(s) => s,
                None => {
                    let mut q = self.sh.queue.lock().unwrap();
                    self.sh.idle.fetch_add(1, SeqCst);
                    loop {
                        if self.sh.stop.load(Relaxed) {
                            self.sh.cv.notify_all();
                            return;
                        }
                        if let Some(s) = q.pop() {
                            self.sh.idle.fetch_sub(1, SeqCst);
                            break s;
                        }
                        if self.sh.idle.load(SeqCst) == self.sh.nworkers {
                            self.sh.stop.store(true, SeqCst);
                            self.sh.cv.notify_all();
                            return;
                        }
                        q = self.sh.cv.wait(q).unwrap();
                    }
                }
            };
            if self.sh.stop.load(Relaxed) {
                continue;
            }
            let base = s.steps;
            let r = self.exec(&mut s);
            self.st.steps += s.steps - base;
            self.st.max_steps = self.st.max_steps.max(s.steps);
            self.st.max_vars = self.st.max_vars.max(s.doms.len());
            self.finish(s, r);
            if self.st.paths & 15 == 0 && Instant::now() > self.cfg.deadline {
                self.sh.timed_out.store(true, SeqCst);
                self.sh.stop.store(true, SeqCst);
                let _q = self.sh.queue.lock().unwrap();
                self.sh.cv.notify_all();
            }
        }
    }
    fn offload(&mut self) {
        if self.stack.len() > 1 && self.sh.idle.load(Relaxed) > 0 {
            let k = self.stack.len() / 2;
            let mut q = self.sh.queue.lock().unwrap();
            for s in self.stack.drain(..k) {
                q.push(s);
            }
            self.sh.cv.notify_all();
        }
    }

    fn model(&mut self, s: &State, extra: &[(Val, bool)]) -> Ans {
        let mut c = s.res.clone();
        c.extend_from_slice(extra);
        self.z3.solve(&s.doms, &c, self.cfg.solver_timeout)
    }

    fn report(&mut self, s: &State, code: u64, kind: &str, model: Vec<u64>, detail: String) {
        let key = (s.entry, code, format!("{}{}", kind, if kind == "panic" { detail.clone() } else { String::new() }));
        let mut c = self.sh.viol_count.lock().unwrap();
        let n = c.entry(key).or_default();
        *n += 1;
        if *n as usize <= self.cfg.max_viol {
            let mut v = self.sh.viols.lock().unwrap();
            v.push(Viol { entry: s.entry, code, kind: kind.into(), model, detail });
        }
        drop(c);
        if self.sh.violating.fetch_add(1, Relaxed) + 1 >= self.cfg.stop_after {
            self.sh.cut.store(true, SeqCst);
            self.sh.stop.store(true, SeqCst);
            let _q = self.sh.queue.lock().unwrap();
            self.sh.cv.notify_all();
        }
    }

    fn finish(&mut self, s: State, r: Stop) {
        *self.st.weight.entry(s.entry).or_default() += s.weight;
        match r {
            Stop::Again => unreachable!(),
            Stop::Done => {
                self.st.paths += 1;
                if self.st.paths % self.cfg.sample_final == 1 || self.cfg.sample_final == 1 {
                    self.st.final_checked += 1;
                    match self.model(&s, &[]) {
                        Ans::Unsat => self.st.final_unsat += 1,
                        Ans::Unknown => self.st.unknown += 1,
                        Ans::Sat(m) => {
                            let mut l = self.sh.samples.lock().unwrap();
                            if l.iter().filter(|x| x.0 == s.entry && x.1 == s.reach).count() < self.cfg.samples {
                                l.push((s.entry, s.reach, m));
                            }
                        }
                    }
                }
            }
            Stop::Pruned => {
                self.st.pruned += 1;
                *self.st.pruned_weight.entry(s.entry).or_default() += s.weight;
            }
            Stop::Panic(p) => {
                self.st.paths += 1;
                let site = format!("{} in {}", p, s.cur.func.name);
                match self.model(&s, &[]) {
                    Ans::Sat(m) => {
                        self.st.panics += 1;
                        *self.st.panic_sites.entry(site.clone()).or_default() += 1;
                        if self.cfg.panic_bad {
                            self.report(&s, 0, "panic", m, site);
                        }
                    }
                    Ans::Unsat => self.st.final_unsat += 1,
                    Ans::Unknown => self.st.unknown += 1,
                }
            }
            Stop::Error(e) if e == "step limit" => {
                self.st.paths += 1;
                match self.model(&s, &[]) {
                    Ans::Sat(m) => {
                        self.st.hangs += 1;
                        self.report(&s, 0, "hang", m, s.cur.func.name.clone());
                    }
                    Ans::Unsat => self.st.final_unsat += 1,
                    Ans::Unknown => self.st.unknown += 1,
                }
            }
            Stop::Error(e) => {
                self.st.errors += 1;
                let mut site = format!("{} in {}", e, s.cur.func.name);
                if self.cfg.verbose {
                    for f in s.frames.iter().rev().take(6) {
                        site.push_str("\n   from ");
                        site.push_str(&f.func.name);
                    }
                }
                *self.st.err_sites.entry(site).or_default() += 1;
            }
        }
        for b in 0..64 {
            if s.reach >> b & 1 == 1 {
                *self.st.reach.entry(s.entry as u64 * 64 + b).or_default() += 1;
            }
        }
        let mut regs = s.cur.regs;
        regs.clear();
        if self.pool.len() < 64 {
            self.pool.push(regs);
        }
    }

    /// Partition variable `var` by key; keeps the first group, queues the others.
    fn split(&mut self, s: &mut State, var: u16, mut key: impl FnMut(usize) -> u64) -> X<()> {
        let d = s.doms[var as usize];
        let mut groups: Vec<(u64, [u64; 4])> = vec![];
        for x in d.iter() {
            let k = key(x);
            let i = match groups.iter().position(|g| g.0 == k) {
                Some(i) => i,
                None => {
                    groups.push((k, [0; 4]));
                    groups.len() - 1
                }
            };
            groups[i].1[x >> 6] |= 1 << (x & 63);
        }
        let total = d.count as f64;
        let w = s.weight;
        if self.cfg.fork_sites && groups.len() > 1 {
            let mut site = format!("{}+{}", short(&s.cur.func.name), s.cur.pc);
            for f in s.frames.iter().rev().take(3) {
                site.push_str(" < ");
                site.push_str(&format!("{}+{}", short(&f.func.name), f.pc));
            }
            *self.st.fork_sites.entry(site).or_default() += groups.len() as u64 - 1;
        }
        for g in groups[1..].iter().rev() {
            let mut c = s.fork();
            c.doms[var as usize] = Dom::from_bits(g.1, d.n);
            c.weight = w * c.doms[var as usize].count as f64 / total;
            self.st.forks += 1;
            self.stack.push(c);
        }
        s.doms[var as usize] = Dom::from_bits(groups[0].1, d.n);
        s.weight = w * s.doms[var as usize].count as f64 / total;
        self.offload();
        Ok(())
    }

    /// Makes `v` concrete, forking per distinct value.
    fn concretize(&mut self, s: &mut State, v: &Val) -> X<u64> {
        match refresh(v, &s.doms) {
            Val::C(c) => Ok(c),
            Val::S(n) => match &n.kind {
                Kind::Tab { var, vals } => {
                    self.split(s, *var, |x| vals[x])?;
                    Err(Stop::Again)
                }
                Kind::Ex { vars, .. } => {
                    let var = *vars.iter().filter(|v| s.doms[**v as usize].count > 1).min_by_key(|v| s.doms[**v as usize].count).unwrap();
                    self.split(s, var, |x| x as u64)?;
                    Err(Stop::Again)
                }
            },
        }
    }

    /// Decides a condition, forking when both outcomes are possible.
    fn decide(&mut self, s: &mut State, v: &Val) -> X<bool> {
        match refresh(v, &s.doms) {
            Val::C(c) => Ok(c & 1 != 0),
            Val::S(n) => match &n.kind {
                Kind::Tab { var, vals } => {
                    self.split(s, *var, |x| vals[x] & 1)?;
                    // the kept group decides
                    let x = s.doms[*var as usize].first();
                    Ok(vals[x] & 1 != 0)
                }
                Kind::Ex { .. } => {
                    let v = Val::S(n.clone());
                    for (c, t) in &s.res {
                        if same(c, &v) {
                            return Ok(*t);
                        }
                    }
                    let t = self.model(s, &[(v.clone(), true)]);
                    let f = self.model(s, &[(v.clone(), false)]);
                    match (t, f) {
                        (Ans::Unknown, _) | (_, Ans::Unknown) => {
                            self.st.unknown += 1;
                            err("solver gave up".into())
                        }
                        (Ans::Unsat, Ans::Unsat) => Err(Stop::Pruned),
                        (Ans::Unsat, _) => {
                            s.res.push((v, false));
                            Ok(false)
                        }
                        (_, Ans::Unsat) => {
                            s.res.push((v, true));
                            Ok(true)
                        }
                        _ => {
                            s.weight /= 2.0;
                            let mut c = s.fork();
                            c.res.push((v.clone(), false));
                            self.st.forks += 1;
                            self.stack.push(c);
                            s.res.push((v, true));
                            self.offload();
                            Ok(true)
                        }
                    }
                }
            },
        }
    }

    /// Makes `v` true on this path (assumption).
    fn assume(&mut self, s: &mut State, v: &Val) -> X<()> {
        match refresh(v, &s.doms) {
            Val::C(c) => {
                if c & 1 != 0 {
                    Ok(())
                } else {
                    Err(Stop::Pruned)
                }
            }
            Val::S(n) => match &n.kind {
                Kind::Tab { var, vals } => {
                    let d = s.doms[*var as usize];
                    let mut bits = [0u64; 4];
                    for x in d.iter() {
                        if vals[x] & 1 != 0 {
                            bits[x >> 6] |= 1 << (x & 63);
                        }
                    }
                    let nd = Dom::from_bits(bits, d.n);
                    if nd.count == 0 {
                        return Err(Stop::Pruned);
                    }
                    let w = s.weight;
                    s.weight = w * nd.count as f64 / d.count as f64;
                    let lost = w - s.weight;
                    *self.st.weight.entry(s.entry).or_default() += lost;
                    *self.st.pruned_weight.entry(s.entry).or_default() += lost;
                    s.doms[*var as usize] = nd;
                    Ok(())
                }
                Kind::Ex { .. } => {
                    let v = Val::S(n.clone());
                    match self.model(s, &[(v.clone(), true)]) {
                        Ans::Unsat => Err(Stop::Pruned),
                        Ans::Unknown => {
                            self.st.unknown += 1;
                            err("solver gave up".into())
                        }
                        _ => {
                            s.res.push((v, true));
                            Ok(())
                        }
                    }
                }
            },
        }
    }

    fn load(&mut self, s: &mut State, addr: &Val, w: u32) -> X<Val> {
        match addr {
            Val::C(a) => s.mem.load(&s.doms, *a, w).map_err(Stop::Error),
            Val::S(_) => match refresh(addr, &s.doms) {
                Val::C(a) => s.mem.load(&s.doms, a, w).map_err(Stop::Error),
                Val::S(n) => {
                    if let Kind::Tab { var, vals } = &n.kind {
                        let d = s.doms[*var as usize];
                        let mut cache: Vec<(u64, Val)> = vec![];
                        let mut out = vec![0u64; d.n as usize].into_boxed_slice();
                        let mut ok = true;
                        let mut all: Option<Option<u64>> = None;
                        for x in d.iter() {
                            let a = vals[x];
                            let v = match cache.iter().rev().find(|c| c.0 == a) {
                                Some(c) => c.1.clone(),
                                None => {
                                    let v = s.mem.load(&s.doms, a, w).map_err(Stop::Error)?;
                                    cache.push((a, v.clone()));
                                    v
                                }
                            };
                            let c = match &v {
                                Val::C(c) => *c,
                                Val::S(m) => match &m.kind {
                                    Kind::Tab { var: v2, vals: t2 } if v2 == var => t2[x],
                                    _ => {
                                        ok = false;
                                        break;
                                    }
                                },
                            };
                            all = match all {
                                None => Some(Some(c)),
                                Some(Some(p)) if p == c => Some(Some(p)),
                                _ => Some(None),
                            };
                            out[x] = c;
                        }
                        if ok {
                            if let Some(Some(c)) = all {
                                return Ok(Val::C(c));
                            }
                            return Ok(Val::S(Arc::new(Node { w, kind: Kind::Tab { var: *var, vals: out } })));
                        }
                    }
                    self.concretize(s, addr)?;
                    Err(Stop::Again)
                }
            },
        }
    }

    fn alloc(&mut self, s: &mut State, size: &Val, align: u64) -> X<u64> {
        let size = match refresh(size, &s.doms) {
            Val::C(c) => c,
            Val::S(n) => match &n.kind {
                Kind::Tab { var, vals } => s.doms[*var as usize].iter().map(|x| vals[x]).max().unwrap(),
                _ => self.concretize(s, size)?,
            },
        };
        if size > 1 << 26 {
            return err(format!("huge allocation {}", size));
        }
        let align = align.max(16);
        let a = (s.heap + align - 1) / align * align;
        s.heap = a + size.max(1);
        Ok(a)
    }

    /// Block with a size header, as `realloc` needs it.
    fn libc_alloc(&mut self, s: &mut State, n: u64) -> X<u64> {
        let p = self.alloc(s, &Val::C(n + 16), 16)? + 16;
        s.mem.store(&s.doms, p - 16, 64, &Val::C(n)).map_err(Stop::Error)?;
        Ok(p)
    }

    /// Largest value of a term whose exact value may stay symbolic.
    fn max_of(&mut self, s: &mut State, v: &Val) -> X<u64> {
        match refresh(v, &s.doms) {
            Val::C(c) => Ok(c),
            Val::S(n) => match &n.kind {
                Kind::Tab { var, vals } => Ok(s.doms[*var as usize].iter().map(|x| vals[x]).max().unwrap()),
                _ => self.concretize(s, v),
            },
        }
    }

    fn memcpy(&mut self, s: &mut State, dst: &Val, src: &Val, n: &Val) -> X<()> {
        let (dst, src, n) = (refresh(dst, &s.doms), refresh(src, &s.doms), refresh(n, &s.doms));
        match (&dst, &src, &n) {
            (Val::C(d), Val::C(a), Val::C(n)) => s.mem.copy(*d, *a, *n).map_err(Stop::Error),
            _ => {
                let max = self.max_of(s, &n)?;
                if max > 256 {
                    self.concretize(s, &n)?;
                }
                if !dst.is_c() {
                    self.concretize(s, &dst)?;
                }
                let d = match dst {
                    Val::C(d) => d,
                    _ => unreachable!(),
                };
                let mut bytes = vec![];
                for i in 0..max {
                    let i_v = Val::C(i);
                    let inside = apply(&s.doms, SOp::Ult, 64, 1, &[i_v.clone(), n.clone()]);
                    let sa = apply(&s.doms, SOp::Add, 64, 64, &[src.clone(), i_v]);
                    let b = self.load(s, &sa, 8)?;
                    if let Val::C(1) = inside {
                        bytes.push(b);
                    } else {
                        let old = s.mem.load(&s.doms, d + i, 8).map_err(Stop::Error)?;
                        bytes.push(apply(&s.doms, SOp::Select, 8, 8, &[inside, b, old]));
                    }
                }
                for (i, b) in bytes.iter().enumerate() {
                    s.mem.store(&s.doms, d + i as u64, 8, b).map_err(Stop::Error)?;
                }
                Ok(())
            }
        }
    }

    /// three-way comparison as i32
    fn memcmp(&mut self, s: &mut State, a: &Val, b: &Val, n: &Val) -> X<Val> {
        let (a, b, n) = (refresh(a, &s.doms), refresh(b, &s.doms), refresh(n, &s.doms));
        let max = self.max_of(s, &n)?;
        if max > 512 {
            return err("memcmp length".into());
        }
        if let (Val::C(pa), Val::C(pb), Val::C(n)) = (&a, &b, &n) {
            // concrete fast path
            let mut conc = true;
            for i in 0..*n {
                match (s.mem.byte(pa + i).map_err(Stop::Error)?, s.mem.byte(pb + i).map_err(Stop::Error)?) {
                    (Ok(x), Ok(y)) => {
                        if x != y {
                            return Ok(Val::C(if conc { if x < y { 0xffff_ffff } else { 1 } } else { break }));
                        }
                    }
                    _ => {
                        conc = false;
                    }
                }
            }
            if conc {
                return Ok(Val::C(0));
            }
        }
        // from the last byte backwards
        let mut r = Val::C(0);
        for i in (0..max).rev() {
            let iv = Val::C(i);
            let aa = apply(&s.doms, SOp::Add, 64, 64, &[a.clone(), iv.clone()]);
            let bb = apply(&s.doms, SOp::Add, 64, 64, &[b.clone(), iv.clone()]);
            let x = self.load(s, &aa, 8)?;
            let y = self.load(s, &bb, 8)?;
            let lt = apply(&s.doms, SOp::Ult, 8, 1, &[x.clone(), y.clone()]);
            let eq = apply(&s.doms, SOp::Eq, 8, 1, &[x, y]);
            let ne = apply(&s.doms, SOp::Select, 32, 32, &[lt, Val::C(0xffff_ffff), Val::C(1)]);
            let here = apply(&s.doms, SOp::Select, 32, 32, &[eq, r.clone(), ne]);
            let inside = apply(&s.doms, SOp::Ult, 64, 1, &[iv, n.clone()]);
            r = apply(&s.doms, SOp::Select, 32, 32, &[inside, here, Val::C(0)]);
        }
        Ok(r)
    }

    #[inline]
    fn v(s: &State, o: O) -> Val {
        match o {
            O::K(k) => Val::C(k),
            O::R(r) => s.cur.regs[r as usize].clone(),
        }
    }

    fn edge(s: &mut State, e: u32) {
        let ed = &s.cur.func.edges[e as usize];
        if ed.conflict {
            let vals: Vec<Val> = ed.copies.iter().map(|c| Self::v(s, c.1)).collect();
            for (c, v) in ed.copies.iter().zip(vals) {
                s.cur.regs[c.0 as usize] = v;
            }
        } else {
            for c in ed.copies.iter() {
                let v = Self::v(s, c.1);
                s.cur.regs[c.0 as usize] = v;
            }
        }
        s.cur.pc = ed.target;
    }

    pub fn exec(&mut self, s: &mut State) -> Stop {
        loop {
            match self.step_loop(s) {
                Err(Stop::Again) => continue,
                Err(x) => return x,
                Ok(()) => return Stop::Done,
            }
        }
    }

    fn step_loop(&mut self, s: &mut State) -> X<()> {
        let mut tick = 0u32;
        loop {
            s.steps += 1;
            tick += 1;
            if tick & 0xffff == 0 && self.sh.stop.load(Relaxed) {
                return Err(Stop::Pruned);
            }
            if s.steps > self.cfg.max_steps {
                return err("step limit".into());
            }
            let op = &s.cur.func.code[s.cur.pc as usize];
            macro_rules! c {
                ($o:expr) => {
                    match $o {
                        O::K(k) => Some(k),
                        O::R(r) => match &s.cur.regs[r as usize] {
                            Val::C(k) => Some(*k),
                            _ => None,
                        },
                    }
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {
                    s.cur.regs[$d as usize] = $v
                };
            }
            match op {
                Op::Bin { op, w, d, a, b } => {
                    let r = if let (Some(x), Some(y)) = (c!(*a), c!(*b)) {
                        Val::C(eval(*op, *w as u32, *w as u32, &[x, y]))
                    } else {
                        let (x, y) = (Self::v(s, *a), Self::v(s, *b));
                        apply(&s.doms, *op, *w as u32, *w as u32, &[x, y])
                    };
                    set!(*d, r);
                }
                Op::Cmp { op, w, d, a, b } => {
                    let r = if let (Some(x), Some(y)) = (c!(*a), c!(*b)) {
                        Val::C(eval(*op, *w as u32, 1, &[x, y]))
                    } else {
                        let (x, y) = (Self::v(s, *a), Self::v(s, *b));
                        apply(&s.doms, *op, *w as u32, 1, &[x, y])
                    };
                    set!(*d, r);
                }
                Op::Un { op, w, d, a } => {
                    let r = if let Some(x) = c!(*a) {
                        Val::C(eval(*op, *w as u32, *w as u32, &[x]))
                    } else {
                        let x = refresh(&Self::v(s, *a), &s.doms);
                        if let Val::S(n) = &x {
                            if matches!(n.kind, Kind::Ex { .. }) {
                                self.concretize(s, &x)?;
                            }
                        }
                        apply(&s.doms, *op, *w as u32, *w as u32, &[x])
                    };
                    set!(*d, r);
                }
                Op::Tri { op, w, d, a, b, c } => {
                    let sh = Self::v(s, *c);
                    let sh = self.concretize(s, &sh)?;
                    let r = apply(&s.doms, *op, *w as u32, *w as u32, &[Self::v(s, *a), Self::v(s, *b), Val::C(sh)]);
                    set!(*d, r);
                }
                Op::Select { w, d, c, a, b } => {
                    let r = match c!(*c) {
                        Some(k) => Self::v(s, if k & 1 != 0 { *a } else { *b }),
                        None => {
                            let (c, x, y) = (Self::v(s, *c), Self::v(s, *a), Self::v(s, *b));
                            apply(&s.doms, SOp::Select, *w as u32, *w as u32, &[c, x, y])
                        }
                    };
                    set!(*d, r);
                }
                Op::Cast { op, iw, w, d, a } => {
                    let r = match c!(*a) {
                        Some(x) => Val::C(eval(*op, *iw as u32, *w as u32, &[x])),
                        None => {
                            let x = Self::v(s, *a);
                            apply(&s.doms, *op, *iw as u32, *w as u32, &[x])
                        }
                    };
                    set!(*d, r);
                }
                Op::Mov { d, a } => {
                    let r = Self::v(s, *a);
                    set!(*d, r);
                }
                Op::Gep { d, base, off, terms } => {
                    let mut conc = c!(*base).map(|b| b.wrapping_add(*off));
                    if let Some(mut acc) = conc {
                        for (o, w, sc) in terms.iter() {
                            match c!(*o) {
                                Some(x) => acc = acc.wrapping_add((sx(x, *w as u32) as u64).wrapping_mul(*sc)),
                                None => {
                                    conc = None;
                                    break;
                                }
                            }
                        }
                        if conc.is_some() {
                            conc = Some(acc);
                        }
                    }
                    let r = match conc {
                        Some(x) => Val::C(x),
                        None => {
                            let mut acc = apply(&s.doms, SOp::Add, 64, 64, &[Self::v(s, *base), Val::C(*off)]);
                            for (o, w, sc) in terms.iter() {
                                let mut x = Self::v(s, *o);
                                if *w < 64 {
                                    x = apply(&s.doms, SOp::SExt, *w as u32, 64, &[x]);
                                }
                                if *sc != 1 {
                                    x = apply(&s.doms, SOp::Mul, 64, 64, &[x, Val::C(*sc)]);
                                }
                                acc = apply(&s.doms, SOp::Add, 64, 64, &[acc, x]);
                            }
                            acc
                        }
                    };
                    set!(*d, r);
                }
                Op::Load { d, w, addr, off } => {
                    let r = match c!(*addr) {
                        Some(a) => s.mem.load(&s.doms, a + off, *w as u32).map_err(Stop::Error)?,
                        None => {
                            let a = Self::v(s, *addr);
                            let a = if *off != 0 { apply(&s.doms, SOp::Add, 64, 64, &[a, Val::C(*off)]) } else { a };
                            self.load(s, &a, *w as u32)?
                        }
                    };
                    set!(*d, r);
                }
                Op::Store { w, addr, off, v } => {
                    let a = match c!(*addr) {
                        Some(a) => a,
                        None => {
                            let a = Self::v(s, *addr);
                            self.concretize(s, &a)?
                        }
                    };
                    let x = Self::v(s, *v);
                    s.mem.store(&s.doms, a.wrapping_add(*off), *w as u32, &x).map_err(Stop::Error)?;
                }
                Op::Alloca { d, size, align } => {
                    let al = (*align).max(1);
                    let a = (s.sp + al - 1) / al * al;
                    s.sp = a + size;
                    if s.sp > STACK_BASE + 0x0800_0000 {
                        return err("stack overflow".into());
                    }
                    set!(*d, Val::C(a));
                }
                Op::Br(e) => {
                    let e = *e;
                    Self::edge(s, e);
                    continue;
                }
                Op::CondBr { c, t, f } => {
                    let (t, f) = (*t, *f);
                    let b = match c!(*c) {
                        Some(k) => k & 1 != 0,
                        None => {
                            let v = Self::v(s, *c);
                            self.decide(s, &v)?
                        }
                    };
                    Self::edge(s, if b { t } else { f });
                    continue;
                }
                Op::Switch { w, v, cases, def } => {
                    let k = match c!(*v) {
                        Some(k) => k,
                        None => {
                            let x = refresh(&Self::v(s, *v), &s.doms);
                            match &x {
                                Val::C(k) => *k,
                                Val::S(n) => match &n.kind {
                                    Kind::Tab { var, vals } => {
                                        let dest = |k: u64| cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                                        self.split(s, *var, |x| dest(vals[x]) as u64)?;
                                        vals[s.doms[*var as usize].first()]
                                    }
                                    Kind::Ex { .. } => {
                                        // as a chain of equality tests
                                        let mut hit = None;
                                        for (k, _) in cases.iter() {
                                            let e = apply(&s.doms, SOp::Eq, *w as u32, 1, &[x.clone(), Val::C(*k)]);
                                            if self.decide(s, &e)? {
                                                hit = Some(*k);
                                                break;
                                            }
                                        }
                                        match hit {
                                            Some(k) => k,
                                            None => {
                                                let e = *def;
                                                Self::edge(s, e);
                                                continue;
                                            }
                                        }
                                    }
                                },
                            }
                        }
                    };
                    let e = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                    Self::edge(s, e);
                    continue;
                }
                Op::Call { f, args, d, n, next } => {
                    let f = *f;
                    self.call(s, f, args, *d, *n, *next)?;
                    continue;
                }
                Op::CallInd { f, args, d, n, next } => {
                    let v = Self::v(s, *f);
                    let a = self.concretize(s, &v)?;
                    if a < FUNC_BASE || (a - FUNC_BASE) / 16 >= self.prog.names.len() as u64 {
                        return err(format!("indirect call to {:#x}", a));
                    }
                    let id = ((a - FUNC_BASE) / 16) as u32;
                    let name = &self.prog.names[id as usize];
                    if let Some(e) = ext(name) {
                        let vals: Vec<Val> = args.iter().map(|o| Self::v(s, *o)).collect();
                        let r = self.external(s, &e, vals)?;
                        Self::ret_ext(s, r, *d, *n, *next);
                        continue;
                    }
                    self.call(s, id, args, *d, *n, *next)?;
                    continue;
                }
                Op::Ext { e, args, d, n, next } => {
                    let vals: Vec<Val> = args.iter().map(|o| Self::v(s, *o)).collect();
                    let (d, n, next) = (*d, *n, *next);
                    let r = self.external(s, e, vals)?;
                    Self::ret_ext(s, r, d, n, next);
                    continue;
                }
                Op::Ret(vals) => {
                    let vs: [Val; 2];
                    let many: Vec<Val>;
                    let out: &[Val] = if vals.len() <= 2 {
                        vs = [vals.get(0).map(|o| Self::v(s, *o)).unwrap_or(Val::C(0)), vals.get(1).map(|o| Self::v(s, *o)).unwrap_or(Val::C(0))];
                        &vs[..vals.len()]
                    } else {
                        many = vals.iter().map(|o| Self::v(s, *o)).collect();
                        &many
                    };
                    s.sp = s.cur.sp;
                    let (d, n, next) = (s.cur.d, s.cur.n, s.cur.next);
                    match s.frames.pop() {
                        None => return Ok(()),
                        Some(f) => {
                            let f = match Arc::try_unwrap(f) {
                                Ok(f) => f,
                                Err(a) => (*a).clone(),
                            };
                            let old = std::mem::replace(&mut s.cur, f);
                            let mut regs = old.regs;
                            regs.clear();
                            if self.pool.len() < 256 {
                                self.pool.push(regs);
                            }
                            for (i, v) in out.iter().enumerate().take(n as usize) {
                                s.cur.regs[d as usize + i] = v.clone();
                            }
                            if next == u32::MAX {
                                s.cur.pc += 1;
                            } else {
                                Self::edge(s, next);
                            }
                        }
                    }
                    continue;
                }
                Op::Unreachable => return err("reached unreachable".into()),
                Op::Unsup(m) => return err(format!("unsupported: {}", m)),
            }
            s.cur.pc += 1;
        }
    }

    fn ret_ext(s: &mut State, r: Vec<Val>, d: u32, n: u32, next: u32) {
        for (i, v) in r.into_iter().enumerate().take(n as usize) {
            s.cur.regs[d as usize + i] = v;
        }
        if next == u32::MAX {
            s.cur.pc += 1;
        } else {
            Self::edge(s, next);
        }
    }

    fn call(&mut self, s: &mut State, f: u32, args: &[O], d: u32, n: u32, next: u32) -> X<()> {
        let func = self.prog.func(f);
        self.executed[f as usize] = true;
        if s.frames.len() > 4000 {
            return err("call depth".into());
        }
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.reserve(func.nregs as usize);
        for o in args {
            regs.push(Self::v(s, *o));
        }
        if (func.nparams as usize) > regs.len() && !matches!(func.code.first(), Some(Op::Unsup(_))) {
            return err(format!("call arity {} {}", func.name, func.nparams));
        }
        regs.truncate(func.nregs.max(func.nparams) as usize);
        regs.resize(func.nregs.max(func.nparams) as usize, Val::C(0));
        let fr = Frame { func, pc: 0, regs, d, n, next, sp: s.sp };
        let old = std::mem::replace(&mut s.cur, fr);
        s.frames.push(Arc::new(old));
        Ok(())
    }

    fn claim(&mut self, s: &mut State, a: &Val, b: &Val, w: u32) {
        match (a, b) {
            (Val::C(_), Val::C(_)) => {}
            (Val::S(p), Val::S(q)) if Arc::ptr_eq(p, q) => self.st.claims_same += 1,
            _ => s.claims.push((a.clone(), b.clone(), w)),
        }
    }
    /// The comparisons behind an assertion that evaluated to true for every value of the domains:
    /// each is put to the solver (`exists x in dom: a(x) != b(x)`, expected unsat), once per
    /// canonical form.
    fn confirm(&mut self, s: &mut State) -> X<()> {
        for (a, b, w) in std::mem::take(&mut s.claims) {
            let (a, b) = (refresh(&a, &s.doms), refresh(&b, &s.doms));
            if let (Val::C(_), Val::C(_)) = (&a, &b) {
                continue;
            }
            self.st.claims += 1;
            let var = |v: &Val| match v {
                Val::S(n) => match &n.kind {
                    Kind::Tab { var, .. } => Some(*var),
                    _ => None,
                },
                _ => None,
            };
            let key = match (var(&a), var(&b)) {
                (Some(p), Some(q)) if p != q => None,
                (Some(v), _) | (_, Some(v)) if var(&a).is_some() && !matches!(b, Val::S(ref n) if !matches!(n.kind, Kind::Tab { .. }))
                    || a.is_c() => {
                    let d = &s.doms[v as usize];
                    let mut k = vec![w as u64];
                    k.extend_from_slice(&d.bits);
                    for x in [&a, &b] {
                        match x {
                            Val::C(c) => k.push(*c),
                            Val::S(n) => {
                                if let Kind::Tab { vals, .. } = &n.kind {
                                    k.push(u64::MAX);
                                    k.extend(d.iter().map(|i| vals[i]));
                                }
                            }
                        }
                    }
                    Some(k)
                }
                _ => None,
            };
            if let Some(k) = &key {
                if self.sh.confirmed.lock().unwrap().contains(k) {
                    self.st.claims_cached += 1;
                    continue;
                }
            }
            match self.z3.differ(&s.doms, &s.res, &a, &b, w, self.cfg.solver_timeout) {
                Ans::Unsat => self.st.claims_unsat += 1,
                Ans::Sat(_) => return err("the solver contradicts the evaluation of an assertion".into()),
                Ans::Unknown => {
                    self.st.unknown += 1;
                    return err("solver gave up on a comparison".into());
                }
            }
            if let Some(k) = key {
                self.sh.confirmed.lock().unwrap().insert(k);
            }
        }
        Ok(())
    }

    /// `alloc::fmt::format`: the literal pieces and the `Display` of strings are exact; every other
    /// argument (only ever part of a message here) becomes "?".
    fn format(&mut self, s: &mut State, a: &[Val]) -> X<()> {
        let out = self.concretize(s, &a[0])?;
        let tpl = self.concretize(s, &a[1])?;
        let args = self.concretize(s, &a[2])?;
        let mut bytes: Vec<Val> = vec![];
        let mut tail: Option<(Val, Val)> = None;
        let raw = |s: &State, p: u64| -> X<u64> {
            match s.mem.byte(p).map_err(Stop::Error)? {
                Ok(b) => Ok(b as u64),
                Err(_) => err("format template".into()),
            }
        };
        let mut flush = |me: &mut Self, s: &mut State, bytes: &mut Vec<Val>, t: &mut Option<(Val, Val)>| -> X<()> {
            if let Some((p, n)) = t.take() {
                if let Val::C(n) = n {
                    for i in 0..n {
                        let at = apply(&s.doms, SOp::Add, 64, 64, &[p.clone(), Val::C(i)]);
                        bytes.push(me.load(s, &at, 8)?);
                    }
                } else {
                    bytes.push(Val::C(b'?' as u64));
                }
            }
            Ok(())
        };
        if args & 1 == 1 {
            for i in 0..args >> 1 {
                bytes.push(Val::C(raw(s, tpl + i)?));
            }
        } else {
            let (mut p, mut next) = (tpl, 0);
            loop {
                let n = raw(s, p)?;
                p += 1;
                if n == 0 {
                    break;
                }
                flush(self, s, &mut bytes, &mut tail)?;
                if n <= 0x80 {
                    let mut len = n;
                    if n == 0x80 {
                        len = raw(s, p)? | raw(s, p + 1)? << 8;
                        p += 2;
                    }
                    for i in 0..len {
                        bytes.push(Val::C(raw(s, p + i)?));
                    }
                    p += len;
                    continue;
                }
                if n < 0xc0 {
                    return err("format template".into());
                }
                let mut plain = true;
                for (bit, size) in [(1, 4), (2, 2), (4, 2)] {
                    if n & bit != 0 {
                        plain = false;
                        p += size;
                    }
                }
                if n & 8 != 0 {
                    next = raw(s, p)? | raw(s, p + 1)? << 8;
                    p += 2;
                }
                let at = args + next * 16;
                next += 1;
                let val = self.load(s, &Val::C(at), 64)?;
                let val = self.concretize(s, &val)?;
                let f = self.load(s, &Val::C(at + 8), 64)?;
                let f = self.concretize(s, &f)?;
                let name = if f >= FUNC_BASE { self.prog.names.get(((f - FUNC_BASE) / 16) as usize).cloned().unwrap_or_default() } else { String::new() };
                let string = name.contains("5alloc6stringNtB5_6StringNtNtCs") && name.contains("4core3fmt7Display3fmt");
                let rstr = name.contains("4core3fmtReNtB6_7Display3fmt");
                let rstring = name.contains("4core3fmtRNtNtCs") && name.contains("5alloc6string6StringNtB6_7Display3fmt");
                let rrstr = name.contains("4core3fmtRReNtB6_7Display3fmt");
                let mut word = |me: &mut Self, s: &mut State, p: u64| me.load(s, &Val::C(p), 64);
                if plain && (string || rstring || rstr || rrstr) {
                    let mut v = val;
                    if rstring || rrstr {
                        let w = word(self, s, v)?;
                        v = self.concretize(s, &w)?;
                    }
                    let o = if string || rstring { 8 } else { 0 };
                    let ptr = word(self, s, v + o)?;
                    let len = word(self, s, v + o + 8)?;
                    tail = Some((refresh(&ptr, &s.doms), refresh(&len, &s.doms)));
                } else {
                    bytes.push(Val::C(b'?' as u64));
                }
            }
        }
        let (mut len, mut cap) = (Val::C(bytes.len() as u64), bytes.len() as u64);
        let head = cap;
        if let Some((p, n)) = tail {
            let max = self.max_of(s, &n)?;
            if max > 4096 {
                return err("format length".into());
            }
            cap += max;
            len = apply(&s.doms, SOp::Add, 64, 64, &[len, n.clone()]);
            let to = self.alloc(s, &Val::C(cap.max(1)), 1)?;
            self.memcpy(s, &Val::C(to + head), &p, &n)?;
            for (i, b) in bytes.iter().enumerate() {
                s.mem.store(&s.doms, to + i as u64, 8, b).map_err(Stop::Error)?;
            }
            cap = cap.max(1);
            s.mem.store(&s.doms, out + 8, 64, &Val::C(to)).map_err(Stop::Error)?;
        } else {
            let to = if cap == 0 { 1 } else { self.alloc(s, &Val::C(cap), 1)? };
            for (i, b) in bytes.iter().enumerate() {
                s.mem.store(&s.doms, to + i as u64, 8, b).map_err(Stop::Error)?;
            }
            s.mem.store(&s.doms, out + 8, 64, &Val::C(to)).map_err(Stop::Error)?;
        }
        s.mem.store(&s.doms, out, 64, &Val::C(cap)).map_err(Stop::Error)?;
        s.mem.store(&s.doms, out + 16, 64, &len).map_err(Stop::Error)?;
        Ok(())
    }

    fn external(&mut self, s: &mut State, e: &Ext, a: Vec<Val>) -> X<Vec<Val>> {
        let one = |v: u64| Ok(vec![Val::C(v)]);
        match e {
            Ext::Alloc | Ext::AllocZ => {
                let al = self.concretize(s, &a[1])?;
                let p = self.alloc(s, &a[0], al)?;
                one(p)
            }
            Ext::Realloc => {
                let old = self.max_of(s, &a[1])?;
                let al = self.concretize(s, &a[2])?;
                let src = self.concretize(s, &a[0])?;
                let p = self.alloc(s, &a[3], al)?;
                s.mem.copy(p, src, old).map_err(Stop::Error)?;
                one(p)
            }
            Ext::Malloc => {
                let n = self.max_of(s, &a[0])?;
                one(self.libc_alloc(s, n)?)
            }
            Ext::Calloc => {
                let k = self.concretize(s, &a[1])?;
                let n = self.concretize(s, &a[0])?;
                one(self.libc_alloc(s, n * k)?)
            }
            Ext::LibcRealloc => {
                let src = self.concretize(s, &a[0])?;
                let n = self.max_of(s, &a[1])?;
                let p = self.libc_alloc(s, n)?;
                if src != 0 {
                    let old = match s.mem.load(&s.doms, src - 16, 64).map_err(Stop::Error)? {
                        Val::C(c) => c,
                        _ => return err("heap header".into()),
                    };
                    s.mem.copy(p, src, old.min(n)).map_err(Stop::Error)?;
                }
                one(p)
            }
            Ext::PosixMemalign => {
                let out = self.concretize(s, &a[0])?;
                let al = self.concretize(s, &a[1])?;
                let p = self.alloc(s, &a[2], al.max(64))?;
                s.mem.store(&s.doms, out, 64, &Val::C(p)).map_err(Stop::Error)?;
                one(0)
            }
            Ext::Nop => one(0),
            Ext::Memcmp => Ok(vec![self.memcmp(s, &a[0], &a[1], &a[2])?]),
            Ext::Memcpy => {
                self.memcpy(s, &a[0], &a[1], &a[2])?;
                Ok(vec![a[0].clone()])
            }
            Ext::Memset => {
                let d = self.concretize(s, &a[0])?;
                let n = self.concretize(s, &a[2])?;
                match &a[1] {
                    Val::C(b) => s.mem.fill(d, *b as u8, n).map_err(Stop::Error)?,
                    v => {
                        for i in 0..n {
                            s.mem.store(&s.doms, d + i, 8, v).map_err(Stop::Error)?;
                        }
                    }
                }
                Ok(vec![a[0].clone()])
            }
            Ext::Strlen => {
                let p = self.concretize(s, &a[0])?;
                let mut n = 0;
                loop {
                    match s.mem.byte(p + n).map_err(Stop::Error)? {
                        Ok(0) => return one(n),
                        Ok(_) => n += 1,
                        Err(_) => return err("strlen".into()),
                    }
                }
            }
            Ext::LoadRelative => {
                let base = self.concretize(s, &a[0])?;
                let off = match &a[1] {
                    Val::C(_) => a[1].clone(),
                    v => refresh(v, &s.doms),
                };
                let at = apply(&s.doms, SOp::Add, 64, 64, &[Val::C(base), off]);
                let v = self.load(s, &at, 32)?;
                let v = apply(&s.doms, SOp::SExt, 32, 64, &[v]);
                Ok(vec![apply(&s.doms, SOp::Add, 64, 64, &[Val::C(base), v])])
            }
            Ext::Choice => {
                let n = self.concretize(s, &a[0])?;
                if n == 0 || n > 256 {
                    return err("choice domain".into());
                }
                let var = s.doms.len() as u16;
                s.doms.push(Dom::full(n as usize));
                Ok(vec![make_tab(64, var, &s.doms, &mut |x| x as u64)])
            }
            Ext::One => one(self.concretize(s, &a[0])?),
            Ext::Assume => {
                self.assume(s, &a[0])?;
                Ok(vec![])
            }
            Ext::Select => Ok(vec![apply(&s.doms, SOp::Select, 64, 64, &[a[0].clone(), a[1].clone(), a[2].clone()])]),
            Ext::EqV => {
                self.claim(s, &a[0], &a[1], 64);
                Ok(vec![apply(&s.doms, SOp::Eq, 64, 1, &[a[0].clone(), a[1].clone()])])
            }
            Ext::MemEq => {
                self.claim(s, &a[1], &a[3], 64);
                let same_len = apply(&s.doms, SOp::Eq, 64, 1, &[a[1].clone(), a[3].clone()]);
                let n = refresh(&a[1], &s.doms);
                let max = self.max_of(s, &n)?;
                if max > 512 {
                    return err("comparison length".into());
                }
                let mut r = same_len;
                if let Val::C(0) = r {
                    return Ok(vec![r]);
                }
                for i in 0..max {
                    let iv = Val::C(i);
                    let pa = apply(&s.doms, SOp::Add, 64, 64, &[a[0].clone(), iv.clone()]);
                    let pb = apply(&s.doms, SOp::Add, 64, 64, &[a[2].clone(), iv.clone()]);
                    let x = self.load(s, &pa, 8)?;
                    let y = self.load(s, &pb, 8)?;
                    if let (Val::S(p), Val::S(q)) = (&x, &y) {
                        if Arc::ptr_eq(p, q) {
                            self.st.claims_same += 1;
                            continue;
                        }
                    }
                    let inside = apply(&s.doms, SOp::Ult, 64, 1, &[iv, n.clone()]);
                    let x = apply(&s.doms, SOp::Select, 8, 8, &[inside.clone(), x, Val::C(0)]);
                    let y = apply(&s.doms, SOp::Select, 8, 8, &[inside, y, Val::C(0)]);
                    self.claim(s, &x, &y, 8);
                    let e = apply(&s.doms, SOp::Eq, 8, 1, &[x, y]);
                    r = apply(&s.doms, SOp::And, 1, 1, &[r, e]);
                }
                Ok(vec![r])
            }
            Ext::Reach => {
                let c = self.concretize(s, &a[0])?;
                if c < 64 {
                    s.reach |= 1 << c;
                }
                Ok(vec![])
            }
            Ext::Check => {
                let code = self.concretize(s, &a[1])?;
                let v = refresh(&a[0], &s.doms);
                self.st.checks += 1;
                *self.st.codes.entry(s.entry as u64 * 65536 + code).or_default() += 1;
                if let Val::C(c) = v {
                    if c & 1 == 1 {
                        self.st.checks_const += 1;
                        self.confirm(s)?;
                        return Ok(vec![]);
                    }
                }
                match self.model(s, &[(v.clone(), false)]) {
                    Ans::Unsat => {
                        self.st.checks_unsat += 1;
                        if v.is_c() {
                            // path infeasible
                            return Err(Stop::Pruned);
                        }
                        return Ok(vec![]);
                    }
                    Ans::Sat(m) => {
                        self.st.checks_sat += 1;
                        self.report(s, code, "check", m, String::new());
                    }
                    Ans::Unknown => {
                        self.st.unknown += 1;
                        return err("solver gave up on an assertion".into());
                    }
                }
                self.assume(s, &v)?;
                Ok(vec![])
            }
            Ext::Format => {
                self.format(s, &a)?;
                Ok(vec![])
            }
            Ext::HashKeys => Ok(vec![Val::C(0x0123_4567_89ab_cdef), Val::C(0xfedc_ba98_7654_3210)]),
            Ext::Panic(n) => Err(Stop::Panic(n.clone())),
            Ext::Unsup(m) => err(format!("unsupported {}", m)),
        }
    }
}
