//! Bounded symbolic execution of LLVM IR emitted by rustc for a harness around RESSA.
mod dec;
mod exec;
mod ir;
mod mem;
mod sym;
mod z3;

use dec::*;
use exec::*;
use ir::*;
use mem::*;
use std::collections::HashMap;
use std::fmt::Write;
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};
use sym::*;

fn init_bytes(env: &Env, t: &Ty, c: &Const, out: &mut [u8], off: u64) -> Result<(), String> {
    match (t, c) {
        (_, Const::Zero) | (_, Const::Undef) => Ok(()),
        (Ty::Int(_), _) | (Ty::Ptr, _) | (Ty::Float(_), _) => {
            if let Const::Big = c {
                return Ok(()); // wide constants: never loaded as such
            }
            let v = env.scalar(c)?;
            let n = t.size().min(8) as usize;
            out[off as usize..off as usize + n].copy_from_slice(&v.to_le_bytes()[..n]);
            Ok(())
        }
        (_, Const::Bytes(b)) => {
            out[off as usize..off as usize + b.len()].copy_from_slice(b);
            Ok(())
        }
        (_, Const::Agg(v)) => {
            for (i, (et, ec)) in v.iter().enumerate() {
                init_bytes(env, et, ec, out, off + t.offset(i))?;
            }
            Ok(())
        }
        (_, Const::Splat(b)) => {
            for i in 0..t.count() {
                init_bytes(env, &b.0, &b.1, out, off + t.offset(i))?;
            }
            Ok(())
        }
        _ => Err(format!("initializer {:?}", c)),
    }
}

fn load(path: &str) -> &'static Program {
    let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ir").into_boxed_str());
    let m: &'static Module<'static> = Box::leak(Box::new(Module::scan(text)));
    let mut names: Vec<String> = m.funcs.keys().cloned().collect();
    names.extend(m.decls.keys().filter(|d| !m.funcs.contains_key(*d)).cloned());
    names.sort();
    let fid: HashMap<String, u32> = names.iter().enumerate().map(|(i, n)| (n.clone(), i as u32)).collect();
    let mut env = Env { m, fid, gaddr: HashMap::new() };
    let mut gn: Vec<&String> = m.globals.keys().collect();
    gn.sort();
    let mut at = GLOBAL_BASE + 4096;
    let mut defs = vec![];
    for n in gn {
        let g = match m.global(n) {
            Ok(g) => g,
            Err(e) => {
                eprintln!("warning: global {}: {}", n, e);
                continue;
            }
        };
        let al = g.align.max(16);
        at = (at + al - 1) / al * al;
        env.gaddr.insert(n.clone(), at);
        defs.push((n.clone(), at, g));
        at += defs.last().unwrap().2.ty.size().max(1);
    }
    let mut mem = Mem::new();
    for (n, a, g) in &defs {
        if let Some(c) = &g.init {
            let mut b = vec![0u8; g.ty.size() as usize];
            if let Err(e) = init_bytes(&env, &g.ty, c, &mut b, 0) {
                eprintln!("warning: global {}: {}", n, e);
            }
            mem.write(*a, &b).unwrap();
        }
    }
    let nf = names.len();
    let funcs = (0..nf).map(|_| OnceLock::new()).collect();
    Box::leak(Box::new(Program { names, funcs, env, init: Mutex::new(mem) }))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                write!(o, "\\u{:04x}", c as u32).unwrap();
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entries = vec![];
    let mut out = None;
    let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut timeout = 600u64;
    let mut cfg = Cfg {
        max_steps: 5_000_000,
        panic_bad: false,
        deadline: Instant::now(),
        max_viol: 3,
        stop_after: u64::MAX,
        samples: 2,
        solver_timeout: 20_000,
        sample_final: 64,
        verbose: false,
        fork_sites: false,
    };
    let mut decode_all = false;
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll = val(),
            "--entry" => {
                let v = val();
                let (n, k) = v.split_once(':').unwrap_or((&v, "0"));
                entries.push(Entry { name: n.to_string(), arg: k.parse().unwrap() });
            }
            "--out" => out = Some(val()),
            "--threads" => threads = val().parse().unwrap(),
            "--timeout" => timeout = val().parse().unwrap(),
            "--max-steps" => cfg.max_steps = val().parse().unwrap(),
            "--max-viol" => cfg.max_viol = val().parse().unwrap(),
            "--stop-after" => cfg.stop_after = val().parse().unwrap(),
            "--samples" => cfg.samples = val().parse().unwrap(),
            "--sample-final" => cfg.sample_final = val().parse().unwrap(),
            "--panic-bad" => cfg.panic_bad = true,
            "--verbose" => cfg.verbose = true,
            "--fork-sites" => cfg.fork_sites = true,
            "--decode-all" => decode_all = true,
            _ => panic!("argument {}", a),
        }
    }
    let t0 = Instant::now();
    let prog = load(&ll);
    let t_load = t0.elapsed();
    if decode_all {
        let mut bad: std::collections::BTreeMap<String, usize> = Default::default();
        for i in 0..prog.names.len() {
            if prog.env.m.funcs.contains_key(&prog.names[i]) {
                for o in &prog.func(i as u32).code {
                    if let Op::Unsup(m) = o {
                        *bad.entry(m.chars().take(110).collect()).or_default() += 1;
                    }
                    if let Op::Ext { e: Ext::Unsup(m), .. } = o {
                        *bad.entry(m.chars().take(110).collect()).or_default() += 1;
                    }
                }
            }
        }
        for (k, v) in bad {
            println!("{:5} {}", v, k);
        }
        println!("load {:?} all {:?}", t_load, t0.elapsed());
        return;
    }
    cfg.deadline = Instant::now() + Duration::from_secs(timeout);
    let verbose = cfg.verbose;
    let cfg: &'static Cfg = Box::leak(Box::new(cfg));
    let mut init = vec![];
    for (i, e) in entries.iter().enumerate() {
        let id = match prog.env.fid.get(&e.name) {
            Some(i) => *i,
            None => {
                eprintln!("no such entry {}", e.name);
                std::process::exit(4);
            }
        };
        let f = prog.func(id);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        if f.nparams > 0 {
            regs[0] = Val::C(e.arg);
        }
        let mem = prog.init.lock().unwrap().fork();
        init.push(State {
            entry: i as u32,
            frames: vec![],
            cur: Frame { func: f, pc: 0, regs, d: 0, n: 0, next: u32::MAX, sp: STACK_BASE },
            mem,
            doms: vec![],
            res: vec![],
            heap: HEAP_BASE + 4096,
            sp: STACK_BASE + 4096,
            steps: 0,
            weight: 1.0,
            reach: 0,
            trace: None,
            claims: vec![],
        });
    }
    let sh: &'static Shared = Box::leak(Box::new(Shared {
        queue: Mutex::new(init),
        cv: Condvar::new(),
        idle: 0.into(),
        nworkers: threads,
        stop: false.into(),
        timed_out: false.into(),
        viols: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        violating: 0.into(),
        cut: false.into(),
        viol_count: Mutex::new(HashMap::new()),
        stats: Mutex::new(Stats::default()),
        done_paths: 0.into(),
        confirmed: Mutex::new(Default::default()),
    }));
    let executed = Arc::new(Mutex::new(vec![false; prog.names.len()]));
    let hs: Vec<_> = (0..threads)
        .map(|k| {
            let executed = executed.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut w = Worker {
                        prog,
                        cfg,
                        sh,
                        z3: crate::z3::Z3::new(),
                        st: Stats::default(),
                        stack: vec![],
                        pool: vec![],
                        executed: vec![false; prog.names.len()],
                        rng: k as u64 + 1,
                    };
                    w.run();
                    w.st.z3_queries = w.z3.queries;
                    w.st.z3_sat = w.z3.sat;
                    w.st.z3_unsat = w.z3.unsat;
                    w.st.z3_nanos = w.z3.nanos;
                    sh.stats.lock().unwrap().merge(&w.st);
                    let mut e = executed.lock().unwrap();
                    for (i, b) in w.executed.iter().enumerate() {
                        if *b {
                            e[i] = true;
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let st = sh.stats.lock().unwrap();
    let viols = sh.viols.lock().unwrap();
    let vc = sh.viol_count.lock().unwrap();
    let mut o = String::new();
    let timed_out = sh.timed_out.load(SeqCst);
    let secs = t0.elapsed().as_secs_f64();
    writeln!(o, "{{\n \"timed_out\": {}, \"seconds\": {:.2}, \"load_seconds\": {:.2},", timed_out, secs, t_load.as_secs_f64()).unwrap();
    writeln!(o, " \"paths\": {}, \"pruned\": {}, \"panic_paths\": {}, \"hang_paths\": {}, \"error_paths\": {}, \"forks\": {}, \"instructions\": {}, \"longest_path\": {}, \"max_vars\": {},", st.paths, st.pruned, st.panics, st.hangs, st.errors, st.forks, st.steps, st.max_steps, st.max_vars).unwrap();
    writeln!(o, " \"comparisons\": {}, \"comparisons_identical\": {}, \"comparisons_cached\": {}, \"comparisons_unsat\": {},", st.claims, st.claims_same, st.claims_cached, st.claims_unsat).unwrap();
    writeln!(o, " \"checks\": {}, \"checks_folded\": {}, \"checks_unsat\": {}, \"checks_sat\": {}, \"solver_unknown\": {},", st.checks, st.checks_const, st.checks_unsat, st.checks_sat, st.unknown).unwrap();
    writeln!(o, " \"solver_queries\": {}, \"solver_sat\": {}, \"solver_unsat\": {}, \"solver_seconds\": {:.3}, \"final_pc_checked\": {}, \"final_pc_unsat\": {},", st.z3_queries, st.z3_sat, st.z3_unsat, st.z3_nanos as f64 / 1e9, st.final_checked, st.final_unsat).unwrap();
    let list: Vec<String> = entries
        .iter()
        .enumerate()
        .map(|(i, e)| {
            let reach: Vec<String> = st.reach.iter().filter(|(k, _)| **k / 64 == i as u64).map(|(k, v)| format!("{}: {}", js(&(k % 64).to_string()), v)).collect();
            let codes: Vec<String> = st.codes.iter().filter(|(k, _)| **k / 65536 == i as u64).map(|(k, v)| format!("{}: {}", js(&(k % 65536).to_string()), v)).collect();
            format!(
                "{{\"name\": {}, \"arg\": {}, \"explored\": {:.9}, \"excluded_by_assumption\": {:.9}, \"reach\": {{{}}}, \"checks\": {{{}}}}}",
                js(&e.name),
                e.arg,
                st.weight.get(&(i as u32)).unwrap_or(&0.0),
                st.pruned_weight.get(&(i as u32)).unwrap_or(&0.0),
                reach.join(", "),
                codes.join(", ")
            )
        })
        .collect();
    writeln!(o, " \"entries\": [\n  {}\n ],", list.join(",\n  ")).unwrap();
    let list: Vec<String> = st.err_sites.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    writeln!(o, " \"errors\": {{{}}},", list.join(", ")).unwrap();
    let list: Vec<String> = st.panic_sites.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    writeln!(o, " \"panics\": {{{}}},", list.join(", ")).unwrap();
    let mut vs: Vec<&Viol> = viols.iter().collect();
    vs.sort_by(|a, b| (a.entry, a.code, &a.kind, &a.model).cmp(&(b.entry, b.code, &b.kind, &b.model)));
    let list: Vec<String> = vs
        .iter()
        .map(|v| {
            format!(
                "{{\"entry\": {}, \"arg\": {}, \"code\": {}, \"kind\": {}, \"detail\": {}, \"model\": {:?}}}",
                js(&entries[v.entry as usize].name),
                entries[v.entry as usize].arg,
                v.code,
                js(&v.kind),
                js(&v.detail),
                v.model
            )
        })
        .collect();
    writeln!(o, " \"violations\": [{}],", list.join(",\n  ")).unwrap();
    let total: u64 = vc.values().sum();
    writeln!(o, " \"violating_paths\": {},", total).unwrap();
    let sm = sh.samples.lock().unwrap();
    let list: Vec<String> = sm
        .iter()
        .map(|(e, r, m)| {
            let codes: Vec<u32> = (0..64).filter(|b| r >> b & 1 == 1).collect();
            format!("{{\"entry\": {}, \"arg\": {}, \"reached\": {:?}, \"model\": {:?}}}", js(&entries[*e as usize].name), entries[*e as usize].arg, codes, m)
        })
        .collect();
    writeln!(o, " \"samples\": [{}],", list.join(",\n  ")).unwrap();
    writeln!(o, " \"cut\": {},", sh.cut.load(SeqCst)).unwrap();
    let ex = executed.lock().unwrap();
    let fl: Vec<String> = ex.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| js(&prog.names[i])).collect();
    writeln!(o, " \"functions\": [{}]\n}}", fl.join(", ")).unwrap();
    match out {
        Some(p) => std::fs::write(p, &o).unwrap(),
        None => {}
    }
    {
        let mut v: Vec<_> = st.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(60) {
            eprintln!("{:8} {}", n, k);
        }
    }
    if verbose {
        let cut = o.find(" \"functions\"").unwrap();
        println!("{}", &o[..cut]);
    }
    std::process::exit(if timed_out { 3 } else { 0 });
}
