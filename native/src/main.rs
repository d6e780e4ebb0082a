//! Replays counterexamples and sampled paths of the symbolic checks against the real code:
//! the same checks, the unmodified scanner, concrete choices.
//! stdin: lines `ENTRY K CHOICE...`; stdout: one JSON object per line.
use std::cell::RefCell;
use std::io::BufRead;
struct State { choices: Vec<u64>, pos: usize, failed: Vec<u32>, reached: Vec<u32>, assumed: bool }
thread_local! { static S: RefCell<State> = RefCell::new(State { choices: vec![], pos: 0, failed: vec![], reached: vec![], assumed: true }); }
#[no_mangle]
pub extern "C" fn vsym_choice(n: u64) -> u64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let v = s.choices.get(s.pos).copied().unwrap_or(0);
        s.pos += 1;
        if v < n { v } else { 0 }
    })
}
#[no_mangle]
pub extern "C" fn vsym_one(v: u64) -> u64 { v }
#[no_mangle]
pub extern "C" fn vsym_assume(c: bool) { if !c { S.with(|s| s.borrow_mut().assumed = false) } }
#[no_mangle]
pub extern "C" fn vsym_check(c: bool, code: u32) { if !c { S.with(|s| s.borrow_mut().failed.push(code)) } }
#[no_mangle]
pub extern "C" fn vsym_reach(code: u32) { S.with(|s| s.borrow_mut().reached.push(code)) }
#[no_mangle]
pub extern "C" fn vsym_eq(a: u64, b: u64) -> bool { a == b }
#[no_mangle]
pub extern "C" fn vsym_memeq(a: *const u8, n: u64, b: *const u8, m: u64) -> bool {
    n == m && unsafe { std::slice::from_raw_parts(a, n as usize) == std::slice::from_raw_parts(b, m as usize) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let raw = std::env::args().any(|a| a == "--raw");
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<String> = l.split_whitespace().map(|x| x.to_string()).collect();
        if w.len() < 2 { continue }
        let (tx, rx) = std::sync::mpsc::channel();
        let (first, first_rx) = std::sync::mpsc::channel();
        let w2 = w.clone();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let k: usize = w2[1].parse().unwrap();
            S.with(|s| *s.borrow_mut() = State { choices: w2[2..].iter().map(|x| x.parse().unwrap()).collect(), pos: 0, failed: vec![], reached: vec![], assumed: true });
            let name = w2[0].clone();
            let src = harness::run::source(&name, k);
            let scan = std::panic::catch_unwind(|| harness::run::scans_as(&src)).unwrap_or(false);
            let _ = first.send((src.text.clone(), scan));
            S.with(|s| { let mut s = s.borrow_mut(); s.pos = 0; s.assumed = true; s.reached.clear(); s.failed.clear() });
            let p = std::panic::catch_unwind(|| harness::run::entry(&name, k)).is_err();
            let r = S.with(|s| { let s = s.borrow(); (s.failed.clone(), s.reached.clone(), s.assumed) });
            let real = std::panic::catch_unwind(|| harness::run::describe(&name, k, &src)).unwrap_or("PANIC".to_string());
            let _ = tx.send((p, r, real));
        }).unwrap();
        // a scanner that does not come to an end by itself is not what is checked
        let (text, scan) = first_rx.recv_timeout(std::time::Duration::from_secs(10)).unwrap_or((String::new(), false));
        let wait = if scan { 10 } else { 1 };
        match rx.recv_timeout(std::time::Duration::from_secs(wait)) {
            Ok((p, (f, rc, a), real)) => {
                if raw {
                    let t: String = text.split(' ').filter(|x| !x.is_empty()).collect::<Vec<_>>().join(" ");
                    println!("{} {:?}{}{} scan={} {:?}\n      {}", w[..2].join(" "), f, if p { " PANIC" } else { "" }, if a { "" } else { " ASSUME" }, scan, t, real);
                } else {
                    println!("{{\"panic\": {p}, \"hang\": false, \"failed\": {f:?}, \"reached\": {rc:?}, \"assumed\": {a}, \"scan\": {scan}, \"text\": {:?}, \"real\": {:?}}}", J(&text), J(&real));
                }
            }
            Err(_) => println!("{{\"panic\": false, \"hang\": true, \"failed\": [], \"reached\": [], \"assumed\": true, \"scan\": {scan}, \"text\": {:?}, \"real\": \"does not terminate\"}}", J(&text)),
        }
    }
}
struct J<'a>(&'a str);
impl<'a> std::fmt::Debug for J<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "\"")?;
        for c in self.0.chars() {
            match c {
                '"' => write!(f, "\\\"")?,
                '\\' => write!(f, "\\\\")?,
                c if (c as u32) < 32 => write!(f, "\\u{:04x}", c as u32)?,
                c => write!(f, "{}", c)?,
            }
        }
        write!(f, "\"")
    }
}
