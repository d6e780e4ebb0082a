//! The checks.  Every entry takes the number of a scenario: a row of token domains.
use crate::*;
use crate::refp::{R, TOL, MOD};
use crate::scn::{Scn, SCN, F_MODULE, F_TOLERANT};

pub const SAME_TREE: u32 = 1;
pub const REJECTS_VALID: u32 = 2;
pub const ACCEPTS_INVALID: u32 = 3;

/// The real parser and the reference agree on the verdict, and on the tree.
pub fn diff(k: usize) {
    let s: &Scn = &SCN[k];
    let tolerant = s.flags & F_TOLERANT != 0;
    let src = slots::build(s);
    let mut r = R::new(&src);
    let c = if s.flags & F_MODULE != 0 { MOD } else { 0 } | if tolerant { TOL } else { 0 };
    let v = r.program(c);
    if r.free {
        api::reach(0);
        return;
    }
    let mut b = ressa::Builder::new();
    b.module(s.flags & F_MODULE != 0);
    b.tolerant(tolerant);
    b.set_js(&*src.text);
    let got = match b.build() { Ok(mut p) => p.parse(), Err(e) => Err(e) };
    match (got, v) {
        (Err(_), Err(_)) => api::reach(1),
        (Err(_), Ok(())) => { if r.may { api::reach(3) } else { consistent(&src); api::check(false, REJECTS_VALID) } }
        (Ok(_), Err(_)) => { if r.may || tolerant { api::reach(3) } else { consistent(&src); api::check(false, ACCEPTS_INVALID) } }
        (Ok(g), Ok(())) => {
            let mut c = lin::Cmp::new(&r.out, src.text.as_bytes());
            c.program(&g);
            api::check(c.same(), SAME_TREE);
            api::reach(2);
        }
    }
}
/// Applies the scanner's own constraints to all of the source, not only to the part the parser
/// has read: called where the verdict of the reference depends on tokens ressa has not reached.
fn consistent(src: &slots::Source) {
    #[cfg(feature = "sym")]
    {
        let mut s = ress::refs::RefScanner::new(&src.text);
        while !s.eof {
            if s.next().is_none() { break }
        }
    }
    let _ = src;
}
fn builder(s: &Scn, src: &slots::Source) -> ressa::Builder {
    let mut b = ressa::Builder::new();
    b.module(s.flags & F_MODULE != 0);
    b.tolerant(s.flags & F_TOLERANT != 0);
    b.set_js(&*src.text);
    b
}
fn setup(k: usize) -> (&'static Scn, slots::Source) {
    let s: &Scn = &SCN[k];
    (s, slots::build(s))
}
fn position(e: &ressa::Error) -> Option<ressa::Position> {
    use ressa::Error::*;
    match e {
        UnexpectedToken(p, _) | UnableToReinterpret(p, _, _) | Redecl(p, _) | OperationError(p, _)
        | InvalidGetterParams(p) | InvalidSetterParams(p) | NonStrictFeatureInStrictContext(p, _) => Some(*p),
        _ => None,
    }
}

pub const ENDLESS: u32 = 4;
pub const NOT_FUSED: u32 = 5;
/// Iterating always ends, also past errors: no more parts than tokens, and nothing after the end.
pub fn total(k: usize) {
    let (s, src) = setup(k);
    let mut p = match builder(s, &src).build() {
        Ok(p) => p,
        Err(_) => { api::reach(0); return }
    };
    let mut left = src.n + 1;
    let mut failed = false;
    loop {
        match p.next() {
            None => break,
            Some(Ok(_)) => (),
            Some(Err(_)) => failed = true,
        }
        left -= 1;
        if left == 0 { break }
    }
    if left == 0 { api::check(false, ENDLESS); return }
    let end = p.next().is_none();
    api::check(end, NOT_FUSED);
    api::reach(if failed { 1 } else { 2 });
}

pub const WRONG_POSITION: u32 = 6;
pub const BLAMES_LATER: u32 = 7;
pub const BLAMES_EARLIER: u32 = 8;
/// Errors name the position of a token, of the failing part, that is not behind the place where
/// the source stops making sense.
pub fn positions(k: usize) {
    let (s, src) = setup(k);
    let mut p = match builder(s, &src).build() {
        Ok(p) => p,
        Err(_) => { api::reach(0); return }
    };
    let mut good = 0;
    let pos = loop {
        match p.next() {
            None => { api::reach(2); return }
            Some(Ok(_)) => good += 1,
            Some(Err(e)) => match position(&e) {
                Some(p) => break p,
                None => { api::reach(3); return }
            },
        }
    };
    // the token at that line and column
    let mut at = src.n;
    let (mut line, mut start) = (1, 0);
    for i in 0..src.n {
        if line == pos.line && i * src.width - start == pos.column { at = i }
        line_ends(&src, i, &mut line, &mut start);
    }
    if at == src.n { api::check(false, WRONG_POSITION); return }
    let mut r = R::new(&src);
    let c = if s.flags & F_MODULE != 0 { MOD } else { 0 } | if s.flags & F_TOLERANT != 0 { TOL } else { 0 };
    let v = r.program(c);
    if v.is_err() && !r.may && !r.free && s.flags & F_TOLERANT == 0 {
        consistent(&src);
        // the reference looks ahead of `async` and `let` before it reads on
        let near = |t: u8| (0..3).any(|k| r.i >= k && r.tok[r.i - k] == t);
        let late = r.late || near(vocab::I_ASYNC) || near(vocab::K_LET);
        let last = r.slot[r.i] as usize;
        if !late { api::check(at <= last, BLAMES_LATER) }
        if r.parts_done == good { api::check(at >= r.slot[r.part_start] as usize, BLAMES_EARLIER) }
    }
    api::reach(1);
}
/// Line and start of line behind token i and its gap.
fn line_ends(src: &slots::Source, i: usize, line: &mut usize, start: &mut usize) {
    let b = src.text.as_bytes();
    let mut j = i * src.width;
    let end = (j + src.width).min(b.len());
    // only gaps and tokens with line terminators in them need looking at
    if src.nlk[i] == 0 && !refp::has_newline(src.tok[i]) { return }
    while j < end {
        if b[j] == b'\n' || (b[j] == b'\r' && !(j + 1 < end && b[j + 1] == b'\n')) {
            *line += 1;
            *start = j + 1;
        } else if b[j] == 0xe2 && b[j + 1] == 0x80 && (b[j + 2] == 0xa8 || b[j + 2] == 0xa9) {
            *line += 1;
            *start = j + 3;
            j += 2;
        }
        j += 1;
    }
}

pub const WRONG_COMMENT: u32 = 9;
pub const LOST_COMMENT: u32 = 10;
/// The comment handler is given every comment once, in order, as it is in the source.
pub fn comments(k: usize) {
    let (s, src) = setup(k);
    let mut seen: Vec<(usize, usize, bool)> = Vec::new();
    let ok;
    {
        let text = &src.text;
        let seen = &mut seen;
        let handler = |item: ress::Item| {
            let span = item.span;
            let same = match &item.token {
                ress::tokens::Token::Comment(c) => comment_is(text, span.start, span.end, c),
                _ => false,
            };
            seen.push((span.start, span.end, same));
        };
        let r = match builder(s, &src).with_comment_handler(handler) { Ok(mut p) => p.parse().is_ok(), Err(_) => false };
        ok = r;
    }
    let mut at = 0;
    for i in 0..src.n {
        let t = src.tok[i];
        if !refp::is_comment(t) { continue }
        if at == seen.len() {
            // what follows an error is not read
            if ok { api::check(false, LOST_COMMENT) }
            api::reach(1);
            return;
        }
        let (start, end, same) = seen[at];
        let want = i * src.width;
        api::check(api::eq(start, want) & api::eq(end, want + LEN[t as usize]) & same, WRONG_COMMENT);
        at += 1;
    }
    api::check(at == seen.len(), WRONG_COMMENT);
    api::reach(if ok { 2 } else { 1 });
}
static LEN: [usize; vocab::COUNT] = {
    let mut r = [0; vocab::COUNT];
    let mut i = 0;
    while i < vocab::COUNT { r[i] = vocab::TABLE_C[i].1.len(); i += 1 }
    r
};
/// The comment is the part of the text: its kind and its content.
fn comment_is(text: &str, start: usize, end: usize, c: &ress::Comment) -> bool {
    let t = &text[start..end];
    let multi = t.as_bytes()[0] == b'/' && t.as_bytes()[1] == b'*';
    let single = t.as_bytes()[0] == b'/' && t.as_bytes()[1] == b'/';
    match c.kind {
        ress::CommentKind::Multi => multi && c.content == t,
        ress::CommentKind::Single => single && c.content == t,
        ress::CommentKind::Html => !multi && !single && c.content == t,
    }
}

pub const DIFFERENT: u32 = 11;
/// All ways to parse the same text with the same configuration agree.
pub fn equiv(k: usize) {
    let (s, src) = setup(k);
    let module = s.flags & F_MODULE != 0;
    let tolerant = s.flags & F_TOLERANT != 0;
    let b = builder(s, &src);
    let first = match b.build() { Ok(mut p) => p.parse(), Err(e) => Err(e) };
    let way = api::choice(if module || tolerant { 4 } else { 5 });
    let second = match way {
        // collecting the iterator
        0 => {
            let r: Result<Vec<_>, _> = match b.build() { Ok(p) => p.collect(), Err(e) => Err(e) };
            r.map(|v| if module { resast::prelude::Program::Mod(v) } else { resast::prelude::Program::Script(v) })
        }
        // with a comment handler
        1 => match b.with_comment_handler(|_c: ress::Item| ()) { Ok(mut p) => p.parse(), Err(e) => Err(e) },
        // the setters, in another order
        2 => {
            let mut b = ressa::Builder::new();
            b.set_js(&*src.text);
            b.set_tolerant(tolerant);
            b.set_module(module);
            match b.build() { Ok(mut p) => p.parse(), Err(e) => Err(e) }
        }
        // what is set twice: the last one counts
        3 => {
            let mut b = ressa::Builder::new();
            b.tolerant(!tolerant).js("}").module(!module).js(&*src.text).tolerant(tolerant).module(module);
            match b.build() { Ok(mut p) => p.parse(), Err(e) => Err(e) }
        }
        // defaults
        _ => match ressa::Parser::new(&src.text) { Ok(mut p) => p.parse(), Err(e) => Err(e) },
    };
    match (first, second) {
        (Ok(a), Ok(b)) => { api::check(a == b, DIFFERENT); api::reach(2) }
        (Err(a), Err(b)) => { api::check(position(&a) == position(&b), DIFFERENT); api::reach(1) }
        _ => api::check(false, DIFFERENT),
    }
}

pub const NOT_TOLERATED: u32 = 12;
/// The tolerant parser accepts what the other accepts, with the same tree.
pub fn tolerant(k: usize) {
    let (s, src) = setup(k);
    let mut b = builder(s, &src);
    b.tolerant(false);
    let a = match b.build() { Ok(mut p) => p.parse(), Err(e) => Err(e) };
    b.tolerant(true);
    let t = match b.build() { Ok(mut p) => p.parse(), Err(e) => Err(e) };
    match (a, t) {
        (Ok(a), Ok(t)) => { api::check(a == t, NOT_TOLERATED); api::reach(2) }
        (Ok(_), Err(_)) => api::check(false, NOT_TOLERATED),
        _ => api::reach(1),
    }
}

pub const MODULE_DIFFERS: u32 = 13;
pub const MODULE_ONLY: u32 = 14;
/// Module code is strict code: without import, export and await, the source is a module exactly
/// if it is a script behind a 'use strict' directive, and the trees agree.
/// The scenario starts with that directive.
pub fn module(k: usize) {
    let (s, src) = setup(k);
    let mut b = builder(s, &src);
    b.module(false);
    let a = match b.build() { Ok(mut p) => p.parse(), Err(e) => Err(e) };
    b.module(true);
    let t = match b.build() { Ok(mut p) => p.parse(), Err(e) => Err(e) };
    use resast::prelude::Program::*;
    match (a, t) {
        (Ok(Script(a)), Ok(Mod(t))) => { api::check(a == t, MODULE_DIFFERS); api::reach(2) }
        (Ok(_), Ok(_)) => api::check(false, MODULE_DIFFERS),
        (Err(_), Err(_)) => api::reach(1),
        (a, _) => {
            for i in 0..src.n {
                let t = src.tok[i];
                if t == vocab::K_AWAIT || t == vocab::K_IMPORT || t == vocab::K_EXPORT { api::reach(3); return }
            }
            consistent(&src);
            let _ = a;
            api::check(false, MODULE_ONLY)
        }
    }
}
pub fn entry(name: &str, k: usize) {
    match name {
        "diff" => diff(k),
        "total" => total(k),
        "positions" => positions(k),
        "comments" => comments(k),
        "equiv" => equiv(k),
        "tolerant" => tolerant(k),
        "module" => module(k),
        _ => panic!("no such entry"),
    }
}
pub fn source(_name: &str, k: usize) -> slots::Source {
    let s = &SCN[k];
    slots::build(s)
}
/// Does the unmodified scanner read the text as the tokens of the row?
pub fn scans_as(src: &slots::Source) -> bool {
    let mut s = ress::refs::RefScanner::new(&src.text);
    let mut i = 0;
    while i < src.n {
        match s.next() {
            Some(t) => {
                let e = vocab::TABLE_C[src.tok[i] as usize];
                if i + 1 == src.n { return t.token == ress::refs::tokens::RefToken::EoF }
                if t.token != e.0 || t.span.start != i * src.width || t.span.end != i * src.width + e.1.len() { return false }
            }
            None => return i + 1 == src.n,
        }
        i += 1;
    }
    true
}
pub fn describe(_name: &str, k: usize, src: &slots::Source) -> String {
    let s = &SCN[k];
    let tolerant = s.flags & F_TOLERANT != 0;
    let mut r = R::new(src);
    let c = if s.flags & F_MODULE != 0 { MOD } else { 0 } | if tolerant { TOL } else { 0 };
    let v = r.program(c);
    let mut b = ressa::Builder::new();
    b.module(s.flags & F_MODULE != 0);
    b.tolerant(tolerant);
    b.set_js(&*src.text);
    let got = match b.build() { Ok(mut p) => p.parse(), Err(e) => Err(e) };
    format!("reference {}{}{}; ressa {}", if v.is_ok() { "accepts" } else { "rejects" }, if r.may { " (lenient)" } else { "" }, if r.free { " (free)" } else { "" }, match got { Ok(p) => format!("{:?}", p), Err(e) => format!("error: {}", e) })
}
