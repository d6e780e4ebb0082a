//! The symbolic token array read by `RefScanner` in the verification build.
//!
//! The source text is a sequence of slots of `WIDTH` bytes.  Slot `i` holds one token, its text at
//! the start of the slot, followed by blanks (and possibly a line terminator).  `TOK[i]` is an
//! index into the vocabulary `VOC`; in the verification build it is a symbolic variable.
use super::tokens::{Number, RefToken, StringLit, Template};
use super::{Keyword, Punct};

#[derive(Clone, Copy)]
pub struct Entry {
    pub kind: RefToken,
    pub reread: RefToken,
    pub len: usize,
    pub text: &'static str,
    pub curly: u8,
    pub slash: u8,
    pub close: bool,
    pub cont: bool,
    pub paren: bool,
    pub eof: bool,
    pub has_nl: bool,
}

pub const CURLY_NONE: u8 = 0;
pub const CURLY_OPEN: u8 = 1;
pub const CURLY_CLOSE: u8 = 2;
pub const CURLY_TAIL: u8 = 3;
pub const CURLY_HEAD: u8 = 4;

pub const MAX: usize = 84;
pub static mut VOC: &'static [Entry] = &[];
pub static mut TOK: [u8; MAX] = [0; MAX];
/// 1 when the gap after slot `i` contains a line terminator
pub static mut NL: [u8; MAX] = [0; MAX];
pub static mut WIDTH: usize = 16;

extern "C" {
    fn vsym_assume(c: bool);
    fn vsym_select(c: bool, a: usize, b: usize) -> usize;
}

pub fn assume(c: bool) {
    unsafe { vsym_assume(c) }
}
pub fn select(c: bool, a: usize, b: usize) -> usize {
    unsafe { vsym_select(c, a, b) }
}
#[inline(always)]
fn entry(idx: usize) -> &'static Entry {
    unsafe { &VOC[TOK[idx] as usize] }
}
pub fn width() -> usize {
    unsafe { WIDTH }
}
pub fn kind(idx: usize) -> RefToken {
    entry(idx).kind
}
pub fn reread_kind(idx: usize) -> RefToken {
    entry(idx).reread
}
pub fn len(idx: usize) -> usize {
    entry(idx).len
}
pub fn is_slash(idx: usize) -> u8 {
    entry(idx).slash
}
pub fn is_close_brace(idx: usize) -> bool {
    entry(idx).close
}
pub fn is_template_cont(idx: usize) -> bool {
    entry(idx).cont
}
pub fn is_open_paren(idx: usize) -> bool {
    entry(idx).paren
}
pub fn is_eof(idx: usize) -> bool {
    entry(idx).eof
}
pub fn curly_op(idx: usize) -> u8 {
    entry(idx).curly
}
pub fn newline_around(idx: usize) -> bool {
    unsafe { (NL[idx] != 0) | entry(idx).has_nl }
}

pub const fn is_template(k: &RefToken, want_tail: bool) -> bool {
    match k {
        RefToken::Template(Template::Head) => !want_tail,
        RefToken::Template(Template::Tail) => want_tail,
        _ => false,
    }
}

pub const fn has_line_term(t: &str) -> bool {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\n' || b[i] == b'\r' {
            return true;
        }
        if b[i] == 0xe2 && b[i + 1] == 0x80 && (b[i + 2] == 0xa8 || b[i + 2] == 0xa9) {
            return true;
        }
        i += 1;
    }
    false
}

/// Builds the scanner's view of a vocabulary entry from the token and its text.
pub const fn entry_for(kind: RefToken, text: &'static str) -> Entry {
    let close = matches!(kind, RefToken::Punct(Punct::CloseBrace));
    let cont = matches!(kind, RefToken::Template(Template::Body) | RefToken::Template(Template::Tail));
    let curly = match kind {
        RefToken::Punct(Punct::OpenBrace) => CURLY_OPEN,
        RefToken::Punct(Punct::CloseBrace) => CURLY_CLOSE,
        RefToken::Template(Template::Head) => CURLY_HEAD,
        RefToken::Template(Template::Tail) => CURLY_TAIL,
        _ => CURLY_NONE,
    };
    let reread = match kind {
        RefToken::Template(Template::Body) | RefToken::Template(Template::Tail) => {
            RefToken::Punct(Punct::CloseBrace)
        }
        RefToken::RegEx => RefToken::Punct(Punct::ForwardSlash),
        k => k,
    };
    let slash = match kind {
        RefToken::Punct(Punct::ForwardSlash) | RefToken::Punct(Punct::DivideAssign) => 1,
        RefToken::RegEx => 2,
        _ => 0,
    };
    Entry {
        kind,
        reread,
        len: text.len(),
        text,
        curly,
        slash,
        close,
        cont,
        paren: matches!(kind, RefToken::Punct(Punct::OpenParen)),
        eof: matches!(kind, RefToken::EoF),
        has_nl: has_line_term(text),
    }
}

#[allow(dead_code)]
fn _unused(_: Keyword, _: Number, _: StringLit) {}
