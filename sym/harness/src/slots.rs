//! The symbolic source: a row of slots of `WIDTH` bytes, one token each.
use crate::api;
use crate::vocab::*;
use crate::scn::{Scn, GRAMMAR, ANY, COMMENTS, F_COMMENTS};
#[cfg(feature = "sym")]
use ress::refs::sym;

pub const MAX: usize = 84;
pub const WIDTH: usize = 16;
/// The tokens slot may hold, and what the gap behind it may hold: 0 blanks, 1 a line feed,
/// 2 blanks or a line feed, 3 blanks or any line terminator, 4 any line terminator.
pub struct Slot { pub dom: &'static [u8], pub nl: u8 }

pub struct Source { pub n: usize, pub tok: [u8; MAX], pub text: String, pub width: usize, pub comments: bool, pub nl: [bool; MAX], pub nlk: [u8; MAX] }

pub const TERM: [[u8; 3]; 5] = [[b' ', b' ', b' '], [b'\n', b' ', b' '], [b'\r', b' ', b' '], [b'\r', b'\n', b' '], [0xe2, 0x80, 0xa8]];

/// One place of a row: a token, or what stands for a nonterminal of the grammar.
pub struct Item { pub nt: u16, pub slot: Slot }
pub const T: u16 = 0xffff;
/// An alternative of a nonterminal, and what it takes of the size of the sentence.
pub struct Alt { pub cost: u8, pub items: &'static [Item] }

/// One token, whichever it is, is replaced, or one is put in or taken away.
pub const E_TOKEN: u8 = 1;
/// The source ends early.
pub const E_CUT: u8 = 2;
/// A token is replaced by a line feed.
pub const E_FEED: u8 = 4;
/// There is a line terminator at one place.
pub const E_LINE: u8 = 8;
/// There is a comment at one place.
pub const E_COMMENT: u8 = 16;

/// All derivations within the size: one path each.
fn expand(items: &'static [Item], size: &mut u8, out: &mut Vec<(&'static [u8], u8)>) {
    for i in items {
        if i.nt == T {
            out.push((i.slot.dom, i.slot.nl));
            continue;
        }
        let alts = GRAMMAR[i.nt as usize];
        // alternatives are in the order of their costs
        let mut n = 0;
        while n < alts.len() && alts[n].cost <= *size { n += 1 }
        let a = &alts[if n == 1 { 0 } else { api::one(n) }];
        *size -= a.cost;
        expand(a.items, size, out);
    }
}

pub fn build(s: &'static Scn) -> Source {
    let width = WIDTH;
    let comments = s.flags & F_COMMENTS != 0;
    let mut row: Vec<(&'static [u8], u8)> = Vec::with_capacity(MAX);
    let mut size = s.size;
    expand(s.items, &mut size, &mut row);
    if s.edits & E_TOKEN != 0 {
        let at = api::one(row.len() * 3 + 1);
        let i = at / 3;
        match at % 3 {
            0 => row.insert(i, (ANY, 0)),
            1 => row[i].0 = ANY,
            _ => { row.remove(i); }
        }
    }
    if s.edits & E_CUT != 0 {
        let n = api::one(row.len());
        row.truncate(n);
    }
    if s.edits & E_FEED != 0 && !row.is_empty() {
        let i = api::one(row.len());
        row.remove(i);
        if i > 0 { row[i - 1].1 = 1 }
    }
    if s.edits & E_LINE != 0 && !row.is_empty() {
        let i = api::one(row.len());
        row[i].1 = if s.edits & E_TOKEN != 0 { 1 } else { 4 };
    }
    if s.edits & E_COMMENT != 0 {
        let i = api::one(row.len() + 1);
        row.insert(i, (COMMENTS, 0));
    }
    let mut tok = [EOF; MAX];
    let mut nl = [false; MAX];
    let mut nlk = [0u8; MAX];
    let n = row.len() + 1;
    let mut text = vec![b' '; row.len() * width];
    for (i, s) in row.iter().enumerate() {
        let t = if s.0.len() == 1 { s.0[0] } else { s.0[api::choice(s.0.len())] };
        tok[i] = t;
        for j in 0..width - 1 {
            text[i * width + j] = GLYPHS[t as usize][j];
        }
        let at = i * width + 13;
        let kind = if comments && s.1 == 0 && t == C_LINE { 1 } else { s.1 };
        match kind {
            0 => (),
            1 => { nl[i] = true; nlk[i] = 1; text[at] = b'\n' }
            2 => {
                let k = api::choice(2);
                nl[i] = k != 0;
                nlk[i] = k as u8;
                text[at] = TERM[k][0];
            }
            _ => {
                let k = if kind == 4 { api::choice(4) + 1 } else { api::choice(5) };
                nl[i] = k != 0;
                nlk[i] = k as u8;
                for j in 0..3 { text[at + j] = TERM[k][j] }
            }
        }
    }
    #[cfg(feature = "sym")]
    unsafe {
        sym::VOC = &ENTRIES;
        sym::WIDTH = width;
        for i in 0..n {
            sym::TOK[i] = tok[i];
            sym::NL[i] = nl[i] as u8;
        }
    }
    Source { n, tok, nl, nlk, width, comments, text: unsafe { String::from_utf8_unchecked(text) } }
}
pub static GLYPHS: [[u8; 15]; COUNT] = glyphs();
const fn glyphs() -> [[u8; 15]; COUNT] {
    let mut r = [[b' '; 15]; COUNT];
    let mut i = 0;
    while i < COUNT {
        let b = TABLE_C[i].1.as_bytes();
        let mut j = 0;
        while j < b.len() { r[i][j] = b[j]; j += 1; }
        i += 1;
    }
    r
}
