//! An independent reading of the ECMAScript 2019 grammar over the token array: the oracle.
//!
//! Written from the specification, with the context parameters of its productions passed by value
//! (so nothing can leak), and producing the expected tree in flat preorder form.  Where ressa is
//! known to be more lenient than the specification (or, in a few obscure places, stricter) the
//! oracle says so instead of guessing: `may` -- either verdict is fine, but an accepted program
//! must have this tree; `free` -- nothing is claimed for this program.
use crate::item::*;
use crate::slots::Source;
use crate::vocab::*;

pub type C = u32;
pub const IN: C = 1;
/// `yield` is an operator
pub const Y: C = 2;
/// `await` is an operator
pub const A: C = 4;
/// inside the braces of a function
pub const RET: C = 8;
pub const STRICT: C = 16;
pub const MOD: C = 32;
/// inside a function that is not an arrow function (`new.target`)
pub const NT: C = 64;
/// directly in a method (or an arrow function in it)
pub const METH: C = 128;
/// directly in the constructor of a derived class
pub const DERIVED: C = 256;
pub const LOOP: C = 512;
pub const SWITCH: C = 1024;
/// parameters of a generator / of an async function
pub const YP: C = 2048;
pub const AP: C = 4096;
/// not at the top level of the program
pub const NESTED: C = 8192;
/// tolerant mode: some errors are not reported
pub const TOL: C = 16384;

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Reject;
pub type P<T> = Result<T, Reject>;

/// What an expression can be reinterpreted as.
#[derive(Clone, Copy)]
pub struct At {
    /// 0 not an assignment target, 1 a reference, 2 a valid pattern
    pub tgt: u8,
    /// can be a binding (arrow parameter)
    pub bind: bool,
    /// a lone identifier token
    pub ident: bool,
    /// arrow function head: 1 plain, 2 async
    pub arrow: u8,
    /// `{a = 1}` not (yet) resolved as a pattern
    pub cover: bool,
    /// written in parentheses
    pub paren: bool,
    /// `target = value`
    pub asg: bool,
    /// as a pattern it is not valid, but ressa may accept it
    pub lenient: bool,
    /// eval / arguments
    pub restricted: bool,
    /// all parameters are identifiers (arrow head)
    pub simple: bool,
}
pub const NO: At = At { tgt: 0, bind: false, ident: false, arrow: 0, cover: false, paren: false, asg: false, lenient: false, restricted: false, simple: false };

pub struct R<'s> {
    pub s: &'s Source,
    pub tok: [u8; 88],
    pub slot: [u8; 88],
    pub nlb: [bool; 88],
    pub i: usize,
    pub out: Vec<Item>,
    pub may: bool,
    pub free: bool,
    /// number of yield / await tokens read as anything
    pub ny: u32,
    pub na: u32,
    pub arrow_at: usize,
    pub labels: [u8; 8],
    pub nlabels: usize,
    reserved_param: bool,
    import_args: u8,
    starts: [usize; 24],
    /// top level parts read, and where the one being read starts
    pub parts_done: usize,
    pub part_start: usize,
    pub n: usize,
    /// the reason is no token that cannot follow, but what the tokens mean
    pub late: bool,
    nstarts: usize,
}

const fn len_table() -> [usize; COUNT] {
    let mut r = [0; COUNT];
    let mut i = 0;
    while i < COUNT {
        r[i] = TABLE_C[i].1.len();
        i += 1;
    }
    r
}
pub static LEN: [usize; COUNT] = len_table();
/// length of a regular expression literal's pattern
const fn pat_table() -> [usize; COUNT] {
    let mut r = [0; COUNT];
    let mut i = R_PLAIN as usize;
    while i <= R_ESC as usize {
        let b = TABLE_C[i].1.as_bytes();
        let mut j = b.len() - 1;
        while b[j] != b'/' {
            j -= 1;
        }
        r[i] = j - 1;
        i += 1;
    }
    r
}
pub static PATLEN: [usize; COUNT] = pat_table();

/// binary operator precedence
const fn prec_table() -> [u8; COUNT] {
    let mut r = [0; COUNT];
    r[P_LOGICALOR as usize] = 1;
    r[P_LOGICALAND as usize] = 2;
    r[P_PIPE as usize] = 3;
    r[P_CARET as usize] = 4;
    r[P_AND as usize] = 5;
    r[P_EQUAL as usize] = 6;
    r[P_NOTEQUAL as usize] = 6;
    r[P_STRICTEQUALS as usize] = 6;
    r[P_STRICTNOTEQUALS as usize] = 6;
    r[P_LESSTHAN as usize] = 7;
    r[P_GREATERTHAN as usize] = 7;
    r[P_LESSTHANEQUAL as usize] = 7;
    r[P_GREATERTHANEQUAL as usize] = 7;
    r[K_INSTANCEOF as usize] = 7;
    r[K_IN as usize] = 7;
    r[P_LEFTSHIFT as usize] = 8;
    r[P_RIGHTSHIFT as usize] = 8;
    r[P_UNSIGNEDRIGHTSHIFT as usize] = 8;
    r[P_PLUS as usize] = 9;
    r[P_MINUS as usize] = 9;
    r[P_ASTERISK as usize] = 10;
    r[P_FORWARDSLASH as usize] = 10;
    r[P_MODULO as usize] = 10;
    r
}
pub static PREC: [u8; COUNT] = prec_table();
const NOOP: u8 = 99;
const fn bin_table() -> [u8; COUNT] {
    let mut r = [NOOP; COUNT];
    let l = [
        (P_EQUAL, 0), (P_NOTEQUAL, 1), (P_STRICTEQUALS, 2), (P_STRICTNOTEQUALS, 3), (P_LESSTHAN, 4), (P_GREATERTHAN, 5),
        (P_LESSTHANEQUAL, 6), (P_GREATERTHANEQUAL, 7), (P_LEFTSHIFT, 8), (P_RIGHTSHIFT, 9), (P_UNSIGNEDRIGHTSHIFT, 10),
        (P_PLUS, 11), (P_MINUS, 12), (P_ASTERISK, 13), (P_FORWARDSLASH, 14), (P_MODULO, 15), (P_PIPE, 16), (P_CARET, 17),
        (P_AND, 18), (K_IN, 19), (K_INSTANCEOF, 20), (P_EXPONENT, 21), (P_LOGICALOR, 0), (P_LOGICALAND, 1),
    ];
    let mut i = 0;
    while i < l.len() {
        r[l[i].0 as usize] = l[i].1;
        i += 1;
    }
    r
}
pub static BIN: [u8; COUNT] = bin_table();
const fn asg_table() -> [u8; COUNT] {
    let mut r = [NOOP; COUNT];
    let l = [
        (P_ASSIGN, 0), (P_ADDASSIGN, 1), (P_SUBTRACTASSIGN, 2), (P_MULTIPLYASSIGN, 3), (P_DIVIDEASSIGN, 4), (P_MODULOASSIGN, 5),
        (P_LEFTSHIFTASSIGN, 6), (P_RIGHTSHIFTASSIGN, 7), (P_UNSIGNEDRIGHTSHIFTASSIGN, 8), (P_BITWISEORASSIGN, 9),
        (P_BITWISEXORASSIGN, 10), (P_BITWISEANDASSIGN, 11), (P_EXPONENTASSIGN, 12),
    ];
    let mut i = 0;
    while i < l.len() {
        r[l[i].0 as usize] = l[i].1;
        i += 1;
    }
    r
}
pub static ASG: [u8; COUNT] = asg_table();
const fn un_table() -> [u8; COUNT] {
    let mut r = [NOOP; COUNT];
    let l = [(P_MINUS, 0), (P_PLUS, 1), (P_NOT, 2), (P_BITWISENOT, 3), (K_TYPEOF, 4), (K_VOID, 5), (K_DELETE, 6)];
    let mut i = 0;
    while i < l.len() {
        r[l[i].0 as usize] = l[i].1;
        i += 1;
    }
    r
}
pub static UN: [u8; COUNT] = un_table();

// token classes
pub const G_OTHER: u8 = 0;
pub const G_ID: u8 = 1; // always an identifier
pub const G_SRES: u8 = 2; // reserved in strict code only (not let, yield)
pub const G_LET: u8 = 3;
pub const G_YIELD: u8 = 4;
pub const G_AWAIT: u8 = 5;
pub const G_KEY: u8 = 6; // any other reserved word, true and false included
pub const G_NULL: u8 = 7;
const fn class_table() -> [u8; COUNT] {
    let mut r = [G_OTHER; COUNT];
    let mut i = K_AWAIT as usize;
    while i <= K_YIELD as usize {
        r[i] = G_KEY;
        i += 1;
    }
    let mut i = I_A as usize;
    while i <= I_UNI as usize {
        r[i] = G_ID;
        i += 1;
    }
    r[K_IMPLEMENTS as usize] = G_SRES;
    r[K_INTERFACE as usize] = G_SRES;
    r[K_PACKAGE as usize] = G_SRES;
    r[K_PRIVATE as usize] = G_SRES;
    r[K_PROTECTED as usize] = G_SRES;
    r[K_PUBLIC as usize] = G_SRES;
    r[K_STATIC as usize] = G_SRES;
    r[K_LET as usize] = G_LET;
    r[K_YIELD as usize] = G_YIELD;
    r[K_AWAIT as usize] = G_AWAIT;
    r[L_TRUE as usize] = G_KEY;
    r[L_FALSE as usize] = G_KEY;
    r[I_NULL as usize] = G_NULL;
    r
}
pub static CLASSES: [u8; COUNT] = class_table();

fn is_string(t: u8) -> bool {
    t >= S_SINGLE && t <= S_CTOR
}
fn is_number(t: u8) -> bool {
    t >= N_DEC && t <= N_ZERO
}
fn is_regex(t: u8) -> bool {
    t >= R_PLAIN && t <= R_ESC
}
fn is_nosub(t: u8) -> bool {
    t == T_NOSUB || t == T_NOSUB_E || t == T_NOSUB_NL || t == T_NOSUB_ESC
}
fn is_head(t: u8) -> bool {
    t == T_HEAD || t == T_HEAD_E || t == T_HEAD_NL
}
fn is_body(t: u8) -> bool {
    t == T_BODY || t == T_BODY_E
}
fn is_tail(t: u8) -> bool {
    t == T_TAIL || t == T_TAIL_E || t == T_TAIL_NL
}
fn is_restricted(t: u8) -> bool {
    t == I_EVAL || t == I_ARGUMENTS
}
pub fn is_comment(t: u8) -> bool {
    t >= C_MULTI
}
/// Does the text of the token hold a line terminator?
pub fn has_newline(t: u8) -> bool {
    t == T_NOSUB_NL || t == T_HEAD_NL || t == T_TAIL_NL || comment_has_nl(t)
}
pub fn comment_has_nl(t: u8) -> bool {
    t == C_MULTI_NL || t == C_MULTI_CRLF
}

impl<'s> R<'s> {
    /// `nl_after(i)`: a line terminator is in the gap after slot `i`.
    pub fn new(s: &'s Source) -> R<'s> {
        let mut r = R {
            s, tok: [EOF; 88], slot: [0; 88], nlb: [false; 88], i: 0, out: Vec::with_capacity(128), may: false, free: false,
            ny: 0, na: 0, arrow_at: usize::MAX, labels: [0; 8], nlabels: 0,
            reserved_param: false, import_args: 1, starts: [0; 24], nstarts: 0, parts_done: 0, part_start: 0, n: 0, late: false,
        };
        let mut n = 0;
        let mut nl = false;
        let mut k = 0;
        while k < s.n {
            let t = s.tok[k];
            if s.comments && is_comment(t) {
                nl |= comment_has_nl(t) | s.nl[k];
            } else {
                r.tok[n] = t;
                r.slot[n] = k as u8;
                r.nlb[n] = nl;
                n += 1;
                nl = s.nl[k];
            }
            k += 1;
        }
        r.n = n;
        r
    }
    fn t(&self) -> u8 {
        self.tok[self.i]
    }
    fn pk(&self, k: usize) -> u8 {
        self.tok[self.i + k]
    }
    fn is(&self, t: u8) -> bool {
        self.t() == t
    }
    fn nl(&self) -> bool {
        self.nlb[self.i]
    }
    fn nl_at(&self, k: usize) -> bool {
        self.nlb[self.i + k]
    }
    fn eat(&mut self, t: u8) -> bool {
        if self.is(t) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: u8) -> P<()> {
        if self.eat(t) { Ok(()) } else { Err(Reject) }
    }
    // ---- output
    fn e(&mut self, tag: u32) {
        self.out.push(t(tag));
    }
    fn v(&mut self, v: usize) {
        self.out.push(Item { tag: VAL, start: 0, val: v });
    }
    fn ins(&mut self, at: usize, tag: u32) {
        self.out.insert(at, t(tag));
    }
    fn insv(&mut self, at: usize, v: usize) {
        self.out.insert(at, Item { tag: VAL, start: 0, val: v });
    }
    /// text of token `i`, without `a` bytes at its start and `b` at its end
    fn txt(&mut self, i: usize, a: usize, b: usize) {
        let start = self.slot[i] as usize * self.s.width + a;
        let len = LEN[self.tok[i] as usize].wrapping_sub(a + b);
        self.out.push(Item { tag: TEXT, start, val: len });
    }
    fn ident_expr(&mut self, i: usize) {
        self.e(E_IDENT);
        self.txt(i, 0, 0);
    }
    fn semi(&mut self) -> P<()> {
        if self.eat(P_SEMICOLON) || self.is(P_CLOSEBRACE) || self.nl() || self.is(EOF) {
            Ok(())
        } else {
            Err(Reject)
        }
    }

    // ---- identifiers
    /// Can token `t` be an identifier reference here?
    fn is_ref(&mut self, t: u8, c: C) -> bool {
        match CLASSES[t as usize] {
            G_ID => {
                if t == I_EXTENDS { self.may = true }
                true
            }
            G_SRES | G_LET => c & STRICT == 0,
            G_YIELD => {
                if c & (YP) != 0 { self.free = true }
                c & (STRICT | Y) == 0
            }
            G_AWAIT => {
                if c & (AP) != 0 { self.free = true }
                c & (MOD | A) == 0
            }
            _ => false,
        }
    }
    /// A binding identifier; kind as for `pattern`, 4 the name of a function or class.
    fn binding_ident(&mut self, c: C, kind: usize) -> P<()> {
        let t = self.t();
        let lex = kind == 1 || kind == 2;
        let is_var = kind == 0 || kind == 3 || kind == 5;
        match CLASSES[t as usize] {
            G_ID => {
                if t == I_EXTENDS { self.may = true }
                if c & STRICT != 0 && is_restricted(t) {
                    // ressa does not look at the names bound by an import
                    if kind != 5 { self.soft(c)? }
                    self.may = true;
                }
            }
            G_SRES => {
                if c & STRICT != 0 { return Err(Reject) }
                if !is_var { self.may = true }
            }
            G_LET => {
                if c & STRICT != 0 { return Err(Reject) }
                if lex { return Err(Reject) }
                if !is_var { self.may = true }
            }
            G_YIELD => {
                if c & (STRICT | Y | YP) != 0 { self.late = true; return Err(Reject) }
                self.ny += 1;
            }
            G_AWAIT => {
                if c & (MOD | A | AP) != 0 { return Err(Reject) }
                self.na += 1;
            }
            _ => return Err(Reject),
        }
        self.e(PT_IDENT);
        self.txt(self.i, 0, 0);
        self.i += 1;
        Ok(())
    }
    /// The name of a function or class, as an optional text.
    fn name(&mut self, c: C) -> P<()> {
        self.binding_ident(c, 4)?;
        let k = self.out.len();
        self.out.remove(k - 2);
        Ok(())
    }
    fn ident_name(&mut self) -> P<()> {
        match CLASSES[self.t() as usize] {
            G_OTHER => Err(Reject),
            _ => {
                self.txt(self.i, 0, 0);
                self.i += 1;
                Ok(())
            }
        }
    }

    // ---- program
    pub fn program(&mut self, c: C) -> P<()> {
        let mut c = c | IN;
        if c & MOD != 0 {
            c |= STRICT;
            self.e(PROG_MOD);
        } else {
            self.e(PROG_SCRIPT);
        }
        self.directives(c, &mut c, true)?;
        while !self.is(EOF) {
            self.part_start = self.i;
            self.item(c)?;
            self.parts_done += 1;
        }
        self.part_start = self.i;
        self.e(END);
        Ok(())
    }
    /// The directive prologue.  Leaves the strictness of the body in `c`; `ec` is the context of
    /// an expression statement at the end of it.
    fn directives(&mut self, ec: C, c: &mut C, simple: bool) -> P<()> {
        let mut ec = ec;
        while is_string(self.t()) {
            let at = self.out.len();
            let start = self.i;
            self.e(PART_STMT);
            self.e(S_EXPR);
            self.expr(ec)?;
            if self.i != start + 1 {
                self.semi()?;
                break;
            }
            // a lone string literal
            self.out.truncate(at);
            self.e(PART_DIR);
            self.e(L_STRING);
            self.txt(start, 0, 0);
            self.txt(start, 1, 1);
            let t = self.tok[start];
            self.semi()?;
            if t == S_STRICT || t == S_STRICT_D {
                if !simple { return Err(Reject) }
                *c |= STRICT;
                ec |= STRICT;
            }
        }
        Ok(())
    }
    fn items(&mut self, c: C) -> P<()> {
        while !self.is(P_CLOSEBRACE) {
            if self.is(EOF) { return Err(Reject) }
            self.item(c)?;
        }
        Ok(())
    }
    fn block(&mut self, c: C) -> P<()> {
        self.need(P_OPENBRACE)?;
        self.items(c | NESTED)?;
        self.i += 1;
        self.e(END);
        Ok(())
    }
    fn at_lexical(&mut self) -> bool {
        let n = self.pk(1);
        if n == P_OPENBRACKET || n == P_OPENBRACE { return true }
        match CLASSES[n as usize] {
            G_ID | G_NULL | G_YIELD | G_LET => true,
            G_AWAIT | G_SRES => {
                // ressa reads these as the expression `let`
                self.free = true;
                false
            }
            _ => false,
        }
    }
    fn item(&mut self, c: C) -> P<()> {
        match self.t() {
            K_IMPORT => {
                if self.pk(1) == P_OPENPAREN {
                    self.e(PART_STMT);
                    return self.stmt(c);
                }
                if c & MOD == 0 || c & NESTED != 0 { self.may = true }
                self.e(PART_DECL);
                self.import(c)
            }
            K_EXPORT => {
                if c & MOD == 0 || c & NESTED != 0 { self.may = true }
                self.e(PART_DECL);
                self.export(c)
            }
            K_CONST => {
                self.e(PART_DECL);
                self.lexical(c)
            }
            K_FUNCTION => {
                self.e(PART_DECL);
                self.e(D_FN);
                self.func_decl(c, true)
            }
            K_CLASS => {
                self.e(PART_DECL);
                self.e(D_CLASS);
                self.class(c, 0)
            }
            K_LET if self.at_lexical() => {
                self.e(PART_DECL);
                self.lexical(c)
            }
            I_ASYNC if self.pk(1) == K_FUNCTION && !self.nl_at(1) => {
                self.e(PART_STMT);
                self.e(S_EXPR);
                self.e(E_FN);
                self.func_decl(c, true)
            }
            _ => {
                self.e(PART_STMT);
                self.stmt(c)
            }
        }
    }
    fn lexical(&mut self, c: C) -> P<()> {
        self.e(D_VAR);
        let k = if self.is(K_LET) { 1 } else { 2 };
        self.v(k);
        self.i += 1;
        loop {
            self.declarator(c, k)?;
            if !self.eat(P_COMMA) { break }
        }
        self.semi()?;
        self.e(END);
        Ok(())
    }
    /// A declarator that is not in a for head.
    fn declarator(&mut self, c: C, kind: usize) -> P<()> {
        self.e(DECLARATOR);
        let id = self.pattern(c, kind)?;
        if self.eat(P_ASSIGN) {
            self.value(c)
        } else {
            if !id || kind == 2 { return Err(Reject) }
            self.e(NONE);
            Ok(())
        }
    }

    // ---- patterns (bindings); kind 0 var, 1 let, 2 const, 3 parameter or part of a pattern
    /// Returns whether it is an identifier.
    fn pattern(&mut self, c: C, kind: usize) -> P<bool> {
        match self.t() {
            P_OPENBRACKET => {
                self.i += 1;
                self.e(PT_ARRAY);
                while !self.is(P_CLOSEBRACKET) {
                    if self.eat(P_COMMA) {
                        self.e(HOLE);
                        continue;
                    }
                    self.e(PP_PAT);
                    if self.eat(P_SPREAD) {
                        self.e(PT_REST);
                        self.pattern(c, 3)?;
                        break;
                    }
                    self.element(c)?;
                    if !self.is(P_CLOSEBRACKET) { self.need(P_COMMA)? }
                }
                self.need(P_CLOSEBRACKET)?;
                self.e(END);
                Ok(false)
            }
            P_OPENBRACE => {
                self.i += 1;
                self.e(PT_OBJECT);
                while !self.is(P_CLOSEBRACE) {
                    if self.eat(P_SPREAD) {
                        self.e(OP_REST);
                        self.e(PT_REST);
                        let id = self.pattern(c, 3)?;
                        // `...[a]`, and anything after the rest, are early errors ressa does not report
                        if !id || !self.is(P_CLOSEBRACE) { self.may = true }
                    } else {
                        self.e(OP_ASSIGN);
                        self.property_pattern(c)?;
                    }
                    if !self.is(P_CLOSEBRACE) { self.need(P_COMMA)? }
                }
                self.need(P_CLOSEBRACE)?;
                self.e(END);
                Ok(false)
            }
            _ => {
                self.binding_ident(c, kind)?;
                Ok(true)
            }
        }
    }
    /// A pattern with an optional initializer.  Returns whether it is an identifier without one.
    fn element(&mut self, c: C) -> P<bool> {
        let at = self.out.len();
        let id = self.pattern(c, 3)?;
        if self.eat(P_ASSIGN) {
            self.ins(at, PT_ASSIGN);
            self.initializer(c)?;
            return Ok(false);
        }
        Ok(id)
    }
    fn initializer(&mut self, c: C) -> P<()> {
        self.value(c | IN)
    }
    fn property_pattern(&mut self, c: C) -> P<()> {
        self.e(PROP);
        self.v(0);
        self.v(0);
        let g = CLASSES[self.t() as usize];
        if g != G_OTHER && self.pk(1) != P_COLON {
            if g != G_ID {
                // `{yield}`, `{let}`: ressa wants a colon after any keyword
                self.may = true;
            }
            self.v(0);
            self.v(1);
            self.e(K_EXPR);
            let at = self.out.len();
            self.binding_ident(c, 3)?;
            self.out[at].tag = E_IDENT;
            if self.eat(P_ASSIGN) {
                self.e(V_EXPR);
                self.initializer(c)?;
            } else {
                self.e(V_NONE);
            }
            return Ok(());
        }
        let at = self.out.len();
        self.v(0);
        self.v(0);
        let computed = self.prop_key(c)?;
        self.out[at].val = computed as usize;
        self.need(P_COLON)?;
        self.e(V_PAT);
        self.element(c)?;
        Ok(())
    }
    /// A property name; returns whether it is computed.
    fn prop_key(&mut self, c: C) -> P<bool> {
        let t = self.t();
        if is_string(t) {
            self.e(K_LIT);
            self.e(L_STRING);
            self.txt(self.i, 0, 0);
            self.i += 1;
            return Ok(false);
        }
        if is_number(t) {
            self.e(K_LIT);
            self.e(L_NUMBER);
            self.txt(self.i, 0, 0);
            self.i += 1;
            return Ok(false);
        }
        if t == P_OPENBRACKET {
            self.i += 1;
            let at = self.out.len();
            self.value(c | IN)?;
            self.need(P_CLOSEBRACKET)?;
            let k = self.out.get(at + 1).map_or(NONE, |i| i.tag);
            if self.out[at].tag == E_LIT && (k == L_STRING || k == L_NUMBER || k == L_BOOL) {
                self.out[at].tag = K_LIT;
            } else {
                self.ins(at, K_EXPR);
            }
            return Ok(true);
        }
        self.e(K_EXPR);
        self.e(E_IDENT);
        self.ident_name()?;
        Ok(false)
    }
    fn at_prop_key(&self, k: usize) -> bool {
        let t = self.pk(k);
        is_string(t) || is_number(t) || t == P_OPENBRACKET || CLASSES[t as usize] != G_OTHER
    }

    // ---- functions
    /// `opt`: ressa also accepts a declaration without a name
    fn func_decl(&mut self, c: C, opt: bool) -> P<()> {
        self.func(c, if opt { 1 } else { 0 })
    }
    /// name: 0 required, 1 required but ressa accepts none, 2 optional (`export default`),
    /// 3 a function expression
    fn func(&mut self, c: C, name: u8) -> P<()> {
        let is_async = self.eat(I_ASYNC);
        self.need(K_FUNCTION)?;
        let generator = self.eat(P_ASTERISK);
        if is_async && generator {
            // asynchronous generators are not in the language level ressa reads
            self.free = true;
            return Err(Reject);
        }
        self.e(FUNC);
        let mut late = false;
        if self.is(P_OPENPAREN) {
            if name == 0 { return Err(Reject) }
            if name == 1 { self.may = true }
            self.e(NONE);
        } else {
            let t = self.t();
            let nc = if name == 3 {
                (c & !(Y | A | YP | AP)) | if generator { Y } else { 0 } | if is_async { A } else { 0 }
            } else {
                c
            };
            
            late = is_restricted(t) || CLASSES[t as usize] == G_YIELD;
            self.name(nc)?;
        }
        self.v(generator as usize);
        self.v(is_async as usize);
        let base = (c & (STRICT | MOD | TOL | RET)) | IN | NT | NESTED;
        self.func_tail(base, generator, is_async, late)
    }
    /// Parameters and body.  `late`: the name is not allowed if the body turns out to be strict.
    fn func_tail(&mut self, base: C, generator: bool, is_async: bool, late: bool) -> P<()> {
        let pc = base | if generator { YP } else { 0 } | if is_async { A | AP } else { 0 };
        let (simple, restricted, _, _) = self.params(pc)?;
        let bc = base | if generator { Y } else { 0 } | if is_async { A } else { 0 };
        let strict = self.fn_body(bc, simple)?;
        if strict && (late || restricted) {
            self.soft(base)?;
        }
        Ok(())
    }
    /// returns: simple, has a parameter `eval` or `arguments`, number, the last one is a rest
    fn params(&mut self, c: C) -> P<(bool, bool, usize, bool)> {
        self.need(P_OPENPAREN)?;
        let (mut simple, mut restricted, mut n, mut rest) = (true, false, 0, false);
        while !self.is(P_CLOSEPAREN) {
            self.e(PARAM_PAT);
            n += 1;
            if self.eat(P_SPREAD) {
                self.e(PT_REST);
                restricted |= is_restricted(self.t());
                simple = false;
                rest = true;
                self.pattern(c, 3)?;
                break;
            }
            let g = CLASSES[self.t() as usize];
            restricted |= is_restricted(self.t());
            if g != G_ID && g != G_OTHER {
                // reserved in strict code: a later "use strict" makes it an error ressa misses
                if !self.may { self.reserved_param = true }
            }
            simple &= self.element(c)?;
            if !self.is(P_CLOSEPAREN) { self.need(P_COMMA)? }
        }
        self.need(P_CLOSEPAREN)?;
        self.e(END);
        Ok((simple, restricted, n, rest))
    }
    /// `{ ... }` of a function; returns whether it is strict
    fn fn_body(&mut self, c: C, simple: bool) -> P<bool> {
        self.need(P_OPENBRACE)?;
        let reserved = self.reserved_param;
        self.reserved_param = false;
        let labels = (self.labels, self.nlabels);
        let ec = c;
        let mut c = c & !(LOOP | SWITCH);
        // ressa reads the directives as if it were still outside
        self.nlabels = 0;
        self.directives(ec, &mut c, simple)?;
        if c & STRICT != 0 && reserved { self.may = true }
        self.items(c | RET)?;
        self.i += 1;
        self.e(END);
        self.labels = labels.0;
        self.nlabels = labels.1;
        Ok(c & STRICT != 0)
    }
    /// name: 0 required, 1 required but ressa accepts none, 2 optional
    fn class(&mut self, c: C, name: u8) -> P<()> {
        self.need(K_CLASS)?;
        let c = c | STRICT;
        self.e(CLASS);
        let t = self.t();
        if name != 0 && (t == P_OPENBRACE || t == I_EXTENDS) {
            if name == 1 { self.may = true }
            self.e(NONE);
        } else {
            self.name(c)?;
        }
        let mut derived = false;
        if self.eat(I_EXTENDS) {
            derived = true;
            let a = self.lhs(c)?;
            if a.cover { return Err(Reject) }
        } else {
            self.e(NONE);
        }
        self.need(P_OPENBRACE)?;
        let mut ctor = false;
        while !self.eat(P_CLOSEBRACE) {
            if self.eat(P_SEMICOLON) { continue }
            self.class_element(c, derived, &mut ctor)?;
        }
        self.e(END);
        Ok(())
    }
    fn class_element(&mut self, c: C, derived: bool, ctor: &mut bool) -> P<()> {
        let is_static = self.is(K_STATIC) && (self.at_prop_key(1) || self.pk(1) == P_ASTERISK);
        if is_static { self.i += 1 }
        self.e(PROP);
        let at = self.out.len();
        self.v(0);
        self.v(0);
        self.v(0);
        self.v(0);
        let (kind, is_async) = self.method_prefix()?;
        let k = self.t();
        let computed = self.prop_key(c)?;
        let is_ctor = !is_static && !computed && k == I_CONSTRUCTOR;
        if !is_static && k == S_CTOR {
            // ressa does not see that this is the constructor
            self.free = true;
        }
        if is_ctor {
            if kind != 0 || is_async || *ctor { self.late = true; return Err(Reject) }
            *ctor = true;
        }
        if is_static && !computed && k == I_PROTOTYPE { self.late = true; return Err(Reject) }
        let (pk, method) = match kind {
            1 => (1, 0),
            2 => (2, 0),
            _ => (if is_ctor { 3 } else { 4 }, 1),
        };
        self.out[at].val = pk;
        self.out[at + 1].val = method;
        self.out[at + 2].val = computed as usize;
        if !self.is(P_OPENPAREN) { return Err(Reject) }
        self.method(c, kind, is_async, is_ctor && derived)
    }
    /// The modifiers of a method: 0 none, 1 get, 2 set, 3 generator; async.
    fn method_prefix(&mut self) -> P<(u8, bool)> {
        match self.t() {
            P_ASTERISK => {
                self.i += 1;
                Ok((3, false))
            }
            I_GET if self.at_prop_key(1) => {
                self.i += 1;
                Ok((1, false))
            }
            I_SET if self.at_prop_key(1) => {
                self.i += 1;
                Ok((2, false))
            }
            I_ASYNC if self.at_prop_key(1) && !self.nl_at(1) => {
                self.i += 1;
                Ok((0, true))
            }
            I_ASYNC if self.pk(1) == P_ASTERISK => {
                // asynchronous generators are not in the language level ressa reads
                self.free = true;
                Err(Reject)
            }
            _ => Ok((0, false)),
        }
    }
    fn method(&mut self, c: C, kind: u8, is_async: bool, derived: bool) -> P<()> {
        self.e(V_EXPR);
        self.e(E_FN);
        self.e(FUNC);
        self.e(NONE);
        let generator = kind == 3;
        self.v(generator as usize);
        self.v(is_async as usize);
        let base = (c & (STRICT | MOD | TOL | RET)) | IN | NT | NESTED | METH | if derived { DERIVED } else { 0 };
        let pc = base | if generator { YP } else { 0 } | if is_async { A | AP } else { 0 };
        let (simple, restricted, n, rest) = self.params(pc)?;
        if kind == 1 && n != 0 { self.soft(c)? }
        if kind == 2 && (n != 1 || rest) { self.soft(c)? }
        let bc = base | if generator { Y } else { 0 } | if is_async { A } else { 0 };
        if self.fn_body(bc, simple)? && restricted { self.soft(c)? }
        Ok(())
    }
    /// An error which is not reported in tolerant mode.
    fn soft(&mut self, c: C) -> P<()> {
        if c & TOL != 0 {
            self.may = true;
            return Ok(());
        }
        Err(Reject)
    }

    // ---- expressions
    /// Expression: one or more assignment expressions
    fn expr(&mut self, c: C) -> P<()> {
        let at = self.out.len();
        self.value(c)?;
        if self.is(P_COMMA) {
            self.ins(at, E_SEQ);
            while self.eat(P_COMMA) {
                self.value(c)?;
            }
            self.e(END);
        }
        Ok(())
    }
    /// An assignment expression that is not the left part of anything.
    fn value(&mut self, c: C) -> P<()> {
        let a = self.assign(c)?;
        if a.cover { return Err(Reject) }
        Ok(())
    }
    fn assign(&mut self, c: C) -> P<At> {
        if c & Y != 0 && self.is(K_YIELD) {
            return self.yield_expr(c);
        }
        let at = self.out.len();
        let start = self.i;
        let outer = self.arrow_at;
        self.arrow_at = start;
        // `async x => ...`
        if self.is(I_ASYNC) && !self.nl_at(1) {
            let g = CLASSES[self.pk(1) as usize];
            if g == G_ID || ((g == G_SRES || g == G_LET || g == G_YIELD || g == G_AWAIT) && self.pk(2) == P_FATARROW) {
                if g == G_SRES || g == G_LET || g == G_AWAIT {
                    // only plain identifiers are recognised here
                    self.may = true;
                }
                self.i += 1;
                self.e(PARAM_PAT);
                self.binding_ident(c | A, 3)?;
                return self.arrow(c, at, true, true);
            }
        }
        let a = self.conditional(c);
        self.arrow_at = outer;
        let a = a?;
        if self.is(P_FATARROW) {
            if a.arrow != 0 {
                return self.arrow(c, at, a.arrow == 2, a.simple);
            }
            if a.ident && !a.paren {
                if c & STRICT != 0 && a.restricted { self.soft(c)? }
                self.ins(at, PARAM_EXPR);
                return self.arrow(c, at, false, true);
            }
            return Err(Reject);
        }
        if a.arrow != 0 { return Err(Reject) }
        let op = ASG[self.t() as usize];
        if op == NOOP { return Ok(a) }
        let plain = self.is(P_ASSIGN);
        if a.tgt == 0 { return Err(Reject) }
        if a.tgt == 2 && (!plain || a.paren) {
            // a compound assignment to a pattern, or to a pattern in parentheses
            self.may = true;
        }
        if c & STRICT != 0 && a.restricted { return Err(Reject) }
        if a.lenient { self.may = true }
        self.i += 1;
        self.value(c)?;
        self.ins(at, E_ASSIGN);
        self.insv(at + 1, op as usize);
        self.ins(at + 2, A_EXPR);
        Ok(At { asg: plain, bind: plain && a.bind, lenient: a.lenient, restricted: false, ..NO })
    }
    /// `=>` and the body; the parameters are in the output from `at`
    fn arrow(&mut self, c: C, at: usize, is_async: bool, simple: bool) -> P<At> {
        if self.nl() { return Err(Reject) }
        self.need(P_FATARROW)?;
        self.e(END);
        let block = self.is(P_OPENBRACE);
        self.ins(at, E_ARROW);
        self.ins(at + 1, NONE);
        self.insv(at + 2, !block as usize);
        self.insv(at + 3, 0);
        self.insv(at + 4, is_async as usize);
        let bc = (c & (STRICT | MOD | TOL | RET | NT | METH | DERIVED | IN)) | NESTED | if is_async { A } else { 0 };
        if block {
            self.e(BODY_FN);
            let strict = self.fn_body(bc | IN, simple)?;
            if strict && c & STRICT == 0 {
                // parameter names are not looked at again
                self.may = true;
            }
        } else {
            self.e(BODY_EXPR);
            self.value(bc)?;
        }
        Ok(NO)
    }
    fn yield_expr(&mut self, c: C) -> P<At> {
        self.ny += 1;
        self.i += 1;
        self.e(E_YIELD);
        let at = self.out.len();
        self.v(0);
        if self.nl() {
            self.e(NONE);
            return Ok(NO);
        }
        if self.eat(P_ASTERISK) {
            self.out[at].val = 1;
            self.value(c)?;
        } else if self.starts_expr() {
            self.value(c)?;
        } else {
            self.e(NONE);
        }
        Ok(NO)
    }
    fn starts_expr(&mut self) -> bool {
        let t = self.t();
        match CLASSES[t as usize] {
            G_ID | G_NULL | G_LET | G_YIELD | G_AWAIT => return true,
            G_SRES => {
                // ressa takes these for the end of the yield expression
                self.free = true;
                return true;
            }
            _ => (),
        }
        match t {
            P_OPENBRACE | P_OPENPAREN | P_OPENBRACKET | P_PLUS | P_MINUS | P_NOT | P_BITWISENOT | P_INCREMENT | P_DECREMENT => true,
            K_CLASS | K_DELETE | K_FUNCTION | K_IMPORT | K_NEW | K_SUPER | K_THIS | K_TYPEOF | K_VOID | L_TRUE | L_FALSE => true,
            _ => is_string(t) || is_number(t) || is_regex(t) || is_nosub(t) || is_head(t),
        }
    }
    fn conditional(&mut self, c: C) -> P<At> {
        let at = self.out.len();
        let a = self.binary(c, 1)?;
        if !self.eat(P_QUESTIONMARK) { return Ok(a) }
        if a.cover || a.arrow != 0 { return Err(Reject) }
        self.ins(at, E_COND);
        self.value(c | IN)?;
        self.need(P_COLON)?;
        self.value(c)?;
        Ok(NO)
    }
    fn binary(&mut self, c: C, min: u8) -> P<At> {
        let at = self.out.len();
        let mut a = self.exponent(c)?;
        loop {
            let t = self.t();
            let p = PREC[t as usize];
            if p < min || (t == K_IN && c & IN == 0) { return Ok(a) }
            if a.cover || a.arrow != 0 { return Err(Reject) }
            self.i += 1;
            let r = self.binary(c, p + 1)?;
            if r.cover || r.arrow != 0 { return Err(Reject) }
            self.ins(at, if p <= 2 { E_LOGICAL } else { E_BINARY });
            self.insv(at + 1, BIN[t as usize] as usize);
            a = NO;
        }
    }
    fn exponent(&mut self, c: C) -> P<At> {
        let at = self.out.len();
        let t = self.t();
        let un = UN[t as usize] != NOOP || (t == K_AWAIT && c & A != 0);
        let a = self.unary(c)?;
        if !self.is(P_EXPONENT) { return Ok(a) }
        if un || a.cover || a.arrow != 0 { return Err(Reject) }
        self.i += 1;
        let r = self.exponent(c)?;
        if r.cover || r.arrow != 0 { return Err(Reject) }
        self.ins(at, E_BINARY);
        self.insv(at + 1, BIN[P_EXPONENT as usize] as usize);
        Ok(NO)
    }
    fn operand(&mut self, c: C) -> P<At> {
        let a = self.unary(c)?;
        if a.cover || a.arrow != 0 { return Err(Reject) }
        Ok(a)
    }
    fn unary(&mut self, c: C) -> P<At> {
        let t = self.t();
        let op = UN[t as usize];
        if op != NOOP {
            self.i += 1;
            self.e(E_UNARY);
            self.v(op as usize);
            self.v(1);
            let a = self.operand(c)?;
            if t == K_DELETE && c & STRICT != 0 && a.ident { return Err(Reject) }
            return Ok(NO);
        }
        if t == K_AWAIT && c & A != 0 {
            if c & AP != 0 { self.free = true }
            self.na += 1;
            self.i += 1;
            self.e(E_AWAIT);
            self.operand(c)?;
            return Ok(NO);
        }
        if t == P_INCREMENT || t == P_DECREMENT {
            self.i += 1;
            self.e(E_UPDATE);
            self.v((t == P_DECREMENT) as usize);
            self.v(1);
            let a = self.operand(c)?;
            self.update_target(c, a)?;
            return Ok(NO);
        }
        let at = self.out.len();
        let a = self.lhs(c)?;
        let t = self.t();
        if (t == P_INCREMENT || t == P_DECREMENT) && !self.nl() {
            if a.cover || a.arrow != 0 { return Err(Reject) }
            self.update_target(c, a)?;
            self.i += 1;
            self.ins(at, E_UPDATE);
            self.insv(at + 1, (t == P_DECREMENT) as usize);
            self.insv(at + 2, 0);
            return Ok(NO);
        }
        Ok(a)
    }
    fn update_target(&mut self, c: C, a: At) -> P<()> {
        if a.tgt == 0 { return Err(Reject) }
        if a.tgt == 2 { self.may = true }
        if c & STRICT != 0 && a.restricted { return Err(Reject) }
        Ok(())
    }
    /// `Arguments`
    fn args(&mut self, c: C) -> P<()> {
        self.need(P_OPENPAREN)?;
        while !self.is(P_CLOSEPAREN) {
            if self.eat(P_SPREAD) {
                self.e(E_SPREAD);
            }
            self.value(c | IN)?;
            if !self.is(P_CLOSEPAREN) { self.need(P_COMMA)? }
        }
        self.need(P_CLOSEPAREN)?;
        self.e(END);
        Ok(())
    }
    /// A left hand side expression.
    fn lhs(&mut self, c: C) -> P<At> {
        let at = self.out.len();
        let head = self.arrow_at == self.i;
        let start = self.i;
        let mut a;
        if self.is(K_SUPER) {
            self.i += 1;
            self.e(E_SUPER);
            if self.is(P_OPENPAREN) {
                self.allowed(c, DERIVED)?;
            } else if self.is(P_PERIOD) || self.is(P_OPENBRACKET) {
                self.allowed(c, METH)?;
            } else {
                return Err(Reject);
            }
            a = NO;
        } else if self.is(I_ASYNC) && self.pk(1) == P_OPENPAREN && !self.nl_at(1) {
            // a call of `async`, or the head of an asynchronous arrow function
            self.ident_expr(self.i);
            self.i += 1;
            let args = self.out.len();
            let (ok, simple, cover) = self.async_args(c)?;
            if self.is(P_FATARROW) {
                if !head { return Err(Reject) }
                self.out.truncate(self.out.len() - 1); // END
                // the callee `async` is not part of the arrow function
                self.out.drain(at..args);
                let mut k = 0;
                while k < self.nstarts {
                    let p = self.starts[k] - (args - at) + k;
                    self.ins(p, PARAM_EXPR);
                    k += 1;
                }
                if !ok { return Err(Reject) }
                return Ok(At { arrow: 2, simple, ..NO });
            }
            if cover { return Err(Reject) }
            self.ins(at, E_CALL);
            a = NO;
        } else if self.is(K_NEW) {
            a = self.new_expr(c)?;
        } else {
            a = self.primary(c)?;
        }
        loop {
            if a.arrow != 0 { return Ok(a) }
            match self.t() {
                P_PERIOD => {
                    if a.cover { self.may = true }
                    self.i += 1;
                    self.ins(at, E_MEMBER);
                    self.insv(at + 1, 0);
                    self.e(E_IDENT);
                    self.ident_name()?;
                    a = At { tgt: 1, cover: a.cover, ..NO };
                }
                P_OPENBRACKET => {
                    if a.cover { self.may = true }
                    self.i += 1;
                    self.ins(at, E_MEMBER);
                    self.insv(at + 1, 1);
                    self.expr(c | IN)?;
                    self.need(P_CLOSEBRACKET)?;
                    a = At { tgt: 1, cover: a.cover, ..NO };
                }
                P_OPENPAREN => {
                    if a.cover { self.may = true }
                    self.ins(at, E_CALL);
                    self.args(c)?;
                    if self.tok[start] == K_IMPORT && self.import_args != 1 { self.may = true }
                    a = At { cover: a.cover, ..NO };
                }
                t if is_nosub(t) || is_head(t) => {
                    if a.cover { self.may = true }
                    self.ins(at, E_TAGGED);
                    self.template(c)?;
                    a = At { cover: a.cover, ..NO };
                }
                _ => return Ok(a),
            }
        }
    }
    /// Arguments of `async`: are they valid parameters, are they all identifiers, is there an
    /// unresolved `{a = 1}`.  The places where they start are left in `starts`.
    fn async_args(&mut self, c: C) -> P<(bool, bool, bool)> {
        self.need(P_OPENPAREN)?;
        let mut starts = [0; 24];
        let mut n = 0;
        let (mut ok, mut simple, mut cover, mut restricted, mut arrow_may) = (true, true, false, false, false);
        let na = self.na;
        let ny = self.ny;
        while !self.is(P_CLOSEPAREN) {
            starts[n] = self.out.len();
            n += 1;
            let spread = self.eat(P_SPREAD);
            if spread {
                self.e(E_SPREAD);
            }
            let a = self.assign(c | IN)?;
            ok &= a.bind;
            if a.lenient || a.paren || spread && a.asg { arrow_may = true }
            restricted |= c & STRICT != 0 && a.restricted && !spread;
            ok &= !(c & STRICT != 0 && a.restricted);
            simple &= a.ident && !spread;
            cover |= a.cover;
            if spread && a.cover && !self.is(P_CLOSEPAREN) { arrow_may = true }
            if !self.is(P_CLOSEPAREN) {
                self.need(P_COMMA)?;
                if spread { arrow_may = true }
            }
        }
        self.need(P_CLOSEPAREN)?;
        self.e(END);
        if self.is(P_FATARROW) && (na != self.na || ny != self.ny) { self.free = true }
        if self.is(P_FATARROW) && restricted { self.soft(c)? }
        if self.is(P_FATARROW) && arrow_may { self.may = true }
        self.starts = starts;
        self.nstarts = n;
        Ok((ok, simple, cover))
    }
    /// Is `super` or `new.target` allowed here?
    fn allowed(&mut self, c: C, bit: C) -> P<()> {
        let spec = c & bit != 0;
        let ressa = c & RET != 0;
        if spec != ressa {
            self.may = true;
        } else if !spec {
            return Err(Reject);
        }
        Ok(())
    }
    fn new_expr(&mut self, c: C) -> P<At> {
        self.need(K_NEW)?;
        if self.eat(P_PERIOD) {
            if !self.is(I_TARGET) { return Err(Reject) }
            self.allowed(c, NT)?;
            self.e(E_META);
            self.txt(self.i - 2, 0, 0);
            self.txt(self.i, 0, 0);
            self.i += 1;
            return Ok(NO);
        }
        if self.is(K_IMPORT) { return Err(Reject) }
        self.e(E_NEW);
        let at = self.out.len();
        let a;
        if self.is(K_SUPER) {
            self.i += 1;
            self.e(E_SUPER);
            if !self.is(P_PERIOD) && !self.is(P_OPENBRACKET) { return Err(Reject) }
            self.allowed(c, METH)?;
            a = NO;
        } else if self.is(K_NEW) {
            a = self.new_expr(c)?;
        } else {
            a = self.primary(c)?;
        }
        if a.cover || a.arrow != 0 { return Err(Reject) }
        loop {
            match self.t() {
                P_PERIOD => {
                    self.i += 1;
                    self.ins(at, E_MEMBER);
                    self.insv(at + 1, 0);
                    self.e(E_IDENT);
                    self.ident_name()?;
                }
                P_OPENBRACKET => {
                    self.i += 1;
                    self.ins(at, E_MEMBER);
                    self.insv(at + 1, 1);
                    self.expr(c | IN)?;
                    self.need(P_CLOSEBRACKET)?;
                }
                t if is_nosub(t) || is_head(t) => {
                    self.ins(at, E_TAGGED);
                    self.template(c)?;
                }
                _ => break,
            }
        }
        if self.is(P_OPENPAREN) {
            self.args(c)?;
        } else {
            self.e(END);
        }
        Ok(NO)
    }
    fn template(&mut self, c: C) -> P<()> {
        let t = self.t();
        self.e(QUASI);
        if is_nosub(t) {
            self.v(1);
            self.txt(self.i, 1, 1);
            self.txt(self.i, 0, 0);
            self.i += 1;
        } else {
            self.v(0);
            self.txt(self.i, 1, 2);
            self.txt(self.i, 0, 0);
            self.i += 1;
            loop {
                self.expr(c | IN)?;
                let t = self.t();
                self.e(QUASI);
                if is_tail(t) {
                    self.v(1);
                    self.txt(self.i, 1, 1);
                    self.txt(self.i, 0, 0);
                    self.i += 1;
                    break;
                }
                if !is_body(t) { return Err(Reject) }
                self.v(0);
                self.txt(self.i, 1, 2);
                self.txt(self.i, 0, 0);
                self.i += 1;
            }
        }
        self.e(END);
        Ok(())
    }
    fn primary(&mut self, c: C) -> P<At> {
        let t = self.t();
        let i = self.i;
        match CLASSES[t as usize] {
            G_OTHER => (),
            G_NULL => {
                self.e(E_LIT);
                self.e(L_NULL);
                self.i += 1;
                return Ok(NO);
            }
            G_KEY => match t {
                K_FUNCTION => {
                    self.e(E_FN);
                    self.func(c, 3)?;
                    return Ok(NO);
                }
                K_CLASS => {
                    self.e(E_CLASS);
                    self.class(c, 2)?;
                    return Ok(NO);
                }
                K_THIS => {
                    self.e(E_THIS);
                    self.i += 1;
                    return Ok(NO);
                }
                L_TRUE | L_FALSE => {
                    self.e(E_LIT);
                    self.e(L_BOOL);
                    self.v((t == L_TRUE) as usize);
                    self.i += 1;
                    return Ok(NO);
                }
                K_IMPORT => {
                    if self.pk(1) != P_OPENPAREN { return Err(Reject) }
                    self.ident_expr(i);
                    self.i += 1;
                    // one argument exactly; ressa does not count them
                    let mut k = 1;
                    let mut depth = 0;
                    self.import_args = 1;
                    if self.pk(1) == P_CLOSEPAREN || self.pk(1) == P_SPREAD { self.import_args = 0 }
                    while self.pk(k) != EOF {
                        match self.pk(k) {
                            P_OPENPAREN | P_OPENBRACE | P_OPENBRACKET => depth += 1,
                            P_CLOSEBRACE | P_CLOSEBRACKET => depth -= 1,
                            P_CLOSEPAREN => {
                                if depth == 0 { break }
                                depth -= 1;
                            }
                            P_COMMA if depth == 0 => self.import_args = 2,
                            _ => (),
                        }
                        k += 1;
                    }
                    return Ok(NO);
                }
                _ => return Err(Reject),
            },
            _ => {
                if t == I_ASYNC && self.pk(1) == K_FUNCTION && !self.nl_at(1) {
                    self.e(E_FN);
                    self.func(c, 3)?;
                    return Ok(NO);
                }
                if !self.is_ref(t, c) { return Err(Reject) }
                if t == K_YIELD { self.ny += 1 }
                if t == K_AWAIT { self.na += 1 }
                self.ident_expr(i);
                self.i += 1;
                return Ok(At { tgt: 1, bind: true, ident: true, restricted: is_restricted(t), ..NO });
            }
        }
        if t == P_OPENPAREN { return self.group(c) }
        if t == P_OPENBRACKET { return self.array(c) }
        if t == P_OPENBRACE { return self.object(c) }
        if is_number(t) {
            self.e(E_LIT);
            self.e(L_NUMBER);
            self.txt(i, 0, 0);
        } else if is_string(t) {
            self.e(E_LIT);
            self.e(L_STRING);
            self.txt(i, 0, 0);
        } else if is_regex(t) {
            self.e(E_LIT);
            self.e(L_REGEX);
            let p = PATLEN[t as usize];
            self.txt(i, 1, 0);
            let k = self.out.len() - 1;
            self.out[k].val = p;
            self.txt(i, 0, 0);
            let k = k + 1;
            self.out[k].start += p + 2;
            self.out[k].val -= p + 2;
        } else if is_nosub(t) || is_head(t) {
            self.e(E_LIT);
            self.e(L_TEMPLATE);
            self.template(c)?;
            return Ok(NO);
        } else {
            return Err(Reject);
        }
        self.i += 1;
        Ok(NO)
    }
    /// `( ... )`: an expression in parentheses, or the parameters of an arrow function
    fn group(&mut self, c: C) -> P<At> {
        let head = self.arrow_at == self.i;
        let at = self.out.len();
        self.i += 1;
        let c = c | IN;
        let mut starts = [0; 24];
        let mut n = 0;
        let (mut ok, mut simple, mut cover, mut only, mut group_may) = (true, true, false, false, false);
        let na = self.na;
        let ny = self.ny;
        let mut last = NO;
        while !self.is(P_CLOSEPAREN) {
            starts[n] = self.out.len();
            n += 1;
            if self.eat(P_SPREAD) {
                self.e(PT_REST);
                // a binding pattern; it is the last parameter
                self.pattern(c, 3)?;
                only = true;
                simple = false;
                n -= 1;
                let p = starts[n];
                self.ins(p, PARAM_PAT);
                break;
            }
            last = self.assign(c)?;
            ok &= last.bind;
            if last.lenient || last.paren { group_may = true }
            if c & STRICT != 0 && last.restricted { ok = false }
            simple &= last.ident;
            cover |= last.cover;
            if !self.is(P_CLOSEPAREN) {
                self.need(P_COMMA)?;
                if self.is(P_CLOSEPAREN) { only = true }
            }
        }
        self.need(P_CLOSEPAREN)?;
        if n == 0 { only = true }
        if self.is(P_FATARROW) && head {
            if !ok { return Err(Reject) }
            if group_may { self.may = true }
            if na != self.na || ny != self.ny { self.free = true }
            let mut k = 0;
            while k < n {
                self.ins(starts[k] + k, PARAM_EXPR);
                k += 1;
            }
            return Ok(At { arrow: 1, simple, ..NO });
        }
        if only || cover { return Err(Reject) }
        if n > 1 {
            self.ins(at, E_SEQ);
            self.e(END);
            return Ok(NO);
        }
        if last.asg { return Ok(NO) }
        // a pattern in parentheses is not a pattern; ressa takes it for one in some places
        Ok(At { paren: true, arrow: 0, asg: false, ..last })
    }
    /// one element of an array or the value of a property, as part of the enclosing pattern
    fn part(&mut self, r: &mut At, a: At) {
        if !(a.tgt != 0 || a.asg) { r.tgt = 0 }
        r.bind &= a.bind;
        r.cover |= a.cover;
        r.lenient |= a.lenient | a.restricted | (a.paren && (a.tgt == 2 || r.bind));
    }
    fn array(&mut self, c: C) -> P<At> {
        self.i += 1;
        self.e(E_ARRAY);
        let mut r = At { tgt: 2, bind: true, ..NO };
        while !self.is(P_CLOSEBRACKET) {
            if self.eat(P_COMMA) {
                self.e(HOLE);
                continue;
            }
            self.e(ELEM);
            let spread = self.eat(P_SPREAD);
            if spread {
                self.e(E_SPREAD);
            }
            let a = self.assign(c | IN)?;
            self.part(&mut r, a);
            if spread && a.asg { r.lenient = true }
            if !self.is(P_CLOSEBRACKET) {
                self.need(P_COMMA)?;
                if spread {
                    r.tgt = 0;
                    r.bind = false;
                }
            }
        }
        self.i += 1;
        self.e(END);
        Ok(r)
    }
    fn object(&mut self, c: C) -> P<At> {
        self.i += 1;
        let c = c | IN;
        self.e(E_OBJECT);
        let mut r = At { tgt: 2, bind: true, ..NO };
        while !self.is(P_CLOSEBRACE) {
            if self.eat(P_SPREAD) {
                self.e(PROP_SPREAD);
                self.e(E_SPREAD);
                let a = self.assign(c)?;
                self.part(&mut r, a);
                if a.tgt != 1 || !self.is(P_CLOSEBRACE) { r.lenient = true }
            } else {
                self.property(c, &mut r)?;
            }
            if !self.is(P_CLOSEBRACE) { self.need(P_COMMA)? }
        }
        self.i += 1;
        self.e(END);
        Ok(r)
    }
    fn property(&mut self, c: C, r: &mut At) -> P<()> {
        self.e(PROP);
        let at = self.out.len();
        self.v(0);
        self.v(0);
        self.v(0);
        self.v(0);
        let g = CLASSES[self.t() as usize];
        let n = self.pk(1);
        if g != G_OTHER && (n == P_COMMA || n == P_CLOSEBRACE || n == P_ASSIGN) {
            // a shorthand
            let t = self.t();
            if g == G_ID {
            } else if self.is_ref(t, c) || g == G_NULL {
                // ressa wants a colon after a keyword, and none after `null`
                self.may = true;
            } else {
                return Err(Reject);
            }
            if g == G_NULL && n == P_ASSIGN { self.free = true }
            if t == K_YIELD { self.ny += 1 }
            if t == K_AWAIT { self.na += 1 }
            self.out[at + 3].val = 1;
            self.e(K_EXPR);
            self.ident_expr(self.i);
            self.i += 1;
            if is_restricted(t) { r.lenient = true }
            if self.eat(P_ASSIGN) {
                r.cover = true;
                self.e(V_EXPR);
                self.value(c)?;
            } else {
                self.e(V_NONE);
            }
            return Ok(());
        }
        let (kind, is_async) = self.method_prefix()?;
        let computed = self.prop_key(c)?;
        self.out[at + 2].val = computed as usize;
        if kind == 0 && !is_async && self.eat(P_COLON) {
            self.e(V_EXPR);
            let a = self.assign(c)?;
            self.part(r, a);
            return Ok(());
        }
        if !self.is(P_OPENPAREN) { return Err(Reject) }
        r.tgt = 0;
        r.bind = false;
        if kind == 1 || kind == 2 {
            self.out[at].val = kind as usize;
        } else {
            self.out[at + 1].val = 1;
        }
        self.method(c, kind, is_async, false)
    }

    // ---- statements
    fn stmt(&mut self, c: C) -> P<()> {
        let c = c | NESTED;
        match self.t() {
            P_OPENBRACE => {
                self.e(S_BLOCK);
                self.block(c)
            }
            P_SEMICOLON => {
                self.i += 1;
                self.e(S_NOP);
                Ok(())
            }
            K_VAR => {
                self.i += 1;
                self.e(S_VAR);
                loop {
                    self.declarator(c, 0)?;
                    if !self.eat(P_COMMA) { break }
                }
                self.e(END);
                self.semi()
            }
            K_IF => {
                self.i += 1;
                self.e(S_IF);
                self.head(c)?;
                self.if_clause(c)?;
                if self.eat(K_ELSE) {
                    self.if_clause(c)
                } else {
                    self.e(NONE);
                    Ok(())
                }
            }
            K_DO => {
                self.i += 1;
                self.e(S_DOWHILE);
                self.stmt(c | LOOP)?;
                self.need(K_WHILE)?;
                self.head(c)?;
                self.eat(P_SEMICOLON);
                Ok(())
            }
            K_WHILE => {
                self.i += 1;
                self.e(S_WHILE);
                self.head(c)?;
                self.stmt(c | LOOP)
            }
            K_FOR => self.for_stmt(c),
            K_BREAK | K_CONTINUE => {
                let k = self.t();
                self.i += 1;
                self.e(if k == K_BREAK { S_BREAK } else { S_CONTINUE });
                let g = CLASSES[self.t() as usize];
                if !self.nl() && (g == G_ID || g == G_NULL) {
                    if g == G_NULL { return Err(Reject) }
                    // labels nothing carries are not reported
                    if !self.labels[..self.nlabels].contains(&self.t()) || k == K_CONTINUE { self.may = true }
                    self.txt(self.i, 0, 0);
                    self.i += 1;
                } else {
                    if c & LOOP == 0 && (k == K_CONTINUE || c & SWITCH == 0) { self.may = true }
                    self.e(NONE);
                }
                self.semi()
            }
            K_RETURN => {
                if c & RET == 0 { return Err(Reject) }
                self.i += 1;
                self.e(S_RETURN);
                if self.nl() || self.is(P_SEMICOLON) || self.is(P_CLOSEBRACE) || self.is(EOF) {
                    self.e(NONE);
                } else {
                    self.expr(c)?;
                }
                self.semi()
            }
            K_THROW => {
                self.i += 1;
                if self.nl() { return Err(Reject) }
                self.e(S_THROW);
                self.expr(c)?;
                self.semi()
            }
            K_WITH => {
                if c & STRICT != 0 { self.soft(c)? }
                self.i += 1;
                self.e(S_WITH);
                self.head(c)?;
                self.stmt(c)
            }
            K_SWITCH => {
                self.i += 1;
                self.e(S_SWITCH);
                self.head(c)?;
                self.need(P_OPENBRACE)?;
                let mut default = false;
                while !self.eat(P_CLOSEBRACE) {
                    self.e(S_CASE);
                    if self.eat(K_DEFAULT) {
                        if default { return Err(Reject) }
                        default = true;
                        self.e(NONE);
                    } else {
                        self.need(K_CASE)?;
                        self.expr(c)?;
                    }
                    self.need(P_COLON)?;
                    while !self.is(P_CLOSEBRACE) && !self.is(K_CASE) && !self.is(K_DEFAULT) {
                        if self.is(EOF) { return Err(Reject) }
                        self.item(c | SWITCH)?;
                    }
                    self.e(END);
                }
                self.e(END);
                Ok(())
            }
            K_TRY => {
                self.i += 1;
                self.e(S_TRY);
                self.block(c)?;
                let mut any = false;
                if self.eat(K_CATCH) {
                    any = true;
                    self.e(CATCH);
                    if self.eat(P_OPENPAREN) {
                        self.pattern(c, 3)?;
                        self.need(P_CLOSEPAREN)?;
                    } else {
                        self.e(NONE);
                    }
                    self.block(c)?;
                } else {
                    self.e(NONE);
                }
                if self.eat(K_FINALLY) {
                    any = true;
                    self.block(c)?;
                } else {
                    self.e(NONE);
                }
                if any { Ok(()) } else { Err(Reject) }
            }
            K_DEBUGGER => {
                self.i += 1;
                self.e(S_DEBUGGER);
                self.semi()
            }
            K_FUNCTION => {
                // only as the body of a label or of an `if` (and not in strict code)
                self.may = true;
                self.e(S_EXPR);
                self.e(E_FN);
                self.func_decl(c, true)
            }
            K_CLASS => {
                // ressa reads a class expression here
                self.free = true;
                Err(Reject)
            }
            I_ASYNC if self.pk(1) == K_FUNCTION && !self.nl_at(1) => {
                self.may = true;
                self.e(S_EXPR);
                self.e(E_FN);
                self.func_decl(c, true)
            }
            _ => self.expr_stmt(c),
        }
    }
    fn expr_stmt(&mut self, c: C) -> P<()> {
        let t = self.t();
        let g = CLASSES[t as usize];
        if self.pk(1) == P_COLON {
            match g {
                G_ID => return self.labelled(c),
                G_SRES | G_LET | G_YIELD | G_AWAIT => {
                    // ressa does not take these as labels
                    self.free = true;
                }
                _ => (),
            }
        }
        if t == K_LET && self.pk(1) == P_OPENBRACKET {
            self.may = true;
        }
        self.e(S_EXPR);
        self.expr(c)?;
        self.semi()
    }
    fn labelled(&mut self, c: C) -> P<()> {
        let t = self.t();
        let dup = self.labels[..self.nlabels].contains(&t);
        self.e(S_LABELED);
        self.txt(self.i, 0, 0);
        if dup { self.late = true; return Err(Reject) }
        if self.nlabels < self.labels.len() {
            self.labels[self.nlabels] = t;
        } else {
            self.free = true;
        }
        self.nlabels += 1;
        self.i += 2;
        if self.is(K_CLASS) { return if c & TOL != 0 { self.free = true; Err(Reject) } else { Err(Reject) } }
        self.stmt(c)?;
        self.nlabels -= 1;
        Ok(())
    }
    /// `( expression )`
    fn head(&mut self, c: C) -> P<()> {
        self.need(P_OPENPAREN)?;
        self.expr(c)?;
        self.need(P_CLOSEPAREN)
    }
    fn if_clause(&mut self, c: C) -> P<()> {
        if c & STRICT != 0 && self.is(K_FUNCTION) { self.soft(c)? }
        self.stmt(c)
    }
    fn body(&mut self, c: C) -> P<()> {
        self.need(P_CLOSEPAREN)?;
        self.stmt(c | LOOP)
    }
    fn for_stmt(&mut self, c: C) -> P<()> {
        self.i += 1;
        let at = self.out.len();
        let mut is_await = false;
        if self.is(K_AWAIT) {
            if c & A == 0 { self.free = true }
            is_await = true;
            self.i += 1;
        }
        self.need(P_OPENPAREN)?;
        let nc = c & !IN;
        match self.t() {
            P_SEMICOLON => {
                self.e(NONE);
                return self.for_rest(c, at, is_await);
            }
            K_VAR | K_CONST | K_LET => {
                let kind = match self.t() { K_VAR => 0, K_LET => 1, _ => 2 };
                if kind == 1 {
                    let n = self.pk(1);
                    if n == K_IN {
                        if c & STRICT != 0 { return Err(Reject) }
                        self.i += 2;
                        self.e(S_FORIN);
                        self.e(F_EXPR);
                        self.ident_expr(self.i - 2);
                        self.expr(c)?;
                        if is_await { self.free = true }
                        return self.body(c);
                    }
                    if n != P_OPENBRACE && n != P_OPENBRACKET && CLASSES[n as usize] == G_OTHER {
                        // `let` as an identifier
                        self.free = true;
                        return Err(Reject);
                    }
                }
                self.i += 1;
                self.e(DECLARATOR);
                let id = self.pattern(nc, kind)?;
                let init = self.eat(P_ASSIGN);
                if init {
                    self.value(nc)?;
                } else {
                    self.e(NONE);
                }
                if self.is(K_IN) || self.is(I_OF) {
                    if init {
                        if kind != 0 { return Err(Reject) }
                        // `for (var a = 1 in b)`: once allowed, still read
                        self.may = true;
                    }
                    self.ins(at, F_VAR);
                    self.insv(at + 1, kind);
                    return self.for_in_of(c, at, is_await);
                }
                let mut bad = !init && (kind == 2 || !id);
                if bad && kind == 2 { return Err(Reject) }
                while self.eat(P_COMMA) {
                    self.e(DECLARATOR);
                    let id = self.pattern(nc, kind)?;
                    if self.eat(P_ASSIGN) {
                        self.value(nc)?;
                    } else {
                        if kind == 2 { return Err(Reject) }
                        bad |= !id;
                        self.e(NONE);
                    }
                }
                // a pattern needs an initializer
                if bad { self.may = true }
                self.e(END);
                self.ins(at, I_VAR);
                self.insv(at + 1, kind);
                self.for_rest(c, at, is_await)
            }
            _ => {
                let a = self.assign(nc)?;
                if self.is(K_IN) || self.is(I_OF) {
                    if a.tgt == 0 || a.lenient || a.paren || a.restricted { self.may = true }
                    self.ins(at, F_EXPR);
                    return self.for_in_of(c, at, is_await);
                }
                if a.cover { return Err(Reject) }
                if self.is(P_COMMA) {
                    self.ins(at, E_SEQ);
                    while self.eat(P_COMMA) {
                        self.value(nc)?;
                    }
                    self.e(END);
                }
                self.ins(at, I_EXPR);
                self.for_rest(c, at, is_await)
            }
        }
    }
    fn for_rest(&mut self, c: C, at: usize, is_await: bool) -> P<()> {
        if is_await { self.free = true }
        self.ins(at, S_FOR);
        self.need(P_SEMICOLON)?;
        if self.is(P_SEMICOLON) { self.e(NONE) } else { self.expr(c)? }
        self.need(P_SEMICOLON)?;
        if self.is(P_CLOSEPAREN) { self.e(NONE) } else { self.expr(c)? }
        self.body(c)
    }
    fn for_in_of(&mut self, c: C, at: usize, is_await: bool) -> P<()> {
        if self.eat(K_IN) {
            if is_await { self.free = true }
            self.ins(at, S_FORIN);
            self.expr(c)?;
        } else {
            self.i += 1;
            self.ins(at, S_FOROF);
            self.insv(at + 1, is_await as usize);
            self.value(c)?;
        }
        self.body(c)
    }

    // ---- modules
    /// A module-level name that ressa takes any word for.
    fn any_name(&mut self) -> P<()> {
        let g = CLASSES[self.t() as usize];
        if g != G_ID { self.may = true }
        self.ident_name()
    }
    fn from(&mut self) -> P<()> {
        self.need(I_FROM)?;
        if !is_string(self.t()) { return Err(Reject) }
        self.e(L_STRING);
        self.txt(self.i, 0, 0);
        self.i += 1;
        self.semi()
    }
    fn import(&mut self, c: C) -> P<()> {
        self.i += 1;
        self.e(D_IMPORT);
        if is_string(self.t()) {
            self.e(END);
            self.e(L_STRING);
            self.txt(self.i, 0, 0);
            self.i += 1;
            return self.semi();
        }
        let mut more = true;
        if CLASSES[self.t() as usize] != G_OTHER {
            if self.is(K_DEFAULT) { return Err(Reject) }
            self.e(M_DEFAULT);
            self.any_name()?;
            more = self.eat(P_COMMA);
        }
        if more {
            if self.eat(P_ASTERISK) {
                self.need(I_AS)?;
                self.e(M_NS);
                self.any_name()?;
            } else {
                self.need(P_OPENBRACE)?;
                while !self.is(P_CLOSEBRACE) {
                    let g = CLASSES[self.t() as usize];
                    let t = self.t();
                    self.e(M_NORMAL);
                    self.ident_name()?;
                    if self.eat(I_AS) {
                        let at = self.out.len();
                        self.binding_ident(c | STRICT, 5)?;
                        self.out.remove(at);
                    } else {
                        if g != G_ID || is_restricted(t) { self.may = true }
                        self.e(NONE);
                    }
                    if !self.is(P_CLOSEBRACE) { self.need(P_COMMA)? }
                }
                self.i += 1;
            }
        }
        self.e(END);
        self.from()
    }
    fn export(&mut self, c: C) -> P<()> {
        self.i += 1;
        self.e(D_EXPORT);
        match self.t() {
            K_DEFAULT => {
                self.i += 1;
                self.e(X_DEFAULT);
                match self.t() {
                    K_FUNCTION => {
                        self.e(X_DECL);
                        self.e(D_FN);
                        self.func(c, 2)
                    }
                    K_CLASS => {
                        self.e(X_DECL);
                        self.e(D_CLASS);
                        self.class(c, 2)
                    }
                    I_ASYNC if self.pk(1) == K_FUNCTION && !self.nl_at(1) => {
                        self.e(X_DECL);
                        self.e(D_FN);
                        self.func(c, 2)
                    }
                    _ => {
                        self.e(X_EXPR);
                        self.value(c)?;
                        self.semi()
                    }
                }
            }
            P_ASTERISK => {
                self.i += 1;
                self.e(X_ALL);
                self.from()
            }
            P_OPENBRACE => {
                self.i += 1;
                self.e(X_NAMED);
                self.e(X_SPECS);
                let mut default = false;
                let mut reserved = false;
                while !self.is(P_CLOSEBRACE) {
                    let t = self.t();
                    default |= t == K_DEFAULT;
                    reserved |= CLASSES[t as usize] != G_ID;
                    self.e(XSPEC);
                    self.ident_name()?;
                    if self.eat(I_AS) {
                        self.ident_name()?;
                    } else {
                        self.e(NONE);
                    }
                    if !self.is(P_CLOSEBRACE) { self.need(P_COMMA)? }
                }
                self.i += 1;
                self.e(END);
                if self.is(I_FROM) {
                    self.from()
                } else {
                    if default { return Err(Reject) }
                    // reserved words are not local names
                    if reserved { self.may = true }
                    self.e(NONE);
                    self.semi()
                }
            }
            K_VAR => {
                self.i += 1;
                self.e(X_NAMED);
                self.e(X_DECL);
                self.e(D_VAR);
                self.v(0);
                loop {
                    self.declarator(c, 0)?;
                    if !self.eat(P_COMMA) { break }
                }
                self.e(END);
                self.semi()
            }
            K_LET | K_CONST => {
                self.e(X_NAMED);
                self.e(X_DECL);
                self.lexical(c)
            }
            K_FUNCTION => {
                self.e(X_NAMED);
                self.e(X_DECL);
                self.e(D_FN);
                self.func(c, 1)
            }
            K_CLASS => {
                self.e(X_NAMED);
                self.e(X_DECL);
                self.e(D_CLASS);
                self.class(c, 1)
            }
            I_ASYNC if self.pk(1) == K_FUNCTION && !self.nl_at(1) => {
                self.e(X_NAMED);
                self.e(X_DECL);
                self.e(D_FN);
                self.func(c, 0)
            }
            _ => Err(Reject),
        }
    }
}
