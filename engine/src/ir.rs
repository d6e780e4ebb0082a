//! Reader for the textual LLVM IR that rustc emits: types, constants, globals, function bodies.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Func,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                let mut ma = 1;
                for t in ts {
                    let a = if *packed { 1 } else { t.align() };
                    ma = ma.max(a);
                    o = (o + a - 1) / a * a + t.size();
                }
                (o + ma - 1) / ma * ma
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().max(1).next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("bad struct index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("offset into {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(ts, _) => &ts[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 1,
        }
    }
    /// scalar leaves: (offset, width)
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Int(w) => out.push((base, *w)),
            Ty::Ptr => out.push((base, 64)),
            Ty::Float(w) => out.push((base, *w)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.leaves(base + i * t.size(), out);
                }
            }
            Ty::Struct(ts, _) => {
                for (i, t) in ts.iter().enumerate() {
                    t.leaves(base + self.offset(i), out);
                }
            }
            _ => {}
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nleaves(),
            Ty::Struct(ts, _) => ts.iter().map(|t| t.nleaves()).sum(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u64),
    Big,
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Splat(Box<(Ty, Const)>),
    Global(String),
    /// constant expressions
    Gep(Ty, Box<Const>, Vec<(Ty, Const)>),
    Cast(Box<Const>),
    Trunc(Box<Const>, u32),
    Bin(&'static str, Box<Const>, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Local(String),
    Const(Const),
}

pub struct Lx<'a> {
    pub s: &'a [u8],
    pub p: usize,
    pub types: &'a HashMap<String, Ty>,
}

type R<T> = Result<T, String>;

impl<'a> Lx<'a> {
    pub fn new(s: &'a str, types: &'a HashMap<String, Ty>) -> Self {
        Lx { s: s.as_bytes(), p: 0, types }
    }
    pub fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\n' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    pub fn rest(&self) -> &str {
        std::str::from_utf8(&self.s[self.p..]).unwrap_or("<bin>")
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, &self.rest()[..self.rest().len().min(80)]))
        }
    }
    pub fn word_peek(&mut self) -> &'a str {
        self.ws();
        let mut q = self.p;
        while q < self.s.len() && (self.s[q].is_ascii_alphanumeric() || self.s[q] == b'_' || self.s[q] == b'.' || self.s[q] == b'-') {
            q += 1;
        }
        std::str::from_utf8(&self.s[self.p..q]).unwrap()
    }
    pub fn word(&mut self) -> &'a str {
        let w = self.word_peek();
        self.p += w.len();
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        if self.word_peek() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    /// name after @ or %
    pub fn name(&mut self) -> R<String> {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string();
            self.p += 1;
            Ok(r)
        } else {
            let st = self.p;
            while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || matches!(self.s[self.p], b'_' | b'.' | b'-' | b'$')) {
                self.p += 1;
            }
            Ok(std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string())
        }
    }
    pub fn number(&mut self) -> R<u64> {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap().parse::<u64>().map_err(|e| format!("{} at {:?}", e, &self.rest()[..self.rest().len().min(60)]))
    }
    pub fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            b'i' => {
                let w = self.word_peek();
                w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            _ => matches!(self.word_peek(), "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata"),
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        let t = match c {
            b'[' => {
                self.p += 1;
                let n = self.number()?;
                if !self.eat_word("x") {
                    return Err("array".into());
                }
                let t = self.ty()?;
                self.expect(b']')?;
                Ty::Arr(n, Box::new(t))
            }
            b'{' => {
                self.p += 1;
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        v.push(self.ty()?);
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}')?;
                }
                Ty::Struct(v, false)
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    match t {
                        Ty::Struct(v, _) => Ty::Struct(v, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n = self.number()?;
                    if !self.eat_word("x") {
                        return Err("vector".into());
                    }
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'%' => {
                self.p += 1;
                let n = self.name()?;
                self.types.get(&n).cloned().ok_or_else(|| format!("type {}", n))?
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "x86_fp80" | "fp128" => Ty::Float(128),
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                    _ => return Err(format!("type {:?}", w)),
                }
            }
        };
        // function type "void (...)" is not used with opaque pointers except in calls to varargs
        Ok(t)
    }
    fn cstring(&mut self) -> R<Vec<u8>> {
        // at opening quote
        self.expect(b'"')?;
        let mut out = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    out.push(b'\\');
                    self.p += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                self.p += 3;
            } else {
                out.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        Ok(out)
    }
    fn typed_list(&mut self, end: u8) -> R<Vec<(Ty, Const)>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            self.eat_word("inrange");
            let c = self.konst(&t)?;
            v.push((t, c));
            if !self.eat(b',') {
                break;
            }
        }
        self.expect(end)?;
        Ok(v)
    }
    pub fn konst(&mut self, t: &Ty) -> R<Const> {
        let c = self.peek();
        match c {
            b'@' => {
                self.p += 1;
                Ok(Const::Global(self.name()?))
            }
            b'[' => {
                self.p += 1;
                Ok(Const::Agg(self.typed_list(b']')?))
            }
            b'{' => {
                self.p += 1;
                Ok(Const::Agg(self.typed_list(b'}')?))
            }
            b'<' => {
                self.p += 1;
                if self.eat(b'{') {
                    let r = self.typed_list(b'}')?;
                    self.expect(b'>')?;
                    Ok(Const::Agg(r))
                } else {
                    Ok(Const::Agg(self.typed_list(b'>')?))
                }
            }
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 1;
                Ok(Const::Bytes(self.cstring()?))
            }
            b'-' | b'0'..=b'9' => {
                let neg = self.eat(b'-');
                let st = self.p;
                while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'.' || self.s[self.p] == b'+') {
                    self.p += 1;
                }
                let txt = std::str::from_utf8(&self.s[st..self.p]).unwrap();
                if let Ty::Float(w) = t {
                    if let Some(h) = txt.strip_prefix("0x") {
                        let bits = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                        return Ok(Const::Int(if *w == 32 { (f64::from_bits(bits) as f32).to_bits() as u64 } else { bits }));
                    }
                    let f: f64 = txt.parse().map_err(|_| "float".to_string())?;
                    let f = if neg { -f } else { f };
                    return Ok(Const::Int(if *w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() }));
                }
                match txt.parse::<u128>() {
                    Ok(v) => {
                        let v = if neg { (v as i128).wrapping_neg() as u128 } else { v };
                        let w = if let Ty::Int(w) = t { *w } else { 64 };
                        if w > 64 {
                            if v <= u64::MAX as u128 {
                                return Ok(Const::Int(v as u64));
                            }
                            return Ok(Const::Big);
                        }
                        let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
                        Ok(Const::Int(v as u64 & m))
                    }
                    Err(_) => Ok(Const::Big),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Ok(Const::Int(1)),
                    "false" => Ok(Const::Int(0)),
                    "null" => Ok(Const::Int(0)),
                    "undef" | "poison" => Ok(Const::Undef),
                    "zeroinitializer" => Ok(Const::Zero),
                    "splat" => {
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let c = self.konst(&t)?;
                        self.expect(b')')?;
                        Ok(Const::Splat(Box::new((t, c))))
                    }
                    "getelementptr" => {
                        loop {
                            match self.word_peek() {
                                "inbounds" | "nuw" | "nusw" => {
                                    self.word();
                                }
                                "inrange" => {
                                    self.word();
                                    if self.eat(b'(') {
                                        while !self.eat(b')') {
                                            self.p += 1;
                                        }
                                    }
                                }
                                _ => break,
                            }
                        }
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        self.expect(b',')?;
                        let l = self.typed_list(b')')?;
                        let mut it = l.into_iter();
                        let (_, base) = it.next().unwrap();
                        Ok(Const::Gep(t, Box::new(base), it.collect()))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let c = self.konst(&t)?;
                        if !self.eat_word("to") {
                            return Err("cast".into());
                        }
                        let t2 = self.ty()?;
                        self.expect(b')')?;
                        if let Ty::Int(w) = t2 {
                            return Ok(Const::Trunc(Box::new(c), w));
                        }
                        Ok(Const::Cast(Box::new(c)))
                    }
                    "add" | "sub" | "xor" => {
                        let op = match w {
                            "add" => "add",
                            "sub" => "sub",
                            _ => "xor",
                        };
                        while matches!(self.word_peek(), "nuw" | "nsw") {
                            self.word();
                        }
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let a = self.konst(&t)?;
                        self.expect(b',')?;
                        let t = self.ty()?;
                        let b = self.konst(&t)?;
                        self.expect(b')')?;
                        Ok(Const::Bin(op, Box::new(a), Box::new(b)))
                    }
                    _ => Err(format!("const {:?} at {:?}", w, &self.rest()[..self.rest().len().min(60)])),
                }
            }
        }
    }
    pub fn opd(&mut self, t: &Ty) -> R<Opd> {
        if self.peek() == b'%' {
            self.p += 1;
            return Ok(Opd::Local(self.name()?));
        }
        Ok(Opd::Const(self.konst(t)?))
    }
    /// Skip parameter/return attributes such as `noundef align 8 dereferenceable(24) range(i8 0, 3)`.
    pub fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.p += 1;
                while self.s[self.p] != b'"' {
                    self.p += 1;
                }
                self.p += 1;
                if self.eat(b'=') {
                    continue;
                }
                continue;
            }
            if c == b'#' {
                self.p += 1;
                self.number().ok();
                continue;
            }
            let w = self.word_peek();
            if w.is_empty() || !w.as_bytes()[0].is_ascii_alphabetic() {
                return;
            }
            if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "to" | "c") {
                return;
            }
            if self.is_type_start() {
                return;
            }
            self.p += w.len();
            if w == "align" || w == "addrspace" || w == "dereferenceable" || w == "dereferenceable_or_null" {
                if self.peek() != b'(' {
                    self.number().ok();
                }
            }
            if self.p < self.s.len() && self.s[self.p] == b'(' {
                let mut d = 0;
                loop {
                    match self.s[self.p] {
                        b'(' => d += 1,
                        b')' => d -= 1,
                        b'"' => {
                            self.p += 1;
                            while self.s[self.p] != b'"' {
                                self.p += 1;
                            }
                        }
                        _ => {}
                    }
                    self.p += 1;
                    if d == 0 {
                        break;
                    }
                }
            }
        }
    }
}

pub struct GlobalDef {
    pub ty: Ty,
    pub init: Option<Const>,
    pub align: u64,
    pub constant: bool,
}

pub struct FuncText<'a> {
    pub header: &'a str,
    pub body: &'a str,
}

pub struct Module<'a> {
    pub types: HashMap<String, Ty>,
    pub globals: HashMap<String, &'a str>,
    pub funcs: HashMap<String, FuncText<'a>>,
    pub decls: HashMap<String, &'a str>,
    pub aliases: HashMap<String, String>,
}

fn name_at(s: &str) -> (String, usize) {
    // s starts with '@' or '%'
    let b = s.as_bytes();
    if b[1] == b'"' {
        let e = s[2..].find('"').unwrap() + 2;
        (s[2..e].to_string(), e + 1)
    } else {
        let mut e = 1;
        while e < b.len() && (b[e].is_ascii_alphanumeric() || matches!(b[e], b'_' | b'.' | b'-' | b'$')) {
            e += 1;
        }
        (s[1..e].to_string(), e)
    }
}

impl<'a> Module<'a> {
    pub fn scan(text: &'a str) -> Module<'a> {
        let mut m = Module { types: HashMap::new(), globals: HashMap::new(), funcs: HashMap::new(), decls: HashMap::new(), aliases: HashMap::new() };
        let mut pos = 0;
        let bytes = text.as_bytes();
        let mut tylines = vec![];
        while pos < bytes.len() {
            let end = text[pos..].find('\n').map(|e| pos + e).unwrap_or(bytes.len());
            let line = &text[pos..end];
            if line.starts_with('@') {
                let (n, e) = name_at(line);
                let rest = &line[e..];
                if let Some(i) = rest.find(" alias ") {
                    let r = &rest[i..];
                    if let Some(k) = r.find('@') {
                        let (t, _) = name_at(&r[k..]);
                        m.aliases.insert(n, t);
                    }
                } else {
                    m.globals.insert(n, rest);
                }
            } else if line.starts_with('%') {
                tylines.push(line);
            } else if line.starts_with("define ") {
                let at = line.find(" @").unwrap() + 1;
                let (n, _) = name_at(&line[at..]);
                let close = text[end..].find("\n}").map(|e| end + e).unwrap();
                m.funcs.insert(n, FuncText { header: line, body: &text[end + 1..close + 1] });
                pos = close + 2;
                while pos < bytes.len() && bytes[pos] != b'\n' {
                    pos += 1;
                }
                pos += 1;
                continue;
            } else if line.starts_with("declare ") {
                if let Some(at) = line.find(" @") {
                    let (n, _) = name_at(&line[at + 1..]);
                    m.decls.insert(n, line);
                }
            }
            pos = end + 1;
        }
        for l in tylines {
            let (n, e) = name_at(l);
            if let Some(i) = l[e..].find("type ") {
                let types = std::mem::take(&mut m.types);
                let r = {
                    let mut lx = Lx::new(&l[e + i + 5..], &types);
                    lx.ty()
                };
                m.types = types;
                if let Ok(t) = r {
                    m.types.insert(n, t);
                }
            }
        }
        m
    }
    pub fn global(&self, n: &str) -> R<GlobalDef> {
        let rest = self.globals.get(n).ok_or_else(|| format!("global {}", n))?;
        let mut lx = Lx::new(rest, &self.types);
        lx.expect(b'=')?;
        let mut external = false;
        let constant;
        loop {
            let w = lx.word();
            match w {
                "global" => {
                    constant = false;
                    break;
                }
                "constant" => {
                    constant = true;
                    break;
                }
                "external" | "extern_weak" => external = true,
                "" => return Err(format!("global syntax {}", rest)),
                _ => {
                    if lx.peek() == b'(' {
                        while !lx.eat(b')') {
                            lx.p += 1;
                        }
                    }
                }
            }
        }
        let ty = lx.ty()?;
        let init = if external { None } else { Some(lx.konst(&ty)?) };
        let mut align = ty.align();
        while lx.eat(b',') {
            if lx.eat_word("align") {
                align = lx.number()?;
            } else {
                // section "..", !guid ..
                while lx.p < lx.s.len() && lx.s[lx.p] != b',' {
                    lx.p += 1;
                }
            }
        }
        Ok(GlobalDef { ty, init, align, constant })
    }
}
