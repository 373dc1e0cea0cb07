//! Textual LLVM IR parser. Functions and globals are indexed up front and parsed on demand.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    FOther(u32), // half(2) / x86_fp80(10) / fp128(16) bytes
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
    Opaque,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::FOther(b) => b * 8,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 | Ty::FOther(_))
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (((*w as u64) + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(b) => (*b as u64).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (*n as u64 * t.size()).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => align_up(self.store_size(), self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(b) => align_up(*b as u64, self.align()),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    ((*n as u64) + 7) / 8
                } else {
                    *n as u64 * t.size()
                }
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    Id(String),    // bare word
    Loc(String),   // %x
    Glob(String),  // @x
    Meta(String),  // !x
    Num(String),   // integer / float literal text
    Str(Vec<u8>),  // c"..." or "..."
    P(char),
    Attr,          // #123
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    pub cur: Tok,
    pub peeked: Option<Tok>,
}

fn hexv(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 0,
    }
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        let mut l = Lex { s: s.as_bytes(), i: 0, cur: Tok::Eof, peeked: None };
        l.cur = l.lex();
        l
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                v.push(b'\\');
                self.i += 2;
            } else if self.s[self.i] == b'\\' {
                v.push(hexv(self.s[self.i + 1]) * 16 + hexv(self.s[self.i + 2]));
                self.i += 3;
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn word(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' {
                self.i += 1
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn lex(&mut self) -> Tok {
        loop {
            if self.i >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1
                }
            } else if c == b'/' && self.s.get(self.i + 1) == Some(&b'*') {
                // LLVM annotates some immediate arguments: /* (pzero) */
                self.i += 2;
                while self.i + 1 < self.s.len() && &self.s[self.i..self.i + 2] != b"*/" {
                    self.i += 1
                }
                self.i += 2;
            } else {
                break;
            }
        }
        let c = self.s[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.s[self.i] == b'"' {
                    String::from_utf8_lossy(&self.quoted()).into_owned()
                } else {
                    self.word()
                };
                if c == b'%' {
                    Tok::Loc(n)
                } else {
                    Tok::Glob(n)
                }
            }
            b'!' => {
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'"' {
                    let q = self.quoted();
                    return Tok::Str(q);
                }
                Tok::Meta(self.word())
            }
            b'#' => {
                self.i += 1;
                self.word();
                Tok::Attr
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::Str(self.quoted())
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() {
                    let d = self.s[self.i];
                    if d.is_ascii_alphanumeric() || d == b'.' || ((d == b'+' || d == b'-') && matches!(self.s[self.i - 1], b'e' | b'E')) {
                        self.i += 1
                    } else {
                        break;
                    }
                }
                Tok::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => Tok::Id(self.word()),
            _ => {
                // "..." ellipsis
                if c == b'.' {
                    self.i += 1;
                    while self.i < self.s.len() && self.s[self.i] == b'.' {
                        self.i += 1
                    }
                    return Tok::Id("...".into());
                }
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
    pub fn next(&mut self) -> Tok {
        let n = match self.peeked.take() {
            Some(t) => t,
            None => self.lex(),
        };
        std::mem::replace(&mut self.cur, n)
    }
    pub fn peek(&mut self) -> &Tok {
        if self.peeked.is_none() {
            self.peeked = Some(self.lex());
        }
        self.peeked.as_ref().unwrap()
    }
    pub fn is_p(&self, c: char) -> bool {
        self.cur == Tok::P(c)
    }
    pub fn is_id(&self, s: &str) -> bool {
        matches!(&self.cur, Tok::Id(x) if x == s)
    }
    pub fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn exp_p(&mut self, c: char) -> Result<(), String> {
        if self.eat_p(c) {
            Ok(())
        } else {
            let end = (self.i + 60).min(self.s.len());
            Err(format!("expected '{}' got {:?} near {}", c, self.cur, String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..end])))
        }
    }
    pub fn skip_balanced(&mut self) {
        // cur is an opening bracket
        let mut d = 0;
        loop {
            match &self.cur {
                Tok::P('(') | Tok::P('[') | Tok::P('{') | Tok::P('<') => d += 1,
                Tok::P(')') | Tok::P(']') | Tok::P('}') | Tok::P('>') => d -= 1,
                Tok::Eof => return,
                _ => {}
            }
            self.next();
            if d == 0 {
                return;
            }
        }
    }
}

/// Constants and operands, as parsed.
#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Undef,
    Zero,
    Agg(Vec<(Ty, C)>),
    Splat(Box<(Ty, C)>),
    Bytes(Vec<u8>),
    Global(String),
    Gep(Ty, Vec<(Ty, C)>),
    Cast(String, Box<(Ty, C)>, Ty),
    Bin(String, Box<(Ty, C)>, Box<(Ty, C)>),
    Reg(String),
    Meta,
}

pub const VALUE_KW: &[&str] = &[
    "null", "undef", "poison", "true", "false", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "ptrtoaddr", "bitcast",
    "trunc", "add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "icmp", "splat", "asm", "none", "addrspacecast", "dso_local_equivalent", "no_cfi", "zext", "sext",
];

pub struct Module<'a> {
    pub text: &'a str,
    pub funcs: HashMap<&'a str, (usize, usize)>,
    pub globals: HashMap<String, (usize, usize)>,
    pub named: HashMap<String, (usize, usize)>,
    pub decls: HashMap<String, ()>,
}

fn head_name(line: &str, sigil: u8) -> Option<&str> {
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i] != sigil {
        i += 1
    }
    if i >= b.len() {
        return None;
    }
    i += 1;
    if b[i] == b'"' {
        let st = i + 1;
        let mut j = st;
        while b[j] != b'"' {
            j += 1
        }
        return Some(&line[st..j]);
    }
    let st = i;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) {
        i += 1
    }
    Some(&line[st..i])
}

impl<'a> Module<'a> {
    pub fn index(text: &'a str) -> Module<'a> {
        let mut m = Module { text, funcs: HashMap::new(), globals: HashMap::new(), named: HashMap::new(), decls: HashMap::new() };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let mut e = i;
            while e < b.len() && b[e] != b'\n' {
                e += 1
            }
            let line = &text[i..e];
            if line.starts_with("define ") {
                let name = head_name(line, b'@').unwrap();
                // body until "\n}"
                let rest = &text[e..];
                let close = rest.find("\n}").expect("unterminated function");
                let end = e + close + 2;
                m.funcs.insert(name, (i, end));
                e = end;
            } else if line.starts_with('@') {
                if let Some(n) = head_name(line, b'@') {
                    m.globals.insert(n.to_string(), (i, e));
                }
            } else if line.starts_with("declare ") {
                if let Some(n) = head_name(line, b'@') {
                    m.decls.insert(n.to_string(), ());
                }
            } else if line.starts_with('%') && line.contains("= type") {
                if let Some(n) = head_name(line, b'%') {
                    m.named.insert(n.to_string(), (i, e));
                }
            }
            i = e + 1;
        }
        m
    }

    pub fn parse_type(&self, l: &mut Lex) -> Result<Ty, String> {
        let t = l.next();
        let ty = match t {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if l.is_id("addrspace") {
                        l.next();
                        l.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" | "bfloat" => Ty::FOther(2),
                "x86_fp80" => Ty::FOther(10),
                "fp128" => Ty::FOther(16),
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" | "opaque" => Ty::Opaque,
                x if x.starts_with('i') && x[1..].chars().all(|c| c.is_ascii_digit()) && x.len() > 1 => Ty::Int(x[1..].parse().unwrap()),
                x => return Err(format!("type word {}", x)),
            },
            Tok::P('[') => {
                let n = match l.next() {
                    Tok::Num(n) => n.parse::<u64>().map_err(|e| e.to_string())?,
                    o => return Err(format!("array size {:?}", o)),
                };
                if !l.eat_id("x") {
                    return Err("array x".into());
                }
                let t = self.parse_type(l)?;
                l.exp_p(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if l.is_p('{') {
                    l.next();
                    let f = self.fields(l)?;
                    l.exp_p('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match l.next() {
                        Tok::Num(n) => n.parse::<u32>().map_err(|e| e.to_string())?,
                        o => return Err(format!("vec size {:?}", o)),
                    };
                    if !l.eat_id("x") {
                        return Err("vec x".into());
                    }
                    let t = self.parse_type(l)?;
                    l.exp_p('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P('{') => {
                let f = self.fields(l)?;
                Ty::Struct(Rc::new(f), false)
            }
            Tok::Loc(n) => {
                let &(s, e) = self.named.get(&n).ok_or_else(|| format!("named type {}", n))?;
                let line = &self.text[s..e];
                let k = line.find("= type").unwrap();
                let mut l2 = Lex::new(&line[k + 6..]);
                self.parse_type(&mut l2)?
            }
            o => return Err(format!("type tok {:?}", o)),
        };
        Ok(ty)
    }
    fn fields(&self, l: &mut Lex) -> Result<Vec<Ty>, String> {
        let mut f = vec![];
        if l.eat_p('}') {
            return Ok(f);
        }
        loop {
            f.push(self.parse_type(l)?);
            if l.eat_p('}') {
                break;
            }
            l.exp_p(',')?;
        }
        Ok(f)
    }
    pub fn parse_tv(&self, l: &mut Lex) -> Result<(Ty, C), String> {
        let t = self.parse_type(l)?;
        let c = self.parse_val(l, &t)?;
        Ok((t, c))
    }
    pub fn parse_val(&self, l: &mut Lex, ty: &Ty) -> Result<C, String> {
        let t = l.next();
        Ok(match t {
            Tok::Loc(n) => C::Reg(n),
            Tok::Glob(n) => C::Global(n),
            Tok::Meta(_) => {
                if l.is_p('{') || l.is_p('(') {
                    l.skip_balanced();
                }
                C::Meta
            }
            Tok::Num(n) if n.trim_start_matches(['+', '-']).ends_with("nan") => {
                // [+-]qnan, [+-]nan(0xPAYLOAD), [+-]snan(0xPAYLOAD)
                let f32 = *ty == Ty::F32;
                if !f32 && *ty != Ty::F64 {
                    return Err(format!("{} of type {:?}", n, ty));
                }
                let mut bits: u128 = if f32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 };
                if !n.ends_with("snan") {
                    bits |= if f32 { 0x40_0000 } else { 0x8_0000_0000_0000 };
                }
                if n.starts_with('-') {
                    bits |= if f32 { 0x8000_0000 } else { 1 << 63 };
                }
                if l.eat_p('(') {
                    let Tok::Num(h) = l.next() else { return Err("nan payload".into()) };
                    bits |= u128::from_str_radix(h.trim_start_matches("0x"), 16).map_err(|e| e.to_string())?;
                    l.exp_p(')')?;
                }
                C::Int(bits)
            }
            Tok::Num(n) => parse_num(&n, ty)?,
            Tok::Str(s) => C::Bytes(s),
            Tok::P('{') => C::Agg(self.agg(l, '}')?),
            Tok::P('[') => C::Agg(self.agg(l, ']')?),
            Tok::P('<') => {
                if l.eat_p('{') {
                    let a = self.agg(l, '}')?;
                    l.exp_p('>')?;
                    C::Agg(a)
                } else {
                    C::Agg(self.agg(l, '>')?)
                }
            }
            Tok::Id(s) => match s.as_str() {
                "null" | "zeroinitializer" | "none" | "false" => C::Zero,
                "true" => C::Int(1),
                "undef" | "poison" => C::Undef,
                "splat" => {
                    l.exp_p('(')?;
                    let v = self.parse_tv(l)?;
                    l.exp_p(')')?;
                    C::Splat(Box::new(v))
                }
                "getelementptr" => {
                    while matches!(&l.cur, Tok::Id(_)) {
                        l.next();
                        if l.is_p('(') && matches!(l.peek(), Tok::Num(_)) {
                            // inrange(...)
                            l.skip_balanced();
                        }
                    }
                    l.exp_p('(')?;
                    let t = self.parse_type(l)?;
                    let mut a = vec![];
                    while l.eat_p(',') {
                        a.push(self.parse_tv(l)?);
                    }
                    l.exp_p(')')?;
                    C::Gep(t, a)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "sext" => {
                    l.exp_p('(')?;
                    let v = self.parse_tv(l)?;
                    if !l.eat_id("to") {
                        return Err("cast to".into());
                    }
                    let t = self.parse_type(l)?;
                    l.exp_p(')')?;
                    C::Cast(s, Box::new(v), t)
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while matches!(&l.cur, Tok::Id(_)) {
                        l.next();
                    }
                    l.exp_p('(')?;
                    let a = self.parse_tv(l)?;
                    l.exp_p(',')?;
                    let b = self.parse_tv(l)?;
                    l.exp_p(')')?;
                    C::Bin(s, Box::new(a), Box::new(b))
                }
                // the bits of a floating point number
                x if x.starts_with("f0x") => C::Int(u128::from_str_radix(&x[3..], 16).map_err(|e| e.to_string())?),
                x => return Err(format!("value word {}", x)),
            },
            o => return Err(format!("value tok {:?}", o)),
        })
    }
    fn agg(&self, l: &mut Lex, close: char) -> Result<Vec<(Ty, C)>, String> {
        let mut v = vec![];
        if l.eat_p(close) {
            return Ok(v);
        }
        loop {
            v.push(self.parse_tv(l)?);
            if l.eat_p(close) {
                break;
            }
            l.exp_p(',')?;
        }
        Ok(v)
    }
}

fn parse_num(n: &str, ty: &Ty) -> Result<C, String> {
    match ty {
        Ty::F32 | Ty::F64 | Ty::FOther(_) => {
            if let Some(h) = n.strip_prefix("0x") {
                let h2 = h.trim_start_matches(|c| c == 'K' || c == 'L' || c == 'H' || c == 'R' || c == 'M');
                let v = u128::from_str_radix(h2, 16).map_err(|e| e.to_string())?;
                if *ty == Ty::F32 {
                    return Ok(C::Int((f64::from_bits(v as u64) as f32).to_bits() as u128));
                }
                return Ok(C::Int(v));
            }
            let f: f64 = n.parse().map_err(|e| format!("{} {:?}", n, e))?;
            if *ty == Ty::F32 {
                Ok(C::Int((f as f32).to_bits() as u128))
            } else {
                Ok(C::Int(f.to_bits() as u128))
            }
        }
        _ => {
            if let Some(p) = n.strip_prefix('-') {
                let v: u128 = p.parse().map_err(|e| format!("{} {:?}", n, e))?;
                Ok(C::Int((!v).wrapping_add(1) & crate::expr::mask(ty.bits())))
            } else {
                Ok(C::Int(n.parse().map_err(|e| format!("{} {:?}", n, e))?))
            }
        }
    }
}

// ---------------------------------------------------------------- functions

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Box<C>),
    Asm,
}

#[derive(Clone, Debug)]
pub enum PI {
    // parsed instruction
    Bin(String, Ty, C, C),
    ICmp(String, Ty, C, C),
    FCmp(String, Ty, C, C),
    FNeg(Ty, C),
    Select(Ty, C, Ty, C, C), // cond ty, cond, val ty, a, b
    Cast(String, Ty, C, Ty),
    Load(Ty, C),
    Store(Ty, C, C),
    Gep(Ty, Vec<(Ty, C)>),
    Alloca(Ty, Option<(Ty, C)>, u64),
    Call { callee: Callee, args: Vec<(Ty, C)>, ret: Ty, normal: Option<String> },
    ExtractValue(Ty, C, Vec<usize>),
    InsertValue(Ty, C, Ty, C, Vec<usize>),
    ExtractElement(Ty, C, Ty, C),
    InsertElement(Ty, C, C, Ty, C),
    Shuffle(Ty, C, C, Vec<Option<u32>>),
    Phi(Ty, Vec<(C, String)>),
    Br(String),
    CondBr(C, String, String),
    Switch(Ty, C, String, Vec<(u128, String)>),
    Ret(Option<(Ty, C)>),
    Unreachable,
    AtomicRmw(String, C, Ty, C),
    CmpXchg(C, Ty, C, C),
    Fence,
    Freeze(Ty, C),
    Landing,
    Unsupported(String),
}

pub struct PFunc {
    pub params: Vec<(Ty, String)>,
    pub ret: Ty,
    pub blocks: Vec<(String, Vec<(Option<String>, PI)>)>,
}

fn skip_attrs(l: &mut Lex) {
    loop {
        match &l.cur {
            Tok::Id(s) => {
                if VALUE_KW.contains(&s.as_str()) {
                    return;
                }
                let al = s == "align";
                l.next();
                if al {
                    if l.is_p('(') {
                        l.skip_balanced();
                    } else {
                        l.next();
                    }
                } else if l.is_p('(') {
                    l.skip_balanced();
                }
            }
            Tok::Attr => {
                l.next();
            }
            Tok::Str(_) => {
                l.next();
                if l.eat_p('=') {
                    l.next();
                }
            }
            _ => return,
        }
    }
}

const TYPE_START: &[&str] = &["void", "ptr", "float", "double", "half", "bfloat", "x86_fp80", "fp128", "label", "metadata", "token"];
fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::Id(s) => TYPE_START.contains(&s.as_str()) || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit())),
        Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
        Tok::Loc(_) => true,
        _ => false,
    }
}

/// skip return attributes / linkage words until a type starts
fn skip_to_type(l: &mut Lex) {
    loop {
        if is_type_start(&l.cur) {
            return;
        }
        match &l.cur {
            Tok::Id(s) if s == "align" => {
                l.next();
                l.next();
            }
            Tok::Id(_) => {
                l.next();
                if l.is_p('(') {
                    l.skip_balanced();
                }
            }
            Tok::Num(_) | Tok::Attr => {
                l.next();
            }
            _ => return,
        }
    }
}

impl<'a> Module<'a> {
    pub fn parse_func(&self, name: &str) -> Result<PFunc, String> {
        let &(s, e) = self.funcs.get(name).ok_or_else(|| format!("no body: {}", name))?;
        let text = &self.text[s..e];
        let mut l = Lex::new(text);
        l.next(); // define
        skip_to_type(&mut l);
        let ret = self.parse_type(&mut l)?;
        match l.next() {
            Tok::Glob(_) => {}
            o => return Err(format!("fn name {:?} in {}", o, name)),
        }
        l.exp_p('(')?;
        let mut params = vec![];
        let mut anon = 0;
        if !l.eat_p(')') {
            loop {
                if l.is_id("...") {
                    l.next();
                    l.exp_p(')')?;
                    break;
                }
                let t = self.parse_type(&mut l)?;
                skip_attrs(&mut l);
                let n = match &l.cur {
                    Tok::Loc(n) => {
                        let n = n.clone();
                        l.next();
                        n
                    }
                    _ => {
                        let n = anon.to_string();
                        anon += 1;
                        n
                    }
                };
                params.push((t, n));
                if l.eat_p(')') {
                    break;
                }
                l.exp_p(',')?;
            }
        }
        while !l.is_p('{') {
            if l.cur == Tok::Eof {
                return Err("eof in fn header".into());
            }
            l.next();
        }
        l.next();
        let mut blocks: Vec<(String, Vec<(Option<String>, PI)>)> = vec![];
        // entry label possibly explicit
        loop {
            if l.is_p('}') {
                break;
            }
            // label?
            let is_label = match &l.cur {
                Tok::Id(_) | Tok::Num(_) | Tok::Str(_) => *l.peek() == Tok::P(':'),
                _ => false,
            };
            if is_label {
                let n = match l.next() {
                    Tok::Id(s) | Tok::Num(s) => s,
                    Tok::Str(s) => String::from_utf8_lossy(&s).into_owned(),
                    _ => unreachable!(),
                };
                l.next();
                blocks.push((n, vec![]));
                continue;
            }
            if blocks.is_empty() {
                blocks.push((String::new(), vec![]));
            }
            if l.cur == Tok::Attr {
                // debug record: #dbg_value(...)
                l.next();
                if l.is_p('(') {
                    l.skip_balanced();
                }
                continue;
            }
            let dst = match &l.cur {
                Tok::Loc(n) => {
                    let n = n.clone();
                    l.next();
                    l.exp_p('=')?;
                    Some(n)
                }
                _ => None,
            };
            let pi = self.parse_inst(&mut l).map_err(|e| format!("{} in {}", e, name))?;
            // trailing metadata / attrs
            loop {
                if l.is_p(',') && matches!(l.peek(), Tok::Meta(_)) {
                    l.next();
                    l.next();
                    if l.is_p('{') {
                        l.skip_balanced();
                    } else if let Tok::Meta(_) = l.cur {
                        l.next();
                        if l.is_p('{') {
                            l.skip_balanced();
                        }
                    }
                    continue;
                }
                if let Tok::Attr = l.cur {
                    // could be #dbg_ record, which is followed by '('
                    if *l.peek() == Tok::P('(') {
                        break;
                    }
                    l.next();
                    continue;
                }
                break;
            }
            blocks.last_mut().unwrap().1.push((dst, pi));
        }
        Ok(PFunc { params, ret, blocks })
    }

    fn label(&self, l: &mut Lex) -> Result<String, String> {
        if !l.eat_id("label") {
            return Err(format!("label expected, got {:?}", l.cur));
        }
        match l.next() {
            Tok::Loc(n) => Ok(n),
            o => Err(format!("label {:?}", o)),
        }
    }
    fn skip_align(&self, l: &mut Lex) -> u64 {
        let mut al = 1;
        while l.is_p(',') {
            let is_al = matches!(l.peek(), Tok::Id(s) if s == "align");
            if !is_al {
                break;
            }
            l.next();
            l.next();
            if let Tok::Num(n) = l.next() {
                al = n.parse().unwrap_or(1);
            }
        }
        al
    }
    fn skip_order(&self, l: &mut Lex) {
        loop {
            match &l.cur {
                Tok::Id(s) if matches!(s.as_str(), "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered") => {
                    l.next();
                }
                Tok::Id(s) if s == "syncscope" => {
                    l.next();
                    l.skip_balanced();
                }
                _ => break,
            }
        }
    }
    fn args(&self, l: &mut Lex) -> Result<Vec<(Ty, C)>, String> {
        l.exp_p('(')?;
        let mut a = vec![];
        if l.eat_p(')') {
            return Ok(a);
        }
        loop {
            let t = self.parse_type(l)?;
            if t == Ty::Meta {
                // skip metadata operand
                let mut depth = 0;
                loop {
                    match &l.cur {
                        Tok::P('(') | Tok::P('{') | Tok::P('[') => depth += 1,
                        Tok::P(')') | Tok::P('}') | Tok::P(']') if depth > 0 => depth -= 1,
                        Tok::P(')') | Tok::P(',') if depth == 0 => break,
                        _ => {}
                    }
                    l.next();
                }
                a.push((t, C::Meta));
            } else {
                skip_attrs(l);
                let v = self.parse_val(l, &t)?;
                a.push((t, v));
            }
            if l.eat_p(')') {
                break;
            }
            l.exp_p(',')?;
        }
        Ok(a)
    }
    fn parse_call(&self, l: &mut Lex, invoke: bool) -> Result<PI, String> {
        skip_to_type(l);
        let ret = self.parse_type(l)?;
        // function type for varargs
        if l.is_p('(') {
            l.skip_balanced();
        }
        let callee = match l.next() {
            Tok::Glob(n) => Callee::Direct(n),
            Tok::Loc(n) => Callee::Indirect(Box::new(C::Reg(n))),
            Tok::Id(s) if s == "asm" => {
                while !l.is_p('(') {
                    l.next();
                }
                Callee::Asm
            }
            Tok::Id(s) if s == "inttoptr" => {
                l.exp_p('(')?;
                let v = self.parse_tv(l)?;
                l.eat_id("to");
                let t = self.parse_type(l)?;
                l.exp_p(')')?;
                Callee::Indirect(Box::new(C::Cast(s, Box::new(v), t)))
            }
            o => return Err(format!("callee {:?}", o)),
        };
        let args = self.args(l)?;
        // trailing fn attrs, operand bundles
        loop {
            match &l.cur {
                Tok::Attr => {
                    if *l.peek() == Tok::P('(') {
                        break; // debug record
                    }
                    l.next();
                }
                Tok::P('[') => l.skip_balanced(),
                Tok::Id(s) if matches!(s.as_str(), "nounwind" | "noreturn" | "memory" | "willreturn" | "cold" | "nobuiltin" | "builtin" | "allocsize" | "readnone" | "readonly" | "strictfp") => {
                    l.next();
                    if l.is_p('(') {
                        l.skip_balanced();
                    }
                }
                _ => break,
            }
        }
        let mut normal = None;
        if invoke {
            if !l.eat_id("to") {
                return Err(format!("invoke to {:?}", l.cur));
            }
            normal = Some(self.label(l)?);
            if !l.eat_id("unwind") {
                return Err("unwind".into());
            }
            self.label(l)?;
        }
        Ok(PI::Call { callee, args, ret, normal })
    }

    fn parse_inst(&self, l: &mut Lex) -> Result<PI, String> {
        let op = match l.next() {
            Tok::Id(s) => s,
            o => return Err(format!("inst {:?}", o)),
        };
        Ok(match op.as_str() {
            "ret" => {
                if l.eat_id("void") {
                    PI::Ret(None)
                } else {
                    PI::Ret(Some(self.parse_tv(l)?))
                }
            }
            "br" => {
                if l.is_id("label") {
                    PI::Br(self.label(l)?)
                } else {
                    let (_, c) = self.parse_tv(l)?;
                    l.exp_p(',')?;
                    let a = self.label(l)?;
                    l.exp_p(',')?;
                    let b = self.label(l)?;
                    PI::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let d = self.label(l)?;
                l.exp_p('[')?;
                let mut cases = vec![];
                while !l.eat_p(']') {
                    let (_, c) = self.parse_tv(l)?;
                    l.exp_p(',')?;
                    let lb = self.label(l)?;
                    let k = match c {
                        C::Int(i) => i & crate::expr::mask(t.bits()),
                        C::Zero => 0,
                        o => return Err(format!("case {:?}", o)),
                    };
                    cases.push((k, lb));
                }
                PI::Switch(t, v, d, cases)
            }
            "unreachable" => PI::Unreachable,
            "resume" => {
                self.parse_tv(l)?;
                PI::Unsupported("resume".into())
            }
            "landingpad" => {
                self.parse_type(l)?;
                loop {
                    if l.eat_id("cleanup") {
                        continue;
                    }
                    if l.eat_id("catch") || l.eat_id("filter") {
                        self.parse_tv(l)?;
                        continue;
                    }
                    break;
                }
                PI::Landing
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv"
            | "frem" => {
                while !is_type_start(&l.cur) {
                    l.next();
                }
                let t = self.parse_type(l)?;
                let a = self.parse_val(l, &t)?;
                l.exp_p(',')?;
                let b = self.parse_val(l, &t)?;
                PI::Bin(op, t, a, b)
            }
            "fneg" => {
                while !is_type_start(&l.cur) {
                    l.next();
                }
                let (t, v) = self.parse_tv(l)?;
                PI::FNeg(t, v)
            }
            "icmp" | "fcmp" => {
                let mut pred = String::new();
                while !is_type_start(&l.cur) {
                    if let Tok::Id(s) = l.next() {
                        pred = s;
                    }
                }
                let t = self.parse_type(l)?;
                let a = self.parse_val(l, &t)?;
                l.exp_p(',')?;
                let b = self.parse_val(l, &t)?;
                if op == "icmp" {
                    PI::ICmp(pred, t, a, b)
                } else {
                    PI::FCmp(pred, t, a, b)
                }
            }
            "select" => {
                while !is_type_start(&l.cur) {
                    l.next();
                }
                let (ct, c) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (t, a) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (_, b) = self.parse_tv(l)?;
                PI::Select(ct, c, t, a, b)
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast"
            | "addrspacecast" => {
                while !is_type_start(&l.cur) {
                    l.next();
                }
                let (t, v) = self.parse_tv(l)?;
                if !l.eat_id("to") {
                    return Err("cast to".into());
                }
                let t2 = self.parse_type(l)?;
                PI::Cast(op, t, v, t2)
            }
            "load" => {
                l.eat_id("atomic");
                l.eat_id("volatile");
                let t = self.parse_type(l)?;
                l.exp_p(',')?;
                let (_, p) = self.parse_tv(l)?;
                self.skip_order(l);
                self.skip_align(l);
                PI::Load(t, p)
            }
            "store" => {
                l.eat_id("atomic");
                l.eat_id("volatile");
                let (t, v) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (_, p) = self.parse_tv(l)?;
                self.skip_order(l);
                self.skip_align(l);
                PI::Store(t, v, p)
            }
            "getelementptr" => {
                while !is_type_start(&l.cur) {
                    l.next();
                    if l.is_p('(') {
                        l.skip_balanced();
                    }
                }
                let t = self.parse_type(l)?;
                let mut a = vec![];
                while l.is_p(',') && !matches!(l.peek(), Tok::Meta(_)) {
                    l.next();
                    a.push(self.parse_tv(l)?);
                }
                PI::Gep(t, a)
            }
            "alloca" => {
                l.eat_id("inalloca");
                let t = self.parse_type(l)?;
                let mut n = None;
                let mut al = 1;
                while l.is_p(',') && !matches!(l.peek(), Tok::Meta(_)) {
                    if matches!(l.peek(), Tok::Id(s) if s == "align") {
                        al = self.skip_align(l);
                    } else {
                        l.next();
                        n = Some(self.parse_tv(l)?);
                    }
                }
                PI::Alloca(t, n, al)
            }
            "tail" | "musttail" | "notail" => {
                if !l.eat_id("call") {
                    return Err("tail call".into());
                }
                self.parse_call(l, false)?
            }
            "call" => self.parse_call(l, false)?,
            "invoke" => self.parse_call(l, true)?,
            "extractvalue" => {
                let (t, v) = self.parse_tv(l)?;
                let mut ix = vec![];
                while l.is_p(',') && matches!(l.peek(), Tok::Num(_)) {
                    l.next();
                    if let Tok::Num(n) = l.next() {
                        ix.push(n.parse().unwrap());
                    }
                }
                PI::ExtractValue(t, v, ix)
            }
            "insertvalue" => {
                let (t, v) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (t2, v2) = self.parse_tv(l)?;
                let mut ix = vec![];
                while l.is_p(',') && matches!(l.peek(), Tok::Num(_)) {
                    l.next();
                    if let Tok::Num(n) = l.next() {
                        ix.push(n.parse().unwrap());
                    }
                }
                PI::InsertValue(t, v, t2, v2, ix)
            }
            "extractelement" => {
                let (t, v) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (it, i) = self.parse_tv(l)?;
                PI::ExtractElement(t, v, it, i)
            }
            "insertelement" => {
                let (t, v) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (_, x) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (it, i) = self.parse_tv(l)?;
                PI::InsertElement(t, v, x, it, i)
            }
            "shufflevector" => {
                let (t, a) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (_, b) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (mt, m) = self.parse_tv(l)?;
                let n = mt.nfields();
                let mv = match m {
                    C::Zero => vec![Some(0); n],
                    C::Undef => vec![None; n],
                    C::Splat(b) => match b.1 {
                        C::Int(i) => vec![Some(i as u32); n],
                        C::Zero => vec![Some(0); n],
                        _ => vec![None; n],
                    },
                    C::Agg(v) => v
                        .into_iter()
                        .map(|(_, c)| match c {
                            C::Int(i) => Some(i as u32),
                            C::Zero => Some(0),
                            _ => None,
                        })
                        .collect(),
                    o => return Err(format!("mask {:?}", o)),
                };
                PI::Shuffle(t, a, b, mv)
            }
            "phi" => {
                while !is_type_start(&l.cur) {
                    l.next();
                }
                let t = self.parse_type(l)?;
                let mut v = vec![];
                loop {
                    l.exp_p('[')?;
                    let c = self.parse_val(l, &t)?;
                    l.exp_p(',')?;
                    let b = match l.next() {
                        Tok::Loc(n) => n,
                        o => return Err(format!("phi {:?}", o)),
                    };
                    l.exp_p(']')?;
                    v.push((c, b));
                    if l.is_p(',') && *l.peek() == Tok::P('[') {
                        l.next();
                        continue;
                    }
                    break;
                }
                PI::Phi(t, v)
            }
            "atomicrmw" => {
                l.eat_id("volatile");
                let o = match l.next() {
                    Tok::Id(s) => s,
                    o => return Err(format!("rmw {:?}", o)),
                };
                let (_, p) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (t, v) = self.parse_tv(l)?;
                self.skip_order(l);
                self.skip_align(l);
                PI::AtomicRmw(o, p, t, v)
            }
            "cmpxchg" => {
                l.eat_id("weak");
                l.eat_id("volatile");
                let (_, p) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (t, a) = self.parse_tv(l)?;
                l.exp_p(',')?;
                let (_, b) = self.parse_tv(l)?;
                self.skip_order(l);
                self.skip_align(l);
                PI::CmpXchg(p, t, a, b)
            }
            "fence" => {
                self.skip_order(l);
                PI::Fence
            }
            "freeze" => {
                let (t, v) = self.parse_tv(l)?;
                PI::Freeze(t, v)
            }
            x => return Err(format!("unsupported inst {}", x)),
        })
    }
}
