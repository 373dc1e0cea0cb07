//! Symbolic interpreter.
use crate::expr::*;
use crate::ir::{self, Callee, Module, Ty, C, PI};
use crate::z3::{ModelMap, Res, Z3};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

mod builtins;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(Val),
}

#[derive(Clone, Debug)]
pub enum CK {
    Fn(Rc<str>),
    Builtin(Rc<str>),
    Ind(O),
    Panic(Rc<str>),
    Utf8(Rc<str>),
}

#[derive(Debug)]
pub enum I {
    Bin(Op2, Ty, O, O),
    ICmp(Pred, Ty, O, O),
    FCmp(Rc<str>, Ty, O, O),
    FNeg(Ty, O),
    Select(bool, Ty, O, O, O),
    Cast(CastK, Ty, O, Ty),
    Load(Ty, O),
    Store(Ty, O, O),
    Gep(O, i64, Vec<(O, u32, i64)>),
    Alloca(u64, Option<(O, u32)>),
    Call { ck: CK, args: Vec<O>, argt: Vec<Ty>, ret: Ty, normal: Option<u32> },
    ExtractValue(O, Vec<usize>),
    InsertValue(O, O, Vec<usize>),
    ExtractElement(O, O),
    InsertElement(O, O, O),
    Shuffle(O, O, Vec<Option<u32>>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(O, u32, u32, Vec<(u128, u32)>), // val, width, default, cases
    Ret(Option<O>),
    Unreachable,
    Rmw(Rc<str>, O, Ty, O),
    CmpXchg(O, Ty, O, O),
    Copy(O),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op2 {
    B(Op),
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}

pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub code: Vec<(u32, I)>, // dst reg (u32::MAX none)
    pub bstart: Vec<u32>,
    pub phis: Vec<Vec<(u32, HashMap<u32, O>)>>, // per block: dst, pred->operand
}

#[derive(Clone)]
pub enum Data {
    Flat(Vec<u8>, Vec<E>),
    Sparse(BTreeMap<u64, (u8, E)>),
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub symsize: E,
    pub ro: bool,
    pub data: Data,
}

impl Obj {
    fn new(size: u64) -> Obj {
        if size > (1 << 20) {
            Obj { size, symsize: 0, ro: false, data: Data::Sparse(BTreeMap::new()) }
        } else {
            Obj { size, symsize: 0, ro: false, data: Data::Flat(vec![0; size as usize], vec![]) }
        }
    }
    #[inline]
    fn get(&self, o: u64) -> (u8, E) {
        match &self.data {
            Data::Flat(d, s) => {
                let i = o as usize;
                (d[i], if i < s.len() { s[i] } else { 0 })
            }
            Data::Sparse(m) => m.get(&o).copied().unwrap_or((0, 0)),
        }
    }
    #[inline]
    fn set(&mut self, o: u64, b: u8, e: E) {
        match &mut self.data {
            Data::Flat(d, s) => {
                let i = o as usize;
                d[i] = b;
                if e != 0 {
                    if s.len() <= i {
                        s.resize(i + 1, 0);
                    }
                    s[i] = e;
                } else if i < s.len() {
                    s[i] = 0;
                }
            }
            Data::Sparse(m) => {
                m.insert(o, (b, e));
            }
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub ip: u32,
    pub bb: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
}

pub struct Model {
    pub map: ModelMap,
    pub memo: RefCell<HashMap<E, u128, FxB>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub gl: Rc<HashMap<u32, Rc<Obj>, FxB>>,
    pub cons: Vec<E>,
    pub known: Rc<HashMap<E, u128, FxB>>,
    pub model: Rc<Model>,
    pub inputs: Vec<(Val, u32)>,
    pub obs: Vec<Val>,
    pub steps: u64,
    pub covers: Vec<u32>,
    pub knownf: Vec<u32>,
    pub nsym: u32,
    pub pick: Option<u64>,
    pub fs: Rc<Fs>,
    pub job: u32,
    pub params: Rc<Vec<u64>>,
}

#[derive(Clone, Default)]
pub struct Fs {
    /// file contents by name
    pub files: BTreeMap<Vec<u8>, Vec<(u8, E)>>,
    /// open fds: name, position, flags
    pub fds: BTreeMap<u32, (Vec<u8>, u64, u32)>,
    pub errno: u32,
    pub errno_obj: u64,
    pub next_fd: u32,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub code: u64,
    pub loc: String,
    pub inputs: Vec<(u128, u32)>,
    pub known: Vec<u32>,
    pub stack: Vec<String>,
}

pub enum Stop {
    Kill,
    Done,
    Viol(String, u64, String),
    Err(String),
}
type R<T> = Result<T, Stop>;

pub const HEAP0: u64 = 1 << 16;
const FNIDX: u64 = 1;
const GLOB0: u64 = 16;
const MAXALLOC: u64 = 1 << 32;

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub steps: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub maxsteps_path: u64,
    pub asserts: u64,
    pub sym_asserts: u64,
}

pub struct Engine<'a> {
    pub m: &'a Module<'a>,
    pub ar: Arena,
    pub z: Z3,
    funcs: HashMap<Rc<str>, Rc<Func>>,
    fnames: Vec<Rc<str>>,
    fnids: HashMap<Rc<str>, u32>,
    gids: HashMap<String, u32>,
    pub gobjs: Vec<Rc<Obj>>,
    gnames: Vec<String>,
    pub work: Vec<State>,
    pub stats: Stats,
    pub used: BTreeSet<Rc<str>>,
    used_ids: Vec<bool>,
    symvars: HashMap<(u32, u32), E>,
    cache: HashMap<Box<[E]>, Res>,
    recent: Vec<Rc<Model>>,
    pub max_steps: u64,
    pub deadline: std::time::Instant,
    pub trace: bool,
    pub forksites: HashMap<String, u64>,
    pub prof: bool,
    pub floats: u64,
}

fn viol<T>(k: &str, loc: impl Into<String>) -> R<T> {
    Err(Stop::Viol(k.into(), 0, loc.into()))
}
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err(s.into()))
}

pub fn demangle_v0(n: &str) -> String {
    // cheap readable form: identifiers of a v0 mangled name
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator s<base62>_ / backref
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                j += 1
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + k <= b.len() && k > 0 {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

impl<'a> Engine<'a> {
    pub fn new(m: &'a Module<'a>, rlimit: u32) -> Self {
        Engine {
            m,
            ar: Arena::new(),
            z: Z3::new(rlimit),
            funcs: HashMap::new(),
            fnames: vec![],
            fnids: HashMap::new(),
            gids: HashMap::new(),
            gobjs: vec![],
            gnames: vec![],
            work: vec![],
            stats: Stats::default(),
            used: BTreeSet::new(),
            used_ids: vec![],
            symvars: HashMap::new(),
            cache: HashMap::new(),
            recent: vec![],
            max_steps: 30_000_000,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(86400),
            trace: false,
            forksites: HashMap::new(),
            prof: false,
            floats: 0,
        }
    }

    // ------------------------------------------------------------ constants / globals
    fn fn_addr(&mut self, n: &str) -> u64 {
        let id = match self.fnids.get(n) {
            Some(&i) => i,
            None => {
                let r: Rc<str> = n.into();
                let i = self.fnames.len() as u32;
                self.fnames.push(r.clone());
                self.fnids.insert(r, i);
                i
            }
        };
        (FNIDX << 32) + 16 + id as u64 * 16
    }
    fn glob_addr(&mut self, n: &str) -> Result<u64, String> {
        if self.m.funcs.contains_key(n) || self.m.decls.contains_key(n) {
            // extern_weak functions are modelled as absent
            if !self.m.funcs.contains_key(n) && matches!(n, "statx" | "gettid" | "__cxa_thread_atexit_impl") {
                return Ok(0);
            }
            return Ok(self.fn_addr(n));
        }
        if let Some(&i) = self.gids.get(n) {
            return Ok((GLOB0 + i as u64) << 32);
        }
        let &(s, e) = self.m.globals.get(n).ok_or_else(|| format!("unknown global {}", n))?;
        let line = &self.m.text[s..e];
        let mut l = ir::Lex::new(line);
        l.next();
        l.exp_p('=')?;
        let mut ro = false;
        let mut external = false;
        loop {
            match l.next() {
                ir::Tok::Id(k) => match k.as_str() {
                    "global" => break,
                    "constant" => {
                        ro = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "alias" => {
                        let _ = self.m.parse_type(&mut l)?;
                        l.exp_p(',')?;
                        let (_, c) = self.m.parse_tv(&mut l)?;
                        if let C::Global(g) = c {
                            return self.glob_addr(&g);
                        }
                        return Err("alias".into());
                    }
                    "thread_local" | "addrspace" => {
                        if l.is_p('(') {
                            l.skip_balanced();
                        }
                    }
                    _ => {}
                },
                ir::Tok::Eof => return Err(format!("global {}", n)),
                _ => {}
            }
        }
        let t = self.m.parse_type(&mut l)?;
        let id = self.gobjs.len() as u32;
        self.gids.insert(n.to_string(), id);
        self.gnames.push(n.to_string());
        let mut o = Obj::new(t.size());
        o.ro = ro;
        self.gobjs.push(Rc::new(o.clone()));
        let addr = (GLOB0 + id as u64) << 32;
        if !external {
            let c = self.m.parse_val(&mut l, &t)?;
            let mut buf = vec![0u8; t.size() as usize];
            self.const_bytes(&t, &c, &mut buf)?;
            if let Data::Flat(d, _) = &mut o.data {
                *d = buf;
            } else if let Data::Sparse(m) = &mut o.data {
                for (i, b) in buf.iter().enumerate() {
                    if *b != 0 {
                        m.insert(i as u64, (*b, 0));
                    }
                }
            }
            self.gobjs[id as usize] = Rc::new(o);
        }
        Ok(addr)
    }
    fn const_bytes(&mut self, t: &Ty, c: &C, out: &mut [u8]) -> Result<(), String> {
        match c {
            C::Zero | C::Undef | C::Meta => {}
            C::Bytes(b) => out[..b.len()].copy_from_slice(b),
            C::Agg(v) => {
                for (i, (ft, fc)) in v.iter().enumerate() {
                    let o = t.field_offset(i) as usize;
                    let sz = ft.size() as usize;
                    self.const_bytes(ft, fc, &mut out[o..o + sz])?;
                }
            }
            _ => {
                let v = self.const_val(t, c)?;
                self.val_bytes(t, &v, out);
            }
        }
        Ok(())
    }
    fn val_bytes(&self, t: &Ty, v: &Val, out: &mut [u8]) {
        match v {
            Val::C(x) => {
                let n = t.store_size() as usize;
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            Val::A(a) => {
                for (i, x) in a.iter().enumerate() {
                    let ft = t.field(i);
                    let o = t.field_offset(i) as usize;
                    self.val_bytes(&ft, x, &mut out[o..]);
                }
            }
            _ => panic!(),
        }
    }
    pub fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Arr(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(e)).collect())),
            Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(e)).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => Val::C(0),
        }
    }
    fn const_val(&mut self, t: &Ty, c: &C) -> Result<Val, String> {
        Ok(match c {
            C::Int(i) => Val::C(*i & mask(t.bits())),
            C::Undef | C::Zero | C::Meta => self.zero(t),
            C::Agg(v) => {
                let mut r = vec![];
                for (t, c) in v {
                    r.push(self.const_val(t, c)?);
                }
                Val::A(Rc::new(r))
            }
            C::Splat(b) => {
                let v = self.const_val(&b.0, &b.1)?;
                Val::A(Rc::new(vec![v; t.nfields()]))
            }
            C::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            C::Global(g) => Val::C(self.glob_addr(g)? as u128),
            C::Gep(t, a) => {
                let (bt, b) = (&a[0].0, &a[0].1);
                let base = match self.const_val(bt, b)? {
                    Val::C(x) => x as u64,
                    _ => return Err("gep const".into()),
                };
                let mut off = 0i64;
                let mut cur = t.clone();
                for (k, (it, ic)) in a[1..].iter().enumerate() {
                    let i = match self.const_val(it, ic)? {
                        Val::C(x) => sext(x, it.bits()) as i64,
                        _ => return Err("gep idx".into()),
                    };
                    if k == 0 {
                        off += i * t.size() as i64;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                off += cur.field_offset(i as usize) as i64;
                                cur = cur.field(i as usize);
                            }
                            _ => {
                                let e = cur.field(0);
                                off += i * e.size() as i64;
                                cur = e;
                            }
                        }
                    }
                }
                Val::C(base.wrapping_add(off as u64) as u128)
            }
            C::Cast(k, v, t2) => {
                let x = match self.const_val(&v.0, &v.1)? {
                    Val::C(x) => x,
                    o => return Ok(o),
                };
                let x = if k == "sext" { sext(x, v.0.bits()) as u128 } else { x };
                Val::C(x & mask(t2.bits()))
            }
            C::Bin(k, a, b) => {
                let x = self.const_val(&a.0, &a.1)?;
                let y = self.const_val(&b.0, &b.1)?;
                match (x, y) {
                    (Val::C(x), Val::C(y)) => {
                        let op = match k.as_str() {
                            "add" => Op::Add,
                            "sub" => Op::Sub,
                            "mul" => Op::Mul,
                            "xor" => Op::Xor,
                            "and" => Op::And,
                            "or" => Op::Or,
                            "shl" => Op::Shl,
                            _ => Op::LShr,
                        };
                        Val::C(fold(op, a.0.bits(), x, y).unwrap())
                    }
                    _ => return Err("const bin".into()),
                }
            }
            C::Reg(_) => return Err("reg in const".into()),
        })
    }

    // ------------------------------------------------------------ decoding
    pub fn func(&mut self, name: &str) -> Result<Rc<Func>, String> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        let pf = self.m.parse_func(name)?;
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut nregs = 0u32;
        let mut params = vec![];
        for (_, n) in &pf.params {
            regs.insert(n.clone(), nregs);
            params.push(nregs);
            nregs += 1;
        }
        let mut labels: HashMap<String, u32> = HashMap::new();
        for (i, (b, ins)) in pf.blocks.iter().enumerate() {
            labels.insert(b.clone(), i as u32);
            for (d, _) in ins {
                if let Some(d) = d {
                    regs.insert(d.clone(), nregs);
                    nregs += 1;
                }
            }
        }
        if pf.blocks[0].0.is_empty() {
            let n = pf.params.len().to_string();
            labels.entry(n).or_insert(0);
        }
        let mut code = vec![];
        let mut bstart = vec![];
        let mut phis = vec![];
        for (_, ins) in &pf.blocks {
            bstart.push(code.len() as u32);
            let mut ph = vec![];
            for (d, pi) in ins {
                let dst = d.as_ref().map(|d| regs[d]).unwrap_or(u32::MAX);
                if let PI::Phi(t, v) = pi {
                    let mut mp = HashMap::new();
                    for (c, b) in v {
                        let o = self.opd(&regs, t, c)?;
                        mp.insert(*labels.get(b).ok_or_else(|| format!("label {}", b))?, o);
                    }
                    ph.push((dst, mp));
                    continue;
                }
                let i = self.decode(&regs, &labels, pi).map_err(|e| format!("{} in {}", e, name))?;
                code.push((dst, i));
            }
            phis.push(ph);
        }
        let rc: Rc<str> = name.into();
        let id = self.used_ids.len() as u32;
        self.used_ids.push(false);
        let f = Rc::new(Func { name: rc.clone(), id, nregs, params, code, bstart, phis });
        self.funcs.insert(rc, f.clone());
        Ok(f)
    }
    fn opd(&mut self, regs: &HashMap<String, u32>, t: &Ty, c: &C) -> Result<O, String> {
        match c {
            C::Reg(n) => Ok(O::R(*regs.get(n).ok_or_else(|| format!("reg {}", n))?)),
            _ => Ok(O::K(self.const_val(t, c)?)),
        }
    }
    fn decode(&mut self, regs: &HashMap<String, u32>, labels: &HashMap<String, u32>, pi: &PI) -> Result<I, String> {
        let lab = |n: &String| -> Result<u32, String> { labels.get(n).copied().ok_or_else(|| format!("label {}", n)) };
        Ok(match pi {
            PI::Bin(o, t, a, b) => {
                let op = match o.as_str() {
                    "add" => Op2::B(Op::Add),
                    "sub" => Op2::B(Op::Sub),
                    "mul" => Op2::B(Op::Mul),
                    "udiv" => Op2::B(Op::UDiv),
                    "sdiv" => Op2::B(Op::SDiv),
                    "urem" => Op2::B(Op::URem),
                    "srem" => Op2::B(Op::SRem),
                    "shl" => Op2::B(Op::Shl),
                    "lshr" => Op2::B(Op::LShr),
                    "ashr" => Op2::B(Op::AShr),
                    "and" => Op2::B(Op::And),
                    "or" => Op2::B(Op::Or),
                    "xor" => Op2::B(Op::Xor),
                    "fadd" => Op2::FAdd,
                    "fsub" => Op2::FSub,
                    "fmul" => Op2::FMul,
                    "fdiv" => Op2::FDiv,
                    _ => Op2::FRem,
                };
                I::Bin(op, t.clone(), self.opd(regs, t, a)?, self.opd(regs, t, b)?)
            }
            PI::ICmp(p, t, a, b) => {
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    _ => Pred::Sle,
                };
                I::ICmp(p, t.clone(), self.opd(regs, t, a)?, self.opd(regs, t, b)?)
            }
            PI::FCmp(p, t, a, b) => I::FCmp(p.as_str().into(), t.clone(), self.opd(regs, t, a)?, self.opd(regs, t, b)?),
            PI::FNeg(t, v) => I::FNeg(t.clone(), self.opd(regs, t, v)?),
            PI::Select(ct, c, t, a, b) => {
                I::Select(matches!(ct, Ty::Vec(..)), t.clone(), self.opd(regs, ct, c)?, self.opd(regs, t, a)?, self.opd(regs, t, b)?)
            }
            PI::Cast(k, t, v, t2) => {
                let ck = match k.as_str() {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "fptrunc" => CastK::FpTrunc,
                    "fpext" => CastK::FpExt,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (a, b) = (t.bits(), t2.bits());
                        if a < b {
                            CastK::ZExt
                        } else if a > b {
                            CastK::Trunc
                        } else {
                            CastK::Bit
                        }
                    }
                    _ => CastK::Bit,
                };
                I::Cast(ck, t.clone(), self.opd(regs, t, v)?, t2.clone())
            }
            PI::Load(t, p) => I::Load(t.clone(), self.opd(regs, &Ty::Ptr, p)?),
            PI::Store(t, v, p) => I::Store(t.clone(), self.opd(regs, t, v)?, self.opd(regs, &Ty::Ptr, p)?),
            PI::Gep(t, a) => {
                let base = self.opd(regs, &a[0].0, &a[0].1)?;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = t.clone();
                for (k, (it, ic)) in a[1..].iter().enumerate() {
                    let io = self.opd(regs, it, ic)?;
                    let ci = match &io {
                        O::K(Val::C(x)) => Some(sext(*x, it.bits()) as i64),
                        _ => None,
                    };
                    if k > 0 {
                        if let Ty::Struct(..) = cur {
                            let i = ci.ok_or("struct gep")? as usize;
                            off += cur.field_offset(i) as i64;
                            cur = cur.field(i);
                            continue;
                        }
                    }
                    let et = if k == 0 { t.clone() } else { cur.field(0) };
                    let sc = et.size() as i64;
                    match ci {
                        Some(i) => off = off.wrapping_add(i.wrapping_mul(sc)),
                        None => terms.push((io, it.bits(), sc)),
                    }
                    cur = et;
                }
                I::Gep(base, off, terms)
            }
            PI::Alloca(t, n, _) => {
                let n = match n {
                    Some((nt, nc)) => Some((self.opd(regs, nt, nc)?, nt.bits())),
                    None => None,
                };
                I::Alloca(t.size(), n)
            }
            PI::Call { callee, args, ret, normal } => {
                let ck = match callee {
                    Callee::Asm => CK::Builtin("asm".into()),
                    Callee::Indirect(c) => CK::Ind(self.opd(regs, &Ty::Ptr, c)?),
                    Callee::Direct(n) => self.classify(n),
                };
                if let CK::Builtin(n) = &ck {
                    if is_nop(n) {
                        return Ok(match normal {
                            Some(l) => I::Br(lab(l)?),
                            None => I::Nop,
                        });
                    }
                }
                let mut ao = vec![];
                let mut at = vec![];
                for (t, c) in args {
                    if *t == Ty::Meta {
                        continue;
                    }
                    ao.push(self.opd(regs, t, c)?);
                    at.push(t.clone());
                }
                let normal = match normal {
                    Some(l) => Some(lab(l)?),
                    None => None,
                };
                I::Call { ck, args: ao, argt: at, ret: ret.clone(), normal }
            }
            PI::ExtractValue(t, v, ix) => I::ExtractValue(self.opd(regs, t, v)?, ix.clone()),
            PI::InsertValue(t, v, t2, v2, ix) => I::InsertValue(self.opd(regs, t, v)?, self.opd(regs, t2, v2)?, ix.clone()),
            PI::ExtractElement(t, v, it, i) => I::ExtractElement(self.opd(regs, t, v)?, self.opd(regs, it, i)?),
            PI::InsertElement(t, v, x, it, i) => {
                let et = t.field(0);
                I::InsertElement(self.opd(regs, t, v)?, self.opd(regs, &et, x)?, self.opd(regs, it, i)?)
            }
            PI::Shuffle(t, a, b, m) => I::Shuffle(self.opd(regs, t, a)?, self.opd(regs, t, b)?, m.clone()),
            PI::Phi(..) => unreachable!(),
            PI::Br(l) => I::Br(lab(l)?),
            PI::CondBr(c, a, b) => I::CondBr(self.opd(regs, &Ty::Int(1), c)?, lab(a)?, lab(b)?),
            PI::Switch(t, v, d, cs) => {
                let mut v2 = vec![];
                for (k, l) in cs {
                    v2.push((*k, lab(l)?));
                }
                I::Switch(self.opd(regs, t, v)?, t.bits(), lab(d)?, v2)
            }
            PI::Ret(None) => I::Ret(None),
            PI::Ret(Some((t, c))) => I::Ret(Some(self.opd(regs, t, c)?)),
            PI::Unreachable => I::Unreachable,
            PI::AtomicRmw(o, p, t, v) => I::Rmw(o.as_str().into(), self.opd(regs, &Ty::Ptr, p)?, t.clone(), self.opd(regs, t, v)?),
            PI::CmpXchg(p, t, a, b) => I::CmpXchg(self.opd(regs, &Ty::Ptr, p)?, t.clone(), self.opd(regs, t, a)?, self.opd(regs, t, b)?),
            PI::Fence => I::Nop,
            PI::Freeze(t, v) => I::Copy(self.opd(regs, t, v)?),
            PI::Landing => I::Unsupported("landingpad".into()),
            PI::Unsupported(s) => I::Unsupported(s.clone()),
        })
    }
    fn classify(&mut self, n: &str) -> CK {
        if n.starts_with("llvm.") || n.starts_with("vp_") {
            return CK::Builtin(n.into());
        }
        if is_panic_fn(n) {
            return CK::Panic(n.into());
        }
        if n.starts_with("_RNvNtNtC") && n.ends_with("4core3str8converts9from_utf8") && self.m.funcs.contains_key(n) {
            return CK::Utf8(n.into());
        }
        // The hash of a std map with random keys may be anything; the same for all keys is one of
        // the choices, and leaves all of the deciding to the comparison of the keys.
        if n.contains("BuildHasher8hash_one") && n.contains("4hash6random11RandomState") {
            return CK::Builtin("vp_any_hash".into());
        }
        if is_libc(n) {
            return CK::Builtin(n.into());
        }
        if self.m.funcs.contains_key(n) {
            return CK::Fn(n.into());
        }
        if let Some(&(s, e)) = self.m.globals.get(n) {
            // alias to a function
            let line = &self.m.text[s..e];
            if let Some(k) = line.rfind('@') {
                let t: String = line[k + 1..].chars().take_while(|c| c.is_alphanumeric() || matches!(c, '_' | '.' | '$')).collect();
                if self.m.funcs.contains_key(t.as_str()) {
                    return CK::Fn(t.as_str().into());
                }
            }
        }
        CK::Builtin(n.into())
    }

    // ------------------------------------------------------------ solver interface
    fn eval(&self, m: &Model, e: E) -> u128 {
        self.ar.eval(e, &m.map, &mut m.memo.borrow_mut())
    }
    fn slice(&mut self, st: &State, e: E) -> Vec<E> {
        let mut vs: HashSet<u32> = self.ar.vars_of(e).iter().copied().collect();
        let mut out = vec![];
        let mut rest: Vec<E> = st.cons.clone();
        loop {
            let mut changed = false;
            let mut nr = vec![];
            for c in rest {
                let cv = self.ar.vars_of(c);
                if cv.iter().any(|v| vs.contains(v)) {
                    vs.extend(cv.iter());
                    out.push(c);
                    changed = true;
                } else {
                    nr.push(c);
                }
            }
            rest = nr;
            if !changed {
                return out;
            }
        }
    }
    /// Is `cons(st) && e` satisfiable? Returns a full model for the state.
    fn sat(&mut self, st: &State, e: E) -> R<Option<Rc<Model>>> {
        if let Some(v) = self.ar.cv(e) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        if self.eval(&st.model, e) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let mut q = self.slice(st, e);
        q.push(e);
        q.sort_unstable();
        q.dedup();
        let key = q.clone().into_boxed_slice();
        let r = if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            r.clone()
        } else {
            // try recent models
            let mut hit = None;
            for m in self.recent.iter().rev() {
                if q.iter().all(|&c| self.ar.eval(c, &m.map, &mut m.memo.borrow_mut()) == 1) {
                    hit = Some(m.clone());
                    break;
                }
            }
            let r = if let Some(m) = hit {
                self.stats.model_hits += 1;
                let mut mm = ModelMap::default();
                for &c in &q {
                    for v in self.ar.vars_of(c).iter() {
                        mm.insert(*v, m.map.get(v).copied().unwrap_or(0));
                    }
                }
                Res::Sat(Rc::new(mm))
            } else {
                if self.prof {
                    let k: Vec<String> = st.frames.iter().rev().take(3).map(|f| format!("{}@{}", demangle_v0(&f.f.name), f.ip)).collect();
                    *self.forksites.entry(format!("query {} in {}", self.ar.w(e), k.join(" < "))).or_insert(0) += 1;
                }
                let r = self.z.check(&mut self.ar, &q);
                // never trust a model without checking it against the constraints
                if let Res::Sat(m) = &r {
                    let mut memo = HashMap::default();
                    for &c in &q {
                        if self.ar.eval(c, m, &mut memo) != 1 {
                            return err("solver model does not satisfy the query");
                        }
                    }
                }
                r
            };
            self.cache.insert(key, r.clone());
            r
        };
        match r {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut mm = st.model.map.clone();
                for (k, v) in m.iter() {
                    mm.insert(*k, *v);
                }
                let md = Rc::new(Model { map: mm, memo: RefCell::new(HashMap::default()) });
                self.recent.push(md.clone());
                if self.recent.len() > 12 {
                    self.recent.remove(0);
                }
                Ok(Some(md))
            }
            Res::Unknown => err("solver: unknown/timeout"),
        }
    }
    fn note_fork(&mut self, st: &State) {
        self.stats.forks += 1;
        if self.prof {
            let f = st.frames.last().unwrap();
            let k = format!("{}@{}", demangle_v0(&f.f.name), f.ip);
            *self.forksites.entry(k).or_insert(0) += 1;
        }
    }
    /// Decide a branch; the other feasible side is queued and re-executes the instruction.
    fn branch(&mut self, st: &mut State, cond: &Val) -> R<bool> {
        let e = match cond {
            Val::C(x) => return Ok(*x & 1 == 1),
            Val::S(e) => *e,
            _ => return err("branch on aggregate"),
        };
        let (c, neg) = self.ar.strip_not(e);
        if let Some(&v) = st.known.get(&c) {
            return Ok((v == 1) != neg);
        }
        let v = self.eval(&st.model, c) == 1;
        let nc = self.ar.not1(c);
        let (same, other) = if v { (c, nc) } else { (nc, c) };
        match self.sat(st, other)? {
            None => {
                Rc::make_mut(&mut st.known).insert(c, v as u128);
            }
            Some(m) => {
                self.note_fork(st);
                let mut o = st.clone();
                o.cons.push(other);
                Rc::make_mut(&mut o.known).insert(c, !v as u128);
                o.model = m;
                self.work.push(o);
                st.cons.push(same);
                Rc::make_mut(&mut st.known).insert(c, v as u128);
            }
        }
        Ok(v != neg)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u128> {
        let e = match v {
            Val::C(x) => return Ok(*x),
            Val::S(e) => *e,
            _ => return err("concretize aggregate"),
        };
        if let Some(&v) = st.known.get(&e) {
            return Ok(v);
        }
        let w = self.ar.w(e);
        let x = self.eval(&st.model, e);
        let k = self.ar.konst(w, x);
        let eq = self.ar.bin(Op::Eq, e, k);
        let ne = self.ar.not1(eq);
        match self.sat(st, ne)? {
            None => {
                Rc::make_mut(&mut st.known).insert(e, x);
            }
            Some(m) => {
                self.note_fork(st);
                let mut o = st.clone();
                o.cons.push(ne);
                o.model = m;
                self.work.push(o);
                st.cons.push(eq);
                Rc::make_mut(&mut st.known).insert(e, x);
            }
        }
        Ok(x)
    }
    /// Floating point arithmetic is not encoded: it is followed for a few values the solver
    /// chooses, and the note kept here makes the run end without a verdict unless one of them
    /// shows a violation.
    pub fn float(&mut self, st: &mut State, v: &Val) -> R<u128> {
        let e = match v {
            Val::C(x) => return Ok(*x),
            Val::S(e) => *e,
            _ => return err("aggregate in floating point arithmetic"),
        };
        self.floats += 1;
        if self.floats < 12 {
            return self.conc(st, v);
        }
        if let Some(&v) = st.known.get(&e) {
            return Ok(v);
        }
        let x = self.eval(&st.model, e);
        let k = self.ar.konst(self.ar.w(e), x);
        let eq = self.ar.bin(Op::Eq, e, k);
        st.cons.push(eq);
        Rc::make_mut(&mut st.known).insert(e, x);
        Ok(x)
    }
    fn assume(&mut self, st: &mut State, cond: &Val) -> R<()> {
        let e = match cond {
            Val::C(x) => {
                if *x & 1 == 1 {
                    return Ok(());
                }
                return Err(Stop::Kill);
            }
            Val::S(e) => *e,
            _ => return err("assume aggregate"),
        };
        match self.sat(st, e)? {
            None => Err(Stop::Kill),
            Some(m) => {
                st.cons.push(e);
                let (c, neg) = self.ar.strip_not(e);
                Rc::make_mut(&mut st.known).insert(c, !neg as u128);
                st.model = m;
                Ok(())
            }
        }
    }

    // ------------------------------------------------------------ values
    pub fn ex(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.ar.konst(w, *x),
            Val::S(e) => *e,
            _ => panic!("aggregate as expr"),
        }
    }
    pub fn lift(&self, e: E) -> Val {
        match self.ar.cv(e) {
            Some(x) => Val::C(x),
            None => Val::S(e),
        }
    }
    fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(fold(op, w, *x, *y).unwrap());
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = self.ar.bin(op, x, y);
        self.lift(r)
    }
    fn zext(&mut self, a: &Val, from: u32, to: u32) -> Val {
        match a {
            Val::C(x) => Val::C(*x),
            _ => {
                let x = self.ex(a, from);
                let r = self.ar.zext(x, to);
                self.lift(r)
            }
        }
    }
    fn sextv(&mut self, a: &Val, from: u32, to: u32) -> Val {
        match a {
            Val::C(x) => Val::C((sext(*x, from) as u128) & mask(to)),
            _ => {
                let x = self.ex(a, from);
                let r = self.ar.sext(x, to);
                self.lift(r)
            }
        }
    }
    fn trunc(&mut self, a: &Val, from: u32, to: u32) -> Val {
        match a {
            Val::C(x) => Val::C(*x & mask(to)),
            _ => {
                let x = self.ex(a, from);
                let r = self.ar.extract(x, 0, to);
                self.lift(r)
            }
        }
    }
    fn ite(&mut self, t: &Ty, c: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut r = vec![];
                for i in 0..x.len() {
                    let ft = t.field(i);
                    r.push(self.ite(&ft, c, &x[i], &y[i]));
                }
                Val::A(Rc::new(r))
            }
            _ => {
                let w = t.bits();
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let r = self.ar.ite(c, x, y);
                self.lift(r)
            }
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        match p {
            Pred::Eq => self.bin(Op::Eq, w, a, b),
            Pred::Ne => {
                let r = self.bin(Op::Eq, w, a, b);
                self.not(&r)
            }
            Pred::Ult => self.bin(Op::Ult, w, a, b),
            Pred::Ule => self.bin(Op::Ule, w, a, b),
            Pred::Ugt => self.bin(Op::Ult, w, b, a),
            Pred::Uge => self.bin(Op::Ule, w, b, a),
            Pred::Slt => self.bin(Op::Slt, w, a, b),
            Pred::Sle => self.bin(Op::Sle, w, a, b),
            Pred::Sgt => self.bin(Op::Slt, w, b, a),
            Pred::Sge => self.bin(Op::Sle, w, b, a),
        }
    }
    /// comparison of floating point numbers, on their bits
    fn fcmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
        if !matches!((a, b), (Val::C(_) | Val::S(_), Val::C(_) | Val::S(_))) || (w != 32 && w != 64) {
            return err("comparison of floating point aggregates");
        }
        let abs = Val::C(if w == 32 { 0x7FFF_FFFF } else { i64::MAX as u128 });
        let inf = Val::C(if w == 32 { 0x7F80_0000 } else { 0x7FF0_0000_0000_0000 });
        let zero = Val::C(0);
        let mag = [a, b].map(|v| self.bin(Op::And, w, v, &abs));
        let nan = [0, 1].map(|i| self.bin(Op::Ult, w, &inf, &mag[i]));
        let un = self.bin(Op::Or, 1, &nan[0], &nan[1]);
        let both = self.bin(Op::Or, w, &mag[0], &mag[1]);
        let zeros = self.bin(Op::Eq, w, &both, &zero);
        let same = self.bin(Op::Eq, w, a, b);
        let eq = self.bin(Op::Or, 1, &same, &zeros);
        let neg = [a, b].map(|v| self.bin(Op::Slt, w, v, &zero));
        // the order of the bits: both positive as they are, both negative reversed
        let up = self.bin(Op::Slt, w, a, b);
        let down = self.bin(Op::Ult, w, b, a);
        let both_neg = self.bin(Op::And, 1, &neg[0], &neg[1]);
        let up = {
            let n = self.not(&both_neg);
            self.bin(Op::And, 1, &n, &up)
        };
        let down = self.bin(Op::And, 1, &both_neg, &down);
        let lt = self.bin(Op::Or, 1, &up, &down);
        let ne = self.not(&eq);
        let lt = self.bin(Op::And, 1, &lt, &ne);
        let le = self.bin(Op::Or, 1, &lt, &eq);
        let gt = self.not(&le);
        let ge = self.not(&lt);
        let r = match &p[1..] {
            "eq" => eq,
            "ne" => ne,
            "lt" => lt,
            "le" => le,
            "gt" => gt,
            "ge" => ge,
            "rd" => return Ok(self.not(&un)),
            "no" => return Ok(un),
            o => return err(format!("fcmp {}", o)),
        };
        Ok(if p.starts_with('u') {
            self.bin(Op::Or, 1, &un, &r)
        } else {
            let ord = self.not(&un);
            self.bin(Op::And, 1, &ord, &r)
        })
    }
    fn not(&mut self, a: &Val) -> Val {
        match a {
            Val::C(x) => Val::C(*x ^ 1),
            Val::S(e) => {
                let r = self.ar.not1(*e);
                self.lift(r)
            }
            _ => panic!(),
        }
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let idx = st.objs.len() as u64;
        st.objs.push(Some(Rc::new(Obj::new(size))));
        (HEAP0 + idx) << 32
    }
    fn obj<'b>(&'b self, st: &'b State, idx: u64) -> Option<&'b Obj> {
        if idx >= HEAP0 {
            match st.objs.get((idx - HEAP0) as usize) {
                Some(Some(o)) => Some(o),
                _ => None,
            }
        } else if idx >= GLOB0 {
            let g = (idx - GLOB0) as u32;
            if let Some(o) = st.gl.get(&g) {
                return Some(o);
            }
            self.gobjs.get(g as usize).map(|o| &**o)
        } else {
            None
        }
    }
    fn obj_mut<'b>(&'b mut self, st: &'b mut State, idx: u64) -> Option<&'b mut Obj> {
        if idx >= HEAP0 {
            match st.objs.get_mut((idx - HEAP0) as usize) {
                Some(Some(o)) => Some(Rc::make_mut(o)),
                _ => None,
            }
        } else if idx >= GLOB0 {
            let g = (idx - GLOB0) as u32;
            let gl = Rc::make_mut(&mut st.gl);
            if !gl.contains_key(&g) {
                let o = self.gobjs.get(g as usize)?.clone();
                gl.insert(g, o);
            }
            gl.get_mut(&g).map(Rc::make_mut)
        } else {
            None
        }
    }
    /// Check that [addr, addr+n) lies within a live object.
    fn check_range(&mut self, st: &mut State, addr: u128, n: u64, write: bool) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let idx = (addr >> 32) as u64;
        let off = (addr & 0xffff_ffff) as u64;
        let (size, symsize, ro) = match self.obj(st, idx) {
            Some(o) => (o.size, o.symsize, o.ro),
            None => return viol("memory", format!("invalid access addr={:#x} n={}", addr, n)),
        };
        if write && ro {
            return viol("memory", format!("write to constant addr={:#x}", addr));
        }
        if symsize != 0 {
            let end = self.ar.konst(64, (off + n) as u128);
            let ok = self.ar.bin(Op::Ule, end, symsize);
            let bad = self.ar.not1(ok);
            if self.sat(st, bad)?.is_some() {
                let okv = self.lift(ok);
                if !self.branch(st, &okv)? {
                    return viol("memory", format!("out of bounds of symbolic-size object, off={} n={}", off, n));
                }
            }
            return Ok(());
        }
        if off + n > size {
            return viol("memory", format!("out of bounds addr={:#x} off={} n={} size={}", addr, off, n, size));
        }
        Ok(())
    }
    fn load_bytes(&mut self, st: &mut State, addr: u128, n: u64) -> R<Vec<(u8, E)>> {
        self.check_range(st, addr, n, false)?;
        if n == 0 {
            return Ok(vec![]);
        }
        let idx = (addr >> 32) as u64;
        let off = (addr & 0xffff_ffff) as u64;
        let o = self.obj(st, idx).unwrap();
        Ok((0..n).map(|i| o.get(off + i)).collect())
    }
    fn store_bytes(&mut self, st: &mut State, addr: u128, b: &[(u8, E)]) -> R<()> {
        self.check_range(st, addr, b.len() as u64, true)?;
        if b.is_empty() {
            return Ok(());
        }
        let idx = (addr >> 32) as u64;
        let off = (addr & 0xffff_ffff) as u64;
        let o = self.obj_mut(st, idx).unwrap();
        for (i, (x, e)) in b.iter().enumerate() {
            o.set(off + i as u64, *x, *e);
        }
        Ok(())
    }
    fn load_scalar(&mut self, st: &mut State, addr: u128, w: u32) -> R<Val> {
        let n = (w as u64 + 7) / 8;
        self.check_range(st, addr, n, false)?;
        let idx = (addr >> 32) as u64;
        let off = (addr & 0xffff_ffff) as u64;
        {
            let o = self.obj(st, idx).unwrap();
            if let Data::Flat(d, s) = &o.data {
                let a = off as usize;
                let b = a + n as usize;
                if s.len() <= a || s[a..b.min(s.len())].iter().all(|x| *x == 0) {
                    let mut buf = [0u8; 16];
                    buf[..n as usize].copy_from_slice(&d[a..b]);
                    return Ok(Val::C(u128::from_le_bytes(buf) & mask(w)));
                }
            }
        }
        let bs: Vec<(u8, E)> = {
            let o = self.obj(st, idx).unwrap();
            (0..n).map(|i| o.get(off + i)).collect()
        };
        let mut acc: Option<E> = None;
        for (b, e) in bs {
            let x = if e != 0 { e } else { self.ar.konst(8, b as u128) };
            acc = Some(match acc {
                None => x,
                Some(l) => self.ar.concat(x, l),
            });
        }
        let mut e = acc.unwrap();
        if w != n as u32 * 8 {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.lift(e))
    }
    fn load(&mut self, st: &mut State, t: &Ty, addr: u128) -> R<Val> {
        if t.is_scalar() {
            return self.load_scalar(st, addr, t.bits());
        }
        if let Ty::Vec(n, e) = t {
            if **e == Ty::Int(1) {
                let v = self.load_scalar(st, addr, *n)?;
                let x = self.ex(&v, *n);
                let mut r = vec![];
                for i in 0..*n {
                    let b = self.ar.extract(x, i, 1);
                    r.push(self.lift(b));
                }
                return Ok(Val::A(Rc::new(r)));
            }
        }
        let mut r = vec![];
        for i in 0..t.nfields() {
            let ft = t.field(i);
            r.push(self.load(st, &ft, addr + t.field_offset(i) as u128)?);
        }
        Ok(Val::A(Rc::new(r)))
    }
    fn store_scalar(&mut self, st: &mut State, addr: u128, w: u32, v: &Val) -> R<()> {
        let n = (w as u64 + 7) / 8;
        self.check_range(st, addr, n, true)?;
        let idx = (addr >> 32) as u64;
        let off = (addr & 0xffff_ffff) as u64;
        match v {
            Val::C(x) => {
                let b = x.to_le_bytes();
                let o = self.obj_mut(st, idx).unwrap();
                if let Data::Flat(d, s) = &mut o.data {
                    let a = off as usize;
                    d[a..a + n as usize].copy_from_slice(&b[..n as usize]);
                    if s.len() > a {
                        let e = (a + n as usize).min(s.len());
                        for x in &mut s[a..e] {
                            *x = 0;
                        }
                    }
                } else {
                    for i in 0..n {
                        o.set(off + i, b[i as usize], 0);
                    }
                }
            }
            Val::S(e) => {
                let e = self.ar.zext(*e, n as u32 * 8);
                for i in 0..n {
                    let b = self.ar.extract(e, i as u32 * 8, 8);
                    let (cb, se) = match self.ar.cv(b) {
                        Some(x) => (x as u8, 0),
                        None => (0, b),
                    };
                    let o = self.obj_mut(st, idx).unwrap();
                    o.set(off + i, cb, se);
                }
            }
            _ => return err("store aggregate as scalar"),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, t: &Ty, addr: u128, v: &Val) -> R<()> {
        if t.is_scalar() {
            return self.store_scalar(st, addr, t.bits(), v);
        }
        if let (Ty::Vec(n, e), Val::A(a)) = (t, v) {
            if **e == Ty::Int(1) {
                let mut acc: Option<E> = None;
                for i in 0..*n as usize {
                    let x = self.ex(&a[i], 1);
                    acc = Some(match acc {
                        None => x,
                        Some(l) => self.ar.concat(x, l),
                    });
                }
                let x = self.lift(acc.unwrap());
                return self.store_scalar(st, addr, *n, &x);
            }
        }
        if let Val::A(a) = v {
            self.check_range(st, addr, t.store_size(), true)?;
            for i in 0..a.len() {
                let ft = t.field(i);
                self.store(st, &ft, addr + t.field_offset(i) as u128, &a[i])?;
            }
            return Ok(());
        }
        err("store shape")
    }
    fn copy(&mut self, st: &mut State, dst: u128, src: u128, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.check_range(st, src, n, false)?;
        self.check_range(st, dst, n, true)?;
        let si = (src >> 32) as u64;
        let so = (src & 0xffff_ffff) as usize;
        let di = (dst >> 32) as u64;
        let dof = (dst & 0xffff_ffff) as usize;
        let n = n as usize;
        let (bytes, syms): (Vec<u8>, Vec<E>) = {
            let o = self.obj(st, si).unwrap();
            match &o.data {
                Data::Flat(d, s) => {
                    let b = d[so..so + n].to_vec();
                    let sy = if s.len() > so { s[so..(so + n).min(s.len())].to_vec() } else { vec![] };
                    (b, sy)
                }
                Data::Sparse(_) => {
                    let v: Vec<(u8, E)> = (0..n).map(|i| o.get((so + i) as u64)).collect();
                    (v.iter().map(|x| x.0).collect(), v.iter().map(|x| x.1).collect())
                }
            }
        };
        let syms: Vec<E> = if syms.iter().all(|x| *x == 0) { vec![] } else { syms };
        let o = self.obj_mut(st, di).unwrap();
        match &mut o.data {
            Data::Flat(d, s) => {
                d[dof..dof + n].copy_from_slice(&bytes);
                if !syms.is_empty() {
                    let need = dof + syms.len();
                    if s.len() < need {
                        s.resize(need, 0);
                    }
                    s[dof..need].copy_from_slice(&syms);
                }
                let from = dof + syms.len();
                if s.len() > from {
                    let e = (dof + n).min(s.len());
                    for x in &mut s[from..e.max(from)] {
                        *x = 0;
                    }
                }
            }
            Data::Sparse(_) => {
                for i in 0..n {
                    let e = syms.get(i).copied().unwrap_or(0);
                    o.set((dof + i) as u64, bytes[i], e);
                }
            }
        }
        Ok(())
    }
    /// Load through a symbolic address without forking when it stays inside one small object.
    fn load_sym_addr(&mut self, st: &mut State, t: &Ty, a: E) -> R<Option<Val>> {
        if !t.is_scalar() {
            return Ok(None);
        }
        if st.known.contains_key(&a) {
            return Ok(None);
        }
        let v = self.eval(&st.model, a);
        let idx = (v >> 32) as u64;
        let n = t.store_size();
        let size = match self.obj(st, idx) {
            Some(o) if o.symsize == 0 && o.size <= 4096 && o.size >= n => o.size,
            _ => return Ok(None),
        };
        let base = (idx as u128) << 32;
        let lo = self.ar.konst(64, base);
        let hi = self.ar.konst(64, base + (size - n) as u128);
        let c1 = self.ar.bin(Op::Ule, lo, a);
        let c2 = self.ar.bin(Op::Ule, a, hi);
        let inb = self.ar.bin(Op::And, c1, c2);
        let out = self.ar.not1(inb);
        if self.sat(st, out)?.is_some() {
            return Ok(None); // possibly out of bounds: let concretisation find it
        }
        let mut acc: Option<E> = None;
        let mut cnt = 0;
        for k in 0..=(size - n) {
            let kk = self.ar.konst(64, base + k as u128);
            let c = self.ar.bin(Op::Eq, a, kk);
            if self.ar.cv(c) == Some(0) {
                continue;
            }
            cnt += 1;
            if cnt > 300 {
                return Ok(None);
            }
            let x = self.load_scalar(st, base + k as u128, t.bits())?;
            let x = self.ex(&x, t.bits());
            acc = Some(match acc {
                None => x,
                Some(p) => self.ar.ite(c, x, p),
            });
        }
        Ok(acc.map(|e| self.lift(e)))
    }

    // ------------------------------------------------------------ execution
    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let f = self.func(entry)?;
        let model = Rc::new(Model { map: ModelMap::default(), memo: RefCell::new(HashMap::default()) });
        let mut st = State {
            frames: vec![],
            objs: vec![],
            gl: Rc::new(HashMap::default()),
            cons: vec![],
            known: Rc::new(HashMap::default()),
            model,
            inputs: vec![],
            obs: vec![],
            steps: 0,
            covers: vec![],
            knownf: vec![],
            nsym: 0,
            pick: None,
            fs: Rc::new(Fs::default()),
            job: 0,
            params: Rc::new(vec![]),
        };
        self.push_frame(&mut st, f, vec![]);
        Ok(st)
    }
    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>) {
        if !self.used_ids[f.id as usize] {
            self.used_ids[f.id as usize] = true;
            self.used.insert(f.name.clone());
        }
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i] as usize] = a;
            }
        }
        st.frames.push(Rc::new(Frame { f, ip: 0, bb: 0, regs, allocas: vec![] }));
    }

    pub fn make_viol(&self, st: &State, kind: String, code: u64, loc: String) -> Viol {
        let inputs = st
            .inputs
            .iter()
            .map(|(v, w)| match v {
                Val::C(x) => (*x, *w),
                Val::S(e) => (self.eval(&st.model, *e), *w),
                _ => (0, *w),
            })
            .collect();
        let mut stack = vec![];
        for f in st.frames.iter().rev().take(12) {
            stack.push(demangle_v0(&f.f.name));
        }
        Viol { kind, code, loc, inputs, known: st.knownf.clone(), stack }
    }
    pub fn eval_obs(&self, st: &State) -> Vec<u64> {
        st.obs
            .iter()
            .map(|v| match v {
                Val::C(x) => *x as u64,
                Val::S(e) => self.eval(&st.model, *e) as u64,
                _ => 0,
            })
            .collect()
    }

    /// Run one state until it ends (or its path budget runs out).
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            if st.steps & 0x3fff == 0 && std::time::Instant::now() > self.deadline {
                return Stop::Err("time limit reached".into());
            }
            if st.steps > self.max_steps {
                return Stop::Viol("steps".into(), 0, format!("no end after {} instructions", st.steps));
            }
            match self.step(st) {
                Ok(()) => {}
                Err(s) => {
                    self.stats.maxsteps_path = self.stats.maxsteps_path.max(st.steps);
                    return s;
                }
            }
        }
    }

    #[inline]
    fn o(fr: &Frame, o: &O) -> Val {
        match o {
            O::R(r) => fr.regs[*r as usize].clone(),
            O::K(v) => v.clone(),
        }
    }

    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.bb;
        let f = fr.f.clone();
        let ph = &f.phis[to as usize];
        if !ph.is_empty() {
            if ph.len() == 1 {
                let (d, m) = &ph[0];
                let v = Self::o(fr, m.get(&from).expect("phi pred"));
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<(u32, Val)> = ph.iter().map(|(d, m)| (*d, Self::o(fr, m.get(&from).expect("phi pred")))).collect();
                for (d, v) in vals {
                    fr.regs[d as usize] = v;
                }
            }
        }
        fr.bb = to;
        fr.ip = f.bstart[to as usize];
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.stats.steps += 1;
        let f = st.frames.last().unwrap().f.clone();
        let ip = st.frames.last().unwrap().ip as usize;
        let (dst, ins) = &f.code[ip];
        macro_rules! op {
            ($x:expr) => {
                Self::o(st.frames.last().unwrap(), $x)
            };
        }
        let mut result: Option<Val> = None;
        match ins {
            I::Nop => {}
            I::Copy(v) => result = Some(op!(v)),
            I::Bin(o, t, a, b) => {
                let (a, b) = (op!(a), op!(b));
                result = Some(self.do_bin(st, *o, t, &a, &b)?);
            }
            I::ICmp(p, t, a, b) => {
                let (a, b) = (op!(a), op!(b));
                result = Some(match (&a, &b) {
                    (Val::A(x), Val::A(y)) => {
                        let w = t.field(0).bits();
                        let (x, y) = (x.clone(), y.clone());
                        Val::A(Rc::new((0..x.len()).map(|i| self.icmp(*p, w, &x[i], &y[i])).collect()))
                    }
                    _ => self.icmp(*p, t.bits(), &a, &b),
                });
            }
            I::FCmp(p, t, a, b) => {
                let (a, b) = (op!(a), op!(b));
                result = Some(if matches!((&a, &b), (Val::C(_), Val::C(_))) {
                let (a, b) = (self.float(st, &a)?, self.float(st, &b)?);
                let (x, y) = if *t == Ty::F32 {
                    (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
                } else {
                    (f64::from_bits(a as u64), f64::from_bits(b as u64))
                };
                let un = x.is_nan() || y.is_nan();
                let r = match &**p {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => un || x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    o => return err(format!("fcmp {}", o)),
                };
                    Val::C(r as u128)
                } else {
                    self.fcmp(p, t.bits(), &a, &b)?
                });
            }
            I::FNeg(t, v) => {
                let v = op!(v);
                let w = t.bits();
                result = Some(self.bin(Op::Xor, w, &v, &Val::C(1u128 << (w - 1))));
            }
            I::Select(vec, t, c, a, b) => {
                let c = op!(c);
                let (a, b) = (op!(a), op!(b));
                if *vec {
                    let cs = match &c {
                        Val::A(x) => x.clone(),
                        _ => return err("vec select"),
                    };
                    let (x, y) = match (&a, &b) {
                        (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                        _ => return err("vec select"),
                    };
                    let et = t.field(0);
                    let mut r = vec![];
                    for i in 0..x.len() {
                        r.push(match &cs[i] {
                            Val::C(k) => {
                                if *k == 1 {
                                    x[i].clone()
                                } else {
                                    y[i].clone()
                                }
                            }
                            Val::S(e) => self.ite(&et, *e, &x[i], &y[i]),
                            _ => return err("vec select"),
                        });
                    }
                    result = Some(Val::A(Rc::new(r)));
                } else {
                    result = Some(match c {
                        Val::C(k) => {
                            if k & 1 == 1 {
                                a
                            } else {
                                b
                            }
                        }
                        Val::S(e) => {
                            let (sc, neg) = self.ar.strip_not(e);
                            if let Some(&k) = st.known.get(&sc) {
                                if (k == 1) != neg {
                                    a
                                } else {
                                    b
                                }
                            } else if *t == Ty::Ptr {
                                // choosing between pointers: fork now
                                if self.branch(st, &Val::S(e))? {
                                    a
                                } else {
                                    b
                                }
                            } else {
                                self.ite(t, e, &a, &b)
                            }
                        }
                        _ => return err("select"),
                    });
                }
            }
            I::Cast(k, t, v, t2) => {
                let v = op!(v);
                result = Some(self.do_cast(st, *k, t, &v, t2)?);
            }
            I::Load(t, p) => {
                let p = op!(p);
                let mut done = None;
                if let Val::S(e) = &p {
                    done = self.load_sym_addr(st, t, *e)?;
                }
                result = Some(match done {
                    Some(v) => v,
                    None => {
                        let a = self.conc(st, &p)?;
                        self.load(st, t, a)?
                    }
                });
            }
            I::Store(t, v, p) => {
                let p = op!(p);
                let v = op!(v);
                let nothing = match (&p, &v) {
                    (Val::S(_), Val::C(0)) if t.is_scalar() => {
                        let n = (t.bits() as u128).div_ceil(8);
                        self.zero_in_fresh(st, &p, &Val::C(n))?
                    }
                    _ => false,
                };
                if !nothing {
                    let a = self.conc(st, &p)?;
                    self.store(st, t, a, &v)?;
                }
            }
            I::Gep(b, off, terms) => {
                let mut acc = op!(b);
                if let Val::A(_) = acc {
                    return err("vector gep");
                }
                if *off != 0 {
                    acc = self.bin(Op::Add, 64, &acc, &Val::C((*off as u64) as u128));
                }
                for (o, w, sc) in terms {
                    let x = op!(o);
                    let x = if *w < 64 {
                        self.sextv(&x, *w, 64)
                    } else if *w > 64 {
                        self.trunc(&x, *w, 64)
                    } else {
                        x
                    };
                    let x = if *sc == 1 { x } else { self.bin(Op::Mul, 64, &x, &Val::C((*sc as u64) as u128)) };
                    acc = self.bin(Op::Add, 64, &acc, &x);
                }
                result = Some(acc);
            }
            I::Alloca(sz, n) => {
                let mut size = *sz;
                if let Some((o, _)) = n {
                    let x = op!(o);
                    size *= self.conc(st, &x)? as u64;
                }
                let a = self.alloc(st, size);
                let idx = ((a >> 32) - HEAP0) as u32;
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(idx);
                result = Some(Val::C(a as u128));
            }
            I::Call { ck, args, argt, ret, normal } => {
                let av: Vec<Val> = args.iter().map(|a| op!(a)).collect();
                let ck2;
                let ck = match ck {
                    CK::Ind(o) => {
                        let a = op!(o);
                        let a = self.conc(st, &a)?;
                        if (a >> 32) as u64 != FNIDX {
                            return viol("memory", format!("call through bad pointer {:#x}", a));
                        }
                        let id = ((a & 0xffff_ffff) as u64 - 16) / 16;
                        let n = self.fnames[id as usize].clone();
                        ck2 = self.classify(&n);
                        &ck2
                    }
                    x => x,
                };
                match ck {
                    CK::Utf8(n) => {
                        if !self.model_utf8(st, &av)? {
                            let callee = self.func(n).map_err(Stop::Err)?;
                            self.push_frame(st, callee, av);
                            return Ok(());
                        }
                    }
                    CK::Fn(n) => {
                        let callee = self.func(n).map_err(Stop::Err)?;
                        if st.frames.len() > 400 {
                            return viol("stack", "call depth over 400");
                        }
                        // ip stays at the call; Ret advances
                        self.push_frame(st, callee, av);
                        return Ok(());
                    }
                    CK::Panic(n) => {
                        let loc = self.panic_loc(st, n, &av);
                        return Err(Stop::Viol("panic".into(), 0, loc));
                    }
                    CK::Builtin(n) => {
                        let n = n.clone();
                        let r = self.builtin(st, &n, &av, argt, ret)?;
                        if let Some(r) = r {
                            result = Some(r);
                        } else if *ret != Ty::Void {
                            return err(format!("builtin {} returned nothing", n));
                        }
                    }
                    CK::Ind(_) => unreachable!(),
                }
                if *dst != u32::MAX {
                    if let Some(v) = result {
                        Rc::make_mut(st.frames.last_mut().unwrap()).regs[*dst as usize] = v;
                    }
                }
                if let Some(l) = normal {
                    self.goto(st, *l);
                } else {
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                }
                return Ok(());
            }
            I::ExtractValue(v, ix) => {
                let mut v = op!(v);
                for i in ix {
                    v = match &v {
                        Val::A(a) => a[*i].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                result = Some(v);
            }
            I::InsertValue(v, x, ix) => {
                let mut v = op!(v);
                let x = op!(x);
                fn ins(v: &mut Val, x: Val, ix: &[usize]) {
                    if ix.is_empty() {
                        *v = x;
                        return;
                    }
                    if let Val::A(a) = v {
                        ins(&mut Rc::make_mut(a)[ix[0]], x, &ix[1..]);
                    }
                }
                ins(&mut v, x, ix);
                result = Some(v);
            }
            I::ExtractElement(v, i) => {
                let v = op!(v);
                let i = op!(i);
                let i = self.conc(st, &i)? as usize;
                result = Some(match &v {
                    Val::A(a) => a[i].clone(),
                    _ => return err("extractelement"),
                });
            }
            I::InsertElement(v, x, i) => {
                let mut v = op!(v);
                let x = op!(x);
                let i = op!(i);
                let i = self.conc(st, &i)? as usize;
                if let Val::A(a) = &mut v {
                    Rc::make_mut(a)[i] = x;
                }
                result = Some(v);
            }
            I::Shuffle(a, b, m) => {
                let (a, b) = (op!(a), op!(b));
                let (x, y) = match (&a, &b) {
                    (Val::A(x), Val::A(y)) => (x, y),
                    _ => return err("shuffle"),
                };
                let n = x.len();
                result = Some(Val::A(Rc::new(
                    m.iter()
                        .map(|i| match i {
                            None => x[0].clone(),
                            Some(i) if (*i as usize) < n => x[*i as usize].clone(),
                            Some(i) => y[*i as usize - n].clone(),
                        })
                        .collect(),
                )));
            }
            I::Br(l) => {
                self.goto(st, *l);
                return Ok(());
            }
            I::CondBr(c, a, b) => {
                let c = op!(c);
                let t = self.branch(st, &c)?;
                self.goto(st, if t { *a } else { *b });
                return Ok(());
            }
            I::Switch(v, w, d, cases) => {
                let v = op!(v);
                let target = match &v {
                    Val::C(x) => cases.iter().find(|(k, _)| k == x).map(|c| c.1).unwrap_or(*d),
                    Val::S(e) => {
                        if let Some(x) = st.known.get(e) {
                            cases.iter().find(|(k, _)| k == x).map(|c| c.1).unwrap_or(*d)
                        } else {
                            let x = self.eval(&st.model, *e);
                            let tgt = cases.iter().find(|(k, _)| *k == x).map(|c| c.1);
                            let mut cond: Option<E> = None;
                            for (k, l) in cases {
                                let take = match tgt {
                                    Some(t) if t != *d => *l == t,
                                    _ => *l != *d, // default group: negation of the others
                                };
                                if take {
                                    let kk = self.ar.konst(*w, *k);
                                    let c = self.ar.bin(Op::Eq, *e, kk);
                                    cond = Some(match cond {
                                        None => c,
                                        Some(p) => self.ar.bin(Op::Or, p, c),
                                    });
                                }
                            }
                            let to_default = !matches!(tgt, Some(t) if t != *d);
                            let mut c = match cond {
                                Some(c) => c,
                                None => self.ar.konst(1, 0),
                            };
                            if to_default {
                                c = self.ar.not1(c);
                            }
                            let cv = self.lift(c);
                            if self.branch(st, &cv)? {
                                if to_default {
                                    *d
                                } else {
                                    tgt.unwrap()
                                }
                            } else {
                                // model said true; cannot happen
                                return err("switch model mismatch");
                            }
                        }
                    }
                    _ => return err("switch"),
                };
                self.goto(st, target);
                return Ok(());
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|v| op!(v));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.objs[*a as usize] = None;
                }
                // shrink the tail so long loops of calls do not grow the table
                while let Some(None) = st.objs.last() {
                    st.objs.pop();
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let caller = st.frames.last().unwrap().f.clone();
                let cip = st.frames.last().unwrap().ip as usize;
                let (cd, ci) = &caller.code[cip];
                if let I::Call { normal, .. } = ci {
                    if *cd != u32::MAX {
                        if let Some(v) = v {
                            Rc::make_mut(st.frames.last_mut().unwrap()).regs[*cd as usize] = v;
                        }
                    }
                    match normal {
                        Some(l) => self.goto(st, *l),
                        None => Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1,
                    }
                    return Ok(());
                }
                return err("return to non-call");
            }
            I::Unreachable => {
                return viol("unreachable", format!("unreachable executed in {}", demangle_v0(&f.name)));
            }
            I::Rmw(o, p, t, v) => {
                let p = op!(p);
                let v = op!(v);
                let a = self.conc(st, &p)?;
                let old = self.load(st, t, a)?;
                let w = t.bits();
                let new = match &**o {
                    "xchg" => v,
                    "add" => self.bin(Op::Add, w, &old, &v),
                    "sub" => self.bin(Op::Sub, w, &old, &v),
                    "and" => self.bin(Op::And, w, &old, &v),
                    "or" => self.bin(Op::Or, w, &old, &v),
                    "xor" => self.bin(Op::Xor, w, &old, &v),
                    x => return err(format!("atomicrmw {}", x)),
                };
                self.store(st, t, a, &new)?;
                result = Some(old);
            }
            I::CmpXchg(p, t, c, n) => {
                let p = op!(p);
                let c = op!(c);
                let n = op!(n);
                let a = self.conc(st, &p)?;
                let old = self.load(st, t, a)?;
                let eq = self.icmp(Pred::Eq, t.bits(), &old, &c);
                let ok = self.branch(st, &eq)?;
                if ok {
                    self.store(st, t, a, &n)?;
                }
                result = Some(Val::A(Rc::new(vec![old, Val::C(ok as u128)])));
            }
            I::Unsupported(s) => return err(format!("unsupported instruction {} in {}", s, f.name)),
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if *dst != u32::MAX {
            if let Some(v) = result {
                fr.regs[*dst as usize] = v;
            }
        }
        fr.ip += 1;
        Ok(())
    }

    fn do_bin(&mut self, st: &mut State, o: Op2, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let et = t.field(0);
            let (x, y) = (x.clone(), y.clone());
            let mut r = vec![];
            for i in 0..x.len() {
                r.push(self.do_bin(st, o, &et, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        match o {
            Op2::B(op) => {
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                    let w = t.bits();
                    let z = self.icmp(Pred::Eq, w, b, &Val::C(0));
                    if let Val::C(1) = z {
                        return viol("divzero", "division by zero");
                    }
                    if let Val::S(_) = z {
                        if self.branch(st, &z)? {
                            return viol("divzero", "division by zero");
                        }
                    }
                }
                Ok(self.bin(op, t.bits(), a, b))
            }
            _ => {
                let (a, b) = (self.float(st, a)?, self.float(st, b)?);
                macro_rules! ff {
                    ($x:expr,$y:expr) => {
                        match o {
                            Op2::FAdd => $x + $y,
                            Op2::FSub => $x - $y,
                            Op2::FMul => $x * $y,
                            Op2::FDiv => $x / $y,
                            _ => $x % $y,
                        }
                    };
                }
                Ok(match t {
                    Ty::F32 => Val::C(ff!(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128),
                    Ty::F64 => Val::C(ff!(f64::from_bits(a as u64), f64::from_bits(b as u64)).to_bits() as u128),
                    _ => return err("float type"),
                })
            }
        }
    }
    fn do_cast(&mut self, st: &mut State, k: CastK, t: &Ty, v: &Val, t2: &Ty) -> R<Val> {
        if k == CastK::Bit && (matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..))) {
            return self.vec_bitcast(t, v, t2);
        }
        if let Val::A(x) = v {
            let (e1, e2) = (t.field(0), t2.field(0));
            let x = x.clone();
            let mut r = vec![];
            for i in 0..x.len() {
                r.push(self.do_cast(st, k, &e1, &x[i], &e2)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        Ok(match k {
            CastK::Trunc => self.trunc(v, t.bits(), t2.bits()),
            CastK::ZExt => self.zext(v, t.bits(), t2.bits()),
            CastK::SExt => self.sextv(v, t.bits(), t2.bits()),
            CastK::Bit => v.clone(),
            _ => {
                let x = self.float(st, v)?;
                let tof = |t: &Ty, x: u128| if *t == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                let fromf = |t: &Ty, x: f64| if *t == Ty::F32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
                Val::C(match k {
                    CastK::FpTrunc | CastK::FpExt => fromf(t2, tof(t, x)),
                    CastK::FpToUi => (tof(t, x) as u128) & mask(t2.bits()),
                    CastK::FpToSi => ((tof(t, x) as i128) as u128) & mask(t2.bits()),
                    CastK::UiToFp => {
                        if *t2 == Ty::F32 {
                            (x as f32).to_bits() as u128
                        } else {
                            (x as f64).to_bits() as u128
                        }
                    }
                    _ => {
                        let s = sext(x, t.bits());
                        if *t2 == Ty::F32 {
                            (s as f32).to_bits() as u128
                        } else {
                            (s as f64).to_bits() as u128
                        }
                    }
                })
            }
        })
    }
    fn vec_bitcast(&mut self, t: &Ty, v: &Val, t2: &Ty) -> R<Val> {
        // flatten to bits (<=128 wide pieces handled by bytes list of bits)
        let mut bits: Vec<E> = vec![];
        match v {
            Val::A(a) => {
                let w = t.field(0).bits();
                for x in a.iter() {
                    let e = self.ex(x, w);
                    for i in 0..w {
                        bits.push(self.ar.extract(e, i, 1));
                    }
                }
            }
            x => {
                let w = t.bits();
                let e = self.ex(x, w);
                for i in 0..w {
                    bits.push(self.ar.extract(e, i, 1));
                }
            }
        }
        let mut build = |s: &mut Self, lo: usize, w: usize| -> Val {
            let mut acc = bits[lo];
            for i in 1..w {
                acc = s.ar.concat(bits[lo + i], acc);
            }
            s.lift(acc)
        };
        Ok(match t2 {
            Ty::Vec(n, e) => {
                let w = e.bits() as usize;
                let mut r = vec![];
                for i in 0..*n as usize {
                    r.push(build(self, i * w, w));
                }
                Val::A(Rc::new(r))
            }
            _ => build(self, 0, t2.bits() as usize),
        })
    }

    fn read_conc(&self, st: &State, addr: u64, n: usize) -> Option<Vec<u8>> {
        let o = self.obj(st, addr >> 32)?;
        let off = addr & 0xffff_ffff;
        if off + n as u64 > o.size {
            return None;
        }
        Some((0..n).map(|i| o.get(off + i as u64).0).collect())
    }
    fn panic_loc(&self, st: &State, n: &str, args: &[Val]) -> String {
        let short = demangle_v0(n);
        let short = short.rsplit("::").next().unwrap_or("").to_string();
        let try_loc = |a: u64| -> Option<String> {
            let b = self.read_conc(st, a, 24)?;
            let p = u64::from_le_bytes(b[0..8].try_into().unwrap());
            let l = u64::from_le_bytes(b[8..16].try_into().unwrap());
            let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
            if l == 0 || l > 300 {
                return None;
            }
            let s = self.read_conc(st, p, l as usize)?;
            let s = String::from_utf8(s).ok()?;
            if !s.contains(".rs") {
                return None;
            }
            Some(format!("{}:{}", s, line))
        };
        for a in args.iter().rev() {
            if let Val::C(x) = a {
                if let Some(s) = try_loc(*x as u64) {
                    return format!("{} at {}", short, s);
                }
            }
        }
        let _ = short;
        short
    }
}

fn is_nop(n: &str) -> bool {
    n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.prefetch") || n == "llvm.donothing" || n.starts_with("llvm.invariant.") || n.starts_with("llvm.x86.sse2.pause")
}

fn is_panic_fn(n: &str) -> bool {
    if !n.starts_with("_R") {
        return matches!(n, "rust_panic" | "__rust_start_panic" | "rust_begin_unwind" | "__rust_foreign_exception");
    }
    if n.contains("9panicking") && n.contains("4core") {
        return ["9panic_fmt", "5panic", "18panic_bounds_check", "16panic_nounwind", "11panic_const", "13panic_display", "17panic_str_", "19panic_cannot_unwind", "13assert_failed", "19assert_failed_inner", "14panic_explicit", "36panic_misaligned_pointer_dereference", "panic_nounwind", "panic_null", "unreachable_display"]
            .iter()
            .any(|p| n.contains(p));
    }
    n.contains("8rust_panic") || n.contains("17rust_begin_unwind") || n.contains("12handle_error") && n.contains("7raw_vec") || n.contains("18handle_alloc_error") || n.contains("17capacity_overflow") || n.contains("rust_panic_with_hook") || n.contains("begin_panic_handler")
}

fn is_libc(n: &str) -> bool {
    matches!(
        n,
        "malloc" | "calloc" | "realloc" | "free" | "posix_memalign" | "aligned_alloc" | "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "abort" | "__errno_location"
            | "open64" | "read" | "write" | "lseek64" | "close" | "fstat64" | "ftruncate64" | "getrandom" | "syscall" | "getenv" | "fcntl" | "memrchr" | "memchr" | "statx" | "stat64" | "lstat64" | "unlink" | "fsync" | "fdatasync" | "pthread_self" | "gettid"
    )
}
