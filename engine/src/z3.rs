//! z3 C API binding: translation of expressions and satisfiability checks.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn err_handler(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub type ModelMap = HashMap<u32, u128, FxB>;

#[derive(Clone)]
pub enum Res {
    Unsat,
    Sat(std::rc::Rc<ModelMap>),
    Unknown,
}

pub struct Z3 {
    ctx: P,
    solver: P,
    pushes: u32,
    bv: HashMap<E, P, FxB>,
    bl: HashMap<E, P, FxB>,
    sorts: HashMap<u32, P>,
    /// quotients by constants as definitions instead of division terms; on for second attempts
    alt: bool,
    quot: HashMap<(E, E), P>,
    side: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub second: u64,
    pub second_secs: u64,
    pub time: f64,
    pub max_time: f64,
    pub rlimit: u32,
    pub dump_dir: Option<String>,
    pub dump_every: u64,
}

impl Z3 {
    pub fn new(rlimit: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(err_handler));
            let mut z = Z3 {
                ctx,
                solver: std::ptr::null_mut(),
                pushes: 0,
                bv: HashMap::default(),
                bl: HashMap::default(),
                sorts: HashMap::new(),
                alt: false,
                quot: HashMap::new(),
                side: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                second: 0,
                second_secs: 240,
                time: 0.0,
                max_time: 0.0,
                rlimit,
                dump_dir: None,
                dump_every: 50,
            };
            z.new_solver();
            z
        }
    }
    pub fn reset_stats(&mut self) {
        self.queries = 0;
        self.sat = 0;
        self.unsat = 0;
        self.unknown = 0;
        self.second = 0;
        self.time = 0.0;
        self.max_time = 0.0;
    }
    fn new_solver(&mut self) {
        unsafe {
            if !self.solver.is_null() {
                Z3_solver_dec_ref(self.ctx, self.solver);
            }
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
            Z3_solver_inc_ref(self.ctx, s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), self.rlimit);
            Z3_solver_set_params(self.ctx, s, p);
            self.solver = s;
            self.pushes = 0;
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(ctx, w);
            Z3_inc_ref(ctx, s);
            s
        })
    }
    fn to_bool(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p;
        }
        let n = ar.n(e);
        let c = self.ctx;
        unsafe {
            let r = match n.op {
                Op::Const => {
                    if n.v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    if ar.w(n.a) == 1 {
                        let a = self.to_bool(ar, n.a);
                        let b = self.to_bool(ar, n.b);
                        Z3_mk_eq(c, a, b)
                    } else {
                        let a = self.to_bv(ar, n.a);
                        let b = self.to_bv(ar, n.b);
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.to_bv(ar, n.a);
                    let b = self.to_bv(ar, n.b);
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And => {
                    let a = [self.to_bool(ar, n.a), self.to_bool(ar, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.to_bool(ar, n.a), self.to_bool(ar, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    let a = self.to_bool(ar, n.a);
                    if ar.cv(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.to_bool(ar, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let x = self.to_bool(ar, n.a);
                    let a = self.to_bool(ar, n.b);
                    let b = self.to_bool(ar, n.c);
                    Z3_mk_ite(c, x, a, b)
                }
                _ => {
                    let a = self.to_bv(ar, e);
                    let one = Z3_mk_unsigned_int64(c, 1, self.sort(1));
                    Z3_mk_eq(c, a, one)
                }
            };
            Z3_inc_ref(c, r);
            self.bl.insert(e, r);
            r
        }
    }
    fn to_bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = ar.n(e);
        let c = self.ctx;
        unsafe {
            let boolish = n.w == 1
                && matches!(n.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::And | Op::Or | Op::Xor | Op::Ite);
            let r = if boolish {
                let b = self.to_bool(ar, e);
                let s = self.sort(1);
                Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
            } else {
                match n.op {
                    Op::Const => {
                        let s = self.sort(n.w);
                        if n.v <= u64::MAX as u128 {
                            Z3_mk_unsigned_int64(c, n.v as u64, s)
                        } else {
                            let st = CString::new(n.v.to_string()).unwrap();
                            Z3_mk_numeral(c, st.as_ptr(), s)
                        }
                    }
                    Op::Var => {
                        let s = self.sort(n.w);
                        Z3_mk_const(c, Z3_mk_int_symbol(c, n.v as c_int), s)
                    }
                    Op::Ite => {
                        let x = self.to_bool(ar, n.a);
                        let a = self.to_bv(ar, n.b);
                        let b = self.to_bv(ar, n.c);
                        Z3_mk_ite(c, x, a, b)
                    }
                    Op::Extract => {
                        let a = self.to_bv(ar, n.a);
                        Z3_mk_extract(c, n.v as u32 + n.w - 1, n.v as u32, a)
                    }
                    Op::ZExt => {
                        let a = self.to_bv(ar, n.a);
                        Z3_mk_zero_ext(c, n.w - ar.w(n.a), a)
                    }
                    Op::SExt => {
                        let a = self.to_bv(ar, n.a);
                        Z3_mk_sign_ext(c, n.w - ar.w(n.a), a)
                    }
                    Op::UDiv | Op::URem if self.alt && ar.cv(n.b).is_some_and(|k| k > 0) => {
                        let a = self.to_bv(ar, n.a);
                        let b = self.to_bv(ar, n.b);
                        let q = self.quotient(ar, n.a, n.b);
                        if n.op == Op::UDiv {
                            q
                        } else {
                            let m = Z3_mk_bvmul(c, q, b);
                            Z3_inc_ref(c, m);
                            Z3_mk_bvsub(c, a, m)
                        }
                    }
                    op => {
                        let a = self.to_bv(ar, n.a);
                        let b = self.to_bv(ar, n.b);
                        match op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Concat => Z3_mk_concat(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                }
            };
            Z3_inc_ref(c, r);
            self.bv.insert(e, r);
            r
        }
    }
    /// A fresh q with q * k <= x, x - q * k < k and no overflow, which is x / k.
    fn quotient(&mut self, ar: &Arena, x: E, k: E) -> P {
        if let Some(&q) = self.quot.get(&(x, k)) {
            return q;
        }
        let (c, w) = (self.ctx, ar.w(x));
        let xp = self.to_bv(ar, x);
        let kp = self.to_bv(ar, k);
        let s = self.sort(w);
        unsafe {
            let q = Z3_mk_const(c, Z3_mk_int_symbol(c, (1 << 29) + self.quot.len() as c_int), s);
            Z3_inc_ref(c, q);
            let m = Z3_mk_bvmul(c, q, kp);
            Z3_inc_ref(c, m);
            let all = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
            let st = CString::new((all / ar.cv(k).unwrap()).to_string()).unwrap();
            let max = Z3_mk_numeral(c, st.as_ptr(), s);
            Z3_inc_ref(c, max);
            let r = Z3_mk_bvsub(c, xp, m);
            Z3_inc_ref(c, r);
            for f in [(q, max, false), (m, xp, false), (r, kp, true)] {
                let p = if f.2 { Z3_mk_bvult(c, f.0, f.1) } else { Z3_mk_bvule(c, f.0, f.1) };
                Z3_inc_ref(c, p);
                self.side.push(p);
            }
            self.quot.insert((x, k), q);
            q
        }
    }
    /// The query with quotients as definitions: adds it to the solver, if it has any.
    unsafe fn assert_alt(&mut self, ar: &Arena, cs: &[E]) -> bool {
        let (bv, bl) = (std::mem::take(&mut self.bv), std::mem::take(&mut self.bl));
        self.alt = true;
        self.quot.clear();
        self.side.clear();
        let ps: Vec<P> = cs.iter().map(|&e| self.to_bool(ar, e)).collect();
        let any = !self.side.is_empty();
        self.alt = false;
        self.bv = bv;
        self.bl = bl;
        if any {
            unsafe {
                Z3_solver_pop(self.ctx, self.solver, 1);
                Z3_solver_push(self.ctx, self.solver);
                for p in ps.into_iter().chain(std::mem::take(&mut self.side)) {
                    Z3_solver_assert(self.ctx, self.solver, p);
                }
            }
        }
        any
    }
    /// Check satisfiability of a conjunction of width-1 expressions.
    pub fn check(&mut self, ar: &mut Arena, cs: &[E]) -> Res {
        self.queries += 1;
        let t0 = Instant::now();
        let ps: Vec<P> = cs.iter().map(|&e| self.to_bool(ar, e)).collect();
        let mut vars: Vec<u32> = vec![];
        for &e in cs {
            vars.extend(ar.vars_of(e).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        unsafe {
            let c = self.ctx;
            if self.queries % 2000 == 0 {
                self.new_solver();
            }
            Z3_solver_push(c, self.solver);
            for p in ps {
                Z3_solver_assert(c, self.solver, p);
            }
            let mut r = Z3_solver_check(c, self.solver);
            if r != 1 && r != -1 && self.assert_alt(ar, cs) {
                r = Z3_solver_check(c, self.solver);
            }
            if let Some(d) = &self.dump_dir {
                if self.queries % self.dump_every == 0 || (r != 1 && r != -1) {
                    let s = CStr::from_ptr(Z3_solver_to_string(c, self.solver)).to_string_lossy().into_owned();
                    let f = format!("{}/{}-{}.smt2", d, std::process::id(), self.queries);
                    let _ = std::fs::write(
                        f,
                        format!(
                            "(set-logic QF_BV)\n(set-info :status {})\n{}\n(check-sat)\n",
                            if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" },
                            s
                        ),
                    );
                }
            }
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.solver);
                    Z3_model_inc_ref(c, m);
                    let mut mm = ModelMap::default();
                    for v in vars {
                        let ve = ar.varnode(v);
                        let p = self.to_bv(ar, ve);
                        let mut out: P = std::ptr::null_mut();
                        if Z3_model_eval(c, m, p, true, &mut out) {
                            Z3_inc_ref(c, out);
                            let s = CStr::from_ptr(Z3_get_numeral_string(c, out)).to_string_lossy();
                            mm.insert(v, s.parse::<u128>().expect("numeral"));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Res::Sat(std::rc::Rc::new(mm))
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    let text = CStr::from_ptr(Z3_solver_to_string(c, self.solver)).to_string_lossy().into_owned();
                    self.second += 1;
                    match second_solver(&text, &vars, self.second_secs) {
                        // a model counts once it is seen to satisfy the query
                        Some(Some(mm)) if !satisfies(ar, cs, &mm) => {
                            self.unknown += 1;
                            Res::Unknown
                        }
                        Some(Some(mm)) => {
                            self.sat += 1;
                            Res::Sat(std::rc::Rc::new(mm))
                        }
                        Some(None) => {
                            self.unsat += 1;
                            Res::Unsat
                        }
                        None => {
                            self.unknown += 1;
                            Res::Unknown
                        }
                    }
                }
            };
            Z3_solver_pop(c, self.solver, 1);
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            res
        }
    }
}

fn satisfies(ar: &Arena, cs: &[E], m: &ModelMap) -> bool {
    let mut memo = HashMap::default();
    cs.iter().all(|&c| ar.eval(c, m, &mut memo) == 1)
}

/// Queries z3 gives up on (resource limit) go to several solvers at once; the first answer counts.
/// `None` = no answer, `Some(None)` = unsatisfiable, `Some(Some(model))` = satisfiable.
fn second_solver(text: &str, vars: &[u32], secs: u64) -> Option<Option<ModelMap>> {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let mut q = String::from("(set-option :produce-models true)\n(set-logic QF_BV)\n");
    q.push_str(text);
    q.push_str("\n(check-sat)\n");
    for v in vars {
        if text.contains(&format!("k!{} ", v)) {
            q.push_str(&format!("(get-value (k!{}))\n", v));
        }
    }
    let tl = format!("--tlimit={}", secs * 1000);
    let zt = format!("-T:{}", secs);
    let cmds: [(&str, Vec<&str>); 3] = [
        ("cvc5", vec!["--lang=smt2", "--solve-bv-as-int=sum", &tl, "-"]),
        ("cvc5", vec!["--lang=smt2", "--bitblast=eager", &tl, "-"]),
        ("z3-new", vec!["-in", &zt]),
    ];
    let start = |exe: &str, args: &[&str]| {
        let ch = Command::new(exe).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
        let mut ch = ch.ok()?;
        if let Some(mut si) = ch.stdin.take() {
            let _ = si.write_all(q.as_bytes());
        }
        Some(ch)
    };
    // the first is often done at once; the others join when it is not
    let mut run: Vec<_> = start(cmds[0].0, &cmds[0].1).into_iter().collect();
    let mut joined = false;
    let t0 = Instant::now();
    let mut wait = 1;
    let mut res = None;
    'all: while t0.elapsed().as_secs() < secs + 5 {
        if !joined && (run.is_empty() || t0.elapsed().as_millis() > 150) {
            joined = true;
            run.extend(cmds[1..].iter().filter_map(|(exe, args)| start(exe, args)));
        }
        if run.is_empty() {
            break;
        }
        let mut i = 0;
        while i < run.len() {
            if matches!(run[i].try_wait(), Ok(None)) {
                i += 1;
                continue;
            }
            let mut ch = run.remove(i);
            let mut o = String::new();
            if let Some(mut so) = ch.stdout.take() {
                let _ = so.read_to_string(&mut o);
            }
            let _ = ch.wait();
            if let Some(r) = answer(&o, vars) {
                res = Some(r);
                break 'all;
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(wait));
        wait = (wait + 1).min(20);
    }
    for mut ch in run {
        let _ = ch.kill();
        let _ = ch.wait();
    }
    res
}

fn answer(o: &str, vars: &[u32]) -> Option<Option<ModelMap>> {
    let mut it = o.lines();
    match it.next()?.trim() {
        "unsat" => Some(None),
        "sat" => {
            let mut m = ModelMap::default();
            for v in vars {
                m.insert(*v, 0);
            }
            for l in it {
                // ((k!12 #b00000001))
                let l = l.trim().trim_matches(|c| c == '(' || c == ')');
                let (n, v) = l.split_once(' ')?;
                let id: u32 = n.strip_prefix("k!")?.parse().ok()?;
                let x = if let Some(b) = v.strip_prefix("#b") {
                    u128::from_str_radix(b, 2).ok()?
                } else {
                    u128::from_str_radix(v.strip_prefix("#x")?, 16).ok()?
                };
                m.insert(id, x);
            }
            Some(Some(m))
        }
        _ => None,
    }
}
