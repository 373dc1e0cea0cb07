//! Modelled functions: the harness interface (`vp_*`), LLVM intrinsics and the
//! few libc entry points the Rust runtime reaches.
//!
//! An instruction whose builtin forks is executed again by the forked state, so
//! every builtin resolves all its symbolic choices before it changes the state.
use super::*;

impl<'a> Engine<'a> {
    fn vmap1(&mut self, ty: &Ty, a: &Val, f: &mut dyn FnMut(&mut Self, u32, &Val) -> R<Val>) -> R<Val> {
        match (ty, a) {
            (Ty::Vec(_, e), Val::A(x)) => {
                let w = e.bits();
                let mut r = vec![];
                for v in x.iter() {
                    r.push(f(self, w, v)?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            _ => f(self, ty.bits(), a),
        }
    }
    fn vmap2(&mut self, ty: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, u32, &Val, &Val) -> R<Val>) -> R<Val> {
        match (ty, a, b) {
            (Ty::Vec(_, e), Val::A(x), Val::A(y)) => {
                let w = e.bits();
                let mut r = vec![];
                for i in 0..x.len() {
                    r.push(f(self, w, &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            _ => f(self, ty.bits(), a, b),
        }
    }
    fn sel(&mut self, w: u32, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(k) => {
                if k & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::S(e) => {
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let r = self.ar.ite(*e, x, y);
                self.lift(r)
            }
            _ => unreachable!(),
        }
    }
    fn overflow(&mut self, kind: &str, w: u32, a: &Val, b: &Val) -> Val {
        let op = match &kind[1..4] {
            "add" => Op::Add,
            "sub" => Op::Sub,
            _ => Op::Mul,
        };
        let r = self.bin(op, w, a, b);
        let signed = kind.starts_with('s');
        let of = match (op, signed) {
            (Op::Add, false) => self.bin(Op::Ult, w, &r, a),
            (Op::Sub, false) => self.bin(Op::Ult, w, a, b),
            (Op::Mul, false) => {
                let quot = |s: &Self, x: &Val, y: &Val| -> bool {
                    if let Val::S(e) = x {
                        let n = s.ar.n(*e);
                        if n.op == Op::UDiv {
                            return match y {
                                Val::S(f) => n.b == *f,
                                Val::C(k) => s.ar.cv(n.b) == Some(*k),
                                _ => false,
                            };
                        }
                    }
                    false
                };
                if quot(self, a, b) || quot(self, b, a) {
                    // (x / d) * d fits
                    Val::C(0)
                } else if w <= 64 {
                    if let (Val::C(0) | Val::C(1), _) | (_, Val::C(0) | Val::C(1)) = (a, b) {
                        Val::C(0)
                    } else if let (Val::S(_), Val::C(k)) = (a, b) {
                        // x*k overflows iff x > max/k
                        let lim = mask(w) / k;
                        self.bin(Op::Ult, w, &Val::C(lim), a)
                    } else if let (Val::C(k), Val::S(_)) = (a, b) {
                        let lim = mask(w) / k;
                        self.bin(Op::Ult, w, &Val::C(lim), b)
                    } else {
                        let x = self.zext(a, w, 2 * w);
                        let y = self.zext(b, w, 2 * w);
                        let p = self.bin(Op::Mul, 2 * w, &x, &y);
                        self.bin(Op::Ult, 2 * w, &Val::C(mask(w)), &p)
                    }
                } else if let (Val::C(x), Val::C(y)) = (a, b) {
                    let o = x.checked_mul(*y).map(|p| p > mask(w)).unwrap_or(true);
                    Val::C(o as u128)
                } else if let (Val::S(_), Val::C(k)) | (Val::C(k), Val::S(_)) = (a, b) {
                    if *k == 0 {
                        Val::C(0)
                    } else {
                        let lim = mask(w) / k;
                        let v = if let Val::S(_) = a { a } else { b };
                        self.bin(Op::Ult, w, &Val::C(lim), v)
                    }
                } else {
                    // upper bound check by division
                    let z = self.icmp(Pred::Eq, w, a, &Val::C(0));
                    let one = self.sel(w, &z, &Val::C(1), a);
                    let q = self.bin(Op::UDiv, w, &r, &one);
                    self.icmp(Pred::Ne, w, &q, b)
                }
            }
            (Op::Mul, true) => {
                let w2 = 2 * w;
                let x = self.sextv(a, w, w2);
                let y = self.sextv(b, w, w2);
                let p = self.bin(Op::Mul, w2, &x, &y);
                let t = self.trunc(&p, w2, w);
                let t = self.sextv(&t, w, w2);
                self.icmp(Pred::Ne, w2, &p, &t)
            }
            _ => {
                // signed add/sub: sign based
                let z = Val::C(0);
                let sa = self.icmp(Pred::Slt, w, a, &z);
                let sb = self.icmp(Pred::Slt, w, b, &z);
                let sr = self.icmp(Pred::Slt, w, &r, &z);
                let d1 = self.bin(Op::Xor, 1, &sa, &sb);
                let d1 = if op == Op::Add { self.not(&d1) } else { d1 };
                let d2 = self.bin(Op::Xor, 1, &sa, &sr);
                self.bin(Op::And, 1, &d1, &d2)
            }
        };
        Val::A(Rc::new(vec![r, of]))
    }
    fn popcount(&mut self, w: u32, a: &Val) -> Val {
        match a {
            Val::C(x) => Val::C(x.count_ones() as u128),
            Val::S(e) => {
                let mut acc = self.ar.konst(w, 0);
                for i in 0..w {
                    let b = self.ar.extract(*e, i, 1);
                    let b = self.ar.zext(b, w);
                    acc = self.ar.bin(Op::Add, acc, b);
                }
                self.lift(acc)
            }
            _ => unreachable!(),
        }
    }
    fn zeros(&mut self, w: u32, a: &Val, trailing: bool) -> Val {
        match a {
            Val::C(x) => Val::C(if trailing {
                x.trailing_zeros().min(w) as u128
            } else {
                (x.leading_zeros() - (128 - w)) as u128
            }),
            Val::S(e) => {
                let mut acc = self.ar.konst(w, w as u128);
                for k in 0..w {
                    // lowest priority first
                    let i = if trailing { w - 1 - k } else { k };
                    let n = if trailing { i } else { w - 1 - i };
                    let b = self.ar.extract(*e, i, 1);
                    let kk = self.ar.konst(w, n as u128);
                    acc = self.ar.ite(b, kk, acc);
                }
                self.lift(acc)
            }
            _ => unreachable!(),
        }
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val], argt: &[Ty], ret: &Ty) -> R<Option<Val>> {
        let n = &name[5..];
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let l = self.conc(st, &a[2])? as u64;
            if l > 0 {
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                self.copy(st, d, s, l)?;
            }
            return Ok(None);
        }
        if n.starts_with("memset") {
            self.memset(st, &a[0], &a[1], &a[2])?;
            return Ok(None);
        }
        let two = |s: &mut Self, f: &mut dyn FnMut(&mut Self, u32, &Val, &Val) -> R<Val>| s.vmap2(&argt[0], &a[0], &a[1], f).map(Some);
        if n.starts_with("fshl.") || n.starts_with("fshr.") {
            let w = ret.bits();
            let left = n.starts_with("fshl");
            let x = self.ex(&a[0], w);
            let y = self.ex(&a[1], w);
            return match &a[2] {
                Val::C(k) => {
                    let k = (*k as u32) % w;
                    let r = if left {
                        if k == 0 {
                            x
                        } else {
                            let h = self.ar.extract(x, 0, w - k);
                            let l = self.ar.extract(y, w - k, k);
                            self.ar.concat(h, l)
                        }
                    } else if k == 0 {
                        y
                    } else {
                        let h = self.ar.extract(x, 0, k);
                        let l = self.ar.extract(y, k, w - k);
                        self.ar.concat(h, l)
                    };
                    Ok(Some(self.lift(r)))
                }
                _ => err("symbolic funnel shift amount"),
            };
        }
        let pm = |p: Pred| {
            move |s: &mut Self, w: u32, x: &Val, y: &Val| -> R<Val> {
                let c = s.icmp(p, w, x, y);
                Ok(s.sel(w, &c, x, y))
            }
        };
        for (k, p) in [("umin.", Pred::Ult), ("umax.", Pred::Ugt), ("smin.", Pred::Slt), ("smax.", Pred::Sgt)] {
            if n.starts_with(k) {
                return two(self, &mut pm(p));
            }
        }
        for k in ["uadd", "usub", "umul", "sadd", "ssub", "smul"] {
            if n.starts_with(k) && n[4..].starts_with(".with.overflow") {
                if let Ty::Vec(..) = argt[0] {
                    return err("vector overflow intrinsic");
                }
                return Ok(Some(self.overflow(k, argt[0].bits(), &a[0], &a[1])));
            }
        }
        if n.starts_with("uadd.sat") {
            return two(self, &mut |s, w, x, y| {
                let r = s.bin(Op::Add, w, x, y);
                let c = s.bin(Op::Ult, w, &r, x);
                Ok(s.sel(w, &c, &Val::C(mask(w)), &r))
            });
        }
        if n.starts_with("usub.sat") {
            return two(self, &mut |s, w, x, y| {
                let r = s.bin(Op::Sub, w, x, y);
                let c = s.bin(Op::Ult, w, x, y);
                Ok(s.sel(w, &c, &Val::C(0), &r))
            });
        }
        if n.starts_with("ctpop.") {
            return self.vmap1(&argt[0], &a[0], &mut |s, w, x| Ok(s.popcount(w, x))).map(Some);
        }
        if n.starts_with("cttz.") || n.starts_with("ctlz.") {
            let t = n.starts_with("cttz");
            return self.vmap1(&argt[0], &a[0], &mut |s, w, x| Ok(s.zeros(w, x, t))).map(Some);
        }
        if n.starts_with("bswap.") {
            return self
                .vmap1(&argt[0], &a[0], &mut |s, w, x| {
                    Ok(match x {
                        Val::C(v) => Val::C(v.swap_bytes() >> (128 - w)),
                        _ => {
                            let e = s.ex(x, w);
                            let mut acc = s.ar.extract(e, 0, 8);
                            for i in 1..w / 8 {
                                let b = s.ar.extract(e, i * 8, 8);
                                acc = s.ar.concat(acc, b);
                            }
                            s.lift(acc)
                        }
                    })
                })
                .map(Some);
        }
        if n.starts_with("bitreverse.") {
            return self
                .vmap1(&argt[0], &a[0], &mut |s, w, x| {
                    let e = s.ex(x, w);
                    let mut acc = s.ar.extract(e, 0, 1);
                    for i in 1..w {
                        let b = s.ar.extract(e, i, 1);
                        acc = s.ar.concat(acc, b);
                    }
                    Ok(s.lift(acc))
                })
                .map(Some);
        }
        if n.starts_with("abs.") {
            return self
                .vmap1(&argt[0], &a[0], &mut |s, w, x| {
                    let neg = s.bin(Op::Sub, w, &Val::C(0), x);
                    let c = s.icmp(Pred::Slt, w, x, &Val::C(0));
                    Ok(s.sel(w, &c, &neg, x))
                })
                .map(Some);
        }
        if n.starts_with("ucmp.") || n.starts_with("scmp.") {
            let w = argt[0].bits();
            let rw = ret.bits();
            let lt = self.icmp(if n.starts_with('u') { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]);
            let eq = self.icmp(Pred::Eq, w, &a[0], &a[1]);
            let x = self.sel(rw, &eq, &Val::C(0), &Val::C(1));
            return Ok(Some(self.sel(rw, &lt, &Val::C(mask(rw)), &x)));
        }
        if n.starts_with("fptoui.sat") || n.starts_with("fptosi.sat") {
            let x = self.float(st, &a[0])?;
            let x = if argt[0] == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            let w = ret.bits();
            return Ok(Some(Val::C(if n.starts_with("fptoui") {
                (x as u128).min(mask(w))
            } else {
                let h = (mask(w) >> 1) as i128;
                ((x as i128).clamp(-h - 1, h) as u128) & mask(w)
            })));
        }
        for (k, f) in [("floor.", f64::floor as fn(f64) -> f64), ("ceil.", f64::ceil), ("trunc.", f64::trunc), ("round.", f64::round), ("rint.", f64::round_ties_even), ("roundeven.", f64::round_ties_even)] {
            if n.starts_with(k) && argt[0] == Ty::F64 {
                let x = self.float(st, &a[0])?;
                return Ok(Some(Val::C(f(f64::from_bits(x as u64)).to_bits() as u128)));
            }
        }
        if n.starts_with("expect.") || n.starts_with("threadlocal.address") {
            return Ok(Some(a[0].clone()));
        }
        if n.starts_with("is.constant") {
            return Ok(Some(Val::C(0)));
        }
        if n.starts_with("assume") {
            return Ok(None);
        }
        if n == "trap" || n.starts_with("ubsantrap") || n == "debugtrap" {
            return viol("abort", "trap");
        }
        if n.starts_with("ptrmask") {
            return Ok(Some(self.bin(Op::And, 64, &a[0], &a[1])));
        }
        if n.starts_with("objectsize") {
            return Ok(Some(Val::C(mask(ret.bits()))));
        }
        if n.starts_with("vector.reduce.") {
            let et = argt[0].field(0);
            let w = et.bits();
            let k = n["vector.reduce.".len()..].split('.').next().unwrap().to_string();
            let x = match &a[0] {
                Val::A(x) => x.clone(),
                _ => return err("vector.reduce"),
            };
            let mut acc = x[0].clone();
            for v in &x[1..] {
                acc = match k.as_str() {
                    "add" => self.bin(Op::Add, w, &acc, v),
                    "mul" => self.bin(Op::Mul, w, &acc, v),
                    "or" => self.bin(Op::Or, w, &acc, v),
                    "and" => self.bin(Op::And, w, &acc, v),
                    "xor" => self.bin(Op::Xor, w, &acc, v),
                    "umin" => pm(Pred::Ult)(self, w, &acc, v)?,
                    "umax" => pm(Pred::Ugt)(self, w, &acc, v)?,
                    "smin" => pm(Pred::Slt)(self, w, &acc, v)?,
                    "smax" => pm(Pred::Sgt)(self, w, &acc, v)?,
                    o => return err(format!("vector.reduce.{}", o)),
                };
            }
            return Ok(Some(acc));
        }
        if n.starts_with("x86.sse2.pmovmskb") {
            if let Val::A(x) = &a[0] {
                let mut acc: Option<E> = None;
                for v in x.clone().iter() {
                    let e = self.ex(v, 8);
                    let b = self.ar.extract(e, 7, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.ar.concat(b, l),
                    });
                }
                let e = self.ar.zext(acc.unwrap(), ret.bits());
                return Ok(Some(self.lift(e)));
            }
        }
        if n.starts_with("is.fpclass.") {
            let w = argt[0].bits();
            let k = match (&a[1], w) {
                (Val::C(k), 32 | 64) => *k,
                _ => return err("is.fpclass"),
            };
            let (eb, mb) = if w == 32 { (8, 23) } else { (11, 52) };
            let e = self.bin(Op::And, w, &a[0], &Val::C(mask(eb) << mb));
            let m = self.bin(Op::And, w, &a[0], &Val::C(mask(mb)));
            let q = self.bin(Op::And, w, &a[0], &Val::C(1 << (mb - 1)));
            let s = self.bin(Op::And, w, &a[0], &Val::C(1 << (w - 1)));
            let neg = self.icmp(Pred::Ne, w, &s, &Val::C(0));
            let pos = self.not(&neg);
            let e0 = self.icmp(Pred::Eq, w, &e, &Val::C(0));
            let e1 = self.icmp(Pred::Eq, w, &e, &Val::C(mask(eb) << mb));
            let m0 = self.icmp(Pred::Eq, w, &m, &Val::C(0));
            let (ne0, ne1, nm0) = (self.not(&e0), self.not(&e1), self.not(&m0));
            let qn = self.icmp(Pred::Ne, w, &q, &Val::C(0));
            let sn = self.not(&qn);
            let nan = self.bin(Op::And, 1, &e1, &nm0);
            let inf = self.bin(Op::And, 1, &e1, &m0);
            let norm = self.bin(Op::And, 1, &ne0, &ne1);
            let sub = self.bin(Op::And, 1, &e0, &nm0);
            let zero = self.bin(Op::And, 1, &e0, &m0);
            let parts = [(1u128, &nan, &sn), (2, &nan, &qn), (4, &inf, &neg), (8, &norm, &neg), (0x10, &sub, &neg), (0x20, &zero, &neg), (0x40, &zero, &pos), (0x80, &sub, &pos), (0x100, &norm, &pos), (0x200, &inf, &pos)];
            let mut acc = Val::C(0);
            for (bit, x, y) in parts {
                if k & bit != 0 {
                    let c = self.bin(Op::And, 1, x, y);
                    acc = self.bin(Op::Or, 1, &acc, &c);
                }
            }
            return Ok(Some(acc));
        }
        if n.starts_with("fabs.") {
            let w = ret.bits();
            return Ok(Some(self.bin(Op::And, w, &a[0], &Val::C(mask(w - 1)))));
        }
        if n.starts_with("fptoui.sat") || n.starts_with("fptosi.sat") {
            let x = match &a[0] {
                Val::C(x) => *x,
                _ => return err("symbolic float conversion"),
            };
            let f = if argt[0] == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            let w = ret.bits();
            let r = if n.starts_with("fptoui") {
                (f as u128).min(mask(w))
            } else {
                let max = (mask(w) >> 1) as i128;
                ((f as i128).clamp(-max - 1, max) as u128) & mask(w)
            };
            return Ok(Some(Val::C(r)));
        }
        for k in ["trunc.", "floor.", "ceil.", "round.", "rint."] {
            if n.starts_with(k) {
                let x = match &a[0] {
                    Val::C(x) => *x,
                    _ => return err("symbolic float rounding"),
                };
                if *ret == Ty::F64 {
                    let f = f64::from_bits(x as u64);
                    let r = match k {
                        "trunc." => f.trunc(),
                        "floor." => f.floor(),
                        "ceil." => f.ceil(),
                        "round." => f.round(),
                        _ => return err("rint"),
                    };
                    return Ok(Some(Val::C(r.to_bits() as u128)));
                }
            }
        }
        err(format!("unmodelled intrinsic {}", name))
    }
    /// Zeros at a symbolic place or of a symbolic length, in an object of symbolic size which still
    /// holds nothing else: nothing changes, so neither has to be split into its values.
    pub(super) fn zero_in_fresh(&mut self, st: &mut State, p: &Val, l: &Val) -> R<bool> {
        if matches!((p, l), (Val::C(_), Val::C(_))) {
            return Ok(false);
        }
        let at = match p {
            Val::C(x) => *x,
            Val::S(e) => {
                let e = *e;
                self.eval(&st.model, e)
            }
            _ => return Ok(false),
        };
        let idx = (at >> 32) as u64;
        let size = match self.obj(st, idx) {
            Some(o) if o.symsize != 0 && !o.ro && matches!(&o.data, Data::Sparse(m) if m.is_empty()) => o.symsize,
            _ => return Ok(false),
        };
        let size = self.lift(size);
        let off = self.bin(Op::Sub, 64, p, &Val::C(((idx << 32) as u128)));
        let room = self.bin(Op::Sub, 64, &size, &off);
        let inside = self.bin(Op::Ule, 64, &off, &size);
        let fits = self.bin(Op::Ule, 64, l, &room);
        let ok = self.bin(Op::And, 1, &inside, &fits);
        let bad = self.not(&ok);
        let bad = self.ex(&bad, 1);
        Ok(self.sat(st, bad)?.is_none())
    }
    fn memset(&mut self, st: &mut State, p: &Val, v: &Val, l: &Val) -> R<()> {
        if matches!(v, Val::C(x) if *x as u8 == 0) && self.zero_in_fresh(st, p, l)? {
            return Ok(());
        }
        let l = self.conc(st, l)? as u64;
        if l == 0 {
            return Ok(());
        }
        let d = self.conc(st, p)?;
        let v = match v {
            Val::S(e) if self.ar.w(*e) > 8 => {
                let x = self.ar.extract(*e, 0, 8);
                self.lift(x)
            }
            v => v.clone(),
        };
        self.check_range(st, d, l, true)?;
        let (b, e) = match v {
            Val::C(x) => (x as u8, 0),
            Val::S(e) => (0, e),
            _ => return err("memset"),
        };
        let idx = (d >> 32) as u64;
        let off = (d & 0xffff_ffff) as u64;
        let o = self.obj_mut(st, idx).unwrap();
        if b == 0 && e == 0 {
            if let Data::Sparse(m) = &mut o.data {
                // absent bytes read as zero
                let keys: Vec<u64> = m.range(off..off + l).map(|x| *x.0).collect();
                for k in keys {
                    m.remove(&k);
                }
                return Ok(());
            }
        }
        for i in 0..l {
            o.set(off + i, b, e);
        }
        Ok(())
    }
    /// Heap allocation with a possibly symbolic size. 0 is the failed allocation.
    fn do_alloc(&mut self, st: &mut State, size: &Val) -> R<Val> {
        let e = match size {
            Val::C(n) => {
                let n = *n as u64;
                if n >= MAXALLOC {
                    return Ok(Val::C(0));
                }
                return Ok(Val::C(self.alloc(st, n) as u128));
            }
            Val::S(e) => *e,
            _ => return err("alloc size"),
        };
        let huge = self.bin(Op::Ule, 64, &Val::C(MAXALLOC as u128), size);
        if self.branch(st, &huge)? {
            return Ok(Val::C(0));
        }
        let big = self.bin(Op::Ult, 64, &Val::C(64), size);
        let big_e = self.ex(&big, 1);
        if self.sat(st, big_e)?.is_none() {
            let n = self.conc(st, size)? as u64;
            return Ok(Val::C(self.alloc(st, n) as u128));
        }
        let mut o = Obj::new(MAXALLOC);
        o.symsize = e;
        let idx = st.objs.len() as u64;
        st.objs.push(Some(Rc::new(o)));
        Ok(Val::C(((HEAP0 + idx) << 32) as u128))
    }
    fn do_free(&mut self, st: &mut State, p: u128) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let idx = (p >> 32) as u64;
        if idx < HEAP0 || (p & 0xffff_ffff) != 0 {
            return viol("memory", format!("free of {:#x}", p));
        }
        match st.objs.get_mut((idx - HEAP0) as usize) {
            Some(o @ Some(_)) => {
                *o = None;
                Ok(())
            }
            _ => viol("memory", format!("double free of {:#x}", p)),
        }
    }
    fn cstr(&mut self, st: &mut State, p: u128) -> R<Vec<u8>> {
        let mut out = vec![];
        loop {
            let v = self.load_scalar(st, p + out.len() as u128, 8)?;
            match v {
                Val::C(0) => return Ok(out),
                Val::C(x) => out.push(x as u8),
                _ => return err("symbolic C string"),
            }
            if out.len() > 4096 {
                return err("long C string");
            }
        }
    }
    fn fresh(&mut self, st: &mut State, w: u32) -> Val {
        let k = (st.nsym, w);
        st.nsym += 1;
        let e = match self.symvars.get(&k) {
            Some(&e) => e,
            None => {
                let e = self.ar.var(w);
                self.symvars.insert(k, e);
                e
            }
        };
        st.inputs.push((Val::S(e), w));
        Val::S(e)
    }
    pub(super) fn builtin(&mut self, st: &mut State, name: &str, a: &[Val], argt: &[Ty], ret: &Ty) -> R<Option<Val>> {
        if name.starts_with("llvm.") {
            return self.intrinsic(st, name, a, argt, ret);
        }
        match name {
            "vp_any_hash" => return Ok(Some(Val::C(0))),
            "vp_u8" => return Ok(Some(self.fresh(st, 8))),
            "vp_u16" => return Ok(Some(self.fresh(st, 16))),
            "vp_u32" => return Ok(Some(self.fresh(st, 32))),
            "vp_u64" => return Ok(Some(self.fresh(st, 64))),
            "vp_pick" => {
                let n = match &a[0] {
                    Val::C(n) => *n as u64,
                    _ => return err("vp_pick with symbolic bound"),
                };
                if n == 0 {
                    return Err(Stop::Kill);
                }
                let v = match st.pick.take() {
                    Some(v) => v,
                    None => {
                        for i in (1..n).rev() {
                            self.note_fork(st);
                            let mut o = st.clone();
                            o.pick = Some(i);
                            self.work.push(o);
                        }
                        0
                    }
                };
                st.inputs.push((Val::C(v as u128), 64));
                return Ok(Some(Val::C(v as u128)));
            }
            "vp_assume" => {
                let c = self.icmp(Pred::Ne, argt[0].bits(), &a[0], &Val::C(0));
                self.assume(st, &c)?;
                return Ok(None);
            }
            "vp_check" => {
                let c = self.icmp(Pred::Ne, argt[0].bits(), &a[0], &Val::C(0));
                let code = self.conc(st, &a[1])? as u64;
                self.stats.asserts += 1;
                if let Val::S(_) = c {
                    self.stats.sym_asserts += 1;
                }
                if !self.branch(st, &c)? {
                    return Err(Stop::Viol("check".into(), code, format!("assertion {} fails", code)));
                }
                return Ok(None);
            }
            "vp_fail" => {
                let code = self.conc(st, &a[0])? as u64;
                return Err(Stop::Viol("check".into(), code, format!("assertion {} fails", code)));
            }
            "vp_cover" => {
                let c = self.conc(st, &a[0])? as u32;
                if !st.covers.contains(&c) {
                    st.covers.push(c);
                }
                return Ok(None);
            }
            "vp_known" => {
                let c = self.conc(st, &a[0])? as u32;
                if !st.knownf.contains(&c) {
                    st.knownf.push(c);
                }
                return Ok(None);
            }
            "vp_obs" => {
                st.obs.push(a[0].clone());
                return Ok(None);
            }
            "vp_param" => {
                let i = self.conc(st, &a[0])? as usize;
                return Ok(Some(Val::C(st.params.get(i).copied().unwrap_or(0) as u128)));
            }
            // concrete value of an expression on this path (forks over its values)
            "vp_conc" => {
                let v = self.conc(st, &a[0])?;
                return Ok(Some(Val::C(v)));
            }
            // 1 if the condition is possible on this path (a query, no fork)
            "vp_symbolic" => return Ok(Some(Val::C(matches!(a[0], Val::S(_)) as u128))),
            _ => {}
        }
        match name {
            "malloc" => Ok(Some(self.do_alloc(st, &a[0])?)),
            "calloc" => {
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    if (*x).checked_mul(*y).map(|p| p >= MAXALLOC as u128).unwrap_or(true) {
                        return Ok(Some(Val::C(0)));
                    }
                }
                let r = self.overflow("umul", 64, &a[0], &a[1]);
                let (p, o) = match &r {
                    Val::A(v) => (v[0].clone(), v[1].clone()),
                    _ => unreachable!(),
                };
                if self.branch(st, &o)? {
                    return Ok(Some(Val::C(0)));
                }
                Ok(Some(self.do_alloc(st, &p)?))
            }
            "posix_memalign" => {
                let p = self.do_alloc(st, &a[2])?;
                let d = match &a[0] {
                    Val::C(d) => *d,
                    _ => return err("posix_memalign"),
                };
                if let Val::C(0) = p {
                    return Ok(Some(Val::C(12)));
                }
                self.store_scalar(st, d, 64, &p)?;
                Ok(Some(Val::C(0)))
            }
            "aligned_alloc" => Ok(Some(self.do_alloc(st, &a[1])?)),
            "free" => {
                let p = self.conc(st, &a[0])?;
                self.do_free(st, p)?;
                Ok(None)
            }
            "realloc" => {
                let p = self.conc(st, &a[0])?;
                if p == 0 {
                    return Ok(Some(self.do_alloc(st, &a[1])?));
                }
                let idx = (p >> 32) as u64;
                let (osz, osym) = match self.obj(st, idx) {
                    Some(o) => (o.size, o.symsize),
                    None => return viol("memory", "realloc of freed memory"),
                };
                if osym != 0 {
                    return err("realloc of an object of symbolic size");
                }
                let n = match &a[1] {
                    Val::C(_) => a[1].clone(),
                    v => Val::C(self.conc(st, v)?),
                };
                let np = self.do_alloc(st, &n)?;
                if let (Val::C(np), Val::C(n)) = (&np, &n) {
                    if *np != 0 {
                        self.copy(st, *np, p, osz.min(*n as u64))?;
                        self.do_free(st, p)?;
                    }
                }
                Ok(Some(np))
            }
            "memcpy" | "memmove" => {
                let l = self.conc(st, &a[2])? as u64;
                if l > 0 {
                    let d = self.conc(st, &a[0])?;
                    let s = self.conc(st, &a[1])?;
                    self.copy(st, d, s, l)?;
                }
                Ok(Some(a[0].clone()))
            }
            "memset" => {
                self.memset(st, &a[0], &a[1], &a[2])?;
                Ok(Some(a[0].clone()))
            }
            "memcmp" | "bcmp" => {
                let l = self.conc(st, &a[2])? as u64;
                if l == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let x = self.load_bytes(st, p, l)?;
                let y = self.load_bytes(st, q, l)?;
                let mut acc = Val::C(0);
                if name == "bcmp" {
                    let mut eq = Val::C(1);
                    for i in 0..l as usize {
                        let (u, v) = (self.byte(x[i]), self.byte(y[i]));
                        let e = self.icmp(Pred::Eq, 8, &u, &v);
                        eq = self.bin(Op::And, 1, &eq, &e);
                        if let Val::C(0) = eq {
                            break;
                        }
                    }
                    return Ok(Some(self.sel(32, &eq, &Val::C(0), &Val::C(1))));
                }
                for i in (0..l as usize).rev() {
                    let (u, v) = (self.byte(x[i]), self.byte(y[i]));
                    let eq = self.icmp(Pred::Eq, 8, &u, &v);
                    let lt = self.icmp(Pred::Ult, 8, &u, &v);
                    let s = self.sel(32, &lt, &Val::C(0xffff_ffff), &Val::C(1));
                    acc = self.sel(32, &eq, &acc, &s);
                }
                Ok(Some(acc))
            }
            "strlen" => {
                let p = self.conc(st, &a[0])?;
                Ok(Some(Val::C(self.cstr(st, p)?.len() as u128)))
            }
            "memchr" | "memrchr" => {
                let l = self.conc(st, &a[2])? as u64;
                if l == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let p = self.conc(st, &a[0])?;
                let c = self.trunc(&a[1], argt[1].bits(), 8);
                let x = self.load_bytes(st, p, l)?;
                let rev = name == "memrchr";
                for k in 0..l as usize {
                    let i = if rev { l as usize - 1 - k } else { k };
                    let b = self.byte(x[i]);
                    let e = self.icmp(Pred::Eq, 8, &b, &c);
                    if self.branch(st, &e)? {
                        return Ok(Some(Val::C(p + i as u128)));
                    }
                }
                Ok(Some(Val::C(0)))
            }
            "abort" => viol("abort", "abort called"),
            "__errno_location" => {
                // one fixed cell: the first heap object ever allocated for it is kept in the fs state
                if st.fs.errno_obj == 0 {
                    let p = self.alloc(st, 4);
                    Rc::make_mut(&mut st.fs).errno_obj = p;
                }
                let p = st.fs.errno_obj;
                let e = st.fs.errno;
                self.store_scalar(st, p as u128, 32, &Val::C(e as u128))?;
                Ok(Some(Val::C(p as u128)))
            }
            "getenv" => Ok(Some(Val::C(0))),
            "pthread_self" => Ok(Some(Val::C(1))),
            "gettid" => Ok(Some(Val::C(1))),
            "fcntl" => Ok(Some(Val::C(0))),
            "getrandom" => {
                let l = self.conc(st, &a[1])?;
                self.memset(st, &a[0], &Val::C(7), &Val::C(l))?;
                Ok(Some(Val::C(l)))
            }
            "syscall" => {
                // getrandom is the only system call the runtime makes directly here
                match &a[0] {
                    Val::C(318) => {
                        let l = self.conc(st, &a[2])?;
                        self.memset(st, &a[1], &Val::C(7), &Val::C(l))?;
                        Ok(Some(Val::C(l)))
                    }
                    Val::C(n) => err(format!("syscall {}", n)),
                    _ => err("syscall"),
                }
            }
            "open64" => {
                let p = self.conc(st, &a[0])?;
                let name = self.cstr(st, p)?;
                let flags = self.conc(st, &a[1])? as u32;
                let fs = Rc::make_mut(&mut st.fs);
                let exists = fs.files.contains_key(&name);
                if !exists && flags & 0o100 == 0 {
                    fs.errno = 2;
                    return Ok(Some(Val::C(0xffff_ffff)));
                }
                if exists && flags & 0o300 == 0o300 {
                    fs.errno = 17;
                    return Ok(Some(Val::C(0xffff_ffff)));
                }
                if !exists || flags & 0o1000 != 0 {
                    fs.files.insert(name.clone(), vec![]);
                }
                let fd = fs.next_fd + 3;
                fs.next_fd += 1;
                fs.fds.insert(fd, (name, 0, flags));
                Ok(Some(Val::C(fd as u128)))
            }
            "close" => {
                let fd = self.conc(st, &a[0])? as u32;
                let fs = Rc::make_mut(&mut st.fs);
                if fs.fds.remove(&fd).is_none() {
                    return viol("memory", format!("close of fd {}", fd));
                }
                Ok(Some(Val::C(0)))
            }
            "read" => {
                let fd = self.conc(st, &a[0])? as u32;
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])? as u64;
                let (name, pos, flags) = match st.fs.fds.get(&fd) {
                    Some(x) => x.clone(),
                    None => return err(format!("read of fd {}", fd)),
                };
                if flags & 3 == 1 {
                    Rc::make_mut(&mut st.fs).errno = 9;
                    return Ok(Some(Val::C(u64::MAX as u128)));
                }
                let data: Vec<(u8, E)> = {
                    let f = &st.fs.files[&name];
                    let s = (pos as usize).min(f.len());
                    let e = s.saturating_add(n as usize).min(f.len());
                    f[s..e].to_vec()
                };
                self.store_bytes(st, p, &data)?;
                let fs = Rc::make_mut(&mut st.fs);
                fs.fds.get_mut(&fd).unwrap().1 = pos + data.len() as u64;
                Ok(Some(Val::C(data.len() as u128)))
            }
            "write" => {
                let fd = self.conc(st, &a[0])? as u32;
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])? as u64;
                if fd == 1 || fd == 2 {
                    return Ok(Some(Val::C(n as u128)));
                }
                let (name, pos, flags) = match st.fs.fds.get(&fd) {
                    Some(x) => x.clone(),
                    None => return err(format!("write to fd {}", fd)),
                };
                if flags & 3 == 0 {
                    Rc::make_mut(&mut st.fs).errno = 9;
                    return Ok(Some(Val::C(u64::MAX as u128)));
                }
                let data = self.load_bytes(st, p, n)?;
                let fs = Rc::make_mut(&mut st.fs);
                let f = fs.files.get_mut(&name).unwrap();
                let pos = if flags & 0o2000 != 0 { f.len() as u64 } else { pos };
                let end = (pos + n) as usize;
                if end > (1 << 24) {
                    return err("file too large for the model");
                }
                if f.len() < end {
                    f.resize(end, (0, 0));
                }
                f[pos as usize..end].copy_from_slice(&data);
                fs.fds.get_mut(&fd).unwrap().1 = end as u64;
                Ok(Some(Val::C(n as u128)))
            }
            "lseek64" => {
                let fd = self.conc(st, &a[0])? as u32;
                let off = sext(self.conc(st, &a[1])?, 64) as i64;
                let wh = self.conc(st, &a[2])?;
                let fs = Rc::make_mut(&mut st.fs);
                let (name, pos, _) = match fs.fds.get(&fd) {
                    Some(x) => x.clone(),
                    None => return err(format!("lseek of fd {}", fd)),
                };
                let base = match wh {
                    0 => 0,
                    1 => pos as i64,
                    _ => fs.files[&name].len() as i64,
                };
                match base.checked_add(off) {
                    Some(x) if x >= 0 => {
                        fs.fds.get_mut(&fd).unwrap().1 = x as u64;
                        Ok(Some(Val::C(x as u64 as u128)))
                    }
                    _ => {
                        fs.errno = 22;
                        Ok(Some(Val::C(u64::MAX as u128)))
                    }
                }
            }
            "fstat64" => {
                let fd = self.conc(st, &a[0])? as u32;
                let p = self.conc(st, &a[1])?;
                let len = match st.fs.fds.get(&fd) {
                    Some((n, _, _)) => st.fs.files[n].len(),
                    None => return err("fstat"),
                };
                self.memset(st, &Val::C(p), &Val::C(0), &Val::C(144))?;
                self.store_scalar(st, p + 24, 32, &Val::C(0o100644))?;
                self.store_scalar(st, p + 48, 64, &Val::C(len as u128))?;
                Ok(Some(Val::C(0)))
            }
            "stat64" | "lstat64" => {
                let q = self.conc(st, &a[0])?;
                let name = self.cstr(st, q)?;
                let p = self.conc(st, &a[1])?;
                let len = match st.fs.files.get(&name) {
                    Some(f) => f.len(),
                    None => {
                        Rc::make_mut(&mut st.fs).errno = 2;
                        return Ok(Some(Val::C(0xffff_ffff)));
                    }
                };
                self.memset(st, &Val::C(p), &Val::C(0), &Val::C(144))?;
                self.store_scalar(st, p + 24, 32, &Val::C(0o100644))?;
                self.store_scalar(st, p + 48, 64, &Val::C(len as u128))?;
                Ok(Some(Val::C(0)))
            }
            "unlink" => {
                let q = self.conc(st, &a[0])?;
                let name = self.cstr(st, q)?;
                let fs = Rc::make_mut(&mut st.fs);
                if fs.fds.values().any(|x| x.0 == name) {
                    return err("unlink of an open file");
                }
                if fs.files.remove(&name).is_none() {
                    fs.errno = 2;
                    return Ok(Some(Val::C(0xffff_ffff)));
                }
                Ok(Some(Val::C(0)))
            }
            "ftruncate64" => {
                let fd = self.conc(st, &a[0])? as u32;
                let n = self.conc(st, &a[1])? as usize;
                let fs = Rc::make_mut(&mut st.fs);
                let name = match fs.fds.get(&fd) {
                    Some(x) => x.0.clone(),
                    None => return err("ftruncate"),
                };
                fs.files.get_mut(&name).unwrap().resize(n, (0, 0));
                Ok(Some(Val::C(0)))
            }
            "fsync" | "fdatasync" => Ok(Some(Val::C(0))),
            _ => err(format!("unmodelled function {}", demangle_v0(name))),
        }
    }
    /// `core::str::from_utf8` on partly symbolic bytes: validity is one condition (the UTF-8
    /// grammar), so the path forks once instead of at every byte. The position details of the
    /// error value are not modelled.
    pub(super) fn model_utf8(&mut self, st: &mut State, a: &[Val]) -> R<bool> {
        let n = self.conc(st, &a[2])? as u64;
        if n == 0 {
            return Ok(false);
        }
        let p = self.conc(st, &a[1])?;
        let bs = self.load_bytes(st, p, n)?;
        if bs.iter().all(|b| b.1 == 0) {
            return Ok(false);
        }
        let n = n as usize;
        let mut v: Vec<Val> = vec![Val::C(0); n + 4];
        v[n] = Val::C(1);
        for i in (0..n).rev() {
            let b: Vec<Val> = (0..4).map(|k| if i + k < n { self.byte(bs[i + k]) } else { Val::C(0) }).collect();
            let mut acc = Val::C(0);
            for (lo, hi, nb, l1, h1) in [
                (0u128, 0x7fu128, 1usize, 0u128, 0u128),
                (0xc2, 0xdf, 2, 0x80, 0xbf),
                (0xe0, 0xe0, 3, 0xa0, 0xbf),
                (0xe1, 0xec, 3, 0x80, 0xbf),
                (0xed, 0xed, 3, 0x80, 0x9f),
                (0xee, 0xef, 3, 0x80, 0xbf),
                (0xf0, 0xf0, 4, 0x90, 0xbf),
                (0xf1, 0xf3, 4, 0x80, 0xbf),
                (0xf4, 0xf4, 4, 0x80, 0x8f),
            ] {
                if i + nb > n {
                    continue;
                }
                let mut c = self.inrange(&b[0], lo, hi);
                if nb > 1 {
                    let d = self.inrange(&b[1], l1, h1);
                    c = self.bin(Op::And, 1, &c, &d);
                }
                for k in 2..nb {
                    let d = self.inrange(&b[k], 0x80, 0xbf);
                    c = self.bin(Op::And, 1, &c, &d);
                }
                let t = v[i + nb].clone();
                c = self.bin(Op::And, 1, &c, &t);
                acc = self.bin(Op::Or, 1, &acc, &c);
            }
            v[i] = acc;
        }
        let ok = v[0].clone();
        let ok = self.branch(st, &ok)?;
        let d = self.conc(st, &a[0])?;
        if ok {
            self.store_scalar(st, d, 64, &Val::C(0))?;
            self.store_scalar(st, d + 8, 64, &Val::C(p))?;
            self.store_scalar(st, d + 16, 64, &Val::C(n as u128))?;
        } else {
            self.store_scalar(st, d, 64, &Val::C(1))?;
            self.store_scalar(st, d + 8, 64, &Val::C(0))?;
            self.store_scalar(st, d + 16, 64, &Val::C(0x0101))?;
        }
        Ok(true)
    }
    fn inrange(&mut self, b: &Val, lo: u128, hi: u128) -> Val {
        let x = self.icmp(Pred::Uge, 8, b, &Val::C(lo));
        let y = self.icmp(Pred::Ule, 8, b, &Val::C(hi));
        self.bin(Op::And, 1, &x, &y)
    }
    fn byte(&self, b: (u8, E)) -> Val {
        if b.1 != 0 {
            Val::S(b.1)
        } else {
            Val::C(b.0 as u128)
        }
    }
}
