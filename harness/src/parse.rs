//! A TDMS parser of its own, for bytes the library wrote. Strict: whatever the format does not
//! allow is a failed check.
#![allow(dead_code)]
use crate::model::*;
use crate::refint::*;
use crate::ty::*;
use crate::vp;

pub struct P<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub be: bool,
    pub code: u64,
}
impl P<'_> {
    fn take(&mut self, n: usize) -> usize {
        vp::check(n <= self.end - self.pos, self.code);
        let p = self.pos;
        self.pos += n;
        p
    }
    fn num(&mut self, n: usize) -> u128 {
        let p = self.take(n);
        get(self.b, p, n, self.be)
    }
    fn u32(&mut self) -> u32 {
        vp::conc(self.num(4) as u64) as u32
    }
    fn u64(&mut self) -> u64 {
        vp::conc(self.num(8) as u64)
    }
    fn str(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        vp::check(n <= self.end - self.pos, self.code);
        let p = self.take(n);
        self.b[p..p + n].to_vec()
    }
    fn value(&mut self) -> PVal {
        match self.u32() {
            0 => PVal::Void,
            0x20 => PVal::Str(self.str()),
            c => {
                let k = CODE.iter().position(|x| *x == c);
                let k = vp::some(k, self.code + 1);
                let p = self.take(WIDTH[k]);
                PVal::Num(k, dec(self.b, p, k, self.be))
            }
        }
    }
}

/// What one segment was.
#[derive(Clone, Default)]
pub struct SegInfo {
    pub toc: u32,
    pub start: usize,
    pub end: usize,
    pub chunks: usize,
    pub objects: usize,
}

fn name_of(b: &[u8], names: &[&'static str]) -> Option<&'static str> {
    names.iter().copied().find(|n| n.len() == b.len() && n.as_bytes().iter().zip(b).all(|(x, y)| x == y))
}

/// The segments of `b`, and what they mean in `r`. Checks use `code`..`code + 20`.
pub fn parse(b: &[u8], r: &mut Ref, code: u64) -> Vec<SegInfo> {
    let mut segs: Vec<SegInfo> = Vec::new();
    let mut pos = 0;
    while pos < b.len() {
        vp::check(b.len() - pos >= 28, code);
        vp::check(b[pos] == b'T' && b[pos + 1] == b'D' && b[pos + 2] == b'S' && b[pos + 3] == b'm', code + 1);
        let toc = vp::conc(get(b, pos + 4, 4, false) as u64) as u32;
        vp::check(toc & !(META | NEWLIST | RAW | INTER | BIG) == 0, code + 2);
        let be = toc & BIG != 0;
        vp::check(get(b, pos + 8, 4, be) == 4713, code + 3);
        let next = vp::conc(get(b, pos + 12, 8, be) as u64);
        let raw = vp::conc(get(b, pos + 20, 8, be) as u64);
        let body = pos + 28;
        vp::check(next <= (b.len() - body) as u64 && raw <= next, code + 4);
        let end = body + next as usize;
        let data = body + raw as usize;
        // the flags say what is there
        vp::check((toc & META != 0) == (raw > 0), code + 5);
        vp::check((toc & RAW != 0) == (next > raw), code + 6);
        vp::check(toc & NEWLIST == 0 || toc & META != 0, code + 7);
        vp::check(toc & INTER == 0 || toc & RAW != 0, code + 8);
        if toc & NEWLIST != 0 {
            r.new_list();
        }
        let mut info = SegInfo { toc, start: pos, end, chunks: 0, objects: 0 };
        if toc & META != 0 {
            let mut p = P { b, pos: body, end: data, be, code: code + 9 };
            let n = p.u32();
            let mut seen = Vec::new();
            for _ in 0..n {
                info.objects += 1;
                let path = p.str();
                let o = (0..NOBJ).find(|o| name_of(&path, &[obj_path(*o)]).is_some());
                let o = vp::some(o, code + 11);
                vp::check(!seen.contains(&o), code + 12);
                seen.push(o);
                let ix = match p.u32() {
                    0xffff_ffff => RIx::None,
                    0 => RIx::Same,
                    l => {
                        vp::check(l == 20, code + 13);
                        let c = p.u32();
                        let t = vp::some(CODE.iter().position(|x| *x == c), code + 14);
                        vp::check(p.u32() == 1, code + 15);
                        let n = p.u64();
                        vp::check(n <= 1 << 20, code + 16);
                        RIx::Full(t, n as usize)
                    }
                };
                vp::check(o < 4 || o == 7 || ix == RIx::None, code + 16);
                vp::check(r.entry(o, ix), code + 17);
                for _ in 0..p.u32() {
                    let name = p.str();
                    let name = vp::some(name_of(&name, &["p", "q", "z"]), code + 18);
                    let v = p.value();
                    r.m.set_prop(o, name, v);
                }
            }
            vp::check(p.pos == data, code + 19);
        }
        if toc & RAW != 0 {
            let size = r.chunk_size();
            vp::check(size > 0 && (end - data) % size == 0, code + 20);
            info.chunks = (end - data) / size;
            r.raw(&b[data..end], toc & INTER != 0, be);
        }
        segs.push(info);
        pos = end;
    }
    segs
}

/// Both describe the same content.
pub fn same_content(a: &Model, b: &Model, code: u64) {
    for c in 0..4 {
        vp::check(a.exists(c) == b.exists(c), code);
        vp::check(a.ch[c].len() == b.ch[c].len(), code + 1);
        for i in 0..a.ch[c].len() {
            vp::check(a.ch[c][i].0 == b.ch[c][i].0, code + 2);
            vp::check(a.ch[c][i].1 == b.ch[c][i].1, code + 3);
        }
    }
    for o in 0..NOBJ {
        vp::check(a.exists(o) == b.exists(o), code + 4);
    }
    vp::check(a.props.len() == b.props.len(), code + 5);
    for p in &a.props {
        let q = vp::some(b.props.iter().find(|q| q.0 == p.0 && q.1 == p.1), code + 6);
        vp::check(p.2.same(&q.2), code + 7);
    }
}
