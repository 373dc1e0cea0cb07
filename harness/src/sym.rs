//! Files with symbolic headers: whatever the fields say.
#![allow(dead_code)]
use crate::ty::*;
use crate::vp;

/// Paths of the objects, ill-formed ones among them.
pub const PATHS: [&str; 8] = ["/'g'/'a'", "/'g'/'b'", "/'g'", "/", "/'g'/'a'/'x'", "/'g", "g", ""];

/// What may be symbolic about one segment.
#[derive(Clone, Copy)]
pub struct Shape {
    pub be: bool,
    /// objects in the metadata; 0: only the lead-in
    pub objects: usize,
    /// how many of PATHS an object may have
    pub paths: u64,
    /// objects may have a property
    pub props: bool,
    /// number of objects and of properties symbolic as well
    pub counts: bool,
    /// the lengths of texts symbolic as well
    pub texts: bool,
    /// bytes of data behind the metadata
    pub data: usize,
    /// 0: any offsets, 1: those that fit what is there, 2: any but a next segment inside this one
    pub offsets: u64,
    pub types: Types,
    /// number of values: 0: any, n: less than 2^n or one of LARGE
    pub bits: u64,
}
/// the type code of texts, whose index has a total size
const TEXT: u32 = 0x20;
const LARGE: [u64; 6] = [1 << 31, 1 << 32, 1 << 60, 1 << 62, 1 << 63, u64::MAX];
impl Shape {
    fn values(&self) -> u64 {
        if self.bits == 0 {
            return vp::u64();
        }
        match vp::pick(7) {
            0 => vp::below(1 << self.bits),
            i => LARGE[i as usize - 1],
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Types {
    /// any 32 bits
    Any,
    /// one of these codes
    One(u32),
    /// the first object has the first code, the others the second
    Two(u32, u32),
}

fn sym_u32(e: &mut Enc, any: bool, v: u32) {
    e.u32(if any { vp::u32() } else { v });
}

/// Appends a segment; every numeric field not fixed by the shape has any value.
pub fn segment(buf: &mut Vec<u8>, s: &Shape) {
    let mut m = Enc::new(s.be);
    if s.objects > 0 {
        sym_u32(&mut m, s.counts, s.objects as u32);
        for o in 0..s.objects {
            let p = PATHS[vp::pick(s.paths) as usize].as_bytes();
            sym_u32(&mut m, s.texts, p.len() as u32);
            m.b.extend_from_slice(p);
            let kind = vp::pick(3);
            match kind {
                0 => m.u32(0xffff_ffff),
                1 => m.u32(0),
                _ => {
                    // any length of the index, DAQmx among them
                    let l = vp::u32();
                    vp::assume(l != 0 && l != 0xffff_ffff);
                    m.u32(l);
                    let code = match s.types {
                        Types::Any => vp::u32(),
                        Types::One(c) => c,
                        Types::Two(a, b) => if o == 0 { a } else { b },
                    };
                    m.u32(code);
                    m.u32(vp::u32());
                    m.u64(s.values());
                    if code == TEXT {
                        m.u64(s.values());
                    }
                }
            }
            let np = if s.props { vp::pick(2) as u32 } else { 0 };
            sym_u32(&mut m, s.counts, np);
            for _ in 0..np {
                sym_u32(&mut m, s.texts, 1);
                m.b.push(vp::u8());
                m.u32(vp::u32());
                for _ in 0..16 {
                    m.b.push(vp::u8());
                }
            }
        }
    }
    let mut toc = vp::u32();
    vp::assume((toc & BIG != 0) == s.be);
    if s.objects == 0 {
        vp::assume(toc & META == 0);
    }
    if s.be {
        toc |= BIG;
    }
    buf.extend_from_slice(b"TDSm");
    put(buf, toc as u128, 4, false);
    put(buf, vp::u32() as u128, 4, s.be);
    if s.offsets == 1 {
        put(buf, (m.b.len() + s.data) as u128, 8, s.be);
        put(buf, m.b.len() as u128, 8, s.be);
    } else {
        let next = vp::u64();
        if s.offsets == 2 {
            vp::assume(next == (m.b.len() + s.data) as u64 || next > 1000);
        }
        put(buf, next as u128, 8, s.be);
        put(buf, vp::u64() as u128, 8, s.be);
    }
    buf.extend_from_slice(&m.b);
    for _ in 0..s.data {
        buf.push(vp::u8());
    }
}

/// Segments whose objects all have data, of the types given and of any numbers of values, and any
/// data lengths; from the second on without metadata.
pub fn counted(buf: &mut Vec<u8>, segments: usize, codes: &[u32], be: bool, inter: bool, bits: u64) {
    let s = Shape { be, objects: codes.len(), paths: 1, props: false, counts: false, texts: false, data: 4, offsets: 0, types: Types::Any, bits };
    for i in 0..segments {
        let mut m = Enc::new(be);
        if i == 0 {
            m.u32(codes.len() as u32);
            for (o, code) in codes.iter().enumerate() {
                m.str(PATHS[o].as_bytes());
                m.u32(if *code == TEXT { 28 } else { 20 });
                m.u32(*code);
                m.u32(1);
                m.u64(s.values());
                if *code == TEXT {
                    m.u64(s.values());
                }
                m.u32(0);
            }
        }
        let toc = RAW | if i == 0 { META | NEWLIST } else { 0 } | if inter { INTER } else { 0 } | if be { BIG } else { 0 };
        buf.extend_from_slice(b"TDSm");
        put(buf, toc as u128, 4, false);
        put(buf, 4713, 4, be);
        let next = vp::u64();
        let here = (m.b.len() + 6) as u64;
        // on to what follows, or away
        vp::assume(next == here || next > 1 << 20);
        put(buf, next as u128, 8, be);
        put(buf, m.b.len() as u128, 8, be);
        buf.extend_from_slice(&m.b);
        for _ in 0..6 {
            buf.push(vp::u8());
        }
    }
}
