//! Files laid out by the harness's own encoder, with the content they hold.
#![allow(dead_code)]
use crate::model::*;
use crate::ty::*;
use crate::vp;

/// One channel's part of a segment: object, type, samples per chunk.
#[derive(Clone, Copy)]
pub struct Part {
    pub obj: usize,
    pub ix: usize,
    pub n: usize,
}

/// One segment with a new object list.
pub struct Seg<'a> {
    pub parts: &'a [Part],
    pub chunks: usize,
    pub inter: bool,
    pub be: bool,
    /// bytes of a further, incomplete chunk
    pub extra: usize,
}

pub fn chunk_bytes(parts: &[Part]) -> usize {
    parts.iter().map(|p| p.n * WIDTH[p.ix]).sum()
}

impl Seg<'_> {
    /// Appends the segment and adds its complete chunks to the model.
    pub fn put(&self, buf: &mut Vec<u8>, m: &mut Model) {
        let mut meta = Enc::new(self.be);
        meta.u32(self.parts.len() as u32);
        for p in self.parts {
            meta.object(obj_path(p.obj), Ix::Full(CODE[p.ix], p.n as u64), 0);
            m.data[p.obj] = true;
        }
        let mut data = Enc::new(self.be);
        for _ in 0..self.chunks {
            self.chunk(&mut data, m);
        }
        let full = data.b.len();
        if self.extra > 0 {
            let mut scratch = Model::default();
            self.chunk(&mut data, &mut scratch);
            data.b.truncate(full + self.extra);
        }
        segment(buf, META | NEWLIST | RAW | if self.inter { INTER } else { 0 }, self.be, &meta.b, &data.b);
    }
    fn chunk(&self, data: &mut Enc, m: &mut Model) {
        if self.inter {
            // interleaved channels have the same number of samples
            for _ in 0..self.parts[0].n {
                for p in self.parts {
                    let v = sym_bits(p.ix);
                    data.val(p.ix, v);
                    m.ch[p.obj].push((p.ix, v));
                }
            }
        } else {
            for p in self.parts {
                for _ in 0..p.n {
                    let v = sym_bits(p.ix);
                    data.val(p.ix, v);
                    m.ch[p.obj].push((p.ix, v));
                }
            }
        }
    }
}

/// Every start: the small ones one by one, all larger ones together.
pub fn any_start(upto: u64) -> u64 {
    let s = vp::u64();
    if s <= upto { vp::conc(s) } else { s }
}

/// What reading `n` samples from `start` has to leave in an output filled with `fill`.
pub fn suffix(ch: &[(usize, u128)], start: u64, n: usize, fill: u128) -> Vec<u128> {
    (0..n)
        .map(|k| match start.checked_add(k as u64) {
            Some(i) if i < ch.len() as u64 => ch[i as usize].1,
            _ => fill,
        })
        .collect()
}
