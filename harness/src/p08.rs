//! P08: segments holding repeated chunks expose every complete repetition in order.
use crate::dist::*;
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use std::io::Cursor;
use tedium::TdmsFile;

/// One segment of repeated chunks, possibly with the start of a further one behind them, then an
/// ordinary segment. params: channels, most samples per chunk, most chunks, types: first, second, third,
/// 1: incomplete chunk
pub fn h_p08() {
    let nch = vp::param(0) as usize;
    let maxn = vp::param(1);
    let part = vp::param(6) == 1;
    // with the start of a further one there may be none that is complete
    let chunks = if part { vp::pick(vp::param(2) + 1) } else { 1 + vp::pick(vp::param(2)) } as usize;
    let inter = vp::pick(2) == 1;
    let be = vp::pick(2) == 1;
    let n0 = 1 + vp::pick(maxn) as usize;
    let mut parts = Vec::new();
    for i in 0..nch {
        let n = if inter || i == 0 { n0 } else { 1 + vp::pick(maxn) as usize };
        parts.push(Part { obj: i, ix: vp::param(3 + i as u64) as usize, n });
    }
    let extra = if part { 1 + vp::pick(chunk_bytes(&parts) as u64 - 1) as usize } else { 0 };
    let mut buf = Vec::new();
    let mut m = Model::default();
    Seg { parts: &parts, chunks, inter, be, extra }.put(&mut buf, &mut m);
    let tail = vp::pick(2) == 1;
    if tail {
        Seg { parts: &parts, chunks: 1, inter, be: false, extra: 0 }.put(&mut buf, &mut m);
    }
    let mut f = vp::ok(TdmsFile::new(Cursor::new(&buf)), 1);
    for p in &parts {
        let want = &m.ch[p.obj];
        vp::check(f.channel_length(&chan(p.obj)) == Some(want.len() as u64), 2);
        for start in 0..want.len() + 1 {
            let n = want.len() + 1 - start;
            let got = vp::ok(read(&mut f, &chan(p.obj), p.ix, start as u64, n, 1), 3);
            let w = suffix(want, start as u64, n, 1);
            for k in 0..n {
                vp::check(got[k] == w[k], 4);
            }
            vp::obs(got[0] as u64);
        }
    }
    // all together, from the start and from the second sample
    if nch > 1 && parts.iter().all(|p| p.ix == parts[0].ix) {
        for start in 0..2u64 {
            crate::with_ty!(parts[0].ix, T => {
                let mut bufs: Vec<Vec<T>> = parts.iter().map(|p| vec![<T as Ty>::from_bits(1); m.ch[p.obj].len()]).collect();
                let paths: Vec<_> = parts.iter().map(|p| chan(p.obj)).collect();
                let mut outs: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
                vp::ok(f.read_channels_from(&paths, start, &mut outs), 5);
                for (k, p) in parts.iter().enumerate() {
                    let w = suffix(&m.ch[p.obj], start, bufs[k].len(), 1);
                    for i in 0..w.len() {
                        vp::check(bufs[k][i].bits() == w[i], 6);
                    }
                }
            });
        }
        vp::cover(3);
    }
    vp::cover(1);
    if chunks > 1 {
        vp::cover(2);
    }
    if chunks == 0 && tail {
        vp::cover(4);
    }
}
