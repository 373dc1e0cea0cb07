//! P05: reading from a start sample returns exactly the suffix from that sample.
use crate::dist::*;
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use crate::with_ty;
use std::io::Cursor;
use tedium::TdmsFile;

/// Channel a over `segs` segments in every arrangement; b is in between, before or after it.
/// params: segments, most samples per chunk, most chunks, type of a, type of b, b's extra samples,
/// both together as well: 1 with some lengths, 2 with all
pub fn h_p05() {
    let segs = vp::param(0) as usize;
    let maxn = vp::param(1);
    let maxc = vp::param(2);
    let ta = vp::param(3) as usize;
    let tb = vp::param(4) as usize;
    let mut buf = Vec::new();
    let mut m = Model::default();
    for _ in 0..segs {
        let n = 1 + vp::pick(maxn) as usize;
        let chunks = 1 + vp::pick(maxc) as usize;
        let inter = vp::pick(2) == 1;
        let nb = if inter { n } else { n + vp::param(5) as usize };
        let a = Part { obj: 0, ix: ta, n };
        let b = Part { obj: 1, ix: tb, n: nb };
        let sets: [&[Part]; 4] = [&[a], &[a, b], &[b, a], &[b]];
        let parts = sets[vp::pick(4) as usize];
        Seg { parts, chunks, inter, be: false, extra: 0 }.put(&mut buf, &mut m);
    }
    let mut f = vp::ok(TdmsFile::new(Cursor::new(&buf)), 1);
    if !m.exists(0) {
        return;
    }
    vp::cover(1);
    let total = m.ch[0].len();
    let start = any_start(total as u64 + 1);
    let fill = vp::u8() as u128 & 1;
    vp::obs(start.min(100));
    for n in 0..total + 2 {
        let got = vp::ok(read(&mut f, &chan(0), ta, start, n, fill), 2);
        let want = suffix(&m.ch[0], start, n, fill);
        for k in 0..n {
            vp::check(got[k] == want[k], 3);
        }
        if n > 0 {
            vp::obs(got[n - 1] as u64);
        }
    }
    if vp::param(6) > 0 && m.exists(1) {
        together(&mut f, &m, ta, start, fill, vp::param(6) == 2);
        vp::cover(4);
    }
    if start > 0 && start < total as u64 {
        vp::cover(2);
    }
    if start > total as u64 {
        vp::cover(3);
    }
}

/// a and b in one read, in either order and with every two lengths, or just short and long ones
fn together<F: std::io::Read + std::io::Seek>(f: &mut TdmsFile<F>, m: &Model, t: usize, start: u64, fill: u128, all: bool) {
    for order in [[0, 1], [1, 0]] {
        let paths = [chan(order[0]), chan(order[1])];
        for n0 in 0..m.ch[order[0]].len() + 2 {
            for n1 in 0..m.ch[order[1]].len() + 2 {
                let (l0, l1) = (m.ch[order[0]].len(), m.ch[order[1]].len());
                if !all && !(n0 == 1 || n0 == l0 + 1) || !all && !(n1 == 1 || n1 == l1 + 1) {
                    continue;
                }
                with_ty!(t, T => {
                    let mut x: Vec<T> = (0..n0).map(|_| <T as Ty>::from_bits(fill)).collect();
                    let mut y: Vec<T> = (0..n1).map(|_| <T as Ty>::from_bits(fill)).collect();
                    vp::ok(f.read_channels_from(&paths, start, &mut [&mut x[..], &mut y[..]]), 5);
                    for (out, c) in [(&x, order[0]), (&y, order[1])] {
                        let want = suffix(&m.ch[c], start, out.len(), fill);
                        for k in 0..out.len() {
                            vp::check(out[k].bits() == want[k], 6);
                        }
                    }
                });
            }
        }
    }
}

/// The library's own writes, then every start and length.
/// params: steps, number of value types, most samples, channel sets
pub fn h_p05_written() {
    let types: &[&'static [usize]] = &[&[U16], &[U16, I32], &[U8, F64, U16]];
    let s = Steps { types: types[vp::param(1) as usize - 1], maxn: vp::param(2), sets: vp::param(3), props: 0 };
    let mut f = vp::ok(TdmsFile::new(Cursor::new(Vec::new())), 1);
    let mut m = Model::default();
    for _ in 0..vp::param(0) {
        step(&mut f, &mut m, &s, 2);
    }
    let c = vp::pick(2) as usize;
    let total = m.ch[c].len();
    if total == 0 {
        return;
    }
    // one type throughout
    vp::assume(m.ch[c].iter().all(|x| x.0 == m.ch[c][0].0));
    let ix = m.ch[c][0].0;
    let start = any_start(total as u64 + 1);
    for n in 0..total + 2 {
        let got = vp::ok(read(&mut f, &chan(c), ix, start, n, 1), 3);
        let want = suffix(&m.ch[c], start, n, 1);
        for k in 0..n {
            vp::check(got[k] == want[k], 4);
        }
    }
    vp::cover(1);
}
