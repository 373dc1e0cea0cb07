//! P14: written bytes form well-formed TDMS segments with exact offsets and codes.
use crate::model::*;
use crate::parse::*;
use crate::refint::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use std::io::Cursor;
use tedium::{DataLayout, TdmsFile};

fn verify(buf: &[u8], m: &Model, writes: usize, code: u64) -> Vec<SegInfo> {
    let mut r = Ref::default();
    let segs = parse(buf, &mut r, code);
    vp::check(segs.len() == writes, code + 30);
    same_content(m, &r.m, code + 40);
    segs
}

/// Any history of data and property writes, also over several sessions. params: steps, types,
/// most samples, channel sets, property steps, 1: reopen before each step
pub fn h_p14() {
    let types: &[&'static [usize]] = &[&[U16], &[U16, I32], &[U8, F64, U16]];
    let s = Steps { types: types[vp::param(1) as usize - 1], maxn: vp::param(2), sets: vp::param(3), props: vp::param(4) };
    let mut buf = Vec::new();
    let mut m = Model::default();
    let n = vp::param(0) as usize;
    if vp::param(5) == 1 {
        for i in 0..n {
            step(&mut open(&mut buf, 1), &mut m, &s, 2);
            verify(&buf, &m, i + 1, 100);
        }
    } else {
        {
            let mut f = open(&mut buf, 1);
            for _ in 0..n {
                step(&mut f, &mut m, &s, 2);
            }
        }
        let segs = verify(&buf, &m, n, 200);
        if segs.iter().any(|s| s.toc & META == 0) {
            vp::cover(2);
        }
        if segs.iter().any(|s| s.toc & NEWLIST == 0 && s.toc & META != 0 && s.toc & RAW != 0) {
            vp::cover(3);
        }
    }
    vp::cover(1);
}

/// One write of a type, then properties of every kind. params: type
pub fn h_p14_types() {
    let ix = vp::param(0) as usize;
    let inter = vp::pick(2) == 1;
    let set = SETS[vp::pick(5) as usize];
    let n = 1 + vp::pick(2) as usize;
    let mut buf = Vec::new();
    let mut m = Model::default();
    {
        let mut f = open(&mut buf, 1);
        data_write(&mut f, &mut m, set, n, ix, inter, 2);
    }
    let segs = verify(&buf, &m, 1, 100);
    vp::check(segs[0].toc & INTER != 0 || !inter, 5);
    vp::check(segs[0].toc & INTER == 0 || inter, 6);
    // the exact bytes, written down separately
    let mut meta = Enc::new(false);
    meta.u32(set.len() as u32);
    for c in set {
        meta.object(obj_path(*c), Ix::Full(CODE[ix], n as u64), 0);
    }
    let mut data = Enc::new(false);
    for s in 0..n * set.len() {
        let (c, k) = if inter { (s % set.len(), s / set.len()) } else { (s / n, s % n) };
        data.val(ix, m.ch[set[c]][k].1);
    }
    let mut want = Vec::new();
    segment(&mut want, META | NEWLIST | RAW | if inter { INTER } else { 0 }, false, &meta.b, &data.b);
    vp::check(want.len() == buf.len(), 7);
    for i in 0..want.len() {
        vp::check(want[i] == buf[i], 8);
    }
    vp::cover(1);
}

/// Properties of every kind on every object.
pub fn h_p14_props() {
    let mut buf = Vec::new();
    let mut m = Model::default();
    {
        let mut f = open(&mut buf, 1);
        let o = vp::pick(NOBJ as u64) as usize;
        let k = vp::pick(20) as usize;
        prop_write(&mut f, &mut m, o, "p", sym_prop(k), 2);
    }
    verify(&buf, &m, 1, 100);
    vp::cover(1);
}

/// More bytes than any buffer in between holds. params: samples, type
pub fn h_p14_big() {
    let n = vp::param(0) as usize;
    let ix = vp::param(1) as usize;
    let inter = vp::pick(2) == 1;
    let mut buf = Vec::new();
    let mut m = Model::default();
    {
        let mut f = vp::ok(TdmsFile::new(Cursor::new(&mut buf)), 1);
        data_write(&mut f, &mut m, &[1, 0], n, ix, inter, 2);
        data_write(&mut f, &mut m, &[0], 1, ix, false, 2);
        let first = m.ch[0][n - 1].1;
        let got = vp::ok(read(&mut f, &chan(0), ix, n as u64 - 1, 2, 1), 3);
        vp::check(got[0] == first && got[1] == m.ch[0][n].1, 4);
    }
    verify(&buf, &m, 2, 100);
    let mut f = open(&mut buf, 5);
    for c in 0..2 {
        let want: Vec<u128> = m.ch[c].iter().map(|x| x.1).collect();
        expect_channel(&mut f, &chan(c), ix, &want, 10);
    }
    let _ = DataLayout::Interleaved;
    vp::cover(1);
}
