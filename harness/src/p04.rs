//! P04: writing to a reopened file keeps the old content and appends the new.
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;

/// A file some other writer produced. 0 empty, 1 one little-endian segment, 2 big-endian,
/// 3 two chunks and then a segment without metadata, interleaved, 4 channel listed without data,
/// 5 a few bytes after the last segment, 6 a full description of c, then "same as before" for it
fn foreign(kind: usize, buf: &mut Vec<u8>, m: &mut Model) {
    if kind == 0 {
        return;
    }
    let be = kind == 2;
    let mut meta = Enc::new(be);
    meta.u32(3);
    meta.object("/'g'", Ix::None, 0);
    meta.object("/'g'/'a'", Ix::Full(CODE[U16], 1), 1);
    meta.str(b"p");
    meta.u32(CODE[I32]);
    let pv = sym_bits(I32);
    meta.val(I32, pv);
    meta.object("/'g'/'b'", Ix::Full(CODE[U16], 1), 0);
    m.set_prop(0, "p", PVal::Num(I32, pv));
    let chunks = if kind == 3 { 2 } else { 1 };
    let mut data = Enc::new(be);
    for _ in 0..chunks {
        let b = [sym_bits(U16), sym_bits(U16)];
        data.val(U16, b[0]);
        data.val(U16, b[1]);
        m.add_data(&[0, 1], U16, &b, true);
    }
    let inter = if kind == 3 { INTER } else { 0 };
    segment(buf, META | NEWLIST | RAW | inter, be, &meta.b, &data.b);
    if kind == 3 {
        let b = [sym_bits(U16), sym_bits(U16)];
        let mut d = Enc::new(false);
        d.val(U16, b[0]);
        d.val(U16, b[1]);
        segment(buf, RAW | INTER, false, &[], &d.b);
        m.add_data(&[0, 1], U16, &b, true);
    }
    if kind == 4 {
        // a new list with only a in it; then b again without data
        let mut meta = Enc::new(false);
        meta.u32(2);
        meta.object("/'g'/'a'", Ix::Same, 0);
        meta.object("/'g'/'b'", Ix::None, 1);
        meta.str(b"p");
        meta.u32(CODE[U8]);
        let pv = sym_bits(U8);
        meta.val(U8, pv);
        let b = [sym_bits(U16)];
        let mut d = Enc::new(false);
        d.val(U16, b[0]);
        segment(buf, META | NEWLIST | RAW, false, &meta.b, &d.b);
        m.add_data(&[0], U16, &b, false);
        m.set_prop(1, "p", PVal::Num(U8, pv));
    }
    if kind == 5 {
        let n = 1 + vp::pick(3);
        for i in 0..n {
            // what a writer that died leaves: the start of the next lead-in
            buf.push(b"TDSm"[i as usize]);
        }
    }
    if kind == 6 {
        let mut meta = Enc::new(false);
        meta.u32(1);
        meta.object("/'g'/'c'", Ix::Full(CODE[U16], 2), 0);
        let b = [sym_bits(U16), sym_bits(U16)];
        let mut d = Enc::new(false);
        // a and b are still active: they come first
        let ab = [sym_bits(U16), sym_bits(U16)];
        d.val(U16, ab[0]);
        d.val(U16, ab[1]);
        d.val(U16, b[0]);
        d.val(U16, b[1]);
        segment(buf, META | RAW, false, &meta.b, &d.b);
        m.add_data(&[0, 1], U16, &ab, false);
        m.add_data(&[2], U16, &b, false);
    }
    m.group_listed = true;
}

/// params: steps before, steps after, number of value types, most samples, channel sets,
/// property writes, kind of existing file, reopen once more in between (0/1)
pub fn h_p04() {
    let types: &[&'static [usize]] = &[&[U16], &[U16, I32], &[U8, F64, U16]];
    // from 10 on: one type, repeated
    const ONE: [[usize; 1]; 15] = [[0], [1], [2], [3], [4], [5], [6], [7], [8], [9], [10], [11], [12], [13], [14]];
    let types = match vp::param(2) as usize {
        t if t >= 10 => &ONE[t - 10],
        t => types[t - 1],
    };
    let s = Steps { types, maxn: vp::param(3), sets: vp::param(4), props: vp::param(5) };
    let mut buf = Vec::new();
    let mut m = Model::default();
    foreign(vp::param(6) as usize, &mut buf, &mut m);
    {
        let mut f = open(&mut buf, 1);
        m.check_all(&mut f, 100);
        for _ in 0..vp::param(0) {
            step(&mut f, &mut m, &s, 2);
        }
    }
    for i in 0..vp::param(1) {
        let mut f = open(&mut buf, 3);
        step(&mut f, &mut m, &s, 4);
        if vp::param(7) == 0 || i + 1 == vp::param(1) {
            m.check_all(&mut f, 200);
        }
    }
    let mut f = open(&mut buf, 6);
    m.check_all(&mut f, 300);
    vp::cover(1);
    if m.ch[0].len() > 2 {
        vp::cover(2);
    }
    for c in 0..4 {
        vp::obs(m.ch[c].iter().fold(0, |a, x| a ^ x.1 as u64));
    }
}
