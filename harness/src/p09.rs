//! P09: byte order of a segment never changes the content that is read.
use crate::dist::*;
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use std::io::Cursor;
use tedium::TdmsFile;

/// Every byte order of the segments of one file. params: segments, most samples, type of a, of b
pub fn h_p09() {
    let segs = vp::param(0) as usize;
    let ta = vp::param(2) as usize;
    let tb = vp::param(3) as usize;
    let mut m = Model::default();
    let mut bufs = [Vec::new(), Vec::new()];
    // both files hold the same content; each segment of the first has any byte order, the second
    // file has the opposite everywhere
    for _ in 0..segs {
        let n = 1 + vp::pick(vp::param(1)) as usize;
        let inter = vp::pick(2) == 1;
        let be = vp::pick(2) == 1;
        let va: Vec<u128> = (0..n).map(|_| sym_bits(ta)).collect();
        let vb: Vec<u128> = (0..n).map(|_| sym_bits(tb)).collect();
        let pv = sym_bits(ta);
        let ps = [vp::u8()];
        vp::assume(ps[0] < 128);
        for (i, buf) in bufs.iter_mut().enumerate() {
            let be = be ^ (i == 1);
            let mut meta = Enc::new(be);
            meta.u32(3);
            meta.object("/'g'/'a'", Ix::Full(CODE[ta], n as u64), 2);
            meta.str(b"p");
            meta.u32(CODE[ta]);
            meta.val(ta, pv);
            meta.str(b"q");
            meta.u32(CODE_STRING);
            meta.str(&ps);
            meta.object("/'g'", Ix::None, 0);
            meta.object("/'g'/'b'", Ix::Full(CODE[tb], n as u64), 0);
            let mut data = Enc::new(be);
            if inter {
                for k in 0..n {
                    data.val(ta, va[k]);
                    data.val(tb, vb[k]);
                }
            } else {
                for v in &va {
                    data.val(ta, *v);
                }
                for v in &vb {
                    data.val(tb, *v);
                }
            }
            segment(buf, META | NEWLIST | RAW | if inter { INTER } else { 0 }, be, &meta.b, &data.b);
        }
        m.add_data(&[0], ta, &va, false);
        m.add_data(&[1], tb, &vb, false);
        m.set_prop(0, "p", PVal::Num(ta, pv));
        m.set_prop(0, "q", PVal::Str(ps.to_vec()));
        m.group_listed = true;
    }
    for buf in &bufs {
        let mut f = vp::ok(TdmsFile::new(Cursor::new(buf)), 1);
        m.check_all(&mut f, 100);
        // from the second sample on as well
        let total = m.ch[1].len();
        let got = vp::ok(read(&mut f, &chan(1), tb, 1, total, 0), 2);
        let want = suffix(&m.ch[1], 1, total, 0);
        for k in 0..total {
            vp::check(got[k] == want[k], 3);
            vp::obs(got[k] as u64);
        }
    }
    vp::cover(1);
}

/// Segments of either byte order without metadata or with "same as before" entries.
pub fn h_p09_incremental() {
    let t = vp::param(0) as usize;
    let mut m = Model::default();
    let mut buf = Vec::new();
    for s in 0..vp::param(1) {
        let be = vp::pick(2) == 1;
        let kind = if s == 0 { 0 } else { vp::pick(3) };
        let v = [sym_bits(t), sym_bits(t)];
        let mut meta = Enc::new(be);
        if kind < 2 {
            meta.u32(2);
            for o in [0, 1] {
                meta.object(obj_path(o), if kind == 0 { Ix::Full(CODE[t], 1) } else { Ix::Same }, 0);
            }
        }
        let mut data = Enc::new(be);
        data.val(t, v[0]);
        data.val(t, v[1]);
        segment(&mut buf, RAW | [META | NEWLIST, META, 0][kind as usize], be, &meta.b, &data.b);
        m.add_data(&[0, 1], t, &v, false);
    }
    let mut f = vp::ok(TdmsFile::new(Cursor::new(&buf)), 1);
    m.check_all(&mut f, 100);
    vp::cover(1);
}
