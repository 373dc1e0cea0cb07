//! P10: incremental segment metadata decides which channels own the raw data.
use crate::model::*;
use crate::refint::*;
use crate::ty::*;
use crate::vp;
use std::io::Cursor;
use tedium::TdmsFile;

/// params: segments after the first, most entries in each, objects (1-3 channels, 4: group too),
/// kinds of full description (1-5), most chunks, properties (0/1), interleaved as well (0/1),
/// a new list without metadata (0/1)
pub fn h_p10() {
    let segs = vp::param(0) as usize;
    let maxe = vp::param(1);
    let nobj = vp::param(2);
    let nfull = vp::param(3);
    let maxc = vp::param(4);
    let props = vp::param(5) == 1;
    let mut r = Ref::default();
    let mut buf = Vec::new();
    const FULL: [(usize, usize); 5] = [(U8, 1), (U8, 0), (U8, 2), (U16, 1), (I32, 1)];
    for s in 0..segs + 1 {
        // first segment: anything from nothing to two channels
        let has_meta = s == 0 || vp::pick(2) == 1;
        let new = (has_meta || vp::param(7) == 1) && (s == 0 || vp::pick(2) == 1);
        let mut meta = Enc::new(false);
        if new {
            r.new_list();
        }
        if has_meta {
            let n = if s == 0 { 2 } else { vp::pick(maxe + 1) };
            meta.u32(n as u32);
            for e in 0..n {
                let (o, ix) = if s == 0 {
                    // a and b (or the group), described in full
                    (e as usize, if e == 0 || vp::pick(2) == 1 { RIx::Full(U16, 1) } else { RIx::None })
                } else {
                    let o = vp::pick(nobj) as usize;
                    let o = if o == 3 { 4 } else { o };
                    let k = vp::pick(2 + nfull) as usize;
                    (o, if k == 0 { RIx::None } else if k == 1 { RIx::Same } else { RIx::Full(FULL[k - 2].0, FULL[k - 2].1) })
                };
                // only channels own data
                vp::assume(o < 4 || ix == RIx::None);
                vp::assume(r.entry(o, ix));
                let with_prop = props && s > 0 && vp::pick(2) == 1;
                let enc_ix = match ix {
                    RIx::None => Ix::None,
                    RIx::Same => Ix::Same,
                    RIx::Full(t, n) => Ix::Full(CODE[t], n as u64),
                };
                meta.object(obj_path(o), enc_ix, with_prop as u32);
                if with_prop {
                    meta.str(b"p");
                    meta.u32(CODE[U8]);
                    let v = sym_bits(U8);
                    meta.val(U8, v);
                    r.m.set_prop(o, "p", PVal::Num(U8, v));
                }
            }
        }
        let raw = !r.active.is_empty() && (s == segs || vp::pick(2) == 1);
        let mut data = Vec::new();
        let inter = raw && vp::param(6) == 1 && vp::pick(2) == 1;
        if raw {
            vp::assume(r.chunk_size() > 0);
            if inter {
                // interleaved channels have the same number of samples
                let n = r.lay(r.active[0]).n;
                vp::assume(r.active.iter().all(|o| r.lay(*o).n == n));
            }
            let chunks = 1 + vp::pick(maxc) as usize;
            data = (0..chunks * r.chunk_size()).map(|_| vp::u8()).collect();
            r.raw(&data, inter, false);
        }
        let toc = if has_meta { META } else { 0 } | if new { NEWLIST } else { 0 } | if raw { RAW } else { 0 } | if inter { INTER } else { 0 };
        segment(&mut buf, toc, false, &meta.b, &data);
    }
    let mut f = vp::ok(TdmsFile::new(Cursor::new(&buf)), 1);
    r.m.check_all(&mut f, 100);
    for c in 0..3 {
        vp::obs(r.m.ch[c].iter().fold(0, |a, x| a ^ x.1 as u64));
    }
    vp::cover(1);
    if r.active.len() > 1 && r.active[0] > r.active[1] {
        vp::cover(2);
    }
    if r.m.ch[0].windows(2).any(|w| w[0].0 != w[1].0) {
        vp::cover(3);
    }
}
