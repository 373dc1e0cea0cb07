//! P18: a file cut off at any byte.
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use std::io::Cursor;
use tedium::{ChannelPath, TdmsFile};

/// What a file holds and where it ends in the bytes.
#[derive(Default)]
struct Laid {
    /// samples of a and b: bits, end position
    ch: [Vec<(u128, usize)>; 2],
    /// per segment: start, end of the metadata, end
    segs: Vec<(usize, usize, usize)>,
    /// property p of a channel or group: object, bits, segment
    props: Vec<(usize, u128, usize)>,
}

/// kinds: 0 both channels, contiguous, 1 interleaved, 2 a only with a property, 3 properties only,
/// 4 the same channels again without metadata (two chunks), 5 b with another count added to a
fn put_seg(buf: &mut Vec<u8>, l: &mut Laid, kind: u64, be: bool, ix: usize, active: &mut Vec<(usize, u64)>, inter: &mut bool) {
    let start = buf.len();
    let mut m = Enc::new(be);
    let s = l.segs.len();
    let mut toc = 0;
    let mut chunks = 1;
    match kind {
        0 | 1 => {
            toc = META | NEWLIST | RAW;
            *inter = kind == 1;
            m.u32(2);
            m.object("/'g'/'a'", Ix::Full(CODE[ix], 2), 0);
            m.object("/'g'/'b'", Ix::Full(CODE[ix], 2), 0);
            *active = vec![(0, 2), (1, 2)];
        }
        2 => {
            toc = META | NEWLIST | RAW;
            *inter = false;
            m.u32(1);
            m.object("/'g'/'a'", Ix::Full(CODE[ix], 1), 1);
            m.str(b"p");
            m.u32(CODE[U16]);
            let v = sym_bits(U16);
            m.val(U16, v);
            l.props.retain(|p| p.0 != 0 || p.2 != s);
            l.props.push((0, v, s));
            *active = vec![(0, 1)];
        }
        3 => {
            toc = META;
            m.u32(1);
            m.object("/'g'", Ix::None, 1);
            m.str(b"p");
            m.u32(CODE[U16]);
            let v = sym_bits(U16);
            m.val(U16, v);
            l.props.push((4, v, s));
        }
        4 => {
            toc = RAW;
            chunks = 2;
        }
        _ => {
            toc = META | RAW;
            *inter = false;
            m.u32(1);
            m.object("/'g'/'b'", Ix::Full(CODE[ix], 1), 0);
            match active.iter_mut().find(|x| x.0 == 1) {
                Some(x) => x.1 = 1,
                None => active.push((1, 1)),
            }
        }
    }
    if *inter && toc & RAW != 0 {
        toc |= INTER;
    }
    let data_start = start + 28 + m.b.len();
    let mut d = Enc::new(be);
    if toc & RAW != 0 {
        for _ in 0..chunks {
            if *inter {
                for _ in 0..active[0].1 {
                    for (c, _) in active.iter() {
                        let v = sym_bits(ix);
                        d.val(ix, v);
                        l.ch[*c].push((v, data_start + d.b.len()));
                    }
                }
            } else {
                for (c, n) in active.iter() {
                    for _ in 0..*n {
                        let v = sym_bits(ix);
                        d.val(ix, v);
                        l.ch[*c].push((v, data_start + d.b.len()));
                    }
                }
            }
        }
    }
    segment(buf, toc, be, &m.b, &d.b);
    l.segs.push((start, data_start, buf.len()));
}

fn check_reads(f: &mut TdmsFile<Cursor<&mut Vec<u8>>>, l: &Laid, ix: usize, cut: usize, known: usize, any: bool) {
    // segments from `known` on are not in the index at all
    let end = if known < l.segs.len() { l.segs[known].0 } else { usize::MAX };
    let only = if any { vp::pick(2) as usize } else { 2 };
    for c in 0..2 {
        if any && c != only {
            continue;
        }
        let want: Vec<(u128, usize)> = l.ch[c].iter().filter(|x| x.1 <= end).copied().collect();
        let path = chan(c);
        let Some(len) = f.channel_length(&path) else {
            // the channel may be unknown only if no segment with it is complete in its metadata
            vp::check(want.is_empty(), 10);
            continue;
        };
        vp::check(len == want.len() as u64, 11);
        let there = want.iter().filter(|x| x.1 <= cut).count();
        // any range, or what is before the cut
        let start = if any { vp::pick(want.len() as u64 + 1) as usize } else { 0 };
        let n = if any { vp::pick((want.len() - start) as u64 + 2) as usize } else { there };
        let fill = 0x3c;
        let whole = want.iter().skip(start).take(n).all(|x| x.1 <= cut);
        match read(f, &path, ix, start as u64, n, fill) {
            Ok(got) => {
                vp::check(whole, 12);
                for i in 0..n {
                    vp::check(got[i] == want.get(start + i).map(|x| x.0).unwrap_or(fill), 13);
                }
                vp::cover(1);
            }
            Err(_) => {
                vp::check(!whole, 14);
                vp::cover(2);
            }
        }
    }
    // both at once
    let n = l.ch[0].iter().chain(l.ch[1].iter()).count().min(3);
    let whole = (0..2).all(|c| l.ch[c].iter().filter(|x| x.1 <= end).take(n).all(|x| x.1 <= cut));
    if ix == U16 && f.channel_length(&chan(0)).is_some() && f.channel_length(&chan(1)).is_some() {
        let mut a = vec![<u16 as Ty>::from_bits(0x3c); n];
        let mut b = a.clone();
        let r = f.read_channels(&[chan(0), chan(1)], &mut [&mut a[..], &mut b[..]]);
        vp::check(r.is_ok() == whole, 15);
        if whole {
            for (c, out) in [(0, &a), (1, &b)] {
                for i in 0..n {
                    let w = l.ch[c].get(i).filter(|x| x.1 <= end).map(|x| x.0).unwrap_or(0x3c);
                    vp::check(Ty::bits(&out[i]) == w, 16);
                }
            }
        }
    }
}

/// params: segments, value type, big-endian
pub fn h_p18() {
    let nseg = vp::param(0);
    let ix = vp::param(1) as usize;
    let be = vp::param(2) == 1;
    let mut buf = Vec::new();
    let mut l = Laid::default();
    let mut active = Vec::new();
    let mut inter = false;
    for i in 0..nseg {
        let k = if i == 0 { vp::pick(4) } else { vp::pick(6) };
        if active.is_empty() {
            vp::assume(k < 4);
        }
        // a count of its own makes no sense in interleaved data
        vp::assume(k != 5 || !inter);
        put_seg(&mut buf, &mut l, k, be, ix, &mut active, &mut inter);
    }
    let cut = vp::pick(buf.len() as u64 + 1) as usize;
    let before: Vec<u8> = buf[..cut].to_vec();
    buf.truncate(cut);
    // the segment that the cut is in
    let at = l.segs.iter().position(|s| cut < s.2).unwrap_or(l.segs.len());
    {
        let Ok(mut f) = TdmsFile::new(Cursor::new(&mut buf)) else {
            // only for a cut inside a lead-in or metadata
            vp::check(at < l.segs.len() && cut > l.segs[at].0 + 3 && cut < l.segs[at].1, 1);
            vp::cover(3);
            return;
        };
        vp::cover(4);
        // what the library knows about: the complete segments and one cut in its data
        let known = if at < l.segs.len() && cut >= l.segs[at].1 { at + 1 } else { at };
        check_reads(&mut f, &l, ix, cut, known, true);
        for (o, _, s) in &l.props {
            if l.segs[*s].1 <= cut {
                // the last one that is there
                let last = l.props.iter().filter(|p| p.0 == *o && l.segs[p.2].1 <= cut).last();
                let v = vp::ok(f.read_property(&obj(*o), "p"), 20);
                let v = vp::some(v, 21);
                vp::check(PVal::from_lib(v).same(&PVal::Num(U16, vp::some(last, 22).1)), 23);
            }
        }
        // going on behind a cut in the data would change what is there
        let w = f.writer();
        vp::check(w.is_ok() == (at == known), 24);
        let refused = w.is_err();
        drop(w);
        if !refused && cut > 0 && nseg < 3 {
            let v = sym_bits(ix);
            let c = ChannelPath::new("g", "d");
            vp::ok(write(&mut f, &[&c], ix, &[v], layout(false)), 25);
            expect_channel(&mut f, &c, ix, &[v], 26);
            check_reads(&mut f, &l, ix, cut, known, false);
            vp::cover(5);
            return;
        }
    }
    vp::check(buf.len() == cut, 30);
    let mut same = true;
    for i in 0..cut {
        same &= buf[i] == before[i];
    }
    vp::check(same, 31);
}
