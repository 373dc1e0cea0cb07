//! P06: reading several channels at once equals reading each of them alone.
use crate::dist::*;
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use std::io::Cursor;
use tedium::{ChannelPath, TdmsFile};

/// params: segments, most samples per chunk, most chunks, channels in a request, channels in the
/// file (2 or 3), longest output, 1: starts as well,
/// type of a third channel that is never requested
pub fn h_p06() {
    let segs = vp::param(0) as usize;
    let maxn = vp::param(1);
    let maxc = vp::param(2);
    let nreq = vp::param(3) as usize;
    let nch = vp::param(4) as usize;
    // with a type for it, the third channel is in the file but not among those read
    let third = vp::param(7) as usize;
    let mut buf = Vec::new();
    let mut m = Model::default();
    for _ in 0..segs {
        let inter = vp::pick(2) == 1;
        let chunks = 1 + vp::pick(maxc) as usize;
        let n = 1 + vp::pick(maxn) as usize;
        let d = if inter { 0 } else { vp::pick(2) as usize };
        let p: Vec<Part> = (0..3).map(|i| Part { obj: i, ix: if i == 2 { third } else { U8 }, n: n + d * i }).collect();
        let sets: [&[usize]; 9] = [&[0], &[1], &[0, 1], &[1, 0], &[0, 1, 2], &[2, 1, 0], &[1, 2], &[2, 0], &[2]];
        let k = vp::pick(if nch == 2 && third == 0 { 4 } else { 9 }) as usize;
        let parts: Vec<Part> = sets[k].iter().map(|i| p[*i]).collect();
        Seg { parts: &parts, chunks, inter, be: false, extra: 0 }.put(&mut buf, &mut m);
    }
    let mut f = vp::ok(TdmsFile::new(Cursor::new(&buf)), 1);
    let req: Vec<usize> = (0..nreq).map(|_| vp::pick(nch as u64) as usize).collect();
    for c in &req {
        vp::assume(m.exists(*c));
    }
    let longest = req.iter().map(|c| m.ch[*c].len()).max().unwrap_or(0);
    let start = if vp::param(6) == 1 { any_start(longest as u64) } else { 0 };
    let maxlen = vp::param(5);
    let lens: Vec<usize> = (0..nreq).map(|_| vp::pick(maxlen + 1) as usize).collect();
    let fill = 0xa5u8;
    let paths: Vec<ChannelPath> = req.iter().map(|c| chan(*c)).collect();
    let mut bufs: Vec<Vec<u8>> = lens.iter().map(|n| vec![fill; *n]).collect();
    {
        let mut outs: Vec<&mut [u8]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
        vp::ok(f.read_channels_from(&paths, start, &mut outs), 2);
    }
    for k in 0..nreq {
        let mut alone = vec![fill; lens[k]];
        vp::ok(f.read_channel_from(&paths[k], start, &mut alone), 3);
        let want = suffix(&m.ch[req[k]], start, lens[k], fill as u128);
        for i in 0..lens[k] {
            vp::check(bufs[k][i] == alone[i], 4);
            vp::check(alone[i] as u128 == want[i], 5);
            vp::obs(alone[i] as u64);
        }
    }
    if start == 0 {
        let mut again: Vec<Vec<u8>> = lens.iter().map(|n| vec![fill; *n]).collect();
        let mut outs: Vec<&mut [u8]> = again.iter_mut().map(|b| &mut b[..]).collect();
        vp::ok(f.read_channels(&paths, &mut outs), 6);
        for k in 0..nreq {
            for i in 0..lens[k] {
                vp::check(again[k][i] == bufs[k][i], 7);
            }
        }
    }
    vp::cover(1);
    if nreq > 1 && req[0] == req[1] {
        vp::cover(2);
    }
    if start > 0 {
        vp::cover(3);
    }
}

/// More or fewer outputs than channels: those with a channel get what it holds, others keep what
/// they have. params: most channels, most outputs, longest output
pub fn h_p06_outputs() {
    let nreq = vp::pick(vp::param(0) + 1) as usize;
    let nout = vp::pick(vp::param(1) + 1) as usize;
    let mut buf = Vec::new();
    let mut m = Model::default();
    for _ in 0..2 {
        let inter = vp::pick(2) == 1;
        let p: Vec<Part> = (0..2).map(|i| Part { obj: i, ix: U8, n: 2 }).collect();
        Seg { parts: &p[..1 + vp::pick(2) as usize], chunks: 1, inter, be: false, extra: 0 }.put(&mut buf, &mut m);
    }
    let mut f = vp::ok(TdmsFile::new(Cursor::new(&buf)), 1);
    let req: Vec<usize> = (0..nreq).map(|_| vp::pick(2) as usize).collect();
    for c in &req {
        vp::assume(m.exists(*c));
    }
    let start = any_start(4);
    let paths: Vec<ChannelPath> = req.iter().map(|c| chan(*c)).collect();
    let mut bufs: Vec<Vec<u8>> = (0..nout).map(|_| vec![0xa5; 1 + vp::pick(vp::param(2)) as usize]).collect();
    let mut outs: Vec<&mut [u8]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
    let r = f.read_channels_from(&paths, start, &mut outs);
    for k in 0..nout {
        let n = bufs[k].len();
        match req.get(k) {
            Some(c) if r.is_ok() => {
                let want = suffix(&m.ch[*c], start, n, 0xa5);
                for i in 0..n {
                    vp::check(bufs[k][i] as u128 == want[i], 2);
                }
                vp::cover(1);
            }
            Some(_) => {}
            None => {
                for i in 0..n {
                    vp::check(bufs[k][i] == 0xa5, 3);
                }
                vp::cover(2);
            }
        }
    }
    vp::check(nreq != nout || r.is_ok(), 4);
}
