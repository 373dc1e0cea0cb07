//! P03: successive writes concatenate per channel, however their shape changes.
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use std::io::Cursor;
use tedium::{ChannelPath, TdmsFile};

/// params: steps, number of value types, most samples, number of channel sets, property writes,
/// reads in between (0/1)
pub fn h_p03() {
    let k = vp::param(0);
    let types: &[&'static [usize]] = &[&[U16], &[U16, I32], &[U8, F64, U16], &[U8, I8], &[I32, U32, F32], &[U64, F64, I64]];
    let s = Steps { types: types[vp::param(1) as usize - 1], maxn: vp::param(2), sets: vp::param(3), props: vp::param(4) };
    let mut f = vp::ok(TdmsFile::new(Cursor::new(Vec::new())), 1);
    let mut m = Model::default();
    for i in 0..k {
        step(&mut f, &mut m, &s, 2);
        if vp::param(5) == 1 && i + 1 < k {
            m.check_channel(&mut f, 0, 100);
        }
    }
    m.check_all(&mut f, 200);
    for c in 0..4 {
        if m.ch[c].len() > 0 {
            vp::cover(1 + c as u32);
            vp::obs(m.ch[c].iter().fold(0, |a, x| a ^ x.1 as u64));
        }
    }
    if m.ch[0].windows(2).any(|w| w[0].0 != w[1].0) {
        vp::cover(10);
    }
    if m.props.len() > 0 && m.ch[0].len() > 2 {
        vp::cover(11);
    }
}

/// Two channels of any names: what is written to one never lands in the other.
/// params: writes, most bytes in a name, bytes of the group name, types (1-2)
pub fn h_p03_names() {
    let max = vp::param(1);
    let text = |n: u64| -> String {
        let b: Vec<u8> = (0..n).map(|_| vp::u8()).collect();
        match String::from_utf8(b) {
            Ok(s) => {
                // a name's quotes are replaced (P20)
                vp::assume(!s.as_bytes().iter().any(|c| *c == b'\'' || *c == b'"'));
                s
            }
            Err(_) => {
                vp::assume(false);
                String::new()
            }
        }
    };
    let mut paths = Vec::new();
    let mut names: Vec<(String, String)> = Vec::new();
    for _ in 0..2 {
        let g = text(vp::param(2));
        let n = vp::pick(max + 1);
        let c = text(n);
        paths.push(ChannelPath::new(&g, &c));
        names.push((g, c));
    }
    vp::assume(names[0] != names[1]);
    let mut m: [Vec<(usize, u128)>; 2] = [Vec::new(), Vec::new()];
    let mut f = vp::ok(TdmsFile::new(Cursor::new(Vec::new())), 1);
    const SETS: [&[usize]; 4] = [&[0], &[1], &[0, 1], &[1, 0]];
    for _ in 0..vp::param(0) {
        let set = SETS[vp::pick(4) as usize];
        let t = [U8, U16][vp::pick(vp::param(3)) as usize];
        let chans: Vec<&ChannelPath> = set.iter().map(|c| &paths[*c]).collect();
        let bits: Vec<u128> = set.iter().map(|_| sym_bits(t)).collect();
        for (c, b) in set.iter().zip(&bits) {
            // one type for each channel
            vp::assume(m[*c].first().map_or(true, |x| x.0 == t));
            m[*c].push((t, *b));
        }
        vp::ok(write(&mut f, &chans, t, &bits, layout(false)), 2);
    }
    for c in 0..2 {
        if m[c].is_empty() {
            vp::check(f.channel_length(&paths[c]).is_none(), 3);
        } else {
            let want: Vec<u128> = m[c].iter().map(|x| x.1).collect();
            expect_channel(&mut f, &paths[c], m[c][0].0, &want, 4);
        }
    }
    vp::cover(1);
    if m[0].len() > 0 && m[1].len() > 0 {
        vp::cover(2);
    }
}
