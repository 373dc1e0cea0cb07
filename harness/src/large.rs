//! Counts and lengths beyond what fits one or two bytes or any buffer in between. Most of the
//! values are fixed here, those at the first and last places and around the limits have any bits.
#![allow(dead_code)]
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use crate::with_ty;
use std::io::{Read, Seek, Write};
use tedium::{ChannelPath, PropertyPath, PropertyValue, TdmsFile};

/// Bits of sample `i` of `n`.
pub fn bits_at(i: usize, n: usize, ix: usize) -> u128 {
    let w = WIDTH[ix];
    let near = |l: usize| i + 1 >= l && i <= l;
    if i < 1 || i + 1 == n || near(256) || near(8192 / w) || near(65536) || near(65536 / w) {
        return sym_bits(ix);
    }
    let x = (i as u128).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835);
    if ix == BOOL { x >> 77 & 1 } else { x >> (128 - 8 * w) }
}

fn write_set<F: Read + Write + Seek>(f: &mut TdmsFile<F>, m: &mut Model, set: &[usize], n: usize, ix: usize, inter: bool, code: u64) {
    let bits: Vec<u128> = (0..set.len() * n).map(|i| bits_at(i, set.len() * n, ix)).collect();
    let chans: Vec<ChannelPath> = set.iter().map(|c| chan(*c)).collect();
    let refs: Vec<&ChannelPath> = chans.iter().collect();
    vp::ok(write(f, &refs, ix, &bits, layout(inter)), code);
    m.add_data(set, ix, &bits, inter);
}

pub const LENGTHS: [usize; 10] = [127, 128, 255, 256, 257, 8192, 65535, 65536, 65537, 70000];

/// A text of `n` characters of one byte, some of them any.
pub fn text(n: usize) -> Vec<u8> {
    let mut s = vec![b'x'; n];
    for i in [0, n / 2, n - 1] {
        s[i] = vp::u8();
        vp::assume(s[i] < 0x80);
    }
    s
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// The writes number `from` to `to` of the history of a kind.
/// 0: two long writes and one short one; 1: many short writes; 2: a long text; 3: a long name;
/// 4: one write of many properties and then one that changes every third; 5: many writes of a property
pub fn history<F: Read + Write + Seek>(f: &mut TdmsFile<F>, m: &mut Model, kind: u64, ix: usize, n: usize, steps: std::ops::Range<usize>) {
    for i in steps {
        match kind {
            0 => {
                let inter = vp::pick(2) == 1;
                match i {
                    0 => write_set(f, m, &[1, 0], n, ix, inter, 2),
                    1 => write_set(f, m, &[0], 1, ix, false, 3),
                    _ => write_set(f, m, &[0, 1], n, ix, inter, 4),
                }
            }
            1 => write_set(f, m, SETS[i % 6], 1 + i % 2, ix, i % 3 == 0, 5),
            2 => {
                let l = LENGTHS[vp::pick(LENGTHS.len() as u64) as usize];
                prop_write(f, m, [0, 4, 5][i % 3], "p", PVal::Str(text(l)), 6);
            }
            3 => {
                let l = LENGTHS[vp::pick(LENGTHS.len() as u64) as usize];
                let name = leak("y".repeat(l));
                prop_write(f, m, [0, 4, 5][i % 3], name, sym_prop(ix), 7);
            }
            4 => {
                let step = 1 + 2 * i;
                let list: Vec<(&'static str, PVal)> = (0..n)
                    .step_by(step)
                    .map(|k| (leak(format!("p{k}")), if k % 100 == 0 { sym_prop(ix) } else { PVal::Num(U16, (k + i) as u128 & 0xffff) }))
                    .collect();
                let lib: Vec<(&str, PropertyValue)> = list.iter().map(|x| (x.0, x.1.to_lib())).collect();
                vp::ok(vp::ok(f.writer(), 8).write_properties(&obj(0), &lib), 8);
                for (k, v) in list {
                    m.set_prop(0, k, v);
                }
            }
            _ => prop_write(f, m, i % 7, ["p", "q"][i / 7 % 2], if i % 50 == 0 { sym_prop(ix) } else { PVal::Num(U16, i as u128) }, 9),
        }
    }
}
pub fn steps(kind: u64, n: usize) -> usize {
    match kind {
        0 => 3,
        1 | 5 => n,
        2 | 3 => 1,
        _ => 2,
    }
}
/// params: kind, type, count
pub fn params() -> (u64, usize, usize, usize) {
    let (kind, n) = (vp::param(0), vp::param(2) as usize);
    (kind, vp::param(1) as usize, n, steps(kind, n))
}

/// The writing handle.
pub fn live() {
    let (kind, ix, n, steps) = params();
    let mut buf = Vec::new();
    let mut m = Model::default();
    let mut f = open(&mut buf, 1);
    history(&mut f, &mut m, kind, ix, n, 0..steps);
    m.check_all(&mut f, 100);
    vp::cover(1);
}
/// The writing handle and a file opened from what it wrote.
pub fn reopened() {
    let (kind, ix, n, steps) = params();
    let mut buf = Vec::new();
    let mut m = Model::default();
    {
        let mut f = open(&mut buf, 1);
        history(&mut f, &mut m, kind, ix, n, 0..steps);
        m.check_all(&mut f, 100);
    }
    m.check_all(&mut open(&mut buf, 1), 200);
    vp::cover(1);
}
/// Closed and opened again after some of the writes.
pub fn appended() {
    let (kind, ix, n, steps) = params();
    let mut buf = Vec::new();
    let mut m = Model::default();
    let split = if steps > 4 { steps / 2 + vp::pick(2) as usize } else { 1 + vp::pick(steps as u64 - 1) as usize };
    history(&mut open(&mut buf, 1), &mut m, kind, ix, n, 0..split);
    {
        let mut f = open(&mut buf, 1);
        m.check_all(&mut f, 100);
        history(&mut f, &mut m, kind, ix, n, split..steps);
        m.check_all(&mut f, 200);
    }
    m.check_all(&mut open(&mut buf, 1), 300);
    vp::cover(1);
}
/// Reads from starts around the limits.
pub fn starts() {
    let (kind, ix, n, steps) = params();
    let mut buf = Vec::new();
    let mut m = Model::default();
    let mut f = open(&mut buf, 1);
    history(&mut f, &mut m, kind, ix, n, 0..steps);
    for c in 0..2 {
        let want = &m.ch[c];
        let all = want.len();
        for s in [1, 2, 127, 128, 255, 256, 257, 8191 / WIDTH[ix], 8192 / WIDTH[ix], 65535, 65536, n - 1, n, n + 1, 2 * n - 1, 2 * n, all - 1, all, all + 1] {
            let got = vp::ok(read(&mut f, &chan(c), ix, s as u64, 5, 1), 10);
            for k in 0..5 {
                vp::check(got[k] == if s + k < all { want[s + k].1 } else { 1 }, 11);
            }
        }
    }
    vp::cover(1);
}
/// Many channels in several groups, in one write. params: channels, groups, 1: reopen
pub fn channels() {
    let (n, g) = (vp::param(0) as usize, vp::param(1) as usize);
    let inter = vp::pick(2) == 1;
    let name = |i: usize| (format!("g{}", i % g), format!("c{i}"));
    let chans: Vec<ChannelPath> = (0..n).map(|i| ChannelPath::new(&name(i).0, &name(i).1)).collect();
    let refs: Vec<&ChannelPath> = chans.iter().collect();
    let bits: Vec<u128> = (0..2 * n).map(|i| bits_at(i, 2 * n, U16)).collect();
    let mut buf = Vec::new();
    {
        let mut f = open(&mut buf, 1);
        vp::ok(write(&mut f, &refs, U16, &bits, layout(inter)), 2);
        check_channels(&mut f, &chans, &bits, g, inter, 10);
    }
    check_channels(&mut open(&mut buf, 1), &chans, &bits, g, inter, 20);
    vp::cover(1);
}
fn check_channels<F: Read + Seek>(f: &mut TdmsFile<F>, chans: &[ChannelPath], bits: &[u128], g: usize, inter: bool, code: u64) {
    let n = chans.len();
    vp::check(f.list_groups().count() == g, code);
    for i in 0..g {
        let p = PropertyPath::group(&format!("g{i}"));
        let list: Vec<ChannelPath> = f.list_channels_in_group(&p).collect();
        vp::check(list.len() == (n + g - 1 - i) / g, code + 1);
        for c in &list {
            vp::check(c.group_name() == format!("g{i}"), code + 2);
        }
    }
    for i in (0..n).filter(|i| i % 17 == 0 || i + 1 == n || (254..258).contains(i)) {
        let got = vp::ok(read(f, &chans[i], U16, 0, 3, 1), code + 3);
        for s in 0..2 {
            vp::check(got[s] == bits[if inter { s * n + i } else { 2 * i + s }], code + 4);
        }
        vp::check(got[2] == 1, code + 5);
    }
}
/// A segment of many chunks. params: chunks, samples of each, type, interleaved, big-endian
pub fn chunks() {
    let (n, nb, ix, inter) = (vp::param(0) as usize, vp::param(1) as usize, vp::param(2) as usize, vp::param(3) == 1);
    let be = vp::param(4) == 1;
    let w = WIDTH[ix];
    let mut e = Enc::new(be);
    e.u32(2);
    e.object("/'g'/'a'", Ix::Full(CODE[ix], nb as u64), 0);
    e.object("/'g'/'b'", Ix::Full(CODE[ix], nb as u64), 0);
    let all: Vec<u128> = (0..2 * nb * n).map(|i| bits_at(i, 2 * nb * n, ix)).collect();
    let mut d = Enc::new(be);
    for b in &all {
        d.val(ix, *b);
    }
    vp::check(d.b.len() == 2 * nb * n * w, 1);
    let mut buf = Vec::new();
    segment(&mut buf, META | NEWLIST | RAW | if inter { INTER } else { 0 }, be, &e.b, &d.b);
    let mut f = open(&mut buf, 2);
    let at = |c: usize, i: usize| if inter { all[2 * i + c] } else { all[i / nb * 2 * nb + c * nb + i % nb] };
    for c in 0..2 {
        vp::check(f.channel_length(&chan(c)) == Some((nb * n) as u64), 3);
        for s in [0, 1, 254, 255, 256, nb * n / 2, nb * n - 2, nb * n] {
            let got = vp::ok(read(&mut f, &chan(c), ix, s as u64, 4, 1), 4);
            for k in 0..4 {
                vp::check(got[k] == if s + k < nb * n { at(c, s + k) } else { 1 }, 5);
            }
        }
    }
    let got = vp::ok(read(&mut f, &chan(1), ix, 0, nb * n, 1), 6);
    for i in 0..nb * n {
        vp::check(got[i] == at(1, i), 7);
    }
    vp::cover(1);
}
/// What was written, byte by byte.
pub fn wellformed() {
    let (kind, ix, n, steps) = params();
    let mut buf = Vec::new();
    let mut m = Model::default();
    history(&mut open(&mut buf, 1), &mut m, kind, ix, n, 0..steps);
    let mut r = crate::refint::Ref::default();
    let segs = crate::parse::parse(&buf, &mut r, 100);
    vp::check(segs.len() == steps, 130);
    crate::parse::same_content(&m, &r.m, 140);
    vp::cover(1);
}
/// Several channels at once, from starts around the limits and into outputs of different lengths.
pub fn together() {
    let (kind, ix, n, steps) = params();
    let mut buf = Vec::new();
    let mut m = Model::default();
    let mut f = open(&mut buf, 1);
    history(&mut f, &mut m, kind, ix, n, 0..steps);
    let all = m.ch[0].len().min(m.ch[1].len());
    for s in [0, 1, 255, 256, 8192 / WIDTH[ix], n - 1, n, n + 1, all - 1, all] {
        for (la, lb) in [(3, 3), (1, 5), (all - s, 2), (2, all + 1)] {
            let (a, b) = with_ty!(ix, T => {
                let fill = || <T as Ty>::from_bits(1);
                let mut a: Vec<T> = (0..la).map(|_| fill()).collect();
                let mut b: Vec<T> = (0..lb).map(|_| fill()).collect();
                vp::ok(f.read_channels_from(&[chan(1), chan(0)], s as u64, &mut [&mut a[..], &mut b[..]]), 10);
                (a.iter().map(|x| x.bits()).collect::<Vec<u128>>(), b.iter().map(|x| x.bits()).collect::<Vec<u128>>())
            });
            for (c, got) in [(1, a), (0, b)] {
                for k in 0..got.len() {
                    vp::check(got[k] == m.ch[c].get(s + k).map_or(1, |x| x.1), 11);
                }
            }
        }
    }
    vp::cover(1);
}

/// Many channels described in one segment, some of them again in the next, the last of them alone in
/// the third. params: channels, length of a text property, big-endian, interleaved
pub fn described() {
    let (n, len, be, inter) = (vp::param(0) as usize, vp::param(1) as usize, vp::param(2) == 1, vp::param(3) == 1);
    let flags = if inter { INTER } else { 0 };
    let some = |i: usize| i < 1 || i + 1 == n || (254..258).contains(&i);
    let path = |i: usize| format!("/'g'/'c{i}'");
    let mut buf = Vec::new();
    let mut all: Vec<Vec<u128>> = vec![Vec::new(); n];
    let mut one = |all: &mut Vec<Vec<u128>>, d: &mut Enc, i: usize| {
        let v = if some(i) { sym_bits(U16) } else { i as u128 };
        d.val(U16, v);
        all[i].push(v);
    };
    // all of them
    let mut e = Enc::new(be);
    let mut d = Enc::new(be);
    e.u32(n as u32);
    for i in 0..n {
        e.object(&path(i), Ix::Full(CODE[U16], 1), 0);
        one(&mut all, &mut d, i);
    }
    segment(&mut buf, META | NEWLIST | RAW | flags, be, &e.b, &d.b);
    // a few named again, with a property; the rest goes on as before
    let mut e = Enc::new(be);
    let mut d = Enc::new(be);
    let again: Vec<usize> = (0..n).filter(|i| some(*i)).rev().collect();
    let t = text(len);
    e.u32(again.len() as u32);
    for i in &again {
        e.object(&path(*i), Ix::Same, 1);
        e.str(b"p");
        e.u32(CODE_STRING);
        e.str(&t);
    }
    for i in 0..n {
        one(&mut all, &mut d, i);
    }
    segment(&mut buf, META | RAW | flags, be, &e.b, &d.b);
    // without metadata
    let mut d = Enc::new(be);
    for i in 0..n {
        one(&mut all, &mut d, i);
    }
    segment(&mut buf, RAW | flags, be, &[], &d.b);
    // only the last
    let mut e = Enc::new(be);
    let mut d = Enc::new(be);
    e.u32(1);
    e.object(&path(n - 1), Ix::Same, 0);
    one(&mut all, &mut d, n - 1);
    segment(&mut buf, META | NEWLIST | RAW | flags, be, &e.b, &d.b);
    let mut f = open(&mut buf, 1);
    for i in (0..n).filter(|i| some(*i) || i % 41 == 0) {
        let c = ChannelPath::new("g", &format!("c{i}"));
        let m = all[i].len();
        vp::check(f.channel_length(&c) == Some(m as u64), 2);
        for s in 0..m + 1 {
            let got = vp::ok(read(&mut f, &c, U16, s as u64, m + 1 - s, 0), 3);
            for k in 0..got.len() {
                vp::check(got[k] == all[i].get(s + k).copied().unwrap_or(0), 4);
            }
        }
        let o = PropertyPath::channel("g", &format!("c{i}"));
        match vp::ok(f.read_property(&o, "p"), 5) {
            Some(PropertyValue::String(v)) => vp::check(some(i) && v.as_bytes() == &t[..], 6),
            Some(_) => vp::check(false, 7),
            None => vp::check(!some(i), 8),
        }
    }
    vp::cover(1);
}

/// A long segment cut off: what lies before the cut can be read, what does not is an error.
/// params: samples of each of two channels, type, interleaved, big-endian
pub fn cut() {
    let (n, ix, inter, be) = (vp::param(0) as usize, vp::param(1) as usize, vp::param(2) == 1, vp::param(3) == 1);
    let w = WIDTH[ix];
    let mut e = Enc::new(be);
    e.u32(2);
    e.object("/'g'/'a'", Ix::Full(CODE[ix], n as u64), 0);
    e.object("/'g'/'b'", Ix::Full(CODE[ix], n as u64), 0);
    let all: Vec<u128> = (0..2 * n).map(|i| bits_at(i, 2 * n, ix)).collect();
    let mut d = Enc::new(be);
    for b in &all {
        d.val(ix, *b);
    }
    let mut whole = Vec::new();
    segment(&mut whole, META | NEWLIST | RAW | if inter { INTER } else { 0 }, be, &e.b, &d.b);
    let data = whole.len() - 2 * n * w;
    let index = |c: usize, i: usize| if inter { 2 * i + c } else { c * n + i };
    for at in [data, data + 1, 8191, 8192, 8193, data + 8192 - 1, data + 8192, data + n * w, data + n * w + 1, 16384, 65536, whole.len() - w, whole.len() - 1] {
        if at < data || at >= whole.len() {
            continue;
        }
        let mut buf = whole[..at].to_vec();
        let mut f = open(&mut buf, 1);
        for c in 0..2 {
            vp::check(f.channel_length(&chan(c)) == Some(n as u64), 2);
            let there = (0..n).take_while(|i| data + (index(c, *i) + 1) * w <= at).count();
            for (s, k) in [(0, there), (there / 2, there - there / 2), (there.saturating_sub(1), there.min(1))] {
                let got = vp::ok(read(&mut f, &chan(c), ix, s as u64, k, 1), 3);
                for i in 0..k {
                    vp::check(got[i] == all[index(c, s + i)], 4);
                }
            }
            if there < n {
                for (s, k) in [(0, there + 1), (there, 1), (n - 1, 1), (n - 1, 5)] {
                    vp::check(read(&mut f, &chan(c), ix, s as u64, k, 1).is_err(), 5);
                }
            }
        }
    }
    vp::cover(1);
}
