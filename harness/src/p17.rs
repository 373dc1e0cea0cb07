//! P17: using a file opened from arbitrary bytes never panics.
use crate::model::*;
use crate::sym::{Shape, Types, counted, segment as sym_segment};
use crate::ty::*;
use crate::util::*;
use crate::vp;
use crate::with_ty;
use std::io::Cursor;
use tedium::{ChannelPath, PropertyPath, TdmsFile, TdmsStorageType};

fn queries(f: &TdmsFile<Cursor<&Vec<u8>>>) {
    for g in f.list_groups() {
        vp::obs(g.len() as u64);
    }
    for p in [PropertyPath::file(), PropertyPath::group("g"), PropertyPath::group("")] {
        for c in f.list_channels_in_group(&p) {
            vp::check(f.channel_length(&c).is_some(), 1);
        }
    }
    for o in 0..6 {
        let p = obj(o);
        if let Some(it) = f.read_all_properties(&p) {
            for (n, _) in it {
                vp::check(matches!(f.read_property(&p, n), Ok(Some(_))), 2);
            }
        }
        let _ = f.read_property(&p, "p");
    }
    let _ = f.channel_length(&chan(0));
    let _ = f.channel_length(&chan(1));
}

fn reads<T: TdmsStorageType + Clone>(f: &mut TdmsFile<Cursor<&Vec<u8>>>, v: T, maxn: u64) {
    let start = vp::u64();
    let n = vp::pick(maxn + 1) as usize;
    let mut out = vec![v.clone(); n];
    let ok = match vp::pick(4) {
        0 => f.read_channel_from(&chan(0), start, &mut out).is_ok(),
        1 => f.read_channel_from(&chan(1), start, &mut out).is_ok(),
        2 => {
            let mut other = vec![v; 1];
            f.read_channels_from(&[chan(0), chan(1)], start, &mut [&mut out[..], &mut other[..]]).is_ok()
        }
        _ => {
            let none: [ChannelPath; 0] = [];
            vp::check(f.read_channels_from::<T>(&none, start, &mut []).is_ok(), 3);
            f.read_channel(&chan(0), &mut out).is_ok()
        }
    };
    vp::cover(if ok { 1 } else { 2 });
}

/// params: segments, objects in each, paths, type code (99: any, 1000 a + b: a for the
/// first object and b for the others), type read (15: String),
/// most values read, big-endian, offsets, bits of the number of values (0: all)
pub fn h_p17() {
    let mut buf = Vec::new();
    for _ in 0..vp::param(0) {
        let s = Shape {
            be: vp::param(6) == 1,
            objects: vp::param(1) as usize,
            paths: vp::param(2),
            props: false,
            counts: false,
            texts: false,
            data: 12,
            offsets: vp::param(7),
            bits: vp::param(8),
            types: match vp::param(3) as u32 {
                99 => Types::Any,
                c if c >= 1000 => Types::Two(c / 1000, c % 1000),
                c => Types::One(c),
            },
        };
        sym_segment(&mut buf, &s);
    }
    let Ok(mut f) = TdmsFile::new(Cursor::new(&buf)) else {
        return;
    };
    queries(&f);
    let t = vp::param(4) as usize;
    if t == 15 {
        reads(&mut f, String::new(), vp::param(5));
    } else {
        with_ty!(t, T => reads(&mut f, <T as Ty>::from_bits(0), vp::param(5)));
    }
}

/// An object with any text as its path. params: bytes that are any, text in front of them
pub fn h_p17_paths() {
    let n = vp::param(0) as usize;
    let front = ["", "/'", "/'g", "/'g'", "/'g'/'", "/'g'/'a"][vp::param(1) as usize].as_bytes();
    let mut buf = Vec::new();
    let data = vp::pick(2) == 1;
    let mut m = Enc::new(false);
    m.u32(1);
    m.u32((front.len() + n) as u32);
    m.b.extend_from_slice(front);
    for _ in 0..n {
        m.b.push(vp::u8());
    }
    if data {
        m.u32(20);
        m.u32(CODE[U8]);
        m.u32(1);
        m.u64(1);
    } else {
        m.u32(0xffff_ffff);
    }
    m.u32(1);
    m.str(b"p");
    m.u32(CODE[U8]);
    m.b.push(7);
    segment(&mut buf, META | NEWLIST | if data { RAW } else { 0 }, false, &m.b, if data { &[5] } else { &[] });
    if let Ok(mut f) = TdmsFile::new(Cursor::new(&buf)) {
        queries(&f);
        let mut out = [0u8; 2];
        let _ = f.read_channel(&chan(0), &mut out);
        for g in f.list_groups().map(|g| g.to_string()).collect::<Vec<_>>() {
            let here: Vec<ChannelPath> = f.list_channels_in_group(&PropertyPath::group(&g)).collect();
            for c in here {
                vp::obs(c.group_name().len() as u64 + 100 * c.channel_name().len() as u64);
                vp::check(!data || f.read_channel(&c, &mut out).is_ok(), 4);
                vp::cover(1);
            }
        }
        for t in ["/", "/'g'", "/'g'/'a'", "/'a'"] {
            if let Ok(p) = PropertyPath::try_from(t) {
                let _ = f.list_channels_in_group(&p).count();
            }
        }
        vp::cover(2);
    }
}

/// Any numbers of values, then every query and reads. params: segments, big-endian, interleaved,
/// bits of the numbers (0: all), number of channels, their type codes; last: most values read
pub fn h_p17_counts() {
    let mut buf = Vec::new();
    let n = vp::param(4);
    let codes: Vec<u32> = (0..n).map(|i| vp::param(5 + i) as u32).collect();
    counted(&mut buf, vp::param(0) as usize, &codes, vp::param(1) == 1, vp::param(2) == 1, vp::param(3));
    if let Ok(mut f) = TdmsFile::new(Cursor::new(&buf)) {
        queries(&f);
        match codes[0] {
            6 => reads(&mut f, 1u16, vp::param(5 + n)),
            0x21 => reads(&mut f, true, vp::param(5 + n)),
            0x20 => reads(&mut f, String::new(), vp::param(5 + n)),
            _ => reads(&mut f, 1u8, vp::param(5 + n)),
        }
    }
}
