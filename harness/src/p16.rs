//! P16: opening arbitrary bytes never panics and always terminates.
use crate::sym::{Shape, Types, counted, segment as sym_segment};
use crate::ty::*;
use crate::vp;
use std::io::Cursor;
use tedium::TdmsFile;

fn try_open(buf: &Vec<u8>) {
    match TdmsFile::new(Cursor::new(buf)) {
        Ok(f) => {
            vp::cover(1);
            vp::obs(f.list_groups().count() as u64);
        }
        Err(_) => {
            vp::cover(2);
            vp::obs(99);
        }
    }
}

/// Any bytes. params: number of bytes
pub fn h_p16_raw() {
    let buf: Vec<u8> = (0..vp::param(0)).map(|_| vp::u8()).collect();
    try_open(&buf);
}

/// Any bytes behind the tag. params: number of bytes, 1: a complete segment in front
pub fn h_p16_tail() {
    let mut buf = Vec::new();
    if vp::param(1) == 1 {
        let mut m = Enc::new(false);
        m.u32(1);
        m.object("/'g'/'a'", Ix::Full(CODE[U8], 1), 0);
        crate::ty::segment(&mut buf, META | NEWLIST | RAW, false, &m.b, &[1]);
    }
    buf.extend_from_slice(b"TDSm");
    for _ in 0..vp::param(0) {
        buf.push(vp::u8());
    }
    try_open(&buf);
}

/// Headers with any numbers in them. params: segments, objects in each, paths, properties,
/// counts, text lengths, big-endian, offsets (0 any, 1 fitting, 2 fitting or behind)
pub fn h_p16() {
    let mut buf = Vec::new();
    for _ in 0..vp::param(0) {
        let s = Shape {
            be: vp::param(6) == 1,
            objects: vp::param(1) as usize,
            paths: vp::param(2),
            props: vp::param(3) == 1,
            counts: vp::param(4) == 1,
            texts: vp::param(5) == 1,
            data: 4,
            offsets: vp::param(7),
            bits: 0,
            types: Types::Any,
        };
        sym_segment(&mut buf, &s);
    }
    try_open(&buf);
}

/// Any numbers of values. params: segments, big-endian, interleaved, bits of the numbers (0: all),
/// number of channels, their type codes
pub fn h_p16_counts() {
    let mut buf = Vec::new();
    let codes: Vec<u32> = (0..vp::param(4)).map(|i| vp::param(5 + i) as u32).collect();
    counted(&mut buf, vp::param(0) as usize, &codes, vp::param(1) == 1, vp::param(2) == 1, vp::param(3));
    try_open(&buf);
}
