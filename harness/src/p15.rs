//! P15: reading with an unsuitable value type is refused, never reinterpreted.
use crate::ty::*;
use crate::util::*;
use crate::vp;
use crate::with_ty;
use std::io::Cursor;
use tedium::TdmsFile;

/// Stored forms: the fifteen types, floats with a unit, strings, fixed point and no type at all.
const STORED: [(u32, usize); 21] = [
    (5, U8),
    (6, U16),
    (7, U32),
    (8, U64),
    (1, I8),
    (2, I16),
    (3, I32),
    (4, I64),
    (9, F32),
    (10, F64),
    (0x21, BOOL),
    (0x44, TIME),
    (0x08000c, C32),
    (0x10000d, C64),
    (11, EXT),
    (CODE_F32_UNIT, F32),
    (CODE_F64_UNIT, F64),
    (CODE_EXT_UNIT, EXT),
    (CODE_STRING, 99),
    (0x4f, 99),
    (0, 99),
];

/// Can the type hold what is stored?
fn holds(t: usize, s: usize) -> bool {
    STORED[s].1 == t || (t == BOOL && STORED[s].1 == U8)
}
fn value(t: usize, s: usize, raw: u128) -> u128 {
    if t == BOOL { (raw != 0) as u128 } else if STORED[s].1 == t { raw } else { vp::fail(9500) }
}
fn width(s: usize) -> usize {
    match STORED[s].1 {
        99 => if STORED[s].0 == 0x4f { 8 } else { 0 },
        i => WIDTH[i],
    }
}
fn raw_bits(s: usize) -> u128 {
    match STORED[s].1 {
        99 if STORED[s].0 == CODE_STRING => vp::u8() as u128,
        99 => vp::u64() as u128,
        // any byte, also what no writer of booleans stores
        BOOL => vp::u8() as u128,
        i => sym_bits(i),
    }
}
fn store(data: &mut Enc, s: usize, raw: u128) {
    match width(s) {
        0 if STORED[s].0 == CODE_STRING => data.b.push(raw as u8),
        0 => {}
        w if STORED[s].1 == 99 => put(&mut data.b, raw, w, data.be),
        _ => data.val(STORED[s].1, raw),
    }
}

/// Channel a in each segment as the form given, b as 16 bit numbers, both with two samples.
fn file(forms: &[usize], inter: bool, be: bool, first: bool) -> (Vec<u8>, Vec<(usize, u128)>, Vec<u128>) {
    let mut buf = Vec::new();
    let mut a = Vec::new();
    let mut b = Vec::new();
    for s in forms {
        let mut meta = Enc::new(be);
        meta.u32(2);
        if first {
            form(&mut meta, *s);
        }
        meta.object("/'g'/'b'", Ix::Full(CODE[U16], 2), 0);
        if !first {
            form(&mut meta, *s);
        }
        let mut data = Enc::new(be);
        let va: Vec<u128> = (0..2).map(|_| raw_bits(*s)).collect();
        let vb: Vec<u128> = (0..2).map(|_| sym_bits(U16)).collect();
        let order: [(bool, usize); 4] = match (inter, first) {
            (true, true) => [(true, 0), (false, 0), (true, 1), (false, 1)],
            (true, false) => [(false, 0), (true, 0), (false, 1), (true, 1)],
            (false, true) => [(true, 0), (true, 1), (false, 0), (false, 1)],
            (false, false) => [(false, 0), (false, 1), (true, 0), (true, 1)],
        };
        for (is_a, k) in order {
            if is_a && STORED[*s].0 == CODE_STRING && k == 0 {
                data.u32(1);
                data.u32(2);
            }
            if is_a {
                store(&mut data, *s, va[k]);
            } else {
                data.val(U16, vb[k]);
            }
        }
        segment(&mut buf, META | NEWLIST | RAW | if inter { INTER } else { 0 }, be, &meta.b, &data.b);
        a.extend(va.iter().map(|v| (*s, *v)));
        b.extend(vb);
    }
    (buf, a, b)
}
fn form(meta: &mut Enc, s: usize) {
    if STORED[s].0 != CODE_STRING {
        meta.object("/'g'/'a'", Ix::Full(STORED[s].0, 2), 0);
        return;
    }
    // two texts of one byte: where each ends, and the texts
    meta.str(b"/'g'/'a'");
    meta.u32(28);
    meta.u32(CODE_STRING);
    meta.u32(1);
    meta.u64(2);
    meta.u64(10);
    meta.u32(0);
}

const FILL: u128 = 0x5aa5_5aa5_5aa5_5aa5_a5a5;
fn fill(t: usize) -> u128 {
    with_ty!(t, T => <T as Ty>::from_bits(FILL).bits())
}

/// Reads n samples of a from `start` as t and checks what comes back.
fn check_a<F: std::io::Read + std::io::Seek>(f: &mut TdmsFile<F>, a: &[(usize, u128)], t: usize, start: usize, n: usize, code: u64) {
    with_ty!(t, T => {
        let mut out: Vec<T> = (0..n).map(|_| <T as Ty>::from_bits(FILL)).collect();
        let r = f.read_channel_from(&chan(0), start as u64, &mut out);
        let here = &a[start.min(a.len())..(start + n).min(a.len())];
        let all = here.iter().all(|x| holds(t, x.0));
        vp::check(r.is_ok() == all, code);
        let mut k = 0;
        for o in &out {
            let v = o.bits();
            let want = here.get(k).filter(|x| holds(t, x.0)).map(|x| value(t, x.0, x.1));
            match want {
                // with an error the output may have been left alone
                Some(w) => vp::check(if all { v == w } else { v == w || v == fill(t) }, code + 1),
                None => vp::check(v == fill(t), code + 2),
            }
            k += 1;
        }
    });
}

/// One stored form read as every type. params: form
pub fn h_p15() {
    let s = vp::param(0) as usize;
    let t = vp::pick(NTY as u64) as usize;
    let inter = vp::pick(2) == 1;
    let be = vp::pick(2) == 1;
    let first = vp::pick(2) == 1;
    let (buf, a, b) = file(&[s], inter, be, first);
    let f = TdmsFile::new(Cursor::new(&buf));
    if f.is_err() && inter && STORED[s].0 == CODE_STRING {
        // rows of values without a size of their own
        vp::cover(2);
        return;
    }
    let mut f = vp::ok(f, 1);
    for (start, n) in [(0, 2), (1, 2), (0, 1)] {
        check_a(&mut f, &a, t, start, n, 10);
        let got = vp::ok(read(&mut f, &chan(1), U16, start as u64, n, 7), 2);
        for k in 0..n {
            vp::check(got[k] == if start + k < 2 { b[start + k] } else { 7 }, 3);
        }
    }
    let mut text = vec![String::from("x")];
    let r = f.read_channel(&chan(1), &mut text);
    vp::check(r.is_err() && text[0] == "x", 4);
    if s < 18 {
        let r = f.read_channel(&chan(0), &mut text);
        vp::check(r.is_err() && text[0] == "x", 5);
    }
    vp::cover(if holds(t, s) { 1 } else { 2 });
}

/// The form changes from segment to segment. params: type read, segments
pub fn h_p15_change() {
    let t = vp::param(0) as usize;
    let n = vp::param(1) as usize;
    const OTHER: [usize; 4] = [1, 6, 9, 10];
    let forms: Vec<usize> = (0..n)
        .map(|_| {
            // t itself, a relative where there is one, or something else
            match vp::pick(3) {
                0 => t,
                1 => (0..18).rev().find(|s| holds(t, *s)).unwrap_or(t),
                _ => *OTHER.iter().find(|s| !holds(t, **s)).unwrap_or(&1),
            }
        })
        .collect();
    let inter = vp::pick(2) == 1;
    let be = vp::pick(2) == 1;
    let (buf, a, b) = file(&forms, inter, be, true);
    let mut f = vp::ok(TdmsFile::new(Cursor::new(&buf)), 1);
    for start in 0..a.len() {
        for len in 1..a.len() - start + 2 {
            check_a(&mut f, &a, t, start, len, 10);
        }
    }
    let got = vp::ok(read(&mut f, &chan(1), U16, 0, b.len(), 7), 2);
    for k in 0..b.len() {
        vp::check(got[k] == b[k], 3);
    }
    vp::cover(1);
}

/// Both channels in one request; a's form may be another one. params: segments
pub fn h_p15_multi() {
    let n = vp::param(0) as usize;
    let forms: Vec<usize> = (0..n).map(|_| [U16, I32, U8][vp::pick(3) as usize]).collect();
    let inter = vp::pick(2) == 1;
    let first = vp::pick(2) == 1;
    let (buf, a, b) = file(&forms, inter, false, first);
    let mut f = vp::ok(TdmsFile::new(Cursor::new(&buf)), 1);
    let start = vp::pick(a.len() as u64) as usize;
    let la = 1 + vp::pick(a.len() as u64) as usize;
    let lb = 1 + vp::pick(a.len() as u64) as usize;
    let fill = 0xa55au16;
    let (mut oa, mut ob) = (vec![fill; la], vec![fill; lb]);
    let r = f.read_channels_from(&[chan(0), chan(1)], start as u64, &mut [&mut oa[..], &mut ob[..]]);
    let need = &a[start..(start + la).min(a.len())];
    let all = need.iter().all(|x| x.0 == U16);
    vp::check(r.is_ok() == all, 2);
    for k in 0..la {
        let v = oa[k];
        match need.get(k) {
            Some((U16, w)) => vp::check(v as u128 == *w || (!all && v == fill), 3),
            _ => vp::check(v == fill, 4),
        }
    }
    for k in 0..lb {
        let v = ob[k];
        match b.get(start + k) {
            Some(w) => vp::check(v as u128 == *w || (!all && v == fill), 5),
            _ => vp::check(v == fill, 6),
        }
    }
    // and the suitable one alone
    let got = vp::ok(read(&mut f, &chan(1), U16, start as u64, lb, fill as u128), 7);
    for k in 0..lb {
        vp::check(got[k] == b.get(start + k).copied().unwrap_or(fill as u128), 8);
    }
    vp::cover(if all { 1 } else { 2 });
}
