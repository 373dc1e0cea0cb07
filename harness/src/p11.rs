//! P11: every value survives encoding and decoding in either byte order.
use crate::ty::*;
use crate::vp;
use crate::with_ty;
use std::io::Cursor;
use tedium::TdmsStorageType;

/// params: type
pub fn h_p11() {
    let ix = vp::param(0) as usize;
    with_ty!(ix, T => {
        let bits = sym_bits(ix);
        let v = <T as Ty>::from_bits(bits);
        vp::check(v.bits() == bits, 1);
        let mut le = Vec::new();
        let mut be = Vec::new();
        vp::ok(v.write_le(&mut le), 2);
        vp::ok(v.write_be(&mut be), 3);
        vp::check(le.len() == WIDTH[ix] && be.len() == WIDTH[ix], 4);
        vp::check(v.size() == WIDTH[ix] && T::SIZE_BYTES == WIDTH[ix], 5);
        let mut want = Vec::new();
        enc(&mut want, ix, bits, false);
        for i in 0..WIDTH[ix] {
            vp::check(le[i] == want[i], 6);
        }
        // each component reversed
        let c = if ix == C32 || ix == C64 { WIDTH[ix] / 2 } else { WIDTH[ix] };
        for i in 0..WIDTH[ix] {
            vp::check(be[i] == le[(i / c) * c + c - 1 - i % c], 7);
        }
        // decoding takes exactly what encoding wrote
        le.push(0x77);
        be.push(0x77);
        let mut r = Cursor::new(&le);
        vp::check(vp::ok(T::read_le(&mut r), 8).bits() == bits, 9);
        vp::check(r.position() == WIDTH[ix] as u64, 10);
        let mut r = Cursor::new(&be);
        vp::check(vp::ok(T::read_be(&mut r), 11).bits() == bits, 12);
        vp::check(r.position() == WIDTH[ix] as u64, 13);
        // with too few bytes it is an error
        let n = vp::pick(WIDTH[ix] as u64) as usize;
        vp::check(T::read_le(&mut Cursor::new(&le[..n])).is_err(), 14);
        vp::check(T::read_be(&mut Cursor::new(&be[..n])).is_err(), 15);
        vp::obs(le[0] as u64);
        // any stored bytes decode, and (but for booleans, true in any nonzero byte) encode again
        let raw: Vec<u8> = (0..WIDTH[ix]).map(|_| vp::u8()).collect();
        let v = vp::ok(T::read_le(&mut Cursor::new(&raw)), 16);
        let mut again = Vec::new();
        vp::ok(v.write_le(&mut again), 17);
        let w = vp::ok(T::read_be(&mut Cursor::new(&raw)), 18);
        let mut again_be = Vec::new();
        vp::ok(w.write_be(&mut again_be), 19);
        for i in 0..WIDTH[ix] {
            let want = if ix == BOOL { (raw[i] != 0) as u8 } else { raw[i] };
            vp::check(again[i] == want, 20);
            vp::check(again_be[i] == want, 21);
        }
        vp::cover(1);
    });
}

/// Strings. params: longest
pub fn h_p11_string() {
    let n = vp::pick(vp::param(0) + 1) as usize;
    let raw: Vec<u8> = (0..n).map(|_| vp::u8()).collect();
    let valid = std::str::from_utf8(&raw).is_ok();
    for be in [false, true] {
        let mut b = Enc::new(be);
        b.str(&raw);
        b.b.push(0x77);
        let mut r = Cursor::new(&b.b);
        let s = if be { String::read_be(&mut r) } else { String::read_le(&mut r) };
        if !valid {
            vp::check(s.is_err(), 1);
            vp::cover(2);
            continue;
        }
        let s = vp::ok(s, 2);
        vp::check(r.position() == 4 + n as u64, 3);
        vp::check(s.len() == n, 4);
        let sb = s.as_bytes();
        for i in 0..n {
            vp::check(sb[i] == raw[i], 5);
        }
        let mut again = Vec::new();
        vp::ok(if be { s.write_be(&mut again) } else { s.write_le(&mut again) }, 6);
        vp::check(again.len() == 4 + n && s.size() == 4 + n, 7);
        for i in 0..again.len() {
            vp::check(again[i] == b.b[i], 8);
        }
        vp::cover(1);
    }
    // lengths beyond what there is are errors
    let mut b = Vec::new();
    let l = vp::u32();
    vp::assume(l as usize > n);
    put(&mut b, l as u128, 4, false);
    b.extend_from_slice(&raw);
    vp::check(String::read_le(&mut Cursor::new(&b)).is_err(), 9);
}

/// Long texts, a few characters of them any. params: length
pub fn h_p11_string_large() {
    let n = vp::param(0) as usize;
    let mut raw = vec![b'x'; n];
    for i in [0, n / 2, n - 1] {
        raw[i] = vp::u8();
        vp::assume(raw[i] < 0x80);
    }
    let s = String::from_utf8(raw.clone()).unwrap();
    for be in [false, true] {
        let mut b = Vec::new();
        vp::ok(if be { s.write_be(&mut b) } else { s.write_le(&mut b) }, 1);
        vp::check(b.len() == n + 4 && s.size() == n + 4, 2);
        let l = [b[0], b[1], b[2], b[3]];
        vp::check(if be { u32::from_be_bytes(l) } else { u32::from_le_bytes(l) } as usize == n, 3);
        for i in 0..n {
            vp::check(b[4 + i] == raw[i], 4);
        }
        b.push(7);
        let mut r = Cursor::new(&b);
        let back = vp::ok(if be { String::read_be(&mut r) } else { String::read_le(&mut r) }, 5);
        vp::check(r.position() == 4 + n as u64 && back.len() == n, 6);
        for i in 0..n {
            vp::check(back.as_bytes()[i] == raw[i], 7);
        }
    }
    vp::cover(1);
}
