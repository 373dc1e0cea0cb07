//! Value types, their bits and an independent encoder of the TDMS format.
//!
//! Nothing here comes from the library: type codes, widths and encodings are written down from
//! NI's description of the format.
#![allow(dead_code)]
use crate::vp;
use labview_interop::types::LVTime;
use tedium::types::{Complex, ExtendedRaw};
use tedium::{PropertyValue, TdmsStorageType};

/// The fixed-size value types, in the order used for "type index" throughout.
pub const NTY: usize = 15;
pub const U8: usize = 0;
pub const U16: usize = 1;
pub const U32: usize = 2;
pub const U64: usize = 3;
pub const I8: usize = 4;
pub const I16: usize = 5;
pub const I32: usize = 6;
pub const I64: usize = 7;
pub const F32: usize = 8;
pub const F64: usize = 9;
pub const BOOL: usize = 10;
pub const TIME: usize = 11;
pub const C32: usize = 12;
pub const C64: usize = 13;
pub const EXT: usize = 14;

/// Codes of the format for the types above.
pub const CODE: [u32; NTY] = [5, 6, 7, 8, 1, 2, 3, 4, 9, 10, 0x21, 0x44, 0x08000c, 0x10000d, 11];
/// Bytes one value takes in a file.
pub const WIDTH: [usize; NTY] = [1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 1, 16, 8, 16, 10];

pub const CODE_F32_UNIT: u32 = 0x19;
pub const CODE_F64_UNIT: u32 = 0x1a;
pub const CODE_EXT_UNIT: u32 = 0x1b;
pub const CODE_STRING: u32 = 0x20;

pub trait Ty: TdmsStorageType + Clone {
    const IX: usize;
    fn from_bits(b: u128) -> Self;
    fn bits(&self) -> u128;
    fn prop(&self) -> Option<PropertyValue>;
}

macro_rules! int {
    ($t:ty, $u:ty, $ix:expr) => {
        impl Ty for $t {
            const IX: usize = $ix;
            fn from_bits(b: u128) -> Self {
                b as $u as $t
            }
            fn bits(&self) -> u128 {
                *self as $u as u128
            }
            fn prop(&self) -> Option<PropertyValue> {
                Some((*self).into())
            }
        }
    };
}
int!(u8, u8, U8);
int!(u16, u16, U16);
int!(u32, u32, U32);
int!(u64, u64, U64);
int!(i8, u8, I8);
int!(i16, u16, I16);
int!(i32, u32, I32);
int!(i64, u64, I64);
impl Ty for f32 {
    const IX: usize = F32;
    fn from_bits(b: u128) -> Self {
        f32::from_bits(b as u32)
    }
    fn bits(&self) -> u128 {
        self.to_bits() as u128
    }
    fn prop(&self) -> Option<PropertyValue> {
        Some((*self).into())
    }
}
impl Ty for f64 {
    const IX: usize = F64;
    fn from_bits(b: u128) -> Self {
        f64::from_bits(b as u64)
    }
    fn bits(&self) -> u128 {
        self.to_bits() as u128
    }
    fn prop(&self) -> Option<PropertyValue> {
        Some((*self).into())
    }
}
impl Ty for bool {
    const IX: usize = BOOL;
    fn from_bits(b: u128) -> Self {
        b & 1 != 0
    }
    fn bits(&self) -> u128 {
        *self as u128
    }
    fn prop(&self) -> Option<PropertyValue> {
        Some((*self).into())
    }
}
impl Ty for LVTime {
    const IX: usize = TIME;
    fn from_bits(b: u128) -> Self {
        LVTime::from_parts((b >> 64) as u64 as i64, b as u64)
    }
    fn bits(&self) -> u128 {
        let (s, f) = self.to_parts();
        ((s as u64 as u128) << 64) | f as u128
    }
    fn prop(&self) -> Option<PropertyValue> {
        Some((*self).into())
    }
}
impl Ty for Complex<f32> {
    const IX: usize = C32;
    fn from_bits(b: u128) -> Self {
        Complex::new(f32::from_bits(b as u32), f32::from_bits((b >> 32) as u32))
    }
    fn bits(&self) -> u128 {
        self.real.to_bits() as u128 | ((self.imaginary.to_bits() as u128) << 32)
    }
    fn prop(&self) -> Option<PropertyValue> {
        Some((*self).into())
    }
}
impl Ty for Complex<f64> {
    const IX: usize = C64;
    fn from_bits(b: u128) -> Self {
        Complex::new(f64::from_bits(b as u64), f64::from_bits((b >> 64) as u64))
    }
    fn bits(&self) -> u128 {
        self.real.to_bits() as u128 | ((self.imaginary.to_bits() as u128) << 64)
    }
    fn prop(&self) -> Option<PropertyValue> {
        Some((*self).into())
    }
}
impl Ty for ExtendedRaw {
    const IX: usize = EXT;
    fn from_bits(b: u128) -> Self {
        ExtendedRaw::new(b & ((1 << 80) - 1))
    }
    fn bits(&self) -> u128 {
        // a single-field wrapper: its value is its memory
        const { assert!(std::mem::size_of::<ExtendedRaw>() == 16) };
        unsafe { std::mem::transmute_copy::<ExtendedRaw, u128>(self) }
    }
    fn prop(&self) -> Option<PropertyValue> {
        Some(PropertyValue::Extended(*self))
    }
}

/// Run `$e` with `$t` bound to the type with index `$ix`.
#[macro_export]
macro_rules! with_ty {
    ($ix:expr, $t:ident => $e:expr) => {{
        match $ix {
            0 => { type $t = u8; $e }
            1 => { type $t = u16; $e }
            2 => { type $t = u32; $e }
            3 => { type $t = u64; $e }
            4 => { type $t = i8; $e }
            5 => { type $t = i16; $e }
            6 => { type $t = i32; $e }
            7 => { type $t = i64; $e }
            8 => { type $t = f32; $e }
            9 => { type $t = f64; $e }
            10 => { type $t = bool; $e }
            11 => { type $t = labview_interop::types::LVTime; $e }
            12 => { type $t = tedium::types::Complex<f32>; $e }
            13 => { type $t = tedium::types::Complex<f64>; $e }
            _ => { type $t = tedium::types::ExtendedRaw; $e }
        }
    }};
}

/// Fresh symbolic bits for a value of the type (every pattern the type has).
pub fn sym_bits(ix: usize) -> u128 {
    match ix {
        U8 | I8 => vp::u8() as u128,
        U16 | I16 => vp::u16() as u128,
        U32 | I32 | F32 => vp::u32() as u128,
        U64 | I64 | F64 | C32 => vp::u64() as u128,
        BOOL => (vp::u8() & 1) as u128,
        TIME | C64 => vp::u64() as u128 | ((vp::u64() as u128) << 64),
        _ => vp::u64() as u128 | ((vp::u16() as u128) << 64),
    }
}

/// The bytes of a value in a file.
pub fn enc(out: &mut Vec<u8>, ix: usize, bits: u128, be: bool) {
    if ix == C32 {
        put(out, bits & 0xffff_ffff, 4, be);
        put(out, bits >> 32, 4, be);
    } else if ix == C64 {
        put(out, bits as u64 as u128, 8, be);
        put(out, bits >> 64, 8, be);
    } else {
        put(out, bits, WIDTH[ix], be);
    }
}
pub fn put(out: &mut Vec<u8>, v: u128, width: usize, be: bool) {
    for i in 0..width {
        let k = if be { width - 1 - i } else { i };
        out.push((v >> (8 * k)) as u8);
    }
}
/// The value stored in the bytes at `pos`.
pub fn dec(b: &[u8], pos: usize, ix: usize, be: bool) -> u128 {
    if ix == C32 {
        get(b, pos, 4, be) | (get(b, pos + 4, 4, be) << 32)
    } else if ix == C64 {
        get(b, pos, 8, be) | (get(b, pos + 8, 8, be) << 64)
    } else {
        get(b, pos, WIDTH[ix], be)
    }
}
pub fn get(b: &[u8], pos: usize, width: usize, be: bool) -> u128 {
    let mut v = 0u128;
    for i in 0..width {
        let k = if be { width - 1 - i } else { i };
        v |= (b[pos + i] as u128) << (8 * k);
    }
    v
}

/// Builder of TDMS bytes.
pub struct Enc {
    pub b: Vec<u8>,
    pub be: bool,
}
impl Enc {
    pub fn new(be: bool) -> Self {
        Enc { b: Vec::new(), be }
    }
    pub fn u32(&mut self, v: u32) {
        put(&mut self.b, v as u128, 4, self.be)
    }
    pub fn u64(&mut self, v: u64) {
        put(&mut self.b, v as u128, 8, self.be)
    }
    pub fn str(&mut self, s: &[u8]) {
        self.u32(s.len() as u32);
        self.b.extend_from_slice(s);
    }
    pub fn val(&mut self, ix: usize, bits: u128) {
        enc(&mut self.b, ix, bits, self.be)
    }
    /// object header without properties; `index` as in [`Ix`]
    pub fn object(&mut self, path: &str, index: Ix, nprops: u32) {
        self.str(path.as_bytes());
        match index {
            Ix::None => self.u32(0xffff_ffff),
            Ix::Same => self.u32(0),
            Ix::Full(code, n) => {
                self.u32(20);
                self.u32(code);
                self.u32(1);
                self.u64(n);
            }
        }
        self.u32(nprops);
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Ix {
    None,
    Same,
    Full(u32, u64),
}

pub const META: u32 = 1 << 1;
pub const NEWLIST: u32 = 1 << 2;
pub const RAW: u32 = 1 << 3;
pub const INTER: u32 = 1 << 5;
pub const BIG: u32 = 1 << 6;

/// Lead-in with explicit offsets.
pub fn lead_in(out: &mut Vec<u8>, toc: u32, be: bool, next: u64, raw: u64) {
    out.extend_from_slice(b"TDSm");
    put(out, (toc | if be { BIG } else { 0 }) as u128, 4, false);
    put(out, 4713, 4, be);
    put(out, next as u128, 8, be);
    put(out, raw as u128, 8, be);
}
/// A segment with matching offsets.
pub fn segment(out: &mut Vec<u8>, toc: u32, be: bool, meta: &[u8], data: &[u8]) {
    lead_in(out, toc, be, (meta.len() + data.len()) as u64, meta.len() as u64);
    out.extend_from_slice(meta);
    out.extend_from_slice(data);
}
