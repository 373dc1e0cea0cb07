//! P13: typed property conversion succeeds exactly for the stored type.
use crate::model::*;
use crate::ty::*;
use crate::vp;
use labview_interop::types::LVTime;
use tedium::types::Complex;
use tedium::{DataType, PropertyValue, TdmsError};

const KINDS: [DataType; 17] = [
    DataType::U8,
    DataType::U16,
    DataType::U32,
    DataType::U64,
    DataType::I8,
    DataType::I16,
    DataType::I32,
    DataType::I64,
    DataType::SingleFloat,
    DataType::DoubleFloat,
    DataType::Boolean,
    DataType::Timestamp,
    DataType::ComplexSingleFloat,
    DataType::ComplexDoubleFloat,
    DataType::ExtendedFloat,
    DataType::Void,
    DataType::TdmsString,
];

/// Every stored kind read as every native type. params: longest string
pub fn h_p13() {
    let k = vp::pick(17) as usize;
    let v = if k < 16 { sym_prop(k) } else { sym_prop(16 + vp::pick(vp::param(0) + 1) as usize) };
    let p = v.to_lib();
    vp::check(p.datatype() == KINDS[k], 1);
    vp::check(PVal::from_lib(&p).same(&v), 2);
    let c = p.clone();
    vp::check(PVal::from_lib(&c).same(&v), 3);
    macro_rules! num {
        ($($t:ty),*) => {$({
            let r: Result<$t, TdmsError> = (&p).try_into();
            let o: Result<$t, TdmsError> = p.clone().try_into();
            let ix = <$t as Ty>::IX;
            match (&r, &o) {
                (Ok(a), Ok(b)) => {
                    vp::check(k == ix, 10);
                    vp::check(PVal::Num(ix, Ty::bits(a)).same(&v), 11);
                    vp::check(PVal::Num(ix, Ty::bits(b)).same(&v), 12);
                    // and back
                    let q: PropertyValue = (*a).into();
                    vp::check(PVal::from_lib(&q).same(&v), 13);
                    vp::check(q.datatype() == p.datatype(), 14);
                    vp::cover(1);
                }
                (Err(a), Err(b)) => {
                    vp::check(k != ix, 15);
                    for e in [a, b] {
                        match e {
                            TdmsError::DataTypeMismatch(have, want) => {
                                vp::check(*have == KINDS[k], 16);
                                vp::check(*want == KINDS[ix], 17);
                            }
                            _ => vp::fail(18),
                        }
                    }
                    vp::cover(2);
                }
                _ => vp::fail(19),
            }
        })*};
    }
    num!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, LVTime, Complex<f32>, Complex<f64>);
    let s: Result<&str, TdmsError> = (&p).try_into();
    let o: Result<String, TdmsError> = p.clone().try_into();
    match (s, o) {
        (Ok(a), Ok(b)) => {
            vp::check(PVal::Str(a.as_bytes().to_vec()).same(&v), 20);
            vp::check(PVal::Str(b.as_bytes().to_vec()).same(&v), 21);
            vp::check(PVal::from_lib(&a.into()).same(&v), 22);
            vp::check(PVal::from_lib(&b.into()).same(&v), 23);
            vp::cover(3);
        }
        (Err(_), Err(_)) => vp::check(k != 16, 24),
        _ => vp::fail(25),
    }
}
