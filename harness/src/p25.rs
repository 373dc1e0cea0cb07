//! P25: timestamps convert to and from calendar time without shifting.
use crate::vp;
use chrono::{DateTime, Utc};
use labview_interop::types::LVTime;
use tedium::{DataType, PropertyValue, TdmsError};

/// 1970-01-01 in seconds since 1904-01-01: 66 years with 17 leap days
const EPOCH: i64 = (66 * 365 + 17) * 86400;
const NANO: u128 = 1_000_000_000;

/// Days since 1970: borders of the calendar, of its rules and of both epochs
const DAYS: [i64; 20] = [
    0, -1, -24107, -24108, 11016, 11017, 20775, 24855, 47541, -25509, -719468, -719163, 2932896, -96465292, 95026236, -141428, 95026237, -96465293,
    i32::MAX as i64, i32::MIN as i64,
];

/// Seconds since 1970. 98: any at all. 97: any whose day does not fit into 32 bits. Otherwise any second of that day.
fn seconds(p: u64) -> i64 {
    if p == 97 {
        let s = vp::u64() as i64;
        vp::assume(!(-190_000_000_000_000..190_000_000_000_000).contains(&s));
        return s;
    }
    if p == 98 {
        return vp::u64() as i64;
    }
    // two overlapping pieces whose size is a power of two cover the day
    let from = [0, 86400 - 65536][vp::pick(2) as usize];
    DAYS[p as usize] * 86400 + from + vp::u16() as i64
}

fn same(a: &DateTime<Utc>, b: &DateTime<Utc>) -> bool {
    a.date_naive() == b.date_naive() && a.time() == b.time()
}

/// params: day (see `seconds`)
pub fn h_p25_to_calendar() {
    let s = seconds(vp::param(0)).wrapping_add(EPOCH);
    let f = vp::u64();
    let v = PropertyValue::from(LVTime::from_parts(s, f));
    vp::check(v.datatype() == DataType::Timestamp, 1);
    let r: Result<DateTime<Utc>, TdmsError> = (&v).try_into();
    let o: Result<DateTime<Utc>, TdmsError> = v.clone().try_into();
    // the second it lies in
    let base = s.checked_sub(EPOCH).and_then(|s| DateTime::<Utc>::from_timestamp(s, 0));
    match (r, o, base) {
        (Ok(r), Ok(o), Some(base)) => {
            vp::check(same(&r, &o), 2);
            vp::check(r.date_naive() == base.date_naive(), 3);
            let (t, b) = (r.time(), base.time());
            use chrono::Timelike;
            vp::check(t.num_seconds_from_midnight() == b.num_seconds_from_midnight(), 4);
            // within a nanosecond
            let n = t.nanosecond() as u128;
            let d = (n << 64).abs_diff(f as u128 * NANO);
            vp::check(d < 1 << 64, 5);
            vp::cover(1);
        }
        (Err(r), Err(o), None) => {
            for e in [r, o] {
                vp::check(matches!(e, TdmsError::ChronoDateTimeConversionFailed(_)), 6);
            }
            vp::cover(2);
        }
        (_, _, None) => vp::fail(7),
        _ => vp::fail(8),
    }
}

/// params: day (see `seconds`)
pub fn h_p25_from_calendar() {
    let s = seconds(vp::param(0));
    let n = vp::below(NANO as u64) as u32;
    let Some(t) = DateTime::<Utc>::from_timestamp(s, n) else { return vp::cover(3) };
    let v: PropertyValue = t.into();
    vp::check(v.datatype() == DataType::Timestamp, 11);
    let l: LVTime = vp::ok((&v).try_into(), 12);
    let (a, b) = l.to_parts();
    vp::check(a == s + EPOCH, 13);
    // as exact as the format can hold it
    let d = ((n as u128) << 64).abs_diff(b as u128 * NANO);
    vp::check(d < NANO, 14);
    vp::cover(4);
}

/// There and back. params: day, 0 any second of it with some nanoseconds, 1 some seconds with any nanoseconds
pub fn h_p25_round() {
    let (s, n) = if vp::param(1) == 0 {
        (seconds(vp::param(0)), [0, 1, 499_999_999, 500_000_000, 999_999_999][vp::pick(5) as usize])
    } else {
        (DAYS[vp::param(0) as usize] * 86400 + [0, 59, 86399][vp::pick(3) as usize], vp::below(NANO as u64) as u32)
    };
    let Some(t) = DateTime::<Utc>::from_timestamp(s, n) else { return vp::cover(3) };
    let v: PropertyValue = t.into();
    let back: DateTime<Utc> = vp::ok(v.try_into(), 15);
    vp::check(same(&back, &t), 16);
    vp::cover(5);
}

/// What is not a timestamp is refused.
pub fn h_p25_other() {
    let k = vp::pick(16) as usize;
    if k == 11 {
        return;
    }
    let v = if k == 15 { crate::model::sym_prop(17) } else { crate::model::sym_prop(k) }.to_lib();
    let r: Result<DateTime<Utc>, TdmsError> = (&v).try_into();
    let o: Result<DateTime<Utc>, TdmsError> = v.clone().try_into();
    for e in [r, o] {
        match e {
            Err(TdmsError::DataTypeMismatch(have, want)) => {
                vp::check(have == v.datatype() && want == DataType::Timestamp, 22);
                vp::cover(6);
            }
            _ => vp::fail(23),
        }
    }
}
