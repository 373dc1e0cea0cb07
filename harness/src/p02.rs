//! P02: reopening the bytes shows exactly what the writing handle shows.
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;

/// params: steps, number of value types, most samples, number of channel sets, property writes
pub fn h_p02() {
    let k = vp::param(0);
    let types: &[&'static [usize]] = &[&[U16], &[U16, I32], &[U8, F64, U16]];
    let s = Steps { types: types[vp::param(1) as usize - 1], maxn: vp::param(2), sets: vp::param(3), props: vp::param(4) };
    let mut buf = Vec::new();
    let mut m = Model::default();
    {
        let mut f = open(&mut buf, 1);
        for _ in 0..k {
            step(&mut f, &mut m, &s, 2);
        }
        m.check_all(&mut f, 100);
    }
    let mut f = open(&mut buf, 5);
    m.check_all(&mut f, 200);
    for c in 0..4 {
        if m.ch[c].len() > 0 {
            vp::cover(1 + c as u32);
            vp::obs(m.ch[c].iter().fold(0, |a, x| a ^ x.1 as u64));
        }
    }
    if m.props.len() > 0 {
        vp::cover(10);
    }
    if m.props.len() > 0 && m.ch[0].len() > 2 {
        vp::cover(11);
    }
}

/// one write of every value type and one property of every kind, reopened.
/// params: type, property kind
pub fn h_p02_types() {
    let ix = vp::param(0) as usize;
    let mut buf = Vec::new();
    let mut m = Model::default();
    {
        let mut f = open(&mut buf, 1);
        let pk = vp::pick(20) as usize;
        data_write(&mut f, &mut m, SETS[2], 1 + vp::pick(2) as usize, ix, vp::pick(2) == 1, 2);
        prop_write(&mut f, &mut m, 0, "p", sym_prop(pk), 3);
        data_write(&mut f, &mut m, SETS[3], 1, ix, false, 2);
        m.check_all(&mut f, 100);
    }
    let mut f = open(&mut buf, 5);
    m.check_all(&mut f, 200);
    vp::cover(1);
}
