//! P12: properties round-trip, the last write wins, and objects stay separate.
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use std::io::Cursor;
use tedium::{PropertyPath, PropertyValue, TdmsFile};

/// Any sequence of property and data writes. params: steps, objects, names (1-2), first kind,
/// second kind, data writes (0-2), 1: close and reopen in between as well
pub fn h_p12() {
    let nobj = vp::param(1);
    let nnames = vp::param(2);
    let kinds = [vp::param(3) as usize, vp::param(4) as usize];
    let mut buf = Vec::new();
    let mut m = Model::default();
    let steps = vp::param(0);
    let split = if vp::param(6) == 1 { vp::pick(steps) } else { 0 };
    let mut i = 0;
    for part in 0..2 {
        let mut f = open(&mut buf, 1);
        if part == 1 {
            m.check_all(&mut f, 300);
        }
        while i < if part == 0 { split } else { steps } {
            i += 1;
            let k = vp::pick(nobj * nnames * 2 + vp::param(5));
            if k < nobj * nnames * 2 {
                let o = [0, 4, 5, 1, 7, 6][(k / (nnames * 2)) as usize];
                let name = ["p", "q"][(k / 2 % nnames) as usize];
                prop_write(&mut f, &mut m, o, name, sym_prop(kinds[(k % 2) as usize]), 2);
            } else {
                let s = (k - nobj * nnames * 2) as usize;
                data_write(&mut f, &mut m, [&[0][..], &[1, 0]][s], 1, U16, false, 4);
            }
        }
        m.check_all(&mut f, 100);
        if part == 1 {
            vp::cover(1);
        }
    }
    let mut f = open(&mut buf, 5);
    m.check_all(&mut f, 200);
    if m.props.len() < steps as usize {
        vp::cover(2);
    }
}

fn kind(k: usize) -> PVal {
    // 0-14 numbers, 15 void, 16.. strings
    sym_prop(k)
}

/// Each kind written over each other kind. params: first kind
pub fn h_p12_kinds() {
    let k1 = vp::param(0) as usize;
    let k2 = vp::pick(19) as usize;
    let o = [0, 4, 5][vp::pick(3) as usize];
    let mut buf = Vec::new();
    let mut m = Model::default();
    {
        let mut f = open(&mut buf, 1);
        prop_write(&mut f, &mut m, o, "q", kind(k2), 2);
        prop_write(&mut f, &mut m, o, "p", kind(k1), 3);
        m.check_props(&f, 100);
        prop_write(&mut f, &mut m, o, "p", kind(k2), 4);
        prop_write(&mut f, &mut m, o, "q", kind(k1), 5);
        m.check_props(&f, 120);
    }
    let f = open(&mut buf, 6);
    m.check_props(&f, 140);
    vp::cover(1);
}

/// Several properties in one call, names repeated or not. params: most properties in a call, calls
pub fn h_p12_multi() {
    let mut buf = Vec::new();
    let mut m = Model::default();
    {
        let mut f = open(&mut buf, 1);
        for _ in 0..vp::param(1) {
            let n = vp::pick(vp::param(0) + 1) as usize;
            let o = [0, 4][vp::pick(2) as usize];
            let mut list: Vec<(&'static str, PVal)> = Vec::new();
            for _ in 0..n {
                let name = ["p", "q", "z"][vp::pick(3) as usize];
                list.push((name, kind([I16, F64, 18][vp::pick(3) as usize])));
            }
            let vals: Vec<(&str, PropertyValue)> = list.iter().map(|(n, v)| (*n, v.to_lib())).collect();
            {
                let mut w = vp::ok(f.writer(), 2);
                vp::ok(w.write_properties(&obj(o), &vals), 3);
            }
            // writing no properties still makes the object exist
            match o {
                4 => m.group_listed = true,
                _ => m.data[o] = true,
            }
            for (n, v) in list {
                m.set_prop(o, n, v);
            }
        }
        m.check_all(&mut f, 100);
    }
    let mut f = open(&mut buf, 4);
    m.check_all(&mut f, 200);
    vp::cover(1);
}

/// Any names. params: longest name, writes
pub fn h_p12_names() {
    let max = vp::param(0);
    let mut all: Vec<(usize, Vec<u8>, u32)> = Vec::new();
    let mut buf = Vec::new();
    let objs = [PropertyPath::group("g"), PropertyPath::channel("g", "a")];
    let same = |a: &[u8], b: &[u8]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y);
    {
        let mut f = vp::ok(TdmsFile::new(Cursor::new(&mut buf)), 1);
        for _ in 0..vp::param(1) {
            let o = vp::pick(2) as usize;
            let n = vp::pick(max + 1) as usize;
            let name: Vec<u8> = (0..n).map(|_| vp::u8()).collect();
            vp::assume(std::str::from_utf8(&name).is_ok());
            let v = vp::u32();
            {
                let s = unsafe { std::str::from_utf8_unchecked(&name) };
                let mut w = vp::ok(f.writer(), 2);
                vp::ok(w.write_properties(&objs[o], &[(s, PropertyValue::U32(v))]), 3);
            }
            match all.iter_mut().find(|x| x.0 == o && same(&x.1, &name)) {
                Some(x) => {
                    x.2 = v;
                    vp::cover(2);
                }
                None => all.push((o, name, v)),
            }
        }
    }
    let f = vp::ok(TdmsFile::new(Cursor::new(&mut buf)), 4);
    for o in 0..2 {
        let n = all.iter().filter(|x| x.0 == o).count();
        match f.read_all_properties(&objs[o]) {
            None => vp::check(n == 0, 5),
            Some(it) => {
                vp::check(it.count() == n, 6);
            }
        }
    }
    for (o, name, v) in &all {
        let s = unsafe { std::str::from_utf8_unchecked(name) };
        let got = vp::some(vp::ok(f.read_property(&objs[*o], s), 7), 8);
        vp::check(PVal::from_lib(got).same(&PVal::Num(U32, *v as u128)), 9);
        // the other object has it only if it was written there
        let other = all.iter().any(|x| x.0 != *o && same(&x.1, name));
        let there = matches!(f.read_property(&objs[1 - *o], s), Ok(Some(_)));
        vp::check(there == other, 10);
    }
    vp::cover(1);
}
