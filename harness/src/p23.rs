//! P23: failures of the stream are reported.
use crate::flaky::*;
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use tedium::TdmsFile;

fn file(buf: &mut Vec<u8>, be: bool) -> Model {
    let mut m = Model::default();
    let mut meta = Enc::new(be);
    meta.u32(2);
    meta.object("/'g'/'a'", Ix::Full(CODE[F64], 2), 1);
    meta.str(b"p");
    meta.u32(CODE_STRING);
    meta.str(b"text");
    meta.object("/'g'/'b'", Ix::Full(CODE[F64], 2), 0);
    m.set_prop(0, "p", PVal::Str(b"text".to_vec()));
    let inter = vp::pick(2) == 1;
    let i = if inter { INTER } else { 0 };
    for k in 0..2 {
        let v: Vec<u128> = (0..4).map(|_| sym_bits(F64)).collect();
        let mut d = Enc::new(be);
        for x in &v {
            d.val(F64, *x);
        }
        if k == 0 {
            segment(buf, META | NEWLIST | RAW | i, be, &meta.b, &d.b);
        } else {
            segment(buf, RAW | i, be, &[], &d.b);
        }
        m.add_data(&[0, 1], F64, &v, inter);
    }
    let mut meta = Enc::new(be);
    meta.u32(1);
    meta.object("/'g'", Ix::None, 1);
    meta.str(b"p");
    meta.u32(CODE[U8]);
    let v = sym_bits(U8);
    meta.val(U8, v);
    segment(buf, META, be, &meta.b, &[]);
    m.set_prop(4, "p", PVal::Num(U8, v));
    m
}

fn arm(p: &Plan, upto: u64, kind: u8) {
    p.fail.set(1 + vp::pick(upto));
    p.how.set(kind);
    p.sticky.set(vp::pick(2) == 1);
}
fn disarm(p: &Plan) -> bool {
    let hit = p.failed.get();
    p.fail.set(0);
    p.sticky.set(false);
    p.failed.set(false);
    hit
}

/// Any one operation (and then perhaps all) fails while opening. params: operations, big-endian
pub fn h_p23_open() {
    let mut buf = Vec::new();
    let m = file(&mut buf, vp::param(1) == 1);
    let p = Plan::default();
    let kind = some_kind();
    arm(&p, vp::param(0), kind);
    // transfers may be short as well
    p.cap.set([0, 5, 30][vp::pick(3) as usize]);
    let r = TdmsFile::new(Flaky::new(&mut buf, &p));
    let hit = disarm(&p);
    match r {
        Ok(mut f) => {
            vp::check(!hit, 1);
            m.check_all(&mut f, 100);
            vp::cover(1);
        }
        Err(_) => {
            vp::check(hit, 2);
            vp::cover(2);
            std::mem::forget(r);
            let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut buf, &p)), 3);
            m.check_all(&mut f, 100);
        }
    }
}

/// ... while reading. params: operations, big-endian
pub fn h_p23_read() {
    let mut buf = Vec::new();
    let m = file(&mut buf, vp::param(1) == 1);
    let p = Plan::default();
    let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut buf, &p)), 10);
    let start = vp::pick(5);
    let n = 1 + vp::pick(4) as usize;
    let kind = some_kind();
    arm(&p, vp::param(0), kind);
    p.cap.set([0, 5][vp::pick(2) as usize]);
    let both = vp::pick(2) == 1;
    let c = vp::pick(2) as usize;
    let fill = 7;
    let mut a = vec![<f64 as Ty>::from_bits(fill); n];
    let mut b = a.clone();
    let mut hit = false;
    for attempt in 0..2 {
        let r = if both {
            f.read_channels_from(&[chan(c), chan(1 - c)], start, &mut [&mut a[..], &mut b[..]])
        } else {
            f.read_channel_from(&chan(c), start, &mut a)
        };
        let h = disarm(&p);
        hit |= h;
        vp::check(attempt == 0 || !h, 11);
        vp::check(r.is_err() == h, 12);
        let fine = r.is_ok();
        std::mem::forget(r);
        if fine {
            for i in 0..n {
                let at = start as usize + i;
                vp::check(Ty::bits(&a[i]) == m.ch[c].get(at).map(|x| x.1).unwrap_or(fill), 13);
                if both {
                    vp::check(Ty::bits(&b[i]) == m.ch[1 - c].get(at).map(|x| x.1).unwrap_or(fill), 14);
                }
            }
            if attempt == 0 {
                vp::cover(3);
                break;
            }
        } else {
            vp::cover(4);
        }
    }
    if hit {
        p.cap.set(0);
        m.check_all(&mut f, 200);
    }
}

/// What the harness writes: twice data, once a property, with a sync behind some of them.
/// Returns whether every call succeeded.
fn writes(f: &mut TdmsFile<Flaky>, m: &mut Model, vals: &[u128], big: usize, syncs: u64) -> bool {
    let n = vals.len() / 2;
    let mut all = true;
    let Ok(mut w) = f.writer() else {
        return false;
    };
    for k in 0..2 {
        let part = &vals[k * n..(k + 1) * n];
        let mut v: Vec<u32> = part.iter().map(|b| <u32 as Ty>::from_bits(*b)).collect();
        for i in 0..big {
            v.push(i as u32);
        }
        all &= w.write_channels(&[chan(0)], &v, layout(false)).is_ok();
        m.add_data(&[0], U32, part, false);
        if syncs & 1 << k != 0 {
            all &= w.sync().is_ok();
        }
        if k == 0 {
            all &= w.write_properties(&obj(4), &[("p", PVal::Str(b"text".to_vec()).to_lib())]).is_ok();
            m.set_prop(4, "p", PVal::Str(b"text".to_vec()));
        }
    }
    // the last sync is always there
    all & w.sync().is_ok()
}

/// ... while writing. params: operations, values beyond what the buffer holds
pub fn h_p23_write() {
    let big = vp::param(1) as usize;
    let vals: Vec<u128> = (0..2).map(|_| sym_bits(U32)).collect();
    let syncs = vp::pick(4);
    let mut whole = Vec::new();
    let mut m = Model::default();
    {
        let none = Plan::default();
        let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut whole, &none)), 20);
        vp::check(writes(&mut f, &mut m, &vals, big, syncs), 21);
    }
    let mut buf = Vec::new();
    let p = Plan::default();
    let all;
    {
        let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut buf, &p)), 22);
        let kind = any_kind();
        arm(&p, vp::param(0), kind);
        if vp::pick(2) == 1 {
            // the stream takes nothing
            p.nothing.set(true);
        }
        let mut m = Model::default();
        all = writes(&mut f, &mut m, &vals, big, syncs);
    }
    let hit = disarm(&p);
    vp::check(all != hit || (all && !hit), 23);
    if all {
        vp::check(!hit, 24);
        vp::check(buf.len() == whole.len(), 25);
        let mut same = true;
        for i in 0..whole.len() {
            same &= buf[i] == whole[i];
        }
        vp::check(same, 26);
        vp::cover(5);
    } else {
        vp::check(hit, 27);
        vp::cover(6);
    }
}
