//! P22: short or interrupted transfers change nothing.
use crate::flaky::*;
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use tedium::TdmsFile;

fn plan(mode: u64) -> Plan {
    let p = Plan::default();
    match mode {
        // the solver splits or interrupts this many of them
        1..=9 => p.splits.set(mode),
        // all are cut to so many bytes
        10 => {
            p.cap.set(1 + vp::pick(9) as usize);
            p.interrupt.set(vp::pick(2) == 1);
        }
        // large pieces
        _ => {
            p.cap.set([1000, 4096, 8191, 8193][vp::pick(4) as usize]);
            p.interrupt.set(vp::pick(2) == 1);
        }
    }
    p
}

/// A file of two segments: a text property and an extended float, then both layouts.
fn file(buf: &mut Vec<u8>, be: bool) -> Model {
    let mut m = Model::default();
    let mut meta = Enc::new(be);
    meta.u32(2);
    meta.object("/'g'/'a'", Ix::Full(CODE[EXT], 2), 1);
    meta.str(b"p");
    meta.u32(CODE_STRING);
    meta.str(b"text");
    meta.object("/'g'/'b'", Ix::Full(CODE[U16], 2), 0);
    m.set_prop(0, "p", PVal::Str(b"text".to_vec()));
    let a = [sym_bits(EXT), sym_bits(EXT)];
    let b = [sym_bits(U16), sym_bits(U16)];
    let inter = vp::pick(2) == 1;
    let mut d = Enc::new(be);
    d.val(EXT, a[0]);
    if inter {
        d.val(U16, b[0]);
    }
    d.val(EXT, a[1]);
    if !inter {
        d.val(U16, b[0]);
    }
    d.val(U16, b[1]);
    segment(buf, META | NEWLIST | RAW | if inter { INTER } else { 0 }, be, &meta.b, &d.b);
    m.add_data(&[0], EXT, &a, false);
    m.add_data(&[1], U16, &b, false);
    // the same list again, without metadata, and a property
    let a = [sym_bits(EXT), sym_bits(EXT)];
    let b = [sym_bits(U16), sym_bits(U16)];
    let mut d = Enc::new(be);
    for (ix, v) in [(EXT, a[0]), (EXT, a[1]), (U16, b[0]), (U16, b[1])] {
        d.val(ix, v);
    }
    segment(buf, RAW, be, &[], &d.b);
    m.add_data(&[0], EXT, &a, false);
    m.add_data(&[1], U16, &b, false);
    m
}

/// params: mode of opening, mode of reading, big-endian
pub fn h_p22_read() {
    let mut buf = Vec::new();
    let m = file(&mut buf, vp::param(2) == 1);
    let (o, r) = (vp::param(0), vp::param(1));
    let p = if o > 0 { plan(o) } else { Plan::default() };
    let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut buf, &p)), 1);
    let q = if r > 0 { plan(r) } else { Plan::default() };
    p.splits.set(q.splits.get());
    p.cap.set(q.cap.get());
    p.interrupt.set(q.interrupt.get());
    if r > 0 && r < 10 {
        // one read, with any start
        let start = vp::pick(5);
        let n = 1 + vp::pick(4) as usize;
        let c = vp::pick(2) as usize;
        let ix = [EXT, U16][c];
        let got = vp::ok(read(&mut f, &chan(c), ix, start, n, 7), 2);
        for i in 0..n {
            let want = m.ch[c].get(start as usize + i).map(|x| x.1).unwrap_or(7);
            vp::check(got[i] == want, 3);
        }
        vp::cover(if p.split.get() { 1 } else { 2 });
    } else {
        m.check_all(&mut f, 100);
        vp::cover(if p.split.get() { 3 } else { 4 });
    }
}

fn history(f: &mut TdmsFile<Flaky>, m: &mut Model, vals: &[u128], lay: bool) {
    {
        let mut w = vp::ok(f.writer(), 20);
        let v: Vec<u16> = vals[..4].iter().map(|x| <u16 as Ty>::from_bits(*x)).collect();
        vp::ok(w.write_channels(&[chan(0), chan(1)], &v, layout(lay)), 21);
        vp::ok(w.write_properties(&obj(4), &[("p", PVal::Str(b"text".to_vec()).to_lib())]), 22);
        vp::ok(w.sync(), 23);
    }
    m.add_data(&[0, 1], U16, &vals[..4], lay);
    m.set_prop(4, "p", PVal::Str(b"text".to_vec()));
    {
        // without a sync: dropping the writer has to get everything out
        let mut w = vp::ok(f.writer(), 24);
        let v: Vec<u16> = vals[4..6].iter().map(|x| <u16 as Ty>::from_bits(*x)).collect();
        vp::ok(w.write_channels(&[chan(1)], &v, layout(lay)), 25);
    }
    m.add_data(&[1], U16, &vals[4..6], lay);
}

/// params: mode
pub fn h_p22_write() {
    let lay = vp::pick(2) == 1;
    let vals: Vec<u128> = (0..6).map(|_| sym_bits(U16)).collect();
    let mut whole = Vec::new();
    {
        let none = Plan::default();
        let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut whole, &none)), 10);
        history(&mut f, &mut Model::default(), &vals, lay);
    }
    let mut buf = Vec::new();
    let p = plan(vp::param(0));
    let mut m = Model::default();
    {
        let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut buf, &p)), 11);
        history(&mut f, &mut m, &vals, lay);
        p.splits.set(0);
        m.check_all(&mut f, 100);
    }
    vp::check(whole.len() == buf.len(), 12);
    for i in 0..whole.len() {
        vp::check(whole[i] == buf[i], 13);
    }
    vp::cover(if p.split.get() { 1 } else { 2 });
}

/// More than the buffers of the library hold. params: values
pub fn h_p22_big() {
    let n = vp::param(0) as usize;
    let v: Vec<u32> = (0..n as u32).map(|x| x.wrapping_mul(0x9e37_79b9)).collect();
    let at = vp::pick(n as u64 / 500) as usize * 500;
    let p = plan(99);
    let mut buf = Vec::new();
    {
        let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut buf, &p)), 30);
        {
            let mut w = vp::ok(f.writer(), 31);
            vp::ok(w.write_channels(&[chan(0)], &v, layout(false)), 32);
            vp::ok(w.write_channels(&[chan(0)], &v, layout(false)), 33);
            vp::ok(w.sync(), 34);
        }
        let mut out = vec![0u32; n];
        vp::ok(f.read_channel_from(&chan(0), at as u64, &mut out), 35);
        let mut same = true;
        for i in 0..n {
            same &= out[i] == v[(i + at) % n];
        }
        vp::check(same, 36);
    }
    let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut buf, &p)), 37);
    vp::check(f.channel_length(&chan(0)) == Some(2 * n as u64), 38);
    let mut out = vec![0u32; n];
    vp::ok(f.read_channel_from(&chan(0), n as u64, &mut out), 39);
    let mut same = true;
    for i in 0..n {
        same &= out[i] == v[i];
    }
    vp::check(same, 40);
    vp::cover(1);
}

/// Texts of more than the buffers of the library hold. params: bytes in the property, in its name,
/// in the name of the channel
pub fn h_p22_text() {
    let text = |n: u64| -> String {
        let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
        for at in [0, n / 2, n.saturating_sub(1)] {
            if at < n {
                let c = vp::u8();
                vp::assume(c < 0x80 && c != b'\'' && c != b'"');
                b[at as usize] = c;
            }
        }
        unsafe { String::from_utf8_unchecked(b) }
    };
    let (value, name, channel) = (text(vp::param(0)), text(vp::param(1)), text(vp::param(2)));
    let path = tedium::ChannelPath::new("g", &channel);
    let v = [vp::u16(), vp::u16()];
    let p = plan(99);
    let mut buf = Vec::new();
    let look = |f: &mut TdmsFile<Flaky>, code: u64| {
        let o: &tedium::PropertyPath = path.as_ref();
        match f.read_property(o, &name) {
            Ok(Some(tedium::PropertyValue::String(s))) => {
                vp::check(s.len() == value.len(), code);
                let mut same = true;
                for (x, y) in s.bytes().zip(value.bytes()) {
                    same &= x == y;
                }
                vp::check(same, code + 1);
            }
            _ => vp::fail(code + 2),
        }
        let mut out = [0u16; 2];
        vp::ok(f.read_channel(&path, &mut out), code + 3);
        vp::check(out == v, code + 4);
    };
    {
        let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut buf, &p)), 50);
        {
            let mut w = vp::ok(f.writer(), 51);
            let o: &tedium::PropertyPath = path.as_ref();
            vp::ok(w.write_properties(o, &[(name.as_str(), tedium::PropertyValue::String(value.clone()))]), 52);
            vp::ok(w.write_channels(&[&path], &v, layout(false)), 53);
            vp::ok(w.sync(), 54);
        }
        look(&mut f, 60);
    }
    let mut f = vp::ok(TdmsFile::new(Flaky::new(&mut buf, &p)), 55);
    look(&mut f, 70);
    vp::cover(1);
}
