//! P19: refused requests change nothing.
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsFile};

type F<'a> = TdmsFile<Mem<'a>>;

/// A write or query that has to fail. Returns how many there are with `k` too large.
fn refuse(f: &mut F, k: u64, m: &Model) {
    let none: [ChannelPath; 0] = [];
    let ab = [chan(0), chan(1)];
    let lay = if vp::pick(2) == 1 { DataLayout::Interleaved } else { DataLayout::Contigious };
    match k {
        0 => vp::check(vp::ok(f.writer(), 1).write_channels(&none, &[1u16, 2], lay).is_err(), 2),
        1 => vp::check(vp::ok(f.writer(), 1).write_channels(&none, &[0u16; 0], lay).is_err(), 3),
        2 => vp::check(vp::ok(f.writer(), 1).write_channels(&ab, &[1u16, 2, 3], lay).is_err(), 4),
        3 => vp::check(vp::ok(f.writer(), 1).write_channels(&ab, &[0u32; 0], lay).is_err(), 5),
        4 => vp::check(vp::ok(f.writer(), 1).write_channels(&ab[..1], &[String::new()], lay).is_err(), 6),
        5 => vp::check(vp::ok(f.writer(), 1).write_channels(&[chan(3), chan(0), chan(1)], &[1u64, 2, 3, 4], lay).is_err(), 7),
        6 => {
            // a channel that is not there, alone and with another
            let mut o = [9u16; 2];
            vp::check(f.read_channel(&chan(3), &mut o).is_err(), 8);
            let mut p = [9u16; 2];
            let r = f.read_channels(&[chan(0), chan(3)], &mut [&mut o[..], &mut p[..]]);
            vp::check(r.is_err(), 9);
            vp::check(o == [9; 2] && p == [9; 2], 10);
        }
        7 => {
            // the wrong type; a channel without samples has none
            let mut o = [9i64; 2];
            let r = f.read_channel_from(&chan(0), vp::pick(2), &mut o);
            if m.exists(0) {
                vp::obs(r.is_err() as u64);
            } else {
                vp::check(r.is_err(), 11);
            }
            vp::check(o == [9; 2], 12);
        }
        8 => {
            let p = PropertyPath::group("missing");
            vp::check(f.read_property(&p, "p").is_err(), 13);
            vp::check(f.read_all_properties(&p).is_none(), 14);
            vp::check(f.channel_length(&ChannelPath::new("missing", "a")).is_none(), 15);
            vp::check(f.list_channels_in_group(&p).count() == 0, 16);
        }
        9 => {
            // a writer that is not used, or only synchronised
            let mut w = vp::ok(f.writer(), 17);
            if vp::pick(2) == 1 {
                vp::ok(w.sync(), 18);
            }
        }
        _ => {
            // refused in the middle of a writer's work, see `step_with`
        }
    }
}
const REFUSALS: u64 = 10;

/// The same step on both files; in the first one perhaps with refused requests of the same writer.
fn step_both(f: &mut F, g: &mut F, m: &mut Model, types: &[usize], refused: bool) {
    let k = vp::pick(5) as usize;
    if k == 4 {
        let v = sym_prop(I32);
        let p = [("p", v.to_lib())];
        if refused {
            let mut w = vp::ok(f.writer(), 20);
            vp::check(w.write_channels(&[chan(0), chan(1)], &[1u8], DataLayout::Interleaved).is_err(), 21);
            vp::ok(w.write_properties(&obj(0), &p), 22);
            vp::check(w.write_channels(&[chan(0)], &[1u8; 0], DataLayout::Interleaved).is_err(), 23);
        } else {
            vp::ok(vp::ok(f.writer(), 24).write_properties(&obj(0), &p), 25);
        }
        vp::ok(vp::ok(g.writer(), 26).write_properties(&obj(0), &p), 27);
        m.set_prop(0, "p", v);
        return;
    }
    let set: &[usize] = [&[0][..], &[0, 1], &[1, 0], &[0, 1, 2]][k];
    let ix = types[vp::pick(types.len() as u64) as usize];
    let inter = vp::pick(2) == 1;
    let n = 1 + vp::pick(2) as usize;
    let bits: Vec<u128> = (0..set.len() * n).map(|_| sym_bits(ix)).collect();
    let chans: Vec<ChannelPath> = set.iter().map(|c| chan(*c)).collect();
    let refs: Vec<&ChannelPath> = chans.iter().collect();
    if refused {
        crate::with_ty!(ix, T => {
            let v: Vec<T> = bits.iter().map(|b| <T as Ty>::from_bits(*b)).collect();
            let mut w = vp::ok(f.writer(), 28);
            vp::check(w.write_channels(&[chan(3), chan(2)], &v[..1], layout(inter)).is_err(), 29);
            vp::ok(w.write_channels(&chans, &v, layout(inter)), 30);
            vp::check(w.write_channels(&[chan(3)], &v[..0], layout(inter)).is_err(), 31);
        });
    } else {
        vp::ok(write(f, &refs, ix, &bits, layout(inter)), 32);
    }
    vp::ok(write(g, &refs, ix, &bits, layout(inter)), 33);
    m.add_data(set, ix, &bits, inter);
}

/// params: steps before, steps after
pub fn h_p19() {
    let types: &[usize] = &[U16, F64];
    let (mut one, mut two) = (Vec::new(), Vec::new());
    let mut m = Model::default();
    {
        let mut f = open(&mut one, 40);
        let mut g = open(&mut two, 41);
        for _ in 0..vp::param(0) {
            step_both(&mut f, &mut g, &mut m, types, false);
        }
        let k = vp::pick(REFUSALS);
        refuse(&mut f, k, &m);
        vp::cover(k as u32 + 1);
        m.check_all(&mut f, 100);
        for _ in 0..vp::param(1) {
            step_both(&mut f, &mut g, &mut m, types, false);
        }
        if vp::param(1) > 0 {
            m.check_all(&mut f, 200);
        }
    }
    same_files(&mut one, &two, &m);
}

/// Refused requests between those that succeed, by the same writer. params: steps
pub fn h_p19_writer() {
    let types: &[usize] = &[U16, F64];
    let (mut one, mut two) = (Vec::new(), Vec::new());
    let mut m = Model::default();
    {
        let mut f = open(&mut one, 40);
        let mut g = open(&mut two, 41);
        for _ in 0..vp::param(0) {
            step_both(&mut f, &mut g, &mut m, types, true);
        }
        m.check_all(&mut f, 300);
        vp::cover(1);
    }
    same_files(&mut one, &two, &m);
}

fn same_files(one: &mut Vec<u8>, two: &[u8], m: &Model) {
    vp::check(one.len() == two.len(), 50);
    let mut same = true;
    for i in 0..two.len() {
        same &= one[i] == two[i];
    }
    vp::check(same, 51);
    let mut f = open(one, 52);
    m.check_all(&mut f, 400);
    let _ = PropertyValue::Void;
}
