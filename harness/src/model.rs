//! What a file is expected to contain after a sequence of writes, kept apart from the library.
#![allow(dead_code)]
use crate::ty::*;
use crate::util::*;
use crate::vp;
use crate::with_ty;
use std::io::{Read, Seek, Write};
use tedium::{ChannelPath, PropertyPath, PropertyValue, TdmsFile};

/// Objects: 0-3 channels of group "g" (see `chan`), 4 group g, 5 the file, 6 group h, 7 channel h/a
pub const NOBJ: usize = 8;
pub fn obj(i: usize) -> PropertyPath {
    match i {
        0..=3 => PropertyPath::channel("g", ["a", "b", "c", "d"][i]),
        4 => PropertyPath::group("g"),
        5 => PropertyPath::file(),
        6 => PropertyPath::group("h"),
        _ => PropertyPath::channel("h", "a"),
    }
}
pub fn obj_path(i: usize) -> &'static str {
    ["/'g'/'a'", "/'g'/'b'", "/'g'/'c'", "/'g'/'d'", "/'g'", "/", "/'h'", "/'h'/'a'"][i]
}

#[derive(Clone, PartialEq)]
pub enum PVal {
    Num(usize, u128),
    Str(Vec<u8>),
    Void,
}
impl PVal {
    pub fn to_lib(&self) -> PropertyValue {
        match self {
            PVal::Num(ix, b) => with_ty!(*ix, T => vp::some(<T as Ty>::from_bits(*b).prop(), 9000)),
            PVal::Str(s) => PropertyValue::String(unsafe { String::from_utf8_unchecked(s.clone()) }),
            PVal::Void => PropertyValue::Void,
        }
    }
    pub fn from_lib(v: &PropertyValue) -> PVal {
        match v {
            PropertyValue::Void => PVal::Void,
            PropertyValue::Boolean(x) => PVal::Num(BOOL, x.bits()),
            PropertyValue::I8(x) => PVal::Num(I8, x.bits()),
            PropertyValue::I16(x) => PVal::Num(I16, x.bits()),
            PropertyValue::I32(x) => PVal::Num(I32, x.bits()),
            PropertyValue::I64(x) => PVal::Num(I64, x.bits()),
            PropertyValue::U8(x) => PVal::Num(U8, x.bits()),
            PropertyValue::U16(x) => PVal::Num(U16, x.bits()),
            PropertyValue::U32(x) => PVal::Num(U32, x.bits()),
            PropertyValue::U64(x) => PVal::Num(U64, x.bits()),
            PropertyValue::SingleFloat(x) => PVal::Num(F32, Ty::bits(x)),
            PropertyValue::DoubleFloat(x) => PVal::Num(F64, Ty::bits(x)),
            PropertyValue::Extended(x) => PVal::Num(EXT, x.bits()),
            PropertyValue::String(s) => PVal::Str(s.as_bytes().to_vec()),
            PropertyValue::ComplexSingleFloat(x) => PVal::Num(C32, x.bits()),
            PropertyValue::ComplexDoubleFloat(x) => PVal::Num(C64, x.bits()),
            PropertyValue::Timestamp(x) => PVal::Num(TIME, x.bits()),
        }
    }
    pub fn same(&self, o: &PVal) -> bool {
        match (self, o) {
            (PVal::Num(a, b), PVal::Num(c, d)) => *a == *c && *b == *d,
            (PVal::Str(a), PVal::Str(b)) => {
                if a.len() != b.len() {
                    return false;
                }
                let mut e = true;
                for i in 0..a.len() {
                    e &= a[i] == b[i];
                }
                e
            }
            (PVal::Void, PVal::Void) => true,
            _ => false,
        }
    }
}

#[derive(Clone, Default)]
pub struct Model {
    /// samples of the channels in write order: (type, bits)
    pub ch: [Vec<(usize, u128)>; 4],
    /// channel exists because data was written to it
    pub data: [bool; 4],
    /// (object, name, value), one entry per name
    pub props: Vec<(usize, &'static str, PVal)>,
    /// group g is an object of its own
    pub group_listed: bool,
}

impl Model {
    pub fn add_data(&mut self, chans: &[usize], ix: usize, bits: &[u128], inter: bool) {
        let nch = chans.len();
        let n = bits.len() / nch;
        for (k, c) in chans.iter().enumerate() {
            self.data[*c] = true;
            for s in 0..n {
                self.ch[*c].push((ix, if inter { bits[s * nch + k] } else { bits[k * n + s] }));
            }
        }
    }
    pub fn set_prop(&mut self, o: usize, name: &'static str, v: PVal) {
        for p in self.props.iter_mut() {
            if p.0 == o && p.1 == name {
                p.2 = v;
                return;
            }
        }
        self.props.push((o, name, v));
    }
    pub fn exists(&self, o: usize) -> bool {
        (o < 4 && self.data[o]) || (o == 4 && self.group_listed) || self.props.iter().any(|p| p.0 == o)
    }

    /// The channel holds exactly the model's samples. `deep`: also every suffix boundary.
    pub fn check_channel<F: Read + Seek>(&self, f: &mut TdmsFile<F>, c: usize, code: u64) {
        let path = chan(c);
        if !self.exists(c) {
            vp::check(f.channel_length(&path).is_none(), code);
            let r = f.read_channel(&path, &mut [0u8; 1]);
            vp::check(r.is_err(), code + 1);
            return;
        }
        let want = &self.ch[c];
        vp::check(f.channel_length(&path) == Some(want.len() as u64), code + 2);
        // runs of one type
        let mut i = 0;
        let mut run = 0;
        while i < want.len() {
            let ix = want[i].0;
            let mut j = i;
            while j < want.len() && want[j].0 == ix {
                j += 1;
            }
            let last = j == want.len();
            let fill = with_ty!(ix, T => <T as Ty>::from_bits(0x5aa5_5aa5_5aa5_5aa5_a5a5).bits());
            // in the last run ask for one more than there is
            let n = j - i + last as usize;
            let got = vp::ok(read(f, &path, ix, i as u64, n, fill), code + 3);
            for k in i..j {
                vp::check(got[k - i] == want[k].1, code + 4);
            }
            if last {
                vp::check(got[j - i] == fill, code + 5);
            } else {
                // going on into the other type is refused
                let r = read(f, &path, ix, i as u64, n + 1, fill);
                vp::check(r.is_err(), code + 6);
            }
            i = j;
            run += 1;
        }
        if run == 0 {
            let got = vp::ok(read(f, &path, U8, 0, 1, 7), code + 7);
            vp::check(got[0] == 7, code + 7);
        }
    }

    pub fn check_props<F: Read + Seek>(&self, f: &TdmsFile<F>, code: u64) {
        for o in 0..NOBJ {
            let path = obj(o);
            let n = self.props.iter().filter(|p| p.0 == o).count();
            match f.read_all_properties(&path) {
                None => vp::check(!self.exists(o), code),
                Some(it) => {
                    vp::check(self.exists(o), code + 1);
                    let mut seen = 0;
                    for (name, v) in it {
                        let m = self.props.iter().find(|p| p.0 == o && p.1 == name.as_str());
                        let m = vp::some(m, code + 2);
                        vp::check(PVal::from_lib(v).same(&m.2), code + 3);
                        seen += 1;
                    }
                    vp::check(seen == n, code + 4);
                }
            }
            for name in ["p", "q", "z"] {
                let m = self.props.iter().find(|p| p.0 == o && p.1 == name);
                match f.read_property(&path, name) {
                    Err(_) => vp::check(!self.exists(o), code + 5),
                    Ok(None) => vp::check(self.exists(o) && m.is_none(), code + 6),
                    Ok(Some(v)) => vp::check(PVal::from_lib(v).same(&vp::some(m, code + 7).2), code + 8),
                }
            }
        }
    }

    pub fn check_listing<F: Read + Seek>(&self, f: &TdmsFile<F>, code: u64) {
        let g = (0..5).any(|o| self.exists(o));
        let h = (6..8).any(|o| self.exists(o));
        let groups: Vec<&str> = f.list_groups().collect();
        vp::check(groups.len() == g as usize + h as usize, code);
        vp::check(groups.contains(&"g") == g, code + 1);
        vp::check(groups.contains(&"h") == h, code + 2);
        let chans: Vec<ChannelPath> = f.list_channels_in_group(&PropertyPath::group("g")).collect();
        let want: Vec<usize> = (0..4).filter(|o| self.exists(*o)).collect();
        vp::check(chans.len() == want.len(), code + 3);
        for c in want {
            vp::check(chans.iter().filter(|x| x.path() == obj_path(c)).count() == 1, code + 4);
        }
        let chans: Vec<ChannelPath> = f.list_channels_in_group(&PropertyPath::group("h")).collect();
        vp::check(chans.len() == self.exists(7) as usize, code + 5);
    }

    pub fn check_all<F: Read + Seek>(&self, f: &mut TdmsFile<F>, code: u64) {
        for c in 0..4 {
            self.check_channel(f, c, code + 10 * c as u64);
        }
        self.check_props(f, code + 50);
        self.check_listing(f, code + 70);
    }
}

/// One data write: which channels in which order, samples per channel, layout.
pub const SETS: [&[usize]; 6] = [&[0], &[1], &[0, 1], &[1, 0], &[0, 1, 2], &[2, 0]];

pub fn data_write<F: Read + Write + Seek>(
    f: &mut TdmsFile<F>,
    m: &mut Model,
    set: &[usize],
    n: usize,
    ix: usize,
    inter: bool,
    code: u64,
) {
    let bits: Vec<u128> = (0..set.len() * n).map(|_| sym_bits(ix)).collect();
    let chans: Vec<ChannelPath> = set.iter().map(|c| chan(*c)).collect();
    let refs: Vec<&ChannelPath> = chans.iter().collect();
    vp::ok(write(f, &refs, ix, &bits, layout(inter)), code);
    m.add_data(set, ix, &bits, inter);
}

pub fn prop_write<F: Read + Write + Seek>(f: &mut TdmsFile<F>, m: &mut Model, o: usize, name: &'static str, v: PVal, code: u64) {
    {
        let mut w = vp::ok(f.writer(), code);
        vp::ok(w.write_properties(&obj(o), &[(name, v.to_lib())]), code + 1);
    }
    m.set_prop(o, name, v);
}

/// Symbolic property value of kind `k`: 0-14 the numeric types, 15 void, 16.. a string of k-16 bytes.
pub fn sym_prop(k: usize) -> PVal {
    match k {
        0..=14 => PVal::Num(k, sym_bits(k)),
        15 => PVal::Void,
        _ => {
            let s: Vec<u8> = (0..k - 16).map(|_| vp::u8()).collect();
            vp::assume(std::str::from_utf8(&s).is_ok());
            PVal::Str(s)
        }
    }
}

/// One step of a history, chosen by picks. Returns what was done (see `K_*`).
///
/// `types`: value types a data write may use; `maxn`: most samples per channel; `sets`: how many
/// of `SETS` to use; `props`: whether property writes are among the steps.
pub struct Steps {
    pub types: &'static [usize],
    pub maxn: u64,
    pub sets: u64,
    pub props: u64,
}
pub fn step<F: Read + Write + Seek>(f: &mut TdmsFile<F>, m: &mut Model, s: &Steps, code: u64) {
    let k = vp::pick(s.sets + s.props) as usize;
    if (k as u64) < s.sets {
        let set = SETS[k];
        let n = 1 + vp::pick(s.maxn) as usize;
        let ix = s.types[vp::pick(s.types.len() as u64) as usize];
        // with one value the two layouts are the same bytes; the flag still differs
        let inter = vp::pick(2) == 1;
        data_write(f, m, set, n, ix, inter, code);
    } else {
        let o = [0, 4, 1, 5][k - s.sets as usize];
        let v = sym_prop(I32);
        prop_write(f, m, o, "p", v, code + 1);
    }
}
