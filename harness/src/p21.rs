//! P21: listings hold exactly what is there.
use crate::ty::*;
use crate::util::*;
use crate::vp;
use std::io::{Cursor, Read, Seek};
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsFile};

fn text(max: u64) -> String {
    let n = vp::pick(max + 1) as usize;
    let b: Vec<u8> = (0..n).map(|_| vp::u8()).collect();
    vp::assume(std::str::from_utf8(&b).is_ok());
    unsafe { String::from_utf8_unchecked(b) }
}
fn esc(s: &str) -> String {
    let b: Vec<u8> = s.bytes().map(|c| if c == b'\'' { b'"' } else { c }).collect();
    unsafe { String::from_utf8_unchecked(b) }
}

/// Groups and channels by the names that are in the paths, without duplicates.
#[derive(Default)]
struct Seen {
    groups: Vec<String>,
    /// group, channel, samples
    chans: Vec<(String, String, Vec<u16>)>,
}
impl Seen {
    fn group(&mut self, g: &str) {
        if !self.groups.iter().any(|x| x == g) {
            self.groups.push(g.to_string());
        }
    }
    fn chan(&mut self, g: &str, c: &str) -> &mut Vec<u16> {
        self.group(g);
        let i = match self.chans.iter().position(|x| x.0 == g && x.1 == c) {
            Some(i) => i,
            None => {
                self.chans.push((g.to_string(), c.to_string(), Vec::new()));
                self.chans.len() - 1
            }
        };
        &mut self.chans[i].2
    }
    fn check<F: Read + Seek>(&self, f: &mut TdmsFile<F>, code: u64) {
        let groups: Vec<String> = f.list_groups().map(|g| g.to_string()).collect();
        vp::check(groups.len() == self.groups.len(), code);
        for g in &self.groups {
            vp::check(groups.iter().filter(|x| *x == g).count() == 1, code + 1);
        }
        let mut total = 0;
        for g in &self.groups {
            let p = vp::ok(PropertyPath::try_from(format!("/'{g}'").as_str()), code + 2);
            let chans: Vec<ChannelPath> = f.list_channels_in_group(&p).collect();
            vp::check(chans.len() == self.chans.iter().filter(|x| x.0 == *g).count(), code + 3);
            for c in &chans {
                vp::check(c.group_name() == g, code + 4);
                let want = vp::some(self.chans.iter().find(|x| x.0 == *g && x.1 == c.channel_name()), code + 5);
                vp::check(f.channel_length(c) == Some(want.2.len() as u64), code + 6);
                vp::check(f.read_all_properties(c.as_ref()).is_some(), code + 7);
                let mut out = vec![0u16; want.2.len()];
                vp::ok(f.read_channel(c, &mut out), code + 8);
                let mut same = true;
                for i in 0..out.len() {
                    same &= out[i] == want.2[i];
                }
                vp::check(same, code + 9);
            }
            // each once
            for i in 0..chans.len() {
                vp::check(chans.iter().filter(|x| **x == chans[i]).count() == 1, code + 10);
            }
            total += chans.len();
        }
        vp::check(total == self.chans.len(), code + 11);
    }
}

/// Written by the library: any names. params: objects, longest group name, longest channel name,
/// writes of no properties as well (0/1)
pub fn h_p21() {
    let mut buf = Vec::new();
    let mut s = Seen::default();
    {
        let mut f = open(&mut buf, 1);
        for _ in 0..vp::param(0) {
            let g = text(vp::param(1));
            let props = [("p", PropertyValue::U8(1))];
            let props = &props[..if vp::param(3) == 1 { vp::pick(2) as usize } else { 1 }];
            match vp::pick(3) {
                0 => {
                    let p = PropertyPath::group(&g);
                    vp::ok(vp::ok(f.writer(), 2).write_properties(&p, props), 3);
                    s.group(&esc(&g));
                }
                1 => {
                    let c = text(vp::param(2));
                    let v = vp::u16();
                    let l = DataLayout::Contigious;
                    vp::ok(vp::ok(f.writer(), 4).write_channels(&[ChannelPath::new(&g, &c)], &[v], l), 5);
                    s.chan(&esc(&g), &esc(&c)).push(v);
                }
                _ => {
                    let c = text(vp::param(2));
                    let p = PropertyPath::channel(&g, &c);
                    vp::ok(vp::ok(f.writer(), 6).write_properties(&p, props), 7);
                    s.chan(&esc(&g), &esc(&c));
                }
            }
        }
        s.check(&mut f, 100);
    }
    let mut f = open(&mut buf, 8);
    s.check(&mut f, 200);
    vp::cover(s.groups.len() as u32);
}

/// Paths of other writers, with doubled quotes: group and channel
const NAMES: [(&str, Option<&str>); 12] = [
    ("g", Some("a")),
    ("g''x", Some("a")),
    ("g", None),
    ("g/", Some("a")),
    ("g2", Some("a")),
    ("", Some("a")),
    ("", None),
    ("g''", None),
    ("g", Some("a''b")),
    ("g", Some("")),
    ("g''/''a", Some("''")),
    ("g''/''a", None),
];

/// params: objects, big-endian, how many of NAMES
pub fn h_p21_foreign() {
    let n = vp::param(0);
    let be = vp::param(1) == 1;
    let mut s = Seen::default();
    let mut m = Enc::new(be);
    let mut d = Enc::new(be);
    m.u32(n as u32 + 1);
    m.object("/", Ix::None, 0);
    let mut used = Vec::new();
    let mut raw = false;
    for _ in 0..n {
        let k = vp::pick(vp::param(2)) as usize;
        // an object is listed once in a segment
        vp::assume(!used.contains(&k));
        used.push(k);
        let (g, c) = NAMES[k];
        match c {
            None => {
                m.object(&format!("/'{g}'"), Ix::None, 0);
                s.group(g);
            }
            Some(c) => {
                let v = vp::u16();
                m.object(&format!("/'{g}'/'{c}'"), Ix::Full(CODE[U16], 1), 0);
                d.val(U16, <u16 as Ty>::bits(&v));
                s.chan(g, c).push(v);
                raw = true;
            }
        }
    }
    let mut buf = Vec::new();
    segment(&mut buf, META | NEWLIST | if raw { RAW } else { 0 }, be, &m.b, &d.b);
    let mut f = vp::ok(TdmsFile::new(Cursor::new(&mut buf)), 10);
    s.check(&mut f, 300);
    vp::cover(s.groups.len() as u32);
}
