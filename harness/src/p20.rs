//! P20: object paths and names correspond.
use crate::vp;
use tedium::{ChannelPath, PropertyPath};

/// Any text of up to `max` bytes.
fn text(max: u64) -> String {
    let n = vp::pick(max + 1) as usize;
    exact(n)
}
fn exact(n: usize) -> String {
    let b: Vec<u8> = (0..n).map(|_| vp::u8()).collect();
    vp::assume(std::str::from_utf8(&b).is_ok());
    unsafe { String::from_utf8_unchecked(b) }
}
/// A name as it is in a path: quotes replaced.
fn esc(s: &str) -> Vec<u8> {
    s.bytes().map(|c| if c == b'\'' { b'"' } else { c }).collect()
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut e = true;
    for i in 0..a.len() {
        e &= a[i] == b[i];
    }
    e
}
fn join(names: &[&[u8]]) -> Vec<u8> {
    let mut p = Vec::new();
    for n in names {
        p.extend_from_slice(b"/'");
        p.extend_from_slice(n);
        p.push(b'\'');
    }
    p
}

/// The path of a group and of a channel in it. params: longest group name, longest channel name
pub fn h_p20() {
    let (g, c) = (text(vp::param(0)), text(vp::param(1)));
    let (eg, ec) = (esc(&g), esc(&c));

    let p = PropertyPath::group(&g);
    vp::check(same(p.path().as_bytes(), &join(&[&eg])), 1);
    vp::check(same(vp::some(p.group_name(), 2).as_bytes(), &eg), 3);
    vp::check(p.channel_name().is_none(), 4);
    vp::check(vp::ok(PropertyPath::try_from(p.path()), 5) == p, 6);
    vp::check(ChannelPath::try_from(p.path()).is_err(), 7);
    vp::check(ChannelPath::try_from(p.clone()).is_err(), 8);
    vp::check(p != PropertyPath::file(), 9);

    let q = PropertyPath::channel(&g, &c);
    vp::check(same(q.path().as_bytes(), &join(&[&eg, &ec])), 10);
    vp::check(same(vp::some(q.group_name(), 11).as_bytes(), &eg), 12);
    vp::check(same(vp::some(q.channel_name(), 13).as_bytes(), &ec), 14);
    vp::check(vp::ok(PropertyPath::try_from(q.path()), 15) == q, 16);
    vp::check(p != q, 17);

    let ch = ChannelPath::new(&g, &c);
    vp::check(same(ch.path().as_bytes(), q.path().as_bytes()), 20);
    vp::check(same(ch.group_name().as_bytes(), &eg), 21);
    vp::check(same(ch.channel_name().as_bytes(), &ec), 22);
    vp::check(vp::ok(ChannelPath::try_from(q.path()), 23) == ch, 24);
    vp::check(vp::ok(ChannelPath::try_from(q.clone()), 25) == ch, 26);
    let r: &PropertyPath = ch.as_ref();
    vp::check(*r == q, 27);
    vp::check(ch.to_string() == q.to_string(), 28);
    vp::check(same(ch.to_string().as_bytes(), q.path().as_bytes()), 29);
    vp::cover(1);

    let f = PropertyPath::file();
    vp::check(f.path() == "/" && f.group_name().is_none() && f.channel_name().is_none(), 30);
    vp::check(vp::ok(PropertyPath::try_from("/"), 31) == f, 32);
    vp::check(ChannelPath::try_from("/").is_err(), 33);
}

/// Two pairs of names: their paths are equal only if the escaped names are.
/// params: longest names of the first group, first channel, second group, second channel
pub fn h_p20_two() {
    let (g, c) = (text(vp::param(0)), text(vp::param(1)));
    let (h, d) = (text(vp::param(2)), text(vp::param(3)));
    let (eg, ec, eh, ed) = (esc(&g), esc(&c), esc(&h), esc(&d));
    let names = same(&eg, &eh) & same(&ec, &ed);
    let paths = same(ChannelPath::new(&g, &c).path().as_bytes(), ChannelPath::new(&h, &d).path().as_bytes());
    vp::check(names == paths, 40);
    let groups = same(PropertyPath::group(&g).path().as_bytes(), PropertyPath::group(&h).path().as_bytes());
    vp::check(groups == same(&eg, &eh), 41);
    // a channel is never a group
    vp::check(!same(PropertyPath::group(&g).path().as_bytes(), ChannelPath::new(&h, &d).path().as_bytes()), 42);
    vp::check((ChannelPath::new(&g, &c) == ChannelPath::new(&h, &d)) == names, 43);
    vp::cover(1);
}

/// Reads one quoted name from `at`: its end (the closing quote), quotes inside are doubled.
fn name_end(b: &[u8], at: usize) -> Option<usize> {
    if at + 2 > b.len() || b[at] != b'/' || b[at + 1] != b'\'' {
        return None;
    }
    let mut i = at + 2;
    while i < b.len() {
        if b[i] == b'\'' {
            if i + 1 < b.len() && b[i + 1] == b'\'' {
                i += 2;
                continue;
            }
            return Some(i);
        }
        i += 1;
    }
    None
}

/// Any text as a path: accepted exactly if it is well-formed, and with the names that are in it.
/// params: length, start: 0 anything, 1 "/'", 2 "/'x'/'"
pub fn h_p20_parse() {
    let start = ["", "/'", "/'x'/'"][vp::param(1) as usize];
    let s = format!("{}{}", start, exact(vp::param(0) as usize));
    let b = s.as_bytes();
    // 0: not a path, else the number of names + 1
    let mut kind = 0;
    let mut names: [(usize, usize); 2] = [(0, 0); 2];
    if b.len() == 1 && b[0] == b'/' {
        kind = 1;
    } else if let Some(e) = name_end(b, 0) {
        names[0] = (2, e);
        if e + 1 == b.len() {
            kind = 2;
        } else if let Some(e2) = name_end(b, e + 1) {
            names[1] = (e + 3, e2);
            if e2 + 1 == b.len() {
                kind = 3;
            }
        }
    }
    let p = PropertyPath::try_from(s.as_str());
    let c = ChannelPath::try_from(s.as_str());
    vp::check(p.is_ok() == (kind > 0), 50);
    vp::check(c.is_ok() == (kind == 3), 51);
    if let Ok(p) = p {
        vp::check(same(p.path().as_bytes(), b), 52);
        match p.group_name() {
            None => vp::check(kind == 1, 53),
            Some(g) => vp::check(kind >= 2 && same(g.as_bytes(), &b[names[0].0..names[0].1]), 54),
        }
        match p.channel_name() {
            None => vp::check(kind <= 2, 55),
            Some(n) => vp::check(kind == 3 && same(n.as_bytes(), &b[names[1].0..names[1].1]), 56),
        }
    }
    if let Ok(c) = c {
        vp::check(same(c.group_name().as_bytes(), &b[names[0].0..names[0].1]), 57);
        vp::check(same(c.channel_name().as_bytes(), &b[names[1].0..names[1].1]), 58);
        vp::check(same(c.path().as_bytes(), b), 59);
    }
    vp::cover(1 + kind as u32);
}

/// Names of many bytes, three of them any. params: bytes of the group's name, of the channel's
pub fn h_p20_large() {
    let long = |n: usize| {
        let mut b = vec![b'n'; n];
        for i in [0, n / 2, n - 1] {
            b[i] = vp::u8();
            vp::assume(b[i] < 0x80);
        }
        unsafe { String::from_utf8_unchecked(b) }
    };
    let (g, c) = (long(vp::param(0) as usize), long(vp::param(1) as usize));
    let (eg, ec) = (esc(&g), esc(&c));
    let ch = ChannelPath::new(&g, &c);
    vp::check(same(ch.path().as_bytes(), &join(&[&eg, &ec])), 1);
    vp::check(same(ch.group_name().as_bytes(), &eg), 2);
    vp::check(same(ch.channel_name().as_bytes(), &ec), 3);
    vp::check(vp::ok(ChannelPath::try_from(ch.path()), 4) == ch, 5);
    let p = PropertyPath::group(&g);
    vp::check(same(p.path().as_bytes(), &join(&[&eg])), 6);
    vp::check(same(vp::some(p.group_name(), 7).as_bytes(), &eg), 8);
    vp::cover(1);
}
