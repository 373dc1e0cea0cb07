//! P24: files by path. The engine models the file system calls; natively the files are in the
//! working directory, which the check creates and removes.
use crate::model::*;
use crate::ty::*;
use crate::util::*;
use crate::vp;
use std::fs::File as Disk;
use std::io::{Cursor, Read, Seek, Write};
use std::path::Path;
use tedium::TdmsFile;

const NAME: &str = "vp-p24.tdms";

fn clean() {
    #[cfg(feature = "native")]
    let _ = std::fs::remove_file(NAME);
}
fn put_file(b: &[u8]) {
    let mut f = vp::ok(Disk::create(NAME), 900);
    vp::ok(f.write_all(b), 901);
}
fn get_file() -> Vec<u8> {
    let mut f = vp::ok(Disk::open(NAME), 902);
    let mut b = Vec::new();
    let mut part = [0u8; 64];
    loop {
        let n = vp::ok(f.read(&mut part), 903);
        if n == 0 {
            return b;
        }
        b.extend_from_slice(&part[..n]);
    }
}
fn same(a: &[u8], b: &[u8], code: u64) {
    vp::check(a.len() == b.len(), code);
    let mut e = true;
    for i in 0..a.len() {
        e &= a[i] == b[i];
    }
    vp::check(e, code + 1);
}

/// The same step on both.
fn both<A: Read + Write + Seek, B: Read + Write + Seek>(f: &mut TdmsFile<A>, g: &mut TdmsFile<B>, m: &mut Model, code: u64) {
    let k = vp::pick(3);
    if k == 2 {
        let v = sym_prop(I32);
        let p = [("p", v.to_lib())];
        vp::ok(vp::ok(f.writer(), code).write_properties(&obj(0), &p), code + 1);
        vp::ok(vp::ok(g.writer(), code).write_properties(&obj(0), &p), code + 1);
        m.set_prop(0, "p", v);
        return;
    }
    let set: &[usize] = [&[0][..], &[1, 0]][k as usize];
    let inter = vp::pick(2) == 1;
    let n = 1 + vp::pick(2) as usize;
    let bits: Vec<u128> = (0..set.len() * n).map(|_| sym_bits(U16)).collect();
    let chans: Vec<_> = set.iter().map(|c| chan(*c)).collect();
    let refs: Vec<_> = chans.iter().collect();
    vp::ok(write(f, &refs, U16, &bits, layout(inter)), code + 2);
    vp::ok(write(g, &refs, U16, &bits, layout(inter)), code + 3);
    m.add_data(set, U16, &bits, inter);
}

/// 0 nothing there, 1 an empty file, 2 a TDMS file, 3 that and the start of another segment,
/// 4 any bytes
fn before(kind: u64, m: &mut Model) -> Vec<u8> {
    let mut b = Vec::new();
    match kind {
        0 | 1 => {}
        2 | 3 => {
            {
                let mut f = open(&mut b, 910);
                data_write(&mut f, m, &[0, 1], 2, U16, true, 911);
                let v = sym_prop(I32);
                prop_write(&mut f, m, 0, "p", v, 912);
            }
            if kind == 3 {
                b.extend_from_slice(b"TDS");
            }
        }
        _ => {
            for _ in 0..5 {
                b.push(vp::u8());
            }
        }
    }
    if kind > 0 {
        put_file(&b);
    }
    b
}

/// params: steps after creating, steps after loading
pub fn h_p24_create() {
    clean();
    let mut old = Model::default();
    before(vp::pick(5), &mut old);
    let mut m = Model::default();
    let mut mem = Vec::new();
    {
        let mut f = vp::ok(TdmsFile::create(Path::new(NAME)), 1);
        let mut g = open(&mut mem, 2);
        m.check_all(&mut f, 100);
        for _ in 0..vp::param(0) {
            both(&mut f, &mut g, &mut m, 10);
        }
        m.check_all(&mut f, 200);
    }
    same(&get_file(), &mem, 20);
    {
        let mut f = vp::ok(TdmsFile::load(Path::new(NAME)), 3);
        let mut g = open(&mut mem, 4);
        m.check_all(&mut f, 300);
        for _ in 0..vp::param(1) {
            both(&mut f, &mut g, &mut m, 30);
        }
        m.check_all(&mut f, 400);
    }
    same(&get_file(), &mem, 40);
    vp::cover(1);
    clean();
}

/// params: steps after loading
pub fn h_p24_load() {
    clean();
    let mut m = Model::default();
    let kind = vp::pick(5);
    let mut mem = before(kind, &mut m);
    let r = TdmsFile::load(Path::new(NAME));
    if kind == 0 {
        vp::check(r.is_err(), 50);
        // and it is still not there
        vp::check(TdmsFile::load(Path::new(NAME)).is_err(), 51);
        vp::check(Disk::open(NAME).is_err(), 52);
        vp::cover(2);
        return;
    }
    let bytes = mem.clone();
    match r {
        Err(_) => {
            vp::check(TdmsFile::new(Cursor::new(&mut mem)).is_err(), 53);
            same(&get_file(), &bytes, 54);
            vp::cover(3);
        }
        Ok(mut f) => {
            {
                let mut g = vp::ok(TdmsFile::new(Cursor::new(&mut mem)), 56);
                m.check_all(&mut f, 500);
                same(&get_file(), &bytes, 57);
                for _ in 0..vp::param(0) {
                    both(&mut f, &mut g, &mut m, 60);
                }
                m.check_all(&mut f, 600);
            }
            drop(f);
            same(&get_file(), &mem, 70);
            let mut f = vp::ok(TdmsFile::load(Path::new(NAME)), 72);
            m.check_all(&mut f, 700);
            vp::cover(4);
        }
    }
    clean();
}
