//! P07: samples are fetched from the byte position the format assigns, up to 64 bits.
use crate::ty::*;
use crate::util::*;
use crate::vp;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::cell::Cell;
use std::rc::Rc;
use tedium::TdmsFile;

/// A file of any size: the headers are where they are, every other byte is part of the number of
/// its own position. Which part is fixed per run, all eight are run.
pub struct Pos {
    pub head: Vec<(u64, Vec<u8>)>,
    pub end: u64,
    pub pos: u64,
    pub shift: u32,
    pub step: usize,
    /// opening is over: only data is read
    pub data: Rc<Cell<bool>>,
}
impl Pos {
    pub fn byte(&self, p: u64) -> u8 {
        (p >> self.shift) as u8
    }
}
impl Read for Pos {
    fn read(&mut self, out: &mut [u8]) -> Result<usize> {
        let data = self.data.get();
        if !data && self.pos >= self.end {
            return Ok(0);
        }
        for (at, b) in &self.head {
            if !data && self.pos >= *at && self.pos - *at < b.len() as u64 {
                let k = vp::conc(self.pos - *at) as usize;
                let n = out.len().min(b.len() - k);
                out[..n].copy_from_slice(&b[k..k + n]);
                self.pos = self.pos.wrapping_add(n as u64);
                return Ok(n);
            }
        }
        let n = out.len().min(self.step);
        for i in 0..n {
            out[i] = self.byte(self.pos.wrapping_add(i as u64));
        }
        self.pos = self.pos.wrapping_add(n as u64);
        Ok(n)
    }
}
impl Seek for Pos {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => self.end.checked_add_signed(d),
        };
        match p {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::from(ErrorKind::InvalidInput)),
        }
    }
}

const COUNTS: [u64; 13] = [1, 2, 3, 1000, 65536, (1 << 31) - 1, (1 << 32) + 1, 1 << 40, (1 << 58) - 1, (1 << 60) - 1, 1 << 31, 1 << 32, 1 << 59];

/// Channel a behind b: any segment position, metadata length, data length and start sample.
/// params: interleaved, samples per chunk of a and of b (index into COUNTS), type of a, of b,
/// big-endian, values read, bits of the data length and start (0: all)
pub fn h_p07() {
    let inter = vp::param(0) == 1;
    let na = COUNTS[vp::param(1) as usize];
    let nb = COUNTS[vp::param(2) as usize];
    let ta = vp::param(3) as usize;
    let tb = vp::param(4) as usize;
    let be = vp::param(5) == 1;
    let count = vp::param(6) as usize;
    let wa = WIDTH[ta] as u64;
    let wb = WIDTH[tb] as u64;
    // an unrelated segment of any length first
    let x = vp::u64();
    let mut m0 = Enc::new(be);
    m0.u32(1);
    m0.object("/'g'", Ix::None, 0);
    vp::assume(x >= m0.b.len() as u64);
    let mut h0 = Vec::new();
    lead_in(&mut h0, META, be, x, x);
    h0.extend_from_slice(&m0.b);
    // the segment with the data
    let mut m1 = Enc::new(be);
    m1.u32(2);
    m1.object("/'g'/'b'", Ix::Full(CODE[tb], nb), 0);
    m1.object("/'g'/'a'", Ix::Full(CODE[ta], na), 0);
    let r = vp::u64();
    let l = vp::u64();
    vp::assume(r >= m1.b.len() as u64);
    let bits = vp::param(7);
    vp::assume(l > 0 && (bits == 0 || l < 1 << bits) && r.checked_add(l).is_some());
    let mut h1 = Vec::new();
    lead_in(&mut h1, META | NEWLIST | RAW | if inter { INTER } else { 0 }, be, r + l, r);
    h1.extend_from_slice(&m1.b);
    let s1 = x.checked_add(28);
    let d = s1.and_then(|s| s.checked_add(28)).and_then(|s| s.checked_add(r));
    let end = d.and_then(|d| d.checked_add(l));
    // a header that does not end before the last position cannot be there
    if let Some(s) = s1 {
        vp::assume(s.checked_add(h1.len() as u64).is_some());
    }
    let shift = 8 * vp::pick(8) as u32;
    let data = Rc::new(Cell::new(false));
    let src = Pos {
        data: data.clone(),
        head: vec![(0, h0), (s1.unwrap_or(0), h1)],
        end: end.unwrap_or(u64::MAX),
        pos: 0,
        shift,
        step: wa as usize,
    };
    let open = TdmsFile::new(src);
    let (Some(d), Some(_)) = (d, end) else {
        vp::check(open.is_err(), 1);
        vp::cover(1);
        return;
    };
    let mut f = vp::ok(open, 2);
    data.set(true);
    let chunk = (na as u128) * wa as u128 + (nb as u128) * wb as u128;
    vp::assume(chunk <= u64::MAX as u128);
    let chunk = chunk as u64;
    let chunks = l / chunk;
    let len = f.channel_length(&chan(0));
    vp::check(len == Some(chunks * na), 3);
    let total = chunks * na;
    let start = vp::u64();
    vp::assume(bits == 0 || start < 1 << bits);
    let got = vp::ok(read(&mut f, &chan(0), ta, start, count, 1), 4);
    for k in 0..count {
        let i = start.checked_add(k as u64);
        match i {
            Some(i) if i < total => {
                let p = if inter { d + i * (wa + wb) + wb } else { d + (i / na) * chunk + nb * wb + (i % na) * wa };
                let mut b = Vec::new();
                for j in 0..wa {
                    b.push((p + j).wrapping_shr(shift) as u8);
                }
                vp::check(got[k] == dec(&b, 0, ta, be), 5);
                vp::cover(2);
            }
            _ => {
                vp::check(got[k] == 1, 6);
                vp::cover(3);
            }
        }
    }
}

/// Channel a behind texts of any total size, which are behind b: where a is does not depend on
/// what the texts are, and texts are not read as what they are not.
/// params: samples of a and of b (index into COUNTS), type of a, of b, big-endian, values read,
/// bits of the data length, the total size and the start (0: all)
pub fn h_p07_text() {
    let na = COUNTS[vp::param(0) as usize];
    let nb = COUNTS[vp::param(1) as usize];
    let ta = vp::param(2) as usize;
    let tb = vp::param(3) as usize;
    let be = vp::param(4) == 1;
    let count = vp::param(5) as usize;
    let bits = vp::param(6);
    let any = || {
        let v = vp::u64();
        vp::assume(bits == 0 || v < 1 << bits);
        v
    };
    let (wa, wb) = (WIDTH[ta] as u64, WIDTH[tb] as u64);
    let total = any();
    let mut m = Enc::new(be);
    m.u32(3);
    m.object("/'g'/'b'", Ix::Full(CODE[tb], nb), 0);
    m.str(b"/'g'/'s'");
    m.u32(28);
    m.u32(0x20);
    m.u32(1);
    m.u64(vp::u64());
    m.u64(total);
    m.u32(0);
    m.object("/'g'/'a'", Ix::Full(CODE[ta], na), 0);
    let r = vp::u64();
    let l = any();
    vp::assume(r >= m.b.len() as u64 && l > 0);
    let end = r.checked_add(l).and_then(|x| x.checked_add(28));
    let chunk = (na as u128) * wa as u128 + (nb as u128) * wb as u128 + total as u128;
    // no more than one chunk, and none of it only if the data is too short
    vp::assume(end.is_some() && (l as u128) < 2 * chunk);
    let mut h = Vec::new();
    lead_in(&mut h, META | NEWLIST | RAW, be, r + l, r);
    h.extend_from_slice(&m.b);
    let shift = 8 * vp::pick(8) as u32;
    let data = Rc::new(Cell::new(false));
    let src = Pos { data: data.clone(), head: vec![(0, h)], end: end.unwrap(), pos: 0, shift, step: wa as usize };
    let open = TdmsFile::new(src);
    if chunk > u64::MAX as u128 {
        vp::check(open.is_err(), 10);
        vp::cover(1);
        return;
    }
    let mut f = vp::ok(open, 11);
    data.set(true);
    let have = if l as u128 >= chunk { na } else { 0 };
    vp::check(f.channel_length(&chan(0)) == Some(have), 12);
    let texts = tedium::ChannelPath::new("g", "s");
    let mut t = [String::new()];
    if f.channel_length(&texts) != Some(0) {
        vp::check(f.read_channel(&texts, &mut t).is_err(), 13);
        vp::cover(2);
    }
    let start = any();
    let got = vp::ok(read(&mut f, &chan(0), ta, start, count, 1), 14);
    for k in 0..count {
        match start.checked_add(k as u64) {
            Some(i) if i < have => {
                let p = 28 + r + nb * wb + total + i * wa;
                let mut b = Vec::new();
                for j in 0..wa {
                    b.push((p + j).wrapping_shr(shift) as u8);
                }
                vp::check(got[k] == dec(&b, 0, ta, be), 15);
                vp::cover(3);
            }
            _ => {
                vp::check(got[k] == 1, 16);
            }
        }
    }
}
