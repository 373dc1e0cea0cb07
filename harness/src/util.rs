//! Shared by the harnesses: files in memory, writing and reading by type index.
#![allow(dead_code)]
use crate::ty::*;
use crate::vp;
use crate::with_ty;
use std::io::Cursor;
use tedium::{ChannelPath, DataLayout, PropertyPath, TdmsError, TdmsFile};

/// A file in memory. The buffer outlives the handle so it can be reopened.
pub type Mem<'a> = Cursor<&'a mut Vec<u8>>;
pub type File<'a> = TdmsFile<Mem<'a>>;

pub fn open(buf: &mut Vec<u8>, code: u64) -> File<'_> {
    vp::ok(TdmsFile::new(Cursor::new(buf)), code)
}
pub fn layout(interleaved: bool) -> DataLayout {
    if interleaved { DataLayout::Interleaved } else { DataLayout::Contigious }
}

/// `write_channels` with values of the type `ix`.
pub fn write<F: std::io::Read + std::io::Write + std::io::Seek>(
    f: &mut TdmsFile<F>,
    chans: &[&ChannelPath],
    ix: usize,
    bits: &[u128],
    lay: DataLayout,
) -> Result<(), TdmsError> {
    with_ty!(ix, T => {
        let v: Vec<T> = bits.iter().map(|b| <T as Ty>::from_bits(*b)).collect();
        let mut w = f.writer()?;
        w.write_channels(chans, &v, lay)
    })
}

/// Reads `n` samples from `start`; outputs the library leaves alone come back as `fill`.
pub fn read<F: std::io::Read + std::io::Seek>(
    f: &mut TdmsFile<F>,
    ch: &ChannelPath,
    ix: usize,
    start: u64,
    n: usize,
    fill: u128,
) -> Result<Vec<u128>, TdmsError> {
    with_ty!(ix, T => {
        let mut v: Vec<T> = (0..n).map(|_| <T as Ty>::from_bits(fill)).collect();
        f.read_channel_from(ch, start, &mut v)?;
        Ok(v.iter().map(|x| x.bits()).collect())
    })
}

/// Everything in the channel.
pub fn expect_channel<F: std::io::Read + std::io::Seek>(
    f: &mut TdmsFile<F>,
    ch: &ChannelPath,
    ix: usize,
    want: &[u128],
    code: u64,
) {
    vp::check(f.channel_length(ch) == Some(want.len() as u64), code);
    // one element more than there are samples: it must not be touched
    let fill = with_ty!(ix, T => <T as Ty>::from_bits(0x5aa5_5aa5_5aa5_5aa5_a5a5).bits());
    let got = vp::ok(read(f, ch, ix, 0, want.len() + 1, fill), code + 1);
    for i in 0..want.len() {
        vp::check(got[i] == want[i], code + 2);
    }
    vp::check(got[want.len()] == fill, code + 3);
}

pub fn chan(i: usize) -> ChannelPath {
    ChannelPath::new("g", ["a", "b", "c", "d"][i])
}
pub fn file_prop() -> PropertyPath {
    PropertyPath::file()
}
