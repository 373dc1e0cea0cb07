//! P01: what is written to channels is read back bit for bit.
use crate::ty::*;
use crate::util::*;
use crate::vp;

/// params: type, most channels, most samples
pub fn h_p01() {
    let ix = vp::param(0) as usize;
    let nch = 1 + vp::pick(vp::param(1)) as usize;
    let n = 1 + vp::pick(vp::param(2)) as usize;
    let inter = vp::pick(2) == 1;
    let chans: Vec<_> = (0..nch).map(chan).collect();
    let refs: Vec<_> = chans.iter().collect();
    let bits: Vec<u128> = (0..nch * n).map(|_| sym_bits(ix)).collect();
    let mut buf = Vec::new();
    let mut f = open(&mut buf, 1);
    vp::ok(write(&mut f, &refs, ix, &bits, layout(inter)), 2);
    for c in 0..nch {
        let want: Vec<u128> = (0..n).map(|s| if inter { bits[s * nch + c] } else { bits[c * n + s] }).collect();
        expect_channel(&mut f, &chans[c], ix, &want, 10 * (c as u64 + 1));
    }
    vp::obs(bits[bits.len() - 1] as u64);
    vp::cover(if inter { 1 } else { 2 });
    vp::cover(10 + nch as u32);
    vp::cover(20 + n as u32);
}
