//! Reference interpreter of segment metadata, written from the format's description.
#![allow(dead_code)]
use crate::model::*;
use crate::ty::*;
use crate::vp;

#[derive(Clone, Copy)]
pub struct Layout {
    pub ix: usize,
    pub n: usize,
}

/// What the segments read so far mean.
#[derive(Default)]
pub struct Ref {
    /// objects owning the next raw data, in order
    pub active: Vec<usize>,
    pub layout: [Option<Layout>; NOBJ],
    pub m: Model,
}

/// How an entry describes its object's raw data.
#[derive(Clone, Copy, PartialEq)]
pub enum RIx {
    None,
    Same,
    Full(usize, usize),
}

impl Ref {
    pub fn new_list(&mut self) {
        self.active.clear();
    }
    /// False: the entry has no meaning.
    pub fn entry(&mut self, o: usize, ix: RIx) -> bool {
        match ix {
            RIx::None => {}
            RIx::Same => {
                if self.layout[o].is_none() {
                    return false;
                }
                if !self.active.contains(&o) {
                    self.active.push(o);
                }
            }
            RIx::Full(t, n) => {
                self.layout[o] = Some(Layout { ix: t, n });
                if !self.active.contains(&o) {
                    self.active.push(o);
                }
            }
        }
        if o < 4 {
            self.m.data[o] = true;
        } else if o == 4 {
            self.m.group_listed = true;
        }
        true
    }
    pub fn lay(&self, o: usize) -> Layout {
        vp::some(self.layout[o], 9100)
    }
    pub fn chunk_size(&self) -> usize {
        self.active.iter().map(|o| self.lay(*o).n * WIDTH[self.lay(*o).ix]).sum()
    }
    /// Hands the raw data of a segment out to the channels.
    pub fn raw(&mut self, data: &[u8], inter: bool, be: bool) {
        let size = self.chunk_size();
        if size == 0 {
            return;
        }
        let mut pos = 0;
        for _ in 0..data.len() / size {
            if inter {
                for _ in 0..self.lay(self.active[0]).n {
                    for k in 0..self.active.len() {
                        self.take(data, &mut pos, self.active[k], be);
                    }
                }
            } else {
                for k in 0..self.active.len() {
                    for _ in 0..self.lay(self.active[k]).n {
                        self.take(data, &mut pos, self.active[k], be);
                    }
                }
            }
        }
    }
    fn take(&mut self, data: &[u8], pos: &mut usize, o: usize, be: bool) {
        let t = self.lay(o).ix;
        let v = dec(data, *pos, t, be);
        *pos += WIDTH[t];
        self.m.ch[o].push((t, v));
    }
}
