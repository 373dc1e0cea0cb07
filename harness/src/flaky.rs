//! Streams in memory that split, interrupt or fail transfers as the solver chooses.
#![allow(dead_code)]
use crate::vp;
use std::cell::Cell;
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// One of a few, for what looks at the kind in many places.
pub fn some_kind() -> u8 {
    [ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::InvalidData][vp::pick(5) as usize] as u8
}

/// Shared by the stream and the harness that armed it.
#[derive(Default)]
pub struct Plan {
    /// transfers that may still be split or interrupted where the solver wants
    pub splits: Cell<u64>,
    /// every transfer moves at most this many bytes (0: no limit) ...
    pub cap: Cell<usize>,
    /// ... and every second one is interrupted
    pub interrupt: Cell<bool>,
    /// the operation that fails: 0 none, n the n-th from now
    pub fail: Cell<u64>,
    /// the kind of error it fails with
    pub how: Cell<u8>,
    /// a write takes nothing instead
    pub nothing: Cell<bool>,
    /// all later operations fail as well
    pub sticky: Cell<bool>,
    pub failed: Cell<bool>,
    pub split: Cell<bool>,
    calls: Cell<u64>,
}
/// Any kind of error but an interruption, and but one that says something else than that the
/// operation failed: a position that is none, the end of the stream. One symbolic value.
pub fn any_kind() -> u8 {
    let k = vp::u8();
    vp::assume(k <= ErrorKind::Other as u8);
    for no in [ErrorKind::Interrupted, ErrorKind::InvalidInput, ErrorKind::UnexpectedEof] {
        vp::assume(k != no as u8);
    }
    k
}

impl Plan {
    /// The operation fails if it is the one to fail. `Ok(false)`: a write takes nothing.
    fn op(&self, write: bool) -> Result<bool> {
        let dead = self.sticky.get() && self.failed.get();
        if self.fail.get() == 0 && !dead {
            return Ok(true);
        }
        if !dead {
            self.fail.set(self.fail.get() - 1);
            if self.fail.get() > 0 {
                return Ok(true);
            }
        }
        self.failed.set(true);
        if write && self.nothing.get() {
            return Ok(false);
        }
        // a fieldless enum of one byte, whose range `any_kind` keeps to
        Err(Error::from(unsafe { std::mem::transmute::<u8, ErrorKind>(self.how.get()) }))
    }
    /// How many of `n` bytes move.
    fn amount(&self, n: usize) -> Result<usize> {
        if n == 0 {
            return Ok(0);
        }
        if self.splits.get() > 0 && vp::pick(2) == 1 {
            self.splits.set(self.splits.get() - 1);
            self.split.set(true);
            let k = vp::pick(n as u64) as usize;
            return if k == 0 { Err(ErrorKind::Interrupted.into()) } else { Ok(k) };
        }
        let c = self.calls.get();
        self.calls.set(c + 1);
        if self.interrupt.get() && c % 2 == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let cap = self.cap.get();
        Ok(if cap > 0 && n > cap { cap } else { n })
    }
}

pub struct Flaky<'a> {
    pub c: Cursor<&'a mut Vec<u8>>,
    pub plan: &'a Plan,
}
impl<'a> Flaky<'a> {
    pub fn new(buf: &'a mut Vec<u8>, plan: &'a Plan) -> Self {
        Flaky { c: Cursor::new(buf), plan }
    }
}
impl Read for Flaky<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.plan.op(false)?;
        let at = self.c.position().min(self.c.get_ref().len() as u64) as usize;
        let n = self.plan.amount(b.len().min(self.c.get_ref().len() - at))?;
        self.c.read(&mut b[..n])
    }
}
impl Write for Flaky<'_> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if !self.plan.op(true)? {
            return Ok(0);
        }
        let n = self.plan.amount(b.len())?;
        self.c.write(&b[..n])
    }
    fn flush(&mut self) -> Result<()> {
        self.plan.op(false)?;
        Ok(())
    }
}
impl Seek for Flaky<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.plan.op(false)?;
        self.c.seek(p)
    }
}
