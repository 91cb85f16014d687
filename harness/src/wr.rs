//! The ready-made operations of buffer writers, on any writer that honours its contract.
use crate::u::*;
use parcom_sequence_core::BufferWriter;

/// a writer over a vector, holding any items and any spare room
pub struct Wr {
    buf: Vec<DIt>,
}
impl BufferWriter for Wr {
    type Segment = [DIt];
    type Item = DIt;
    type Result = ();
    type Error = ();
    fn capacity(&self) -> usize { self.buf.capacity() }
    fn len(&self) -> usize { self.buf.len() }
    fn as_ptr(&self) -> *const DIt { self.buf.as_ptr() }
    fn as_mut_ptr(&mut self) -> *mut DIt { self.buf.as_mut_ptr() }
    unsafe fn set_len(&mut self, n: usize) { self.buf.set_len(n) }
    fn advance(self) {}
    fn cancel(self, _: ()) {}
}
/// the same when the first items of the vector are not the writer's business
pub struct WrAt {
    buf: Vec<DIt>,
    off: usize,
}
impl BufferWriter for WrAt {
    type Segment = [DIt];
    type Item = DIt;
    type Result = ();
    type Error = ();
    fn capacity(&self) -> usize { self.buf.capacity() - self.off }
    fn len(&self) -> usize { self.buf.len() - self.off }
    fn as_ptr(&self) -> *const DIt { unsafe { self.buf.as_ptr().add(self.off) } }
    fn as_mut_ptr(&mut self) -> *mut DIt { unsafe { self.buf.as_mut_ptr().add(self.off) } }
    unsafe fn set_len(&mut self, n: usize) { self.buf.set_len(self.off + n) }
    fn advance(self) {}
    fn cancel(self, _: ()) {}
}
fn put(v: &mut Vec<DIt>, item: DIt) -> Result<(), DIt> {
    if v.len() == v.capacity() {
        Err(item)
    } else {
        v.push(item);
        Ok(())
    }
}
fn fill(s: &mut [std::mem::MaybeUninit<DIt>]) -> bool {
    ev_len(s.len());
    if s.is_empty() { return false; }
    s[0].write(ev_ditem());
    true
}

pub mod push_item {
    use super::*;
    pub fn lib(buf: Vec<DIt>, item: DIt) {
        let mut w = Wr { buf };
        ev_put(w.push_item(item));
        ev_dseen(&w.buf);
    }
    pub fn spec(mut buf: Vec<DIt>, item: DIt) {
        ev_put(put(&mut buf, item));
        ev_dseen(&buf);
    }
}
pub mod slices {
    use super::*;
    pub fn lib(buf: Vec<DIt>) {
        let mut w = Wr { buf };
        ev_dseen(w.as_slice());
        ev_dseen(w.as_mut_slice());
    }
    pub fn spec(buf: Vec<DIt>) {
        ev_dseen(&buf);
        ev_dseen(&buf);
    }
}
// ---- items may be exchanged through the mutable view
pub mod exchange {
    use super::*;
    pub fn lib(buf: Vec<DIt>, i: usize, item: DIt) {
        let mut w = Wr { buf };
        if i < w.as_slice().len() {
            w.as_mut_slice()[i] = item;
        }
        ev_dseen(&w.buf);
    }
    pub fn spec(buf: Vec<DIt>, i: usize, item: DIt) {
        let mut buf = buf;
        if i < buf.len() {
            buf[i] = item;
        }
        ev_dseen(&buf);
    }
}
pub mod spare {
    use super::*;
    pub fn lib(buf: Vec<DIt>) {
        let mut w = Wr { buf };
        if fill(w.spare_capacity()) {
            let n = w.len();
            unsafe { w.set_len(n + 1) };
        }
        ev_dseen(&w.buf);
    }
    pub fn spec(mut buf: Vec<DIt>) {
        let n = buf.capacity() - buf.len();
        ev_len(n);
        if n > 0 {
            buf.push(ev_ditem());
        }
        ev_dseen(&buf);
    }
}
pub mod shrink {
    use super::*;
    pub fn lib(buf: Vec<DIt>, n: usize) {
        let mut w = Wr { buf };
        w.shrink_to(n);
        ev_dseen(&w.buf);
    }
    pub fn spec(mut buf: Vec<DIt>, n: usize) {
        assert!(n <= buf.len());
        buf.truncate(n);
        ev_dseen(&buf);
    }
}
// ---- any sequence of operations
pub mod history {
    use super::*;
    pub fn lib(buf: Vec<DIt>) {
        let mut w = Wr { buf };
        loop {
            match ev_wr() {
                WrOp::Push => ev_put(w.push_item(ev_ditem())),
                WrOp::Look => ev_dseen(w.as_slice()),
                WrOp::Fill => {
                    if fill(w.spare_capacity()) {
                        let n = w.len();
                        unsafe { w.set_len(n + 1) };
                    }
                }
                WrOp::Shrink(n) => w.shrink_to(n),
                WrOp::End => break,
            }
        }
    }
    pub fn spec(mut buf: Vec<DIt>) {
        loop {
            match ev_wr() {
                WrOp::Push => ev_put(put(&mut buf, ev_ditem())),
                WrOp::Look => ev_dseen(&buf),
                WrOp::Fill => {
                    let n = buf.capacity() - buf.len();
                    ev_len(n);
                    if n > 0 {
                        buf.push(ev_ditem());
                    }
                }
                WrOp::Shrink(n) => {
                    assert!(n <= buf.len());
                    buf.truncate(n);
                }
                WrOp::End => break,
            }
        }
    }
}
// ---- the same on part of a buffer
pub mod part {
    use super::*;
    pub fn lib(mut buf: Vec<DIt>, op: WrOp) {
        let off = buf.len();
        buf.reserve(2);
        let mut w = WrAt { buf, off };
        ev_put(w.push_item(ev_ditem()));
        match op {
            WrOp::Push => ev_put(w.push_item(ev_ditem())),
            WrOp::Look => ev_dseen(w.as_slice()),
            WrOp::Fill => {
                if fill(w.spare_capacity()) {
                    let n = w.len();
                    unsafe { w.set_len(n + 1) };
                }
            }
            WrOp::Shrink(n) => w.shrink_to(n),
            WrOp::End => {}
        }
        ev_dseen(&w.buf);
    }
    pub fn spec(mut buf: Vec<DIt>, op: WrOp) {
        let off = buf.len();
        buf.reserve(2);
        ev_put(put(&mut buf, ev_ditem()));
        match op {
            WrOp::Push => ev_put(put(&mut buf, ev_ditem())),
            WrOp::Look => ev_dseen(&buf[off..]),
            WrOp::Fill => {
                ev_len(buf.capacity() - buf.len());
                buf.push(ev_ditem());
            }
            WrOp::Shrink(n) => {
                assert!(n <= buf.len() - off);
                buf.truncate(off + n);
            }
            WrOp::End => {}
        }
        ev_dseen(&buf);
    }
}
