//! Data sources against any buffer that honours its contract.
use crate::u::*;
use parcom_core::Never;
use parcom_sequence_core::{BufferWriter, SequenceControl, SequenceSource};
use parcom_sequence_sources::iterator_source::IteratorSource;

/// what becomes of a call to a source
pub enum Out {
    Data(Vec<EvIt>),
    End,
    Failed(Never),
}
pub struct Ctl {
    buf: Vec<EvIt>,
}
pub struct Wri {
    buf: Vec<EvIt>,
    off: usize,
}
impl SequenceControl for Ctl {
    type Item = EvIt;
    type Result = Out;
    type Error = Never;
    type Writer = Wri;
    fn request_writer(self, n: usize) -> Wri {
        ev_len(n);
        let mut buf = self.buf;
        let off = buf.len();
        buf.reserve(n);
        Wri { buf, off }
    }
    fn cancel(self, e: Never) -> Out { Out::Failed(e) }
    fn finish(self) -> Out { ev_told(1); Out::End }
}
impl BufferWriter for Wri {
    type Segment = [It];
    type Item = EvIt;
    type Result = Out;
    type Error = Never;
    fn capacity(&self) -> usize { self.buf.capacity() - self.off }
    fn len(&self) -> usize { self.buf.len() - self.off }
    fn as_ptr(&self) -> *const EvIt { unsafe { self.buf.as_ptr().add(self.off) } }
    fn as_mut_ptr(&mut self) -> *mut EvIt { unsafe { self.buf.as_mut_ptr().add(self.off) } }
    unsafe fn set_len(&mut self, n: usize) { self.buf.set_len(self.off + n) }
    fn advance(self) -> Out { ev_told(2); Out::Data(self.buf) }
    fn cancel(self, e: Never) -> Out { Out::Failed(e) }
}

pub mod once {
    use super::*;
    pub async fn lib(it: Chunks, buf: Vec<EvIt>, hint: usize) -> Out {
        let mut s = IteratorSource::new(it);
        s.next(Ctl { buf }, hint).await
    }
    pub async fn spec(mut it: Chunks, mut buf: Vec<EvIt>, hint: usize) -> Out {
        let Some(c) = it.next() else {
            ev_told(1);
            return Out::End;
        };
        let items = c.as_ref();
        ev_len(items.len());
        buf.reserve(items.len());
        for i in items {
            buf.push(i.clone());
        }
        ev_told(2);
        Out::Data(buf)
    }
}
// ---- called again and again
pub mod run {
    use super::*;
    pub async fn lib(it: Chunks) {
        let mut s = IteratorSource::new(it);
        while ev_got(()) {
            let o = s.next(Ctl { buf: Vec::new() }, 0).await;
            ev_out(o)
        }
    }
    pub async fn spec(mut it: Chunks) {
        while ev_got(()) {
            let o = match it.next() {
                None => {
                    ev_told(1);
                    Out::End
                }
                Some(c) => {
                    let items = c.as_ref();
                    ev_len(items.len());
                    let mut buf = Vec::new();
                    buf.reserve(items.len());
                    for i in items {
            buf.push(i.clone());
        }
                    ev_told(2);
                    Out::Data(buf)
                }
            };
            ev_out(o)
        }
    }
}
fn ev_out(o: Out) {
    match o {
        Out::Data(b) => ev_iseen(&b),
        Out::End => ev_told(3),
        Out::Failed(_) => ev_told(4),
    }
}
