C = r'''
use parcom_sequence_core::{BufferWriter, SequenceControl, SequenceSource};
use parcom_sequence_sources::iterator_source::IteratorSource;
use parcom_core::Never;
pub struct C { pub asked: std::rc::Rc<std::cell::Cell<usize>> }
pub struct W<T> { pub buf: Vec<T>, pub cap: usize }
impl SequenceControl for C {
    type Item = u32; type Result = Option<Vec<u32>>; type Error = Never; type Writer = W<u32>;
    fn request_writer(self, n: usize) -> W<u32> { self.asked.set(n); W { buf: Vec::with_capacity(n), cap: n } }
    fn cancel(self, e: Never) -> Self::Result { match e {} }
    fn finish(self) -> Self::Result { None }
}
impl BufferWriter for W<u32> {
    type Segment = [u32]; type Item = u32; type Result = Option<Vec<u32>>; type Error = Never;
    fn capacity(&self) -> usize { self.cap }
    fn len(&self) -> usize { self.buf.len() }
    fn as_ptr(&self) -> *const u32 { self.buf.as_ptr() }
    fn as_mut_ptr(&mut self) -> *mut u32 { self.buf.as_mut_ptr() }
    unsafe fn set_len(&mut self, n: usize) { self.buf.set_len(n) }
    fn advance(self) -> Self::Result { Some(self.buf) }
    fn cancel(self, e: Never) -> Self::Result { match e {} }
}
fn main() {
    let asked = std::rc::Rc::new(std::cell::Cell::new(0));
    let big: Vec<u32> = (0..10_000).collect();
    let chunks = vec![vec![1, 2, 3], vec![], vec![4, 5, 6, 7, 8], big];
    let mut s = IteratorSource::new(chunks.clone());
    for c in chunks {
        let r = s.next(C { asked: asked.clone() }, 1).into_inner();
        assert_eq!(r, Some(c.clone()));
        assert_eq!(asked.get(), c.len());
    }
    assert_eq!(s.next(C { asked }, 1).into_inner(), None);
}
'''
f = 'parcom-sequence-sources/src/iterator_source.rs'
seed('c25-skips-empty', 'C25', [(f, "        let Some(node) = self.iter.next() else {", "        let Some(node) = self.iter.find(|n| !n.as_ref().is_empty()) else {")],
 'a chunk without items', 'one call takes more than one chunk of the iterator', C, prelude=False)
seed('c25-long-chunk', 'C25', [(f, "        for item in seg {", "        for item in seg.iter().take(1 << 8) {")],
 'a chunk of more than 256 items', 'the items past the limit are lost', C, prelude=False)
seed('c25-rounds-request', 'C25', [(f, "control.request_writer(seg.len())", "control.request_writer(seg.len().next_multiple_of(4).min(seg.len() + 1))")],
 'a chunk whose length is not a multiple of four', 'more room is requested than the chunk needs', C, prelude=False)
