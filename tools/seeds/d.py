W = r'''
use parcom_sequence_core::BufferWriter;
pub struct W<T> { pub buf: Vec<T>, pub cap: usize }
impl<T> BufferWriter for W<T> {
    type Segment = [T]; type Item = T; type Result = (); type Error = ();
    fn capacity(&self) -> usize { self.cap }
    fn len(&self) -> usize { self.buf.len() }
    fn as_ptr(&self) -> *const T { self.buf.as_ptr() }
    fn as_mut_ptr(&mut self) -> *mut T { self.buf.as_mut_ptr() }
    unsafe fn set_len(&mut self, n: usize) { self.buf.set_len(n) }
    fn advance(self) {}
    fn cancel(self, _: ()) {}
}
'''
seed('c21-push-into-full', 'C21', [
 ('parcom-sequence-core/src/buffer_writer.rs', "        if written == self.capacity() {", "        if written > self.capacity() {"),
], 'pushing an item into a writer that is exactly full', 'the item is written outside the announced buffer instead of being handed back', W + r'''
fn main() {
    // the storage is larger than what is announced, so that the demonstration itself stays inside it
    let mut w = W { buf: Vec::with_capacity(8), cap: 2 };
    assert_eq!(w.push_item(1), Ok(()));
    assert_eq!(w.push_item(2), Ok(()));
    assert_eq!(w.push_item(3), Err(3));
    assert_eq!(w.as_slice(), &[1, 2]);
}
''', prelude=False)

seed('c21-spare-overlong', 'C21', [
 ('parcom-sequence-core/src/buffer_writer.rs', "        let len = self.capacity() - written;", "        let len = self.capacity() - written.min(1);"),
], 'asking for the spare room after at least two items were written', 'the spare room reaches past the end of the announced buffer', W + r'''
fn main() {
    let mut w = W { buf: Vec::with_capacity(16), cap: 4 };
    for i in 0..3 {
        assert_eq!(w.spare_capacity().len(), 4 - i);
        w.push_item(i as u8).unwrap();
    }
}
''', prelude=False)

seed('c21-shrink-half', 'C21', [
 ('parcom-sequence-core/src/buffer_writer.rs', "ptr.add(new_len), len - new_len);", "ptr.add(new_len), new_len.max(1).min(len - new_len));"),
], 'shortening a buffer to less than half', 'some removed items are never dropped', W + r'''
use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut w = W { buf: Vec::with_capacity(8), cap: 8 };
    for _ in 0..6 { let _ = w.push_item(r.clone()); }
    w.shrink_to(4);
    assert_eq!(Rc::strong_count(&r), 5);
    w.shrink_to(1);
    assert_eq!(Rc::strong_count(&r), 2);
}
''', prelude=False)
