G = r'''
use parcom_sequence_core::{BufferWriter, LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequences::{generic::GenericSequenceBuilder, BufferStrategy};
use std::collections::VecDeque;
struct Fix(usize);
impl BufferStrategy for Fix { fn calc_capacity(&self, _: usize) -> usize { self.0 } }
/// ask for room for n items, write these, then keep or cancel
enum Do { Write(usize, Vec<u8>, bool), Fail, End }
struct Src(Rc<RefCell<VecDeque<Do>>>);
impl SequenceSource for Src {
    type Item = u8;
    type Error = ();
    type Next<'a, C> = std::future::Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> std::future::Ready<C::Result>
    where C: 'a + SequenceControl<Item = u8, Error = ()> {
        std::future::ready(match self.0.borrow_mut().pop_front().unwrap() {
            Do::Write(n, v, keep) => {
                let mut w = control.request_writer(n);
                assert_eq!(w.len(), 0);
                assert!(w.capacity() >= n && n >= v.len(), "room for {} items instead of {n}", w.capacity());
                unsafe {
                    std::ptr::copy_nonoverlapping(v.as_ptr(), w.as_mut_ptr(), v.len());
                    w.set_len(v.len());
                }
                if keep { w.advance() } else { w.cancel(()) }
            }
            Do::Fail => control.cancel(()),
            Do::End => control.finish(),
        })
    }
}
fn load(s: Vec<Do>, cap: usize) -> Vec<u8> {
    let n = s.len();
    let b = GenericSequenceBuilder::new(Arc::new(Fix(cap)));
    let (mut buf, mut loader) = b.build(Src(Rc::new(RefCell::new(s.into()))));
    let mut all = Vec::new();
    for _ in 0..n {
        let _: Result<LoadInfo, ()> = block_on(loader.load());
        let mut m = 0;
        for s in buf.segments() { all.extend_from_slice(s); m += s.len(); }
        assert_eq!(buf.advance(m), 0);
    }
    all
}
'''
SH = open(os.path.join(V, 'tools', 'demo.sh')).read().replace('cargo run', 'RUSTFLAGS="--cfg parcom_verif" timeout 240 cargo run').replace('timeout 250 RUSTFLAGS', 'RUSTFLAGS')
f = 'parcom-sequences/src/generic/control.rs'
seed('c22-room-miscounted', 'C22', [(f, "        let spare_capacity = buf.capacity() - offset;\n", "        let spare_capacity = buf.capacity();\n")],
 'a request while earlier data is pending and the rest of the buffer is too small for it', 'the request offers less room than was asked for', G + r'''
fn main() {
    assert_eq!(load(vec![Do::Write(4, vec![1, 2, 3], true), Do::Write(4, vec![4, 5, 6, 7], true), Do::End], 4), [1, 2, 3, 4, 5, 6, 7]);
}
''', sh_body=SH)
seed('c22-failure-drops-pending', 'C22', [(f, """        Response::Cancel(err)
    }

    fn finish(self) -> Self::Result {
        Response::Finish(std::mem::replace(self.buf, Vec::new()))""", """        self.buf.clear();
        Response::Cancel(err)
    }

    fn finish(self) -> Self::Result {
        Response::Finish(std::mem::take(self.buf))""")],
 'a source that fails before requesting room while data is pending, and recovers', 'the pending data is dropped', G + r'''
fn main() {
    assert_eq!(load(vec![Do::Write(4, vec![1, 2], true), Do::Fail, Do::Write(2, vec![3], true), Do::End], 4), [1, 2, 3]);
}
''', sh_body=SH)

U = r'''
use parcom_sequence_core::{BufferWriter, SequenceControl, SequenceSource};
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
#[derive(Debug, PartialEq)]
enum Out { Data(Vec<u8>), End, Invalid, Failed }
fn failed(e: Utf8ValidationError<()>) -> Out {
    match e { Utf8ValidationError::InvalidSequence => Out::Invalid, Utf8ValidationError::Inner(()) => Out::Failed }
}
struct C;
struct W { buf: Vec<u8>, cap: usize }
impl SequenceControl for C {
    type Item = u8; type Result = Out; type Error = Utf8ValidationError<()>; type Writer = W;
    fn request_writer(self, n: usize) -> W { W { buf: Vec::with_capacity(n + 16), cap: n } }
    fn cancel(self, e: Self::Error) -> Out { failed(e) }
    fn finish(self) -> Out { Out::End }
}
impl BufferWriter for W {
    type Segment = [u8]; type Item = u8; type Result = Out; type Error = Utf8ValidationError<()>;
    fn capacity(&self) -> usize { self.cap }
    fn len(&self) -> usize { self.buf.len() }
    fn as_ptr(&self) -> *const u8 { self.buf.as_ptr() }
    fn as_mut_ptr(&mut self) -> *mut u8 { self.buf.as_mut_ptr() }
    unsafe fn set_len(&mut self, n: usize) { self.buf.set_len(n) }
    fn advance(self) -> Out { Out::Data(self.buf) }
    fn cancel(self, e: Self::Error) -> Out { failed(e) }
}
/// None is a failure of the source
struct Src(std::collections::VecDeque<Option<Vec<u8>>>);
impl SequenceSource for Src {
    type Item = u8;
    type Error = ();
    type Next<'a, C> = std::future::Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> std::future::Ready<C::Result>
    where C: 'a + SequenceControl<Item = u8, Error = ()> {
        std::future::ready(match self.0.pop_front() {
            Some(Some(v)) => {
                let mut w = control.request_writer(v.len());
                assert_eq!(w.len(), 0);
                assert!(w.capacity() >= v.len(), "room for {} bytes instead of {}", w.capacity(), v.len());
                unsafe {
                    std::ptr::copy_nonoverlapping(v.as_ptr(), w.as_mut_ptr(), v.len());
                    w.set_len(v.len());
                }
                assert_eq!(w.len(), v.len());
                w.advance()
            }
            Some(None) => control.cancel(()),
            None => control.finish(),
        })
    }
}
/// the text passed on, and how it ended
fn run(s: Vec<Option<Vec<u8>>>) -> (String, Out) {
    let mut v = Utf8Validator::new(Src(s.into()));
    let mut text = String::new();
    loop {
        match block_on(v.next(C, 0)) {
            Out::Data(d) => text.push_str(std::str::from_utf8(&d).unwrap()),
            Out::Failed => (),
            o => return (text, o),
        }
    }
}
fn main() {
    let t = "aあ😀b😀😀éz";
    let b = t.as_bytes();
    for i in 0..=b.len() {
        for j in i..=b.len() {
            for k in [j, (j + 1).min(b.len())] {
                let mut s = vec![];
                for p in [&b[..i], &b[i..j], &b[j..k], &b[k..]] {
                    s.push(Some(p.to_vec()));
                    s.push(None);
                }
                assert_eq!(run(s), (t.to_string(), Out::End), "{i} {j} {k}");
            }
        }
    }
    assert_eq!(run(vec![Some(vec![0xff]), Some(vec![b'a'; 5])]).1, Out::Invalid);
}
'''
f = 'parcom-sequence-sources/src/utf8_validator.rs'
seed('c24-failure-forgets', 'C24', [(f, "                InnerResponse::Err { res } => Poll::Ready(res),\n", "                InnerResponse::Err { res } => {\n                    *this.buffered = 0;\n                    Poll::Ready(res)\n                }\n")],
 'the inner source fails between the two halves of a character and then goes on', 'the bytes kept back are lost', U)
seed('c24-room-for-less', 'C24', [(f, "request_writer(self.buffered + min_capacity)", "request_writer(min_capacity.max(self.rest.len()))")],
 'a chunk of at least four bytes after a chunk that ends inside a character', 'the inner source is offered less room than it asked for', U)
seed('c24-three-held', 'C24', [(f, "if invalids.len() > 3 {", "if invalids.len() > 2 {")],
 'a chunk that ends after three bytes of a four-byte character', 'valid text is rejected', U)
seed('c24-stale-rest', 'C24', [(f, "            rest[..invalids.len()].copy_from_slice(invalids);\n", "            let from = valid_len.max(self.buffered) - valid_len;\n            rest[..invalids.len() - from.min(invalids.len())].copy_from_slice(&invalids[from.min(invalids.len())..]);\n")],
 'a character that arrives over three or more chunks', 'bytes kept back from an earlier chunk are forgotten', U)
