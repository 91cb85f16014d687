NOCOMPILE = open(os.path.join(V, 'tools', 'nocompile.sh')).read()
SH = open(os.path.join(V, 'tools', 'demo.sh')).read().replace('timeout 250 cargo run', 'RUSTFLAGS="--cfg parcom_verif" timeout 250 cargo run')
U = 'parcom-sequence-sources/src/utf8_validator.rs'
OF = 'parcom-internals/src/future/option_future.rs'
LO = 'parcom-sequences/src/generic/loader.rs'
G = r'''
use parcom_sequence_core::*;
use parcom_sequence_sources::utf8_validator::Utf8Validator;
use parcom_sequences::{generic::*, BufferStrategy};
use std::marker::PhantomPinned;
struct Min;
impl BufferStrategy for Min { fn calc_capacity(&self, n: usize) -> usize { n.max(8) } }
/// pending once; must be at the same place both times
struct Late<C> { c: Option<C>, at: Option<usize>, _p: PhantomPinned }
impl<C: SequenceControl<Item = u8>> Future for Late<C> {
    type Output = C::Result;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<C::Result> {
        let here = &*self as *const Self as usize;
        let this = unsafe { self.get_unchecked_mut() };
        match this.at {
            None => { this.at = Some(here); Poll::Pending }
            Some(a) => {
                assert_eq!(a, here, "a pinned future was moved between two polls");
                let mut w = this.c.take().unwrap().request_writer(2);
                unsafe {
                    std::ptr::copy_nonoverlapping(b"ab".as_ptr(), w.as_mut_ptr(), 2);
                    w.set_len(2);
                }
                Poll::Ready(w.advance())
            }
        }
    }
}
#[derive(Debug)]
struct Src;
impl SequenceSource for Src {
    type Item = u8;
    type Error = ();
    type Next<'a, C> = Late<C> where C: 'a + SequenceControl<Item = u8, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Late<C> where C: 'a + SequenceControl<Item = u8, Error = ()> {
        Late { c: Some(control), at: None, _p: PhantomPinned }
    }
}
/// whether safe code may move the value although it is pinned
struct W<T>(std::marker::PhantomData<T>);
fn w<T>(_: &T) -> W<T> { W(std::marker::PhantomData) }
trait No { fn unpin(&self) -> bool { false } }
impl<T> No for &W<T> {}
trait Yes { fn unpin(&self) -> bool { true } }
impl<T: Unpin> Yes for W<T> {}
'''
MAIN = r'''
fn main() {
    let (buf, mut loader) = GenericSequenceBuilder::new(Arc::new(Min)).build(Utf8Validator::new(Src));
    assert!(!(&w(&loader.load())).unpin(), "the load future may be moved between polls");
    let _ = block_on(loader.load());
    assert_eq!(buf.segments().map(|s| s.len()).sum::<usize>(), 2);
}
'''
seed('c33-next-polls-copy', 'C33', [(U, """        let fut = unsafe { Pin::new_unchecked(&mut this.fut) };

        match fut.poll(cx) {""", """        // poll a local so that `this` stays free for the fields below
        let mut fut = unsafe { std::ptr::read(&this.fut) };
        let polled = unsafe { Pin::new_unchecked(&mut fut) }.poll(cx);
        unsafe { std::ptr::write(&mut this.fut, fut) };

        match polled {""")], 'a source whose future refers to itself and is polled more than once at different stack depths', 'the inner future is moved after it was polled', G + r'''
fn poll_deep<F: Future>(f: Pin<&mut F>, depth: usize) -> Poll<F::Output> {
    let pad = [depth as u8; 300];
    if std::hint::black_box(&pad)[depth] != depth as u8 || depth == 0 {
        let w = Waker::from(Arc::new(Nop));
        f.poll(&mut Context::from_waker(&w))
    } else {
        poll_deep(f, depth - 1)
    }
}
fn main() {
    let (buf, mut loader) = GenericSequenceBuilder::new(Arc::new(Min)).build(Utf8Validator::new(Src));
    {
        let mut f = pin!(loader.load());
        assert!(poll_deep(f.as_mut(), 3).is_pending());
        assert!(poll_deep(f.as_mut(), 9).is_ready());
    }
    loader.force_commit();
    assert_eq!(buf.segments().map(|s| s.len()).sum::<usize>(), 2);
}
''', sh_body=SH)
seed('c33-next-unpin', 'C33', [(U, """impl<'a, S, C> Future for Next<'a, S, C>
where""", """impl<'a, S, C> Unpin for Next<'a, S, C>
where
    S: SequenceSource<Item = u8>,
    C: SequenceControl<Item = u8, Error = Utf8ValidationError<S::Error>>,
{
}

impl<'a, S, C> Future for Next<'a, S, C>
where"""), (U, """        let this = unsafe { self.get_unchecked_mut() };
        let fut =""", """        let this = self.get_mut();
        let fut =""")], 'safe code that polls the future, moves it and polls it again', 'the inner future is moved after it was polled', G + MAIN.replace('    let _ = block_on(loader.load());\n', '    let _ = block_on(loader.load());\n    loader.force_commit();\n'), sh_body=SH)
seed('c33-option-held-aside', 'C33', [(OF, """        let this = self.project();

        match this.fut.project() {
            PinOptionProj::Some(fut) => fut.poll(cx).map(Some),
            PinOptionProj::None => Poll::Ready(None),
        }""", """        let slot = unsafe { &mut self.get_unchecked_mut().fut };
        let mut held = std::mem::replace(slot, PinOption::None);
        let polled = match unsafe { std::pin::Pin::new_unchecked(&mut held) }.project() {
            PinOptionProj::Some(fut) => fut.poll(cx).map(Some),
            PinOptionProj::None => return Poll::Ready(None),
        };

        *slot = held;
        polled""")], 'an optional future that refers to itself and is polled twice', 'the inner future is moved after it was polled', r'''
use parcom_internals::future::option_future::OptionFuture;
struct Here(Option<usize>, std::marker::PhantomPinned);
impl Future for Here {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        let here = &*self as *const Self as usize;
        let this = unsafe { self.get_unchecked_mut() };
        match this.0 {
            None => { this.0 = Some(here); Poll::Pending }
            Some(a) => { assert_eq!(a, here, "a pinned future was moved between two polls"); Poll::Ready(()) }
        }
    }
}
fn poll_deep<F: Future>(f: Pin<&mut F>, depth: usize) -> Poll<F::Output> {
    let pad = [depth as u8; 300];
    if std::hint::black_box(&pad)[depth] != depth as u8 || depth == 0 {
        let w = Waker::from(Arc::new(Nop));
        f.poll(&mut Context::from_waker(&w))
    } else {
        poll_deep(f, depth - 1)
    }
}
fn main() {
    let mut f = pin!(OptionFuture::some(Here(None, std::marker::PhantomPinned)));
    assert!(poll_deep(f.as_mut(), 3).is_pending());
    assert!(poll_deep(f.as_mut(), 9).is_ready());
}
''')
seed('c33-load-plain-field', 'C33', [(LO, """    #[pin]
    fut: S::Next<""", """    fut: S::Next<"""), (LO, "std::task::ready!(this.fut.poll(cx))", "std::task::ready!(unsafe { std::pin::Pin::new_unchecked(this.fut) }.poll(cx))"),
 ], 'safe code that polls the load, moves it and polls it again', 'the source\'s future is moved after it was polled', G + MAIN.replace('    let _ = block_on(loader.load());\n', '    let _ = block_on(loader.load());\n    loader.force_commit();\n'), sh_body=SH)
seed('c34-source-pointer', 'C34', [('parcom-sequence-sources/src/iterator_source.rs', "    _phantom: PhantomData<fn() -> T>,", "    _phantom: PhantomData<*const T>,")], 'handing a source to another thread', 'a source is no longer sendable although its iterator and items are', r'''
use parcom_sequence_sources::iterator_source::IteratorSource;
fn send<T: Send + Sync>(t: T) -> T { t }
fn main() {
    let s = send(IteratorSource::<Vec<Vec<u8>>, u8>::new(vec![vec![1]]));
    std::thread::spawn(move || drop(s)).join().unwrap();
}
''')
seed('c34-buffer-cached-offset', 'C34', [('parcom-sequences/src/generic/buffer.rs', "    head_offset: usize,", "    head_offset: std::cell::Cell<usize>,"),
 ('parcom-sequences/src/generic/buffer.rs', "            head_offset: 0,", "            head_offset: std::cell::Cell::new(0),"),
 ('parcom-sequences/src/generic/buffer.rs', "let mut offset = self.head_offset;", "let mut offset = self.head_offset.get();"),
 ('parcom-sequences/src/generic/buffer.rs', "        self.head_offset = offset;", "        self.head_offset.set(offset);"),
 ('parcom-sequences/src/generic/buffer.rs', "            offset: self.head_offset,", "            offset: self.head_offset.get(),")],
 'reading one buffer from two threads', 'the buffer can no longer be shared although its items can', r'''
use parcom_sequence_core::*;
use parcom_sequences::{generic::*, BufferStrategy};
use parcom_sequence_sources::iterator_source::IteratorSource;
struct Min;
impl BufferStrategy for Min { fn calc_capacity(&self, n: usize) -> usize { n } }
fn share<T: Sync + Send>(t: &T) -> &T { t }
fn main() {
    let (buf, _l) = GenericSequenceBuilder::new(Arc::new(Min)).build(IteratorSource::<Vec<Vec<u8>>, u8>::new(vec![]));
    let b = share(&buf);
    std::thread::scope(|s| { s.spawn(|| b.segments().count()); });
}
''', sh_body=SH)
seed('c34-boxed-claims', 'C34', [('parcom-parsers/src/combinator/repeat.rs', """    parser: P,
    marker: PhantomData<S>,
}

impl<S: RewindSequence, P: Parser<S>> Repeat<S, P> {""", """    parser: P,
    marker: PhantomData<*const S>,
}

// SAFETY: no `S` is ever stored.
unsafe impl<S: RewindSequence, P: Parser<S>> Send for Repeat<S, P> {}
unsafe impl<S: RewindSequence, P: Parser<S>> Sync for Repeat<S, P> {}

impl<S: RewindSequence, P: Parser<S>> Repeat<S, P> {""")], 'a repeated parser that owns something not sendable', 'safe code moves an unsendable parser to another thread', r'''
fn send<T: Send>(t: T) -> T { t }
fn counting(n: Rc<Cell<usize>>) -> impl Fn(&'static str) -> std::future::Ready<PR<'static, char>> {
    move |i| { n.set(n.get() + 1); std::future::ready(parcom_util::fail(Er(false), i)) }
}
fn main() {
    let n = Rc::new(Cell::new(0));
    let p = counting(n.clone()).repeat();
    let _ = block_on(p.parse("a"));
// BEGIN FORBIDDEN
    send(p);
// END FORBIDDEN
}
''', sh_body=NOCOMPILE)
