SH = open(os.path.join(V, 'tools', 'demo.sh')).read().replace('timeout 250 cargo run', 'RUSTFLAGS="--cfg parcom_verif" timeout 250 cargo run')
assert 'parcom_verif' in SH
D = r'''
use parcom_core::{SegmentStream, Sequence};
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};
use std::task::{Context, Poll, Wake, Waker};
struct Count(AtomicUsize);
impl Wake for Count { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn counter() -> (Arc<Count>, Waker) { let c = Arc::new(Count(AtomicUsize::new(0))); (c.clone(), c.into()) }
/// a buffer of blocks; every look at it first answers, then runs the next of `then`
#[derive(Default)]
struct State { blocks: Vec<&'static [u8]>, looks: usize, then: VecDeque<Option<Box<dyn FnOnce(&mut Vec<&'static [u8]>)>>> }
impl State {
    fn after(&mut self) {
        self.looks += 1;
        if let Some(Some(f)) = self.then.pop_front() { f(&mut self.blocks) }
    }
}
#[derive(Clone, Default)]
struct Buf(Rc<RefCell<State>>);
struct It<'a>(Rc<RefCell<State>>, usize, std::marker::PhantomData<&'a u8>);
impl<'a> Iterator for It<'a> {
    type Item = &'a [u8];
    fn next(&mut self) -> Option<&'a [u8]> {
        let mut s = self.0.borrow_mut();
        let r = s.blocks.get(self.1).copied();
        self.1 += r.is_some() as usize;
        s.after();
        r
    }
}
impl SequenceBuffer for Buf {
    type Length = usize;
    type Segment = [u8];
    type Iter<'a> = It<'a>;
    fn advance(&mut self, mut n: usize) -> usize {
        let mut s = self.0.borrow_mut();
        while n > 0 {
            let Some(b) = s.blocks.first_mut() else { break };
            let k = n.min(b.len());
            *b = &b[k..];
            n -= k;
            if b.is_empty() { s.blocks.remove(0); }
        }
        s.after();
        n
    }
    fn segments(&self) -> It<'_> { It(self.0.clone(), 0, std::marker::PhantomData) }
}
struct Src;
struct Nx<C: SequenceControl>(std::marker::PhantomData<fn() -> C>);
impl<C: SequenceControl> Future for Nx<C> { type Output = C::Result; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<C::Result> { Poll::Pending } }
impl SequenceSource for Src {
    type Item = u8;
    type Error = ();
    type Next<'a, C> = Nx<C> where C: 'a + SequenceControl<Item = u8, Error = ()>;
    fn next<'a, C>(&'a mut self, _: C, _: usize) -> Nx<C> where C: 'a + SequenceControl<Item = u8, Error = ()> { Nx(std::marker::PhantomData) }
}
struct Ld;
impl SequenceLoader for Ld {
    type Length = usize;
    type Segment = [u8];
    type Error = ();
    type Load<'a> = std::future::Pending<Result<LoadInfo, ()>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> std::future::Pending<Result<LoadInfo, ()>> { std::future::pending() }
}
struct Bl;
impl SequenceBuilder<Src> for Bl {
    type Length = usize;
    type Segment = [u8];
    type Buffer = Buf;
    type Loader = Ld;
    fn build(&self, _: Src) -> (Buf, Ld) { (Buf::default(), Ld) }
}
type Seq = DefaultSequence<Src, Bl>;
/// polls while woken; None: asleep
fn drive<F: Future>(mut f: Pin<&mut F>, c: &Count, w: &Waker) -> Option<F::Output> {
    for _ in 0..1000 {
        let before = c.0.load(Ordering::SeqCst);
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(w)) { return Some(r) }
        if c.0.load(Ordering::SeqCst) == before { return None }
    }
    panic!("busy");
}
'''
_seed = seed
def seed(*a):
    _seed(*a, sh_body=SH, prelude=False)
f = 'parcom-runners/src/default_runner/sequence/segments.rs'
g = 'parcom-runners/src/default_runner/sequence/advance.rs'
seed('c27-late-wait', 'C27', [(f, """        let fut = this.host.append_signal.wait();
        // `this""", """        // `this"""), (f, """        this.fut.set(OptionFuture::some(fut));
""", """        let fut = this.host.append_signal.wait();
        this.fut.set(OptionFuture::some(fut));
""")], 'a block appended just after the second look for data', 'the task sleeps although data is there', D + r'''
fn main() {
    let b = Buf::default();
    let mut s = Seq::new(b.clone(), Ld);
    let (n, _) = s.signals();
    b.0.borrow_mut().then.extend([None, Some(Box::new(move |v: &mut Vec<&'static [u8]>| { v.push(b"ab"); n.send(); }) as Box<dyn FnOnce(&mut Vec<&'static [u8]>)>)]);
    let mut seg = s.segments();
    let (c, w) = counter();
    let r = drive(pin!(seg.next(0)), &c, &w);
    assert_eq!(r, Some(Some(&b"ab"[..])));
}
''')
seed('c27-early-flag', 'C27', [(f, """        let done = this.host.done_flag.load(Ordering::SeqCst);
""", ""), (f, """        if let Some(seg) = this.host.iter.next() {
            return Poll::Ready(Some(seg));
        }

        let fut""", """        let done = this.host.done_flag.load(Ordering::SeqCst);

        if let Some(seg) = this.host.iter.next() {
            return Poll::Ready(Some(seg));
        }

        let fut""")], 'the end flagged during the first look for data', 'the end is never reported', D + r'''
fn main() {
    let b = Buf::default();
    let mut s = Seq::new(b.clone(), Ld);
    let (n, d) = s.signals();
    b.0.borrow_mut().then.extend([Some(Box::new(move |_: &mut Vec<&'static [u8]>| { d.store(true, Ordering::SeqCst); n.send(); }) as Box<dyn FnOnce(&mut Vec<&'static [u8]>)>)]);
    let mut seg = s.segments();
    let (c, w) = counter();
    assert_eq!(drive(pin!(seg.next(0)), &c, &w), Some(None));
}
''')
seed('c27-ends-without-look', 'C27', [(f, """        // (1): セグメントが末尾に追加されたか。
        if let Some(seg) = this.host.iter.next() {
            return Poll::Ready(Some(seg));
        }
""", """        // (1): セグメントが末尾に追加されたか。
        if !done {
            if let Some(seg) = this.host.iter.next() {
                return Poll::Ready(Some(seg));
            }
        }
""")], 'a block appended and the end flagged right after the first look for data', 'the block is never handed out', D + r'''
fn main() {
    let b = Buf::default();
    let mut s = Seq::new(b.clone(), Ld);
    let (n, d) = s.signals();
    b.0.borrow_mut().then.extend([Some(Box::new(move |v: &mut Vec<&'static [u8]>| { v.push(b"ab"); d.store(true, Ordering::SeqCst); n.send(); }) as Box<dyn FnOnce(&mut Vec<&'static [u8]>)>)]);
    let mut seg = s.segments();
    let (c, w) = counter();
    assert_eq!(drive(pin!(seg.next(0)), &c, &w), Some(Some(&b"ab"[..])));
}
''')
seed('c27-quiet-without-progress', 'C27', [(g, """        cx.waker().wake_by_ref();
""", """        if progressed {
            cx.waker().wake_by_ref();
        }
"""), (g, """        let remain = sequence.buffer.advance(remain);
""", """        let blocks_before = sequence.buffer.segments().next().is_some();
        let remain = sequence.buffer.advance(remain);
        let progressed = blocks_before;
""")], 'an advance that starts with nothing in the buffer', 'nothing wakes it when data arrives', D + r'''
fn main() {
    let b = Buf::default();
    let s = Seq::new(b.clone(), Ld);
    let (n, _) = s.signals();
    let (c, w) = counter();
    let mut f = pin!(s.advance(3));
    assert!(drive(f.as_mut(), &c, &w).is_none());
    b.0.borrow_mut().blocks.extend([&b"abc"[..], &b"d"[..]]);
    let k = c.0.load(Ordering::SeqCst);
    n.send();
    assert!(c.0.load(Ordering::SeqCst) > k, "not woken");
    let mut s = drive(f, &c, &w).unwrap();
    assert_eq!(drive(pin!(s.segments().next(0)), &c, &w), Some(Some(&b"d"[..])));
}
''')
seed('c27-restart-amount', 'C27', [(g, """    remain: <B::Buffer as SequenceBuffer>::Length,
}
""", """    remain: <B::Buffer as SequenceBuffer>::Length,
    rounds: usize,
}
"""), (g, """            remain: delta,
""", """            remain: delta,
            rounds: 0,
"""), (g, """        let remain = std::mem::replace(this.remain, Default::default());
""", """        *this.rounds += 1;
        let remain = std::mem::replace(this.remain, Default::default());
"""), (g, """        *this.remain = remain;
""", """        if *this.rounds < 3 {
            *this.remain = remain;
        }
""")], 'an advance that takes more than three rounds', 'it stops early', D + r'''
fn main() {
    let b = Buf::default();
    let s = Seq::new(b.clone(), Ld);
    let (n, _) = s.signals();
    let (c, w) = counter();
    let mut f = pin!(s.advance(5));
    for x in [&b"a"[..], b"b", b"c", b"d"] {
        assert!(drive(f.as_mut(), &c, &w).is_none(), "done before everything arrived");
        b.0.borrow_mut().blocks.push(x);
        n.send();
    }
    assert!(drive(f.as_mut(), &c, &w).is_none(), "done before everything arrived");
    b.0.borrow_mut().blocks.push(b"ef");
    n.send();
    let mut s = drive(f, &c, &w).unwrap();
    assert_eq!(drive(pin!(s.segments().next(0)), &c, &w), Some(Some(&b"f"[..])));
}
''')
seed('c27-reader-spins', 'C27', [(f, '''        std::task::ready!(this.fut.as_mut().poll(cx));
''', '''        // polled again: a wait from an earlier poll has done its work
        this.fut.set(OptionFuture::none());
''')], 'a reader polled again while nothing new has arrived', 'it keeps waking its own task instead of sleeping', D + r'''
fn main() {
    let b = Buf::default();
    let mut s = Seq::new(b.clone(), Ld);
    let mut seg = s.segments();
    let (c, w) = counter();
    assert_eq!(drive(pin!(seg.next(0)), &c, &w), None);
}
''')
seed = _seed
