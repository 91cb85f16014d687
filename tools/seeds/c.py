seed('c20-filter-gives-up', 'C20', [
 ('parcom-internals/src/reactive/extension/filter.rs', """    predicate: Arc<P>,
    _phantom: PhantomData<T>,
}

impl<T, O: IObserver<T>, P: Predicate<T>> IObserver<T> for Observer<T, O, P> {
    fn next(&mut self, item: T) {
        if self.predicate.test(&item) {
            self.observer.next(item);
        }
    }
}""", """    predicate: Arc<P>,
    rejected: u8,
    _phantom: PhantomData<T>,
}

impl<T, O: IObserver<T>, P: Predicate<T>> IObserver<T> for Observer<T, O, P> {
    fn next(&mut self, item: T) {
        if self.rejected > 2 || self.predicate.test(&item) {
            self.rejected = 0;
            self.observer.next(item);
        } else {
            self.rejected += 1;
        }
    }
}"""),
 ('parcom-internals/src/reactive/extension/filter.rs', """            predicate: Arc::clone(&self.predicate),
            _phantom""", """            predicate: Arc::clone(&self.predicate),
            rejected: 0,
            _phantom"""),
], 'an item arriving after three rejections in a row', 'an observer receives an item its predicate rejects', r'''
use parcom_internals::reactive::{IObservable, IObserver, ObservableExtensions};
struct Src; struct Obs(std::sync::Arc<std::sync::Mutex<Vec<u32>>>);
impl IObserver<u32> for Obs { fn next(&mut self, i: u32) { self.0.lock().unwrap().push(i) } }
impl IObservable<u32> for Src { type Subscription<U: IObserver<u32>> = U;
    fn subscribe<U: IObserver<u32>>(&self, mut o: U) -> U { for i in [1, 2, 3, 5, 7, 9, 4] { o.next(i) } o } }
fn main() {
    let v = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let f = Src.filter(|i: &u32| i % 2 == 0);
    let _s = f.subscribe(Obs(v.clone()));
    assert_eq!(*v.lock().unwrap(), vec![2, 4]);
}
''', prelude=False)

seed('c20-option-polls-twice', 'C20', [
 ('parcom-internals/src/future/option_future.rs', "PinOptionProj::Some(fut) => fut.poll(cx).map(Some),", """PinOptionProj::Some(mut fut) => match fut.as_mut().poll(cx) {
                Poll::Ready(v) => Poll::Ready(Some(v)),
                Poll::Pending => fut.poll(cx).map(Some),
            },"""),
], 'an inner future that is pending on its first poll', 'the inner future is polled twice in one poll', r'''
use parcom_internals::future::option_future::OptionFuture;
use std::{future::Future, pin::Pin, task::{Context, Poll, Waker}};
struct F(u32);
impl Future for F { type Output = u32; fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> {
    self.0 += 1; if self.0 > 3 { Poll::Ready(self.0) } else { Poll::Pending } } }
fn main() {
    let mut f = OptionFuture::some(F(0));
    let mut cx = Context::from_waker(Waker::noop());
    let mut n = 0;
    loop { n += 1; if let Poll::Ready(v) = Pin::new(&mut f).poll(&mut cx) { assert_eq!(v, Some(4)); break } }
    assert_eq!(n, 4);
}
''', prelude=False)

seed('c16-small-capacity', 'C16', [
 ('parcom-internals/src/shortvec.rs', """            Self {
                cap: N,
                len: 0,
                data,""", """            Self {
                cap: if cap == 0 { N } else { cap },
                len: 0,
                data,"""),
], 'a capacity between one and the inline capacity, then more items than it', 'the vector takes its heap pointer for inline items', r'''
use parcom_internals::ShortVec;
fn main() {
    let mut v: ShortVec<u64, 4> = ShortVec::with_capacity(1);
    for i in 0..3 { v.push(i + 100) }
    assert_eq!(v.as_slice(), &[100, 101, 102]);
    std::mem::forget(v);
}
''', prelude=False)

seed('c16-realloc-length', 'C16', [
 ('parcom-internals/src/shortvec.rs', "let old_layout = Layout::array::<T>(self.cap).unwrap();", "let old_layout = Layout::array::<T>(self.len).unwrap();"),
], 'growing heap storage that is not full', 'storage is reallocated with a size it was not obtained with', r'''
use parcom_internals::ShortVec;
use std::{alloc::{GlobalAlloc, Layout, System}, collections::BTreeMap, sync::atomic::{AtomicBool, Ordering::SeqCst}};
struct G; static ON: AtomicBool = AtomicBool::new(false); static BAD: AtomicBool = AtomicBool::new(false);
static mut LAST: (usize, usize) = (0, 0);
unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if ON.load(SeqCst) { LAST = (p as usize, l.size()) } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(SeqCst) && LAST.0 == p as usize && LAST.1 != l.size() { BAD.store(true, SeqCst) }
        System.realloc(p, l, n)
    }
}
#[global_allocator] static A: G = G;
fn main() {
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    ON.store(true, SeqCst);
    let mut v: ShortVec<u64, 2> = ShortVec::with_capacity(4);
    v.push(1);
    v.reserve_exact(16);
    ON.store(false, SeqCst);
    assert!(!BAD.load(SeqCst));
    assert_eq!(v.as_slice(), &[1]);
}
''', prelude=False)

seed('c17-reserve-adds', 'C17', [
 ('parcom-internals/src/shortvec.rs', "        self.reserve(len + 1);", "        self.reserve(1);"),
 ('parcom-internals/src/shortvec.rs', """    pub fn reserve(&mut self, cap: usize) {
        if self.cap >= cap {
            return;
        }
        let cap""", """    pub fn reserve(&mut self, cap: usize) {
        let cap = self.len + cap;
        if self.cap >= cap {
            return;
        }
        let cap"""),
], 'reserving room that fits inline when the vector already holds items', 'heap storage is obtained although the capacity asked for fits inline', r'''
use parcom_internals::ShortVec;
use std::{alloc::{GlobalAlloc, Layout, System}, sync::atomic::{AtomicUsize, Ordering::SeqCst}};
struct G; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static A: G = G;
fn main() {
    let n = N.load(SeqCst);
    let mut v: ShortVec<u64, 4> = ShortVec::new();
    v.push(1);
    v.push(2);
    v.reserve(3);
    v.push(3);
    assert_eq!(N.load(SeqCst), n);
}
''', prelude=False)

seed('c17-grow-tail', 'C17', [
 ('parcom-internals/src/shortvec.rs', "std::ptr::copy_nonoverlapping(src, buf.as_ptr(), self.len);", "std::ptr::copy_nonoverlapping(src, buf.as_ptr(), self.cap.min(cap / 2));"),
], 'growing a full inline vector of odd capacity by less than double', 'items are lost when the vector moves to the heap', r'''
use parcom_internals::ShortVec;
fn main() {
    let mut v: ShortVec<u64, 3> = ShortVec::new();
    for i in 0..3 { v.push(i + 100) }
    v.reserve_exact(4);
    v.push(103);
    assert_eq!(v.as_slice(), &[100, 101, 102, 103]);
}
''', prelude=False)
