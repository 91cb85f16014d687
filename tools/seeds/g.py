N = r'''
use parcom_internals::future::notify::Notify;
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::{atomic::{AtomicBool, AtomicUsize, Ordering}, Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker};
struct Count(AtomicUsize);
impl Wake for Count { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
fn counter() -> (Arc<Count>, Waker) { let c = Arc::new(Count(AtomicUsize::new(0))); (c.clone(), c.into()) }
fn look<F: Future>(f: Pin<&mut F>, w: &Waker) -> bool { f.poll(&mut Context::from_waker(w)).is_ready() }
struct Call<F: Fn() + Send + Sync>(F);
impl<F: Fn() + Send + Sync + 'static> Wake for Call<F> { fn wake(self: Arc<Self>) { (self.0)() } }
/// fails instead of hanging
fn guarded(f: impl FnOnce() + Send + 'static) {
    let (s, r) = std::sync::mpsc::channel();
    let h = std::thread::spawn(move || { f(); s.send(()).unwrap(); });
    if r.recv_timeout(std::time::Duration::from_secs(20)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
        eprintln!("does not return");
        std::process::exit(3);
    }
    h.join().unwrap();
}
'''
f = 'parcom-internals/src/future/notify.rs'
_seed = seed
def seed(*a):
    _seed(*a, prelude=False)
seed('c18-stale-check', 'C18', [(f, """        if self.version != self.signal.version.load(Ordering::SeqCst) {
            return Poll::Ready(());
        }

        let signal = self.signal;
        let mut wakers = signal.wakers.lock().unwrap();
        let key = wakers.insert(cx.waker().clone());

        if self.version != signal.version.load(Ordering::SeqCst) {
""", """        let signal = self.signal;
        let current = signal.version.load(Ordering::SeqCst);
        let waker = cx.waker().clone();
        let mut wakers = signal.wakers.lock().unwrap();
        let key = wakers.insert(waker);

        if self.version != current {
""")], 'a notification sent between the read of the counter and the locking of the list', 'the notification is lost', N + r'''
struct Slow { begun: std::sync::Barrier, first: AtomicBool, woken: AtomicUsize }
fn vt() -> &'static RawWakerVTable {
    static VT: RawWakerVTable = RawWakerVTable::new(
        |p| unsafe {
            let a = &*(p as *const Slow);
            if a.first.swap(false, Ordering::SeqCst) {
                a.begun.wait();
                std::thread::sleep(std::time::Duration::from_millis(400));
            }
            RawWaker::new(p, vt())
        },
        |p| unsafe { (*(p as *const Slow)).woken.fetch_add(1, Ordering::SeqCst); },
        |p| unsafe { (*(p as *const Slow)).woken.fetch_add(1, Ordering::SeqCst); },
        |_| (),
    );
    &VT
}
fn main() {
    guarded(|| {
        let n = Arc::new(Notify::new());
        let s: &'static Slow = Box::leak(Box::new(Slow { begun: std::sync::Barrier::new(2), first: AtomicBool::new(true), woken: AtomicUsize::new(0) }));
        let n2 = n.clone();
        let h = std::thread::spawn(move || { s.begun.wait(); n2.send(); });
        let w = unsafe { Waker::from_raw(RawWaker::new(s as *const Slow as *const (), vt())) };
        let mut f = pin!(n.wait());
        let ready = look(f.as_mut(), &w);
        h.join().unwrap();
        assert!(ready || s.woken.load(Ordering::SeqCst) > 0, "neither complete nor woken");
    });
}
''')
seed('c18-bump-late', 'C18', [(f, '''        self.version.fetch_add(1, Ordering::SeqCst);
        let mut wakers = self.wakers.lock().unwrap();
        let woken = std::mem::take(&mut *wakers);
        // `wake`から`self`が操作されうるため、ロックを解放してから呼び出す。
        drop(wakers);
''', '''        let woken = std::mem::take(&mut *self.wakers.lock().unwrap());
        self.version.fetch_add(1, Ordering::SeqCst);
''')], 'a wait polled for the first time just after the list was emptied', 'it goes to sleep without having seen the notification', N + r'''
fn main() {
    const T: usize = 7;
    guarded(|| {
        let n: &'static Notify = Box::leak(Box::new(Notify::new()));
        let bar: &'static std::sync::Barrier = Box::leak(Box::new(std::sync::Barrier::new(T + 1)));
        let stop: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
        let lost: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
        let hs: Vec<_> = (0..T).map(|i| std::thread::spawn(move || loop {
            let (c, w) = counter();
            let mut f = pin!(n.wait());
            bar.wait();
            if stop.load(Ordering::SeqCst) { return; }
            for _ in 0..i * 20 { std::hint::spin_loop(); }
            let ready = look(f.as_mut(), &w);
            bar.wait();
            if !ready && c.0.load(Ordering::SeqCst) == 0 { lost.fetch_add(1, Ordering::SeqCst); }
        })).collect();
        let t = std::time::Instant::now();
        let mut k = 0;
        while t.elapsed().as_secs() < 12 && lost.load(Ordering::SeqCst) == 0 {
            k += 1;
            bar.wait();
            for _ in 0..k % 200 { std::hint::spin_loop(); }
            n.send();
            bar.wait();
        }
        stop.store(true, Ordering::SeqCst);
        bar.wait();
        for h in hs { h.join().unwrap(); }
        assert_eq!(lost.load(Ordering::SeqCst), 0, "neither complete nor woken, after {k} rounds");
    });
}
''')
seed('c18-narrow-counter', 'C18', [(f, "        atomic::{AtomicUsize, Ordering},\n", "        atomic::{AtomicU8, Ordering},\n"),
 (f, "    version: AtomicUsize,\n", "    version: AtomicU8,\n"), (f, "            version: AtomicUsize::new(0),\n", "            version: AtomicU8::new(0),\n"), (f, "    version: usize,\n", "    version: u8,\n")],
 '256 notifications between two polls of a wait', 'the wait does not complete', N + r'''
fn main() {
    let n = Notify::new();
    let mut f = pin!(n.wait());
    let (_, w) = counter();
    assert!(!look(f.as_mut(), &w));
    for _ in 0..256 { n.send(); }
    assert!(look(f.as_mut(), &w), "still waiting after 256 notifications");
}
''')
seed('c18-first-waker-only', 'C18', [(f, """            version,
            signal: self,
""", """            version,
            signal: self,
            registered: false,
"""), (f, """    signal: &'a Notify,
}
""", """    signal: &'a Notify,
    registered: bool,
}
"""), (f, "        self: std::pin::Pin<&mut Self>,\n", "        mut self: std::pin::Pin<&mut Self>,\n"), (f, """        let signal = self.signal;
""", """        if self.registered {
            return Poll::Pending;
        }

        let signal = self.signal;
"""), (f, """            drop(wakers);
            Poll::Pending
""", """            drop(wakers);
            self.registered = true;
            Poll::Pending
""")], 'a wait polled from two tasks in turn', 'only the first task is woken', N + r'''
fn main() {
    let n = Notify::new();
    let mut f = pin!(n.wait());
    let (_, a) = counter();
    let (c, b) = counter();
    assert!(!look(f.as_mut(), &a));
    assert!(!look(f.as_mut(), &b));
    n.send();
    assert!(c.0.load(Ordering::SeqCst) > 0, "the last waker is not woken");
}
''')
seed('c18-wakes-some', 'C18', [(f, """        self.version.fetch_add(1, Ordering::SeqCst);
""", """        let version = self.version.fetch_add(1, Ordering::SeqCst) + 1;
"""), (f, """            waker.wake();
        }
    }
""", """            waker.wake();

            if self.version.load(Ordering::SeqCst) != version {
                // a later notification takes over
                break;
            }
        }
    }
""")], 'a woken waiter that sends a notification of its own while others are yet to be woken', 'the others are never woken', N + r'''
fn main() {
    guarded(|| {
        let n: &'static Notify = Box::leak(Box::new(Notify::new()));
        let once = AtomicBool::new(true);
        let first: Waker = Arc::new(Call(move || if once.swap(false, Ordering::SeqCst) { n.send() })).into();
        let mut f = pin!(n.wait());
        assert!(!look(f.as_mut(), &first));
        let cs: Vec<_> = (0..3).map(|_| counter()).collect();
        let mut ws: Vec<_> = cs.iter().map(|_| Box::pin(n.wait())).collect();
        for (g, c) in ws.iter_mut().zip(&cs) { assert!(!look(g.as_mut(), &c.1)); }
        n.send();
        for c in &cs { assert!(c.0 .0.load(Ordering::SeqCst) > 0, "a waiter is not woken"); }
    });
}
''')
seed('c18-full-list', 'C18', [(f, """        let key = wakers.insert(cx.waker().clone());
""", """        if wakers.len() >= 128 {
            // left behind by waits that were dropped
            wakers.clear();
        }
        let key = wakers.insert(cx.waker().clone());
""")], 'more than 128 waits at once', 'the first ones are forgotten', N + r'''
fn main() {
    let n = Notify::new();
    let cs: Vec<_> = (0..129).map(|_| counter()).collect();
    let mut ws: Vec<_> = cs.iter().map(|_| Box::pin(n.wait())).collect();
    for (g, c) in ws.iter_mut().zip(&cs) { assert!(!look(g.as_mut(), &c.1)); }
    n.send();
    for c in &cs { assert!(c.0 .0.load(Ordering::SeqCst) > 0, "a waiter is not woken"); }
}
''')
RE = N + r'''
fn main() {
    guarded(|| {
        let n: &'static Notify = Box::leak(Box::new(Notify::new()));
        let hit = Arc::new(AtomicUsize::new(0));
        let h2 = hit.clone();
        let w: Waker = Arc::new(Call(move || {
            h2.fetch_add(1, Ordering::SeqCst);
            let mut f = pin!(n.wait());
            assert!(!look(f.as_mut(), Waker::noop()));
        })).into();
        let mut f = pin!(n.wait());
        assert!(!look(f.as_mut(), &w));
        n.send();
        assert_eq!(hit.load(Ordering::SeqCst), 1);
    });
}
'''
seed('c19-wake-locked', 'C19', [(f, """        let mut wakers = self.wakers.lock().unwrap();
        let woken = std::mem::take(&mut *wakers);
        // `wake`から`self`が操作されうるため、ロックを解放してから呼び出す。
        drop(wakers);

        for (_, waker) in woken {
""", """        for waker in self.wakers.lock().unwrap().drain() {
""")], 'a waker that starts another wait', 'deadlock', RE)
