SH = open(os.path.join(V, 'tools', 'demo.sh')).read().replace('timeout 250 cargo run', 'RUSTFLAGS="--cfg parcom_verif" timeout 250 cargo run')
# interpreted with weak memory emulation, for many schedules
MIRI = open(os.path.join(V, 'tools', 'demo.sh')).read().replace('timeout 250 cargo run', 'XDG_CACHE_HOME="$t/cache" MIRIFLAGS="-Zmiri-many-seeds=0..768" timeout 280 cargo +nightly miri run').replace('rm -rf "$t/target"', 'rm -rf "$t/target" "$t/cache"')
MIRI = MIRI.replace('--quiet 2>"$t/err"', '>"$t/out" 2>"$t/err"').replace('tail -30 "$t/err"', 'grep -E "panicked|seen" "$t/err" | head -5')
N = 'parcom-internals/src/future/notify.rs'
M = r'''
use parcom_internals::future::notify::Notify;
use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll, Waker};
static DATA: AtomicUsize = AtomicUsize::new(0);
fn main() {
    let n = Notify::new();
    let w = n.wait();
    std::thread::scope(|s| {
        s.spawn(|| {
            DATA.store(1, Ordering::Relaxed);
            n.send();
        });
        let mut w = std::pin::pin!(w);
        let mut cx = Context::from_waker(Waker::noop());
        for _ in 0..3 {
            if let Poll::Ready(()) = w.as_mut().poll(&mut cx) {
                assert_eq!(DATA.load(Ordering::Relaxed), 1, "the notification is seen, what was done before it is not");
                break;
            }
            std::thread::yield_now();
        }
    });
}
'''
seed('c18-relaxed-counter', 'C18', [(N, "self.version.fetch_add(1, Ordering::SeqCst);", "self.version.fetch_add(1, Ordering::Relaxed);")],
 'a poll between the counting of a notification and the emptying of the list, on a machine with weak memory ordering', 'the waiter does not see what was done before the notification', M, sh_body=MIRI, prelude=False)
seed('c18-relaxed-recheck', 'C18', [(N, "if self.version != signal.version.load(Ordering::SeqCst) {", "if self.version != signal.version.load(Ordering::Relaxed) {")],
 'a notification counted while a poll registers, on a machine with weak memory ordering', 'the waiter does not see what was done before the notification', M, sh_body=MIRI, prelude=False)
seed('c09-zero-unit', 'C09', [('parcom-core/src/primitive.rs', "pub const ZERO: Self = Self(0);", "pub const ZERO: Self = Self(1);")],
 'advancing a text by the zero length', 'a character is skipped', r'''
fn main() {
    assert_eq!(block_on(Sequence::advance("abc", BytesDelta::ZERO)), "abc");
}
''')
seed('c11-new-mid-line', 'C11', [('parcom-metrics/src/line_colmn.rs', """            location: start,
            next_is_new_line: true,""", """            next_is_new_line: start.total_count > 0,
            location: start,""")],
 'a meter started explicitly at the origin', 'the first line is not counted', r'''
use parcom_core::measured::*;
use parcom_metrics::end_of_line::LF;
use parcom_metrics::*;
fn main() {
    let m = LineColumnMeter::<LF>::new(LineColumn::default());
    let x = Meter::<str>::metrics(&Meter::<str>::advance(m, "ab\nc"));
    assert_eq!((x.total_count, x.line, x.column), (4, 2, 1));
}
''')
seed('c03-take-none-once', 'C03', [('parcom-parsers/src/iterative/take.rs', """            state: self.parser.parse_iterative_once(),
            left: self.count,""", """            state: self.parser.parse_iterative_once(),
            left: self.count.max(1),""")],
 'taking none of a repetition, by value', 'an element is consumed by value but not by reference', r'''
fn main() {
    let p = letter.repeat().take(0);
    let mut st = p.parse_iterative();
    assert_eq!(block_on(st.parse_next("abc")).unwrap(), (None, "abc"));
    let mut st = p.parse_iterative_once();
    assert_eq!(block_on(st.parse_next("abc")).unwrap(), (None, "abc"));
}
''')
seed('c08-any-char-wide', 'C08', [('parcom-parsers/src/primitive/any.rs', "return done(c, input.advance(BytesDelta::from_char(c)).await);", "return done(c, input.advance(BytesDelta::from_bytes(if c.is_ascii() { 1 } else { (c as u32).ilog2() as usize / 5 + 1 })).await);")],
 'any character of two or of four bytes', 'the wrong number of bytes is consumed', r'''
fn main() {
    for t in ["a", "\u{e9}", "\u{3042}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{7ff}", "\u{80}"] {
        let s = format!("{t}z");
        let (c, r) = block_on(any_char().parse(&s[..])).unwrap();
        assert_eq!((c, r), (t.chars().next().unwrap(), "z"));
    }
}
''')
seed('c26-new-swapped', 'C26', [('parcom-sequence-core/src/load_info.rs', """            uncommited,
            buffer_capacity,
            is_done: false,""", """            uncommited: uncommited.min(buffer_capacity),
            buffer_capacity: buffer_capacity.max(commited),
            is_done: false,""")],
 'a load that commits more than the new buffer holds', 'a buffer capacity is reported that is not the real one', r'''
use parcom_sequence_core::LoadInfo;
fn main() {
    let i = LoadInfo::new(9, 2, 4);
    assert_eq!((i.commited(), i.uncommited(), i.buffer_capacity(), i.is_done()), (9, 2, 4, false));
}
''')
seed('c28-unit-items', 'C28', [('parcom-core/src/primitive/slice.rs', """        let current = self.as_ptr_range();
        let target""", """        if std::mem::size_of::<T>() == 0 {
            no_positions::<T>()
        }
        let current = self.as_ptr_range();
        let target"""), ('parcom-core/src/primitive/slice.rs', """impl<T> SequenceSegment for [T] {""", """fn no_positions<T>() {
    unimplemented!("positions of items without a size")
}

impl<T> SequenceSegment for [T] {""")],
 'rewinding a slice of items without a size', 'rewinding ends in a placeholder', r'''
fn main() {
    let s: &[()] = &[(), ()];
    let a = s.anchor();
    assert_eq!(block_on(s.rewind(a)).len(), 2);
}
''')
seed('c29-map-while-latch', 'C29', [('parcom-parsers/src/iterative/map_while.rs', """    parser: P,
    f: F,
    marker: PhantomData<S>,
}

impl<S: Sequence, P: IterativeParserOnce<S>, F> MapWhile<S, P, F> {""", """    parser: P,
    f: F,
    ended: std::sync::OnceLock<()>,
    marker: PhantomData<S>,
}

impl<S: Sequence, P: IterativeParserOnce<S>, F> MapWhile<S, P, F> {"""), ('parcom-parsers/src/iterative/map_while.rs', """            parser,
            f,
""", """            parser,
            f,
            ended: std::sync::OnceLock::new(),
"""), ('parcom-parsers/src/iterative/map_while.rs', """    type StateOnce = IterationState<S, P::StateOnce, F>;

    fn parse_iterative_once(self) -> Self::StateOnce {
        IterationState {
""", """    type StateOnce = IterationState<S, P::StateOnce, F, std::sync::OnceLock<()>>;

    fn parse_iterative_once(self) -> Self::StateOnce {
        IterationState {
            ended: self.ended,
"""), ('parcom-parsers/src/iterative/map_while.rs', """        = IterationState<S, P::State<'a>, &'a F>
""", """        = IterationState<S, P::State<'a>, &'a F, &'a std::sync::OnceLock<()>>
"""), ('parcom-parsers/src/iterative/map_while.rs', """    fn parse_iterative(&self) -> Self::State<'_> {
        IterationState {
""", """    fn parse_iterative(&self) -> Self::State<'_> {
        IterationState {
            ended: &self.ended,
"""), ('parcom-parsers/src/iterative/map_while.rs', """pub struct IterationState<S: Sequence, P: IterativeParserState<S>, F> {
    state: P,
""", """pub struct IterationState<S: Sequence, P: IterativeParserState<S>, F, D> {
    ended: D,
    state: P,
"""), ('parcom-parsers/src/iterative/map_while.rs', """impl<S, P, O, F> IterativeParserState<S> for IterationState<S, P, F>
where
    S: Sequence,""", """impl<S, P, O, F, D> IterativeParserState<S> for IterationState<S, P, F, D>
where
    D: std::borrow::Borrow<std::sync::OnceLock<()>>,
    S: Sequence,"""), ('parcom-parsers/src/iterative/map_while.rs', """        self.state
            .parse_next(input)
            .await
            .map(|(v, r)| (v.and_then(&self.f), r))
""", """        let ended: &std::sync::OnceLock<()> = self.ended.borrow();
        if ended.get().is_some() {
            return Ok((None, input));
        }
        let r = self
            .state
            .parse_next(input)
            .await
            .map(|(v, r)| (v.and_then(&self.f), r));
        if let Ok((None, _)) = &r {
            // stopped: stay stopped
            let _ = ended.set(());
        }
        r
""")],
 'a second iteration of the same parser by reference, after one that stopped', 'the second iteration yields nothing', r'''
fn main() {
    let p = letter.repeat().map_while(|c| if c < 'c' { Some(c) } else { None });
    for _ in 0..2 {
        let mut st = p.parse_iterative();
        let (a, r) = block_on(st.parse_next("ac")).unwrap();
        let (b, _) = block_on(st.parse_next(r)).unwrap();
        assert_eq!((a, b), (Some('a'), None));
    }
}
''')
seed('c30-fold-rc', 'C30', [('parcom-parsers/src/iterative/fold.rs', "    let mut acc = init;\n", "    let mut acc = init;\n    let steps = std::rc::Rc::new(std::cell::Cell::new(0usize));\n    let _on_exit = std::rc::Rc::clone(&steps);\n")],
 'a fold used by a multi-threaded executor', 'the future is no longer sendable although every part is', r'''
fn send<T: Send>(t: T) -> T { t }
fn main() {
    let p = letter.repeat().fold(0usize, |n, _| n + 1);
    let f = send(p.parse("ab1"));
    let (n, r) = std::thread::scope(|s| s.spawn(|| block_on(f)).join().unwrap()).unwrap();
    assert_eq!((n, r), (2, "1"));
}
''')
