NOCOMPILE = open('/verif/tools/nocompile.sh').read()
CORE = 'parcom-core/src/'
seed('c09-foreign-anchor-ignored', 'C09', [(CORE + 'primitive/str.rs', """            panic!("the anchor is not an anchor of this stream.")
""", """            std::future::ready(self)
""")], 'rewinding to a position recorded on another text', 'rewinding to a position that is not one of this input silently leaves the input where it is',
r'''
fn main() {
    let s = String::from("abcdef");
    let o = String::from("abcdef");
    let a = s.as_str().anchor();
    let at2 = block_on(s.as_str().advance(BytesDelta::from_bytes(2)));
    assert_eq!(block_on(at2.rewind(a)), "abcdef");
    let foreign = o.as_str().anchor();
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| block_on(s.as_str()[2..].rewind(foreign))).is_err());
}
''')
seed('c10-rewind-keeps-meter', 'C10', [(CORE + 'primitive/slice.rs', """    fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
        std::future::ready(anchor.me)
    }
}

impl<'me, T, M: Metrics<[T]>> MeasuredSequence""", """    fn rewind(mut self, anchor: Self::Anchor) -> Self::Rewind {
        self.base = anchor.me.base;
        std::future::ready(self)
    }
}

impl<'me, T, M: Metrics<[T]>> MeasuredSequence""")], 'a measured slice that is advanced and then rewound', 'the measure still counts the part that was handed back',
r'''
use parcom_core::measured::*;
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Default)]
struct N(usize);
impl Meter<[u8]> for N { type Metrics = N; fn advance(self, s: &[u8]) -> N { N(self.0 + s.len()) } fn metrics(&self) -> N { self.clone() } }
impl Metrics<[u8]> for N { type Meter = N; }
fn main() {
    let m = [1u8, 2, 3].as_slice().into_measured_with::<N>(N(0));
    let m = block_on(m.advance(1));
    let a = m.anchor();
    let m = block_on(m.advance(1));
    assert_eq!(m.metrics(), N(2));
    assert_eq!(block_on(m.rewind(a)).metrics(), N(1));
}
''')
seed('c10-past-end-unmeasured', 'C10', [(CORE + 'primitive/str.rs', """        let end = segment.len().min(delta.to_bytes());
        self.meter = self.meter.advance(&segment[..end]);
""", """        if let Some(consumed) = segment.get(..delta.to_bytes()) {
            self.meter = self.meter.advance(consumed);
        }
""")], 'advancing a measured text by more than is left', 'the consumed remainder is not measured',
r'''
use parcom_core::measured::*;
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Default)]
struct N(usize);
impl Meter<str> for N { type Metrics = N; fn advance(self, s: &str) -> N { N(self.0 + s.len()) } fn metrics(&self) -> N { self.clone() } }
impl Metrics<str> for N { type Meter = N; }
fn main() {
    let m = "abc".into_measured_with::<N>(N(0));
    let m = block_on(m.advance(BytesDelta::from_bytes(1)));
    assert_eq!(m.metrics(), N(1));
    let m = block_on(m.advance(BytesDelta::from_bytes(7)));
    assert_eq!(m.metrics(), N(3));
}
''')
METER = r'''
use parcom_core::measured::*;
use parcom_metrics::*;
fn at<E: EndOfLine>(parts: &[&str]) -> (usize, usize, usize) {
    let mut m = LineColumnMeter::<E>::default();
    for p in parts { m = m.advance(p); }
    let l = m.metrics();
    (l.total_count, l.line, l.column)
}
'''
seed('c11-chunk-forgets', 'C11', [('parcom-metrics/src/line_colmn.rs', """    fn advance(mut self, segment: &str) -> Self {
        for c in segment.chars() {""", """    fn advance(mut self, segment: &str) -> Self {
        self.state = EOL::default();
        for c in segment.chars() {"""), ('parcom-metrics/src/line_colmn.rs', """            self.location.total_count += 1;
            self.location.column += 1;
""", """            self.location.column += 1;
            self.location.total_count += 1;
""")], 'a two-character line terminator cut between two chunks', 'the line after it is not counted',
METER + r'''
fn main() {
    assert_eq!(at::<end_of_line::CRLF>(&["a\r\nb"]), (4, 2, 1));
    assert_eq!(at::<end_of_line::CRLF>(&["a\r", "\nb"]), (4, 2, 1));
    assert_eq!(at::<end_of_line::CRLF>(&["a", "\r", "", "\n", "b"]), (4, 2, 1));
}
''')
seed('c11-bytes-counted', 'C11', [('parcom-metrics/src/line_colmn.rs', """            self.location.total_count += 1;
            self.location.column += 1;
""", """            self.location.total_count += c.len_utf8();
            self.location.column += 1;
""")], 'text with characters outside ASCII', 'the total is a number of bytes instead of characters',
METER + r'''
fn main() {
    assert_eq!(at::<end_of_line::LF>(&["a\nb"]), (3, 2, 1));
    assert_eq!(at::<end_of_line::LF>(&["é\n", "日本"]), (4, 2, 2));
}
''')
EOL = r'''
use parcom_metrics::end_of_line::*;
fn run<E: EndOfLine>(s: &str) -> Vec<bool> { let mut e = E::default(); s.chars().map(|c| e.next(c) == EndOfLineMatch::Match).collect() }
'''
seed('c12-crlf-lone-lf', 'C12', [('parcom-metrics/src/end_of_line.rs', """                    self.state = CRLFState::CR;
                    EndOfLineMatch::PartialMatch
                }
                _ => EndOfLineMatch::NotMatch,
            },""", """                    self.state = CRLFState::CR;
                    EndOfLineMatch::PartialMatch
                }
                '\\n' => EndOfLineMatch::Match,
                _ => EndOfLineMatch::NotMatch,
            },""")], 'a line feed without carriage return and the CRLF recogniser', 'a lone line feed counts as a terminator',
EOL + r'''
fn main() {
    assert_eq!(run::<CRLF>("a\r\nb"), [false, false, true, false]);
    assert_eq!(run::<CRLF>("a\nb"), [false; 3]);
    assert_eq!(run::<CRLF>("\r\n\n"), [false, true, false]);
}
''')
seed('c12-lf-next-line', 'C12', [('parcom-metrics/src/end_of_line.rs', """            '\\n' => EndOfLineMatch::Match,
            _ => EndOfLineMatch::NotMatch,
        }
    }
}

#[derive(Debug, Default)]
pub struct CR;""", """            '\\n' | '\\u{85}' => EndOfLineMatch::Match,
            _ => EndOfLineMatch::NotMatch,
        }
    }
}

#[derive(Debug, Default)]
pub struct CR;""")], 'text with the character U+0085', 'the LF recogniser accepts another character',
EOL + r'''
fn main() {
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
        assert_eq!(LF.next(c) == EndOfLineMatch::Match, c == '\n');
    }
}
''')
seed('c13-eq-skips-total', 'C13', [('parcom-metrics/src/line_colmn.rs', """        self.total_count == other.total_count
            && self.line == other.line
            && self.column == other.column""", """        self.line == other.line && self.column == other.column""")],
 'two positions with the same line and column but different totals', 'positions compare equal although the order puts one before the other',
r'''
use parcom_core::measured::*;
use parcom_metrics::*;
fn main() {
    let a = LineColumnMeter::<end_of_line::LF>::default().advance("a\nb").metrics();
    let b = LineColumnMeter::<end_of_line::LF>::default().advance("aa\nb").metrics();
    assert_eq!(a == b, a.cmp(&b).is_eq());
    assert_eq!(b == a, b.cmp(&a).is_eq());
}
''')
seed('c13-bytes-reversed', 'C13', [(CORE + 'primitive.rs', """#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct BytesDelta(usize);
""", """#[derive(Debug, Clone, Copy, PartialEq, Eq, Ord, Default)]
pub struct BytesDelta(usize);

impl PartialOrd for BytesDelta {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        (self.0 as u32).partial_cmp(&(other.0 as u32))
    }
}
""")], 'lengths that differ only above 32 bits', 'the comparison operators disagree with equality and the total order',
r'''
fn main() {
    let (a, b) = (BytesDelta::from_bytes(1), BytesDelta::from_bytes(1 + (1usize << 32)));
    assert!(a < b);
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
}
''')
seed('c26-done-capacity', 'C26', [('parcom-sequence-core/src/load_info.rs', """            uncommited: 0,
            buffer_capacity: 0,
            is_done: true,""", """            uncommited: 0,
            buffer_capacity: commited,
            is_done: true,""")], 'the report of a finished load that committed something', 'a finished report announces buffer capacity',
r'''
use parcom_sequence_core::LoadInfo;
fn main() {
    for n in [0, 1, 5] {
        let i = LoadInfo::done(n);
        assert_eq!((i.commited(), i.uncommited(), i.buffer_capacity(), i.is_done()), (n, 0, 0, true));
    }
}
''')
seed('c14-crate-field-recover', 'C14', [(CORE + 'unknown.rs', "pub struct UnknownLocation<S>(S);", "pub struct UnknownLocation<S>(pub(crate) S);"), (CORE + 'lib.rs', """pub type ParserResult<S, P> =""", """/// the input left by a parse, wherever that was.
pub fn rest_of<S, O, E>(result: ParseResult<S, O, E>) -> S {
    match result {
        Ok((_, rest)) => rest,
        Err((_, rest)) => rest.0,
    }
}

pub type ParserResult<S, P> =""")], 'safe code that calls the new helper on a failed result', 'the input after a failure is readable at an unspecified position',
r'''
fn main() {
    let r = block_on(letter.parse("1a"));
    let _ = r.is_err();
// BEGIN FORBIDDEN
    let s: &str = rest_of(r);
    println!("{s}");
// END FORBIDDEN
}
''', sh_body=NOCOMPILE)
seed('c14-map-closure', 'C14', [(CORE + 'unknown.rs', """    pub fn as_ref(&self) -> UnknownLocation<&S> {
        UnknownLocation(&self.0)
    }""", """    pub fn as_ref(&self) -> UnknownLocation<&S> {
        UnknownLocation(&self.0)
    }
    pub fn map<T>(self, f: impl FnOnce(S) -> T) -> UnknownLocation<T> {
        UnknownLocation(f(self.0))
    }""")], 'safe code that looks at the input inside the mapping function', 'the input after a failure is readable at an unspecified position',
r'''
fn main() {
    let Err((_, u)) = block_on(letter.parse("1a")) else { panic!() };
    let _ = u.as_ref();
// BEGIN FORBIDDEN
    u.map(|s: &str| println!("{s}"));
// END FORBIDDEN
}
''', sh_body=NOCOMPILE)
MARK = r'''
use std::marker::PhantomData;
struct W<T>(PhantomData<T>);
trait No { fn marked(&self) -> bool { false } }
impl<T> No for &W<T> {}
trait Yes { fn marked(&self) -> bool { true } }
impl<T: ShouldNever> Yes for W<T> {}
macro_rules! marked { ($t:ty) => { (&W::<$t>(PhantomData)).marked() } }
'''
seed('c15-either-one-side', 'C15', [('parcom-util/src/either.rs', "unsafe impl<T0: ShouldNever, T1: ShouldNever> ShouldNever for Either<T0, T1> {}", "unsafe impl<T0: ShouldNever, T1> ShouldNever for Either<T0, T1> {}")],
 'a two-way value whose first side is impossible', 'a type with values is marked as having none', MARK + r'''
fn main() {
    assert!(marked!(Never));
    assert!(marked!(Either<Never, Never>));
    assert!(!marked!(Either<Never, u8>));
    assert!(!marked!(Either<u8, Never>));
}
''')
seed('c15-result-err', 'C15', [(CORE + 'never.rs', "unsafe impl<T: ShouldNever, E: ShouldNever> ShouldNever for Result<T, E> {}", "unsafe impl<T: ShouldNever, E: crate::ParseError> ShouldNever for Result<T, E> {}")],
 'a result that can still fail', 'a result with an impossible success is marked as having no values', MARK + r'''
fn main() {
    assert!(marked!(Result<Never, Never>));
    assert!(!marked!(Result<Never, Er>));
}
''')
seed('c28-rc-strategy', 'C28', [('parcom-sequences/src/buffer_strategy.rs', """impl<B: BufferStrategy> BufferStrategy for Rc<B> {
    fn calc_capacity(&self, min_capacity: usize) -> usize {
        B::calc_capacity(&self, min_capacity)
    }""", """impl<B: BufferStrategy> BufferStrategy for Rc<B> {
    fn calc_capacity(&self, _min_capacity: usize) -> usize {
        unsupported("Rc")
    }"""), ('parcom-sequences/src/buffer_strategy.rs', """use std::{rc::Rc, sync::Arc};
""", """use std::{rc::Rc, sync::Arc};

fn unsupported(kind: &str) -> usize {
    unimplemented!("buffer strategy behind {kind}")
}
""")], 'a buffer strategy shared through Rc', 'asking for a capacity ends in a placeholder',
r'''
use parcom_sequences::*;
struct B;
impl BufferStrategy for B { fn calc_capacity(&self, n: usize) -> usize { n + 1 } }
fn main() {
    assert_eq!(Arc::new(B).calc_capacity(3), 4);
    assert_eq!(Rc::new(B).calc_capacity(3), 4);
}
''')
seed('c29-take-shared-count', 'C29', [('parcom-parsers/src/iterative/take.rs', """    parser: P,
    count: usize,
    marker: PhantomData<S>,
}
impl""", """    parser: P,
    count: std::sync::atomic::AtomicUsize,
    marker: PhantomData<S>,
}
impl"""), ('parcom-parsers/src/iterative/take.rs', """            parser,
            count,
""", """            parser,
            count: count.into(),
"""), ('parcom-parsers/src/iterative/take.rs', """            state: self.parser.parse_iterative_once(),
            left: self.count,""", """            state: self.parser.parse_iterative_once(),
            left: self.count.into_inner(),"""), ('parcom-parsers/src/iterative/take.rs', """            state: self.parser.parse_iterative(),
            left: self.count,""", """            state: self.parser.parse_iterative(),
            left: self.count.swap(0, std::sync::atomic::Ordering::Relaxed),""")],
 'two uses of the same limited parser by reference', 'the second use yields nothing', r'''
fn main() {
    let p = letter.repeat().take(2);
    for _ in 0..2 {
        let mut st = p.parse_iterative();
        let (a, r) = block_on(st.parse_next("abc")).unwrap();
        let (b, r) = block_on(st.parse_next(r)).unwrap();
        let (c, _) = block_on(st.parse_next(r)).unwrap();
        assert_eq!((a, b, c), (Some('a'), Some('b'), None));
    }
}
''')
seed('c30-repeat-cell', 'C30', [('parcom-parsers/src/combinator/repeat.rs', """        let mut buf = Vec::new();
        let mut rest = input;
""", """        let buf = std::cell::RefCell::new(Vec::new());
        let keep = |v| buf.borrow_mut().push(v);
        let mut rest = input;
"""), ('parcom-parsers/src/combinator/repeat.rs', """                    buf.push(v);
                    rest = r;""", """                    keep(v);
                    rest = r;"""), ('parcom-parsers/src/combinator/repeat.rs', """        done((buf, last_err), rest)""", """        done((buf.into_inner(), last_err), rest)""")],
 'sending the future of a repetition to another thread', 'the future is no longer sendable although every part is', r'''
fn send<T: Send>(t: T) -> T { t }
fn main() {
    let p = letter.repeat();
    let f = send(p.parse("ab1"));
    let (v, r) = std::thread::scope(|s| s.spawn(|| block_on(f)).join().unwrap()).unwrap();
    assert_eq!((v.0.len(), r), (2, "1"));
}
''')
