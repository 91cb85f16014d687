//! Opaque environment.
use parcom_core::*;
use parcom_parsers::combinator::bin_expr::{Associativity, Operator};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context, Poll};

pub fn opaque<T>() -> T {
    loop {}
}

/// A future made by user code.
pub struct Fut<T>(PhantomData<fn() -> T>);
impl<T> Future for Fut<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<T> {
        opaque()
    }
}
unsafe impl<T> Send for Fut<T> {}

// ---- opaque input stream (combinators never look at segments)
pub struct S;
pub struct Anc;
pub struct RewindF;
pub struct AdvF;
pub struct Segs<'a>(PhantomData<&'a mut S>);
pub struct SegF<'a>(PhantomData<&'a u8>);
pub struct Seg;

impl Sequence for S {
    type Length = usize;
    type Segment = Seg;
    type Segments<'a> = Segs<'a>;
    type Advance = AdvF;
    fn segments<'a>(&'a mut self) -> Segs<'a> {
        opaque()
    }
    fn advance(self, _d: usize) -> AdvF {
        opaque()
    }
}
impl<'x> SegmentStream for Segs<'x> {
    type Length = usize;
    type Segment = Seg;
    type Next<'a> = SegF<'a> where Self: 'a;
    fn next<'a>(&'a mut self, _h: usize) -> SegF<'a> {
        opaque()
    }
}
impl<'a> Future for SegF<'a> {
    type Output = Option<&'a Seg>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        opaque()
    }
}
impl Future for AdvF {
    type Output = S;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<S> {
        opaque()
    }
}
impl RewindSequence for S {
    type Anchor = Anc;
    type Rewind = RewindF;
    fn anchor(&self) -> Anc {
        opaque()
    }
    fn rewind(self, _a: Anc) -> RewindF {
        opaque()
    }
}
impl Future for RewindF {
    type Output = S;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<S> {
        opaque()
    }
}

// ---- opaque values, errors, parsers
macro_rules! val { ($($n:ident),*) => { $(pub struct $n; )* } }
val!(O0, O1, O2, O3, T0, T1, TT, U0, St0, Acc);
macro_rules! err { ($($n:ident),*) => { $(pub struct $n;
    impl ParseError for $n { fn should_terminate(&self) -> bool { opaque() } } )* } }
err!(E0, E1, E2, EE, X0, X1);
macro_rules! parser { ($n:ident, $o:ty, $e:ty) => {
    pub struct $n;
    impl Parser<S> for $n { fn parse(&self, _i: S) -> impl Future<Output = ParseResult<S, $o, $e>> { opaque::<Fut<ParseResult<S, $o, $e>>>() } }
    impl ParserOnce<S> for $n { type Output = $o; type Error = $e;
        fn parse_once(self, _i: S) -> impl Future<Output = ParseResult<S, $o, $e>> { opaque::<Fut<ParseResult<S, $o, $e>>>() } }
} }
parser!(P0, O0, E0);
parser!(P1, O1, E1);
parser!(PU, parcom_util::Either<T0, T1>, E0);
parser!(PUE, O0, parcom_util::Either<X0, X1>);
parser!(PTerm, O0, E0);
parser!(POp, Op, E1);
impl From<T0> for TT { fn from(_: T0) -> TT { opaque() } }
impl From<T1> for TT { fn from(_: T1) -> TT { opaque() } }
impl From<X0> for EE { fn from(_: X0) -> EE { opaque() } }
impl From<X1> for EE { fn from(_: X1) -> EE { opaque() } }
impl From<E0> for EE { fn from(_: E0) -> EE { opaque() } }

// ---- opaque functions
pub fn ev_map(_: O0) -> O2 { opaque() }
pub fn ev_map_err(_: E0) -> E2 { opaque() }
pub fn ev_try(_: O0) -> Result<O2, EE> { opaque() }
pub fn ev_opt(_: O0) -> Option<O2> { opaque() }
pub fn ev_fold(_: Acc, _: O0) -> Acc { opaque() }
pub fn ev_scan(_: &mut St0, _: O0) -> O2 { opaque() }
pub fn ev_got<T>(_: T) -> bool { opaque() }
pub fn user_fn(_: S) -> Fut<ParseResult<S, O0, E0>> { opaque() }
impl Clone for Acc { fn clone(&self) -> Acc { opaque() } }
impl Clone for St0 { fn clone(&self) -> St0 { opaque() } }

// ---- iterative parser
pub struct IP;
pub struct ISt<'a>(PhantomData<&'a IP>);
pub struct IStOnce;
impl IterativeParserOnce<S> for IP {
    type Output = O0;
    type Error = E0;
    type StateOnce = IStOnce;
    fn parse_iterative_once(self) -> IStOnce { opaque() }
}
impl IterativeParser<S> for IP {
    type State<'a> = ISt<'a>;
    fn parse_iterative(&self) -> ISt<'_> { opaque() }
}
impl<'a> IterativeParserState<S> for ISt<'a> {
    type Output = O0;
    type Error = E0;
    fn parse_next(&mut self, _i: S) -> impl Future<Output = ParseResult<S, Option<O0>, E0>> { opaque::<Fut<ParseResult<S, Option<O0>, E0>>>() }
}
impl IterativeParserState<S> for IStOnce {
    type Output = O0;
    type Error = E0;
    fn parse_next(&mut self, _i: S) -> impl Future<Output = ParseResult<S, Option<O0>, E0>> { opaque::<Fut<ParseResult<S, Option<O0>, E0>>>() }
}
// ---- collection
pub struct Coll;
impl Default for Coll { fn default() -> Coll { opaque() } }
impl Extend<O0> for Coll { fn extend<T: IntoIterator<Item = O0>>(&mut self, _it: T) { opaque() } }

// ---- operators and expressions (building an expression is an observable event)
pub struct Op;
impl Operator for Op {
    fn precedence(&self) -> usize { opaque() }
    fn associativity(&self) -> Associativity { opaque() }
}
pub struct EvExpr;
impl From<(EvExpr, Op, EvExpr)> for EvExpr { fn from(_: (EvExpr, Op, EvExpr)) -> EvExpr { opaque() } }
impl From<O0> for EvExpr { fn from(_: O0) -> EvExpr { opaque() } }

// ---- opaque streams of text and of items, cut into segments in any way
macro_rules! stream { ($s:ident, $segs:ident, $nx:ident, $adv:ident, $anc:ident, $rw:ident, $seg:ty, $len:ty) => {
    pub struct $s;
    pub struct $adv;
    pub struct $anc;
    pub struct $rw;
    pub struct $segs<'a>(PhantomData<&'a mut $s>);
    pub struct $nx<'a>(PhantomData<&'a u8>);
    impl Sequence for $s {
        type Length = $len;
        type Segment = $seg;
        type Segments<'a> = $segs<'a>;
        type Advance = $adv;
        fn segments<'a>(&'a mut self) -> $segs<'a> { opaque() }
        fn advance(self, _d: $len) -> $adv { opaque() }
    }
    impl<'x> SegmentStream for $segs<'x> {
        type Length = $len;
        type Segment = $seg;
        type Next<'a> = $nx<'a> where Self: 'a;
        fn next<'a>(&'a mut self, _h: $len) -> $nx<'a> { opaque() }
    }
    impl<'a> Future for $nx<'a> {
        type Output = Option<&'a $seg>;
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> { opaque() }
    }
    impl Future for $adv {
        type Output = $s;
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<$s> { opaque() }
    }
    impl RewindSequence for $s {
        type Anchor = $anc;
        type Rewind = $rw;
        fn anchor(&self) -> $anc { opaque() }
        fn rewind(self, _a: $anc) -> $rw { opaque() }
    }
    impl Future for $rw {
        type Output = $s;
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<$s> { opaque() }
    }
} }
stream!(SText, SegsText, NextText, AdvText, AncText, RewText, str, primitive::BytesDelta);
stream!(SItem, SegsItem, NextItem, AdvItem, AncItem, RewItem, [It], usize);

/// opaque item
pub struct It(u64);
impl Clone for It { fn clone(&self) -> It { opaque() } }
impl PartialEq for It { fn eq(&self, _o: &It) -> bool { opaque() } }
/// opaque zero-sized item
pub struct Z;

/// the contract leaves this case open
pub fn unspecified() -> ! { opaque() }

// ---- opaque meter of text and of items
pub struct Mt;
pub struct Mx;
impl Clone for Mt { fn clone(&self) -> Mt { opaque() } }
impl Default for Mt { fn default() -> Mt { opaque() } }
impl PartialEq for Mx { fn eq(&self, _o: &Mx) -> bool { opaque() } }
impl Eq for Mx {}
impl PartialOrd for Mx { fn partial_cmp(&self, _o: &Mx) -> Option<std::cmp::Ordering> { opaque() } }
impl Ord for Mx { fn cmp(&self, _o: &Mx) -> std::cmp::Ordering { opaque() } }
impl measured::Meter<str> for Mt { type Metrics = Mx;
    fn advance(self, _s: &str) -> Mt { opaque() }
    fn metrics(&self) -> Mx { opaque() } }
impl measured::Metrics<str> for Mx { type Meter = Mt; }
impl measured::Meter<[It]> for Mt { type Metrics = Mx;
    fn advance(self, _s: &[It]) -> Mt { opaque() }
    fn metrics(&self) -> Mx { opaque() } }
impl measured::Metrics<[It]> for Mx { type Meter = Mt; }
pub struct V0;
pub struct V1;
impl std::fmt::Debug for V0 { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { opaque() } }
impl std::fmt::Debug for V1 { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { opaque() } }

// ---- characters and pieces of text from outside
pub fn ev_char() -> char { opaque() }
pub fn ev_told(_: u8) { opaque() }
pub fn ev_text() -> &'static str { opaque() }
pub fn ev_pos(_t: usize, _l: usize, _c: usize) { opaque() }
use parcom_metrics::end_of_line::EndOfLineMatch;
#[derive(Default)]
pub struct OwnEol;
pub fn ev_own(_: char) -> EndOfLineMatch { opaque() }

// ---- things whose release is observable
pub struct DTok;
impl Drop for DTok { fn drop(&mut self) { opaque() } }
pub struct DFut;
impl Drop for DFut { fn drop(&mut self) { opaque() } }
impl Future for DFut {
    type Output = O0;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<O0> { opaque() }
}
pub struct Pr;
impl Pr { pub fn ok(&self, _t: &T0) -> bool { opaque() } }
pub fn ev_item() -> Option<T0> { opaque() }
pub fn ev_token() -> DTok { opaque() }
pub fn ev_seen(_: u8, _: T0) { opaque() }

// ---- operations on a vector
pub enum VecStart { New, Default, Room(usize) }
pub enum VecOp { Push, Pop, Reserve(usize), ReserveExact(usize), Look, LookMut, Empty, End }
pub fn ev_op() -> VecOp { opaque() }
pub fn ev_fits(_: bool) { opaque() }
pub fn ev_bool(_: bool) { opaque() }
/// an item of some size whose release is observable
pub struct DIt(u64);
impl Drop for DIt { fn drop(&mut self) { opaque() } }
/// the same without a size
pub struct DZ;
impl Drop for DZ { fn drop(&mut self) { opaque() } }
pub fn ev_ditem() -> DIt { opaque() }
pub fn ev_dpopped(_: Option<DIt>) { opaque() }
pub fn ev_dseen(_: &[DIt]) { opaque() }
pub fn ev_zitem() -> DZ { opaque() }
pub fn ev_zpopped(_: Option<DZ>) { opaque() }
pub fn ev_zseen(_: &[DZ]) { opaque() }

// ---- buffer writers
pub enum WrOp { Push, Look, Fill, Shrink(usize), End }
pub fn ev_wr() -> WrOp { opaque() }
pub fn ev_put(_: Result<(), DIt>) { opaque() }
pub fn ev_len(_: usize) { opaque() }

// ---- chunks of items from outside
pub struct Chunks;
pub struct Chunk;
impl Iterator for Chunks {
    type Item = Chunk;
    fn next(&mut self) -> Option<Chunk> { opaque() }
}
impl AsRef<[EvIt]> for Chunk { fn as_ref(&self) -> &[EvIt] { opaque() } }
/// an item whose duplication is observable
pub struct EvIt(u64);
impl Clone for EvIt { fn clone(&self) -> EvIt { opaque() } }
pub fn ev_iseen(_: &[EvIt]) { opaque() }

// ---- bytes from outside
pub struct SErr;
pub enum BSrc { Data(&'static [u8], Result<(), SErr>), End, Fail(SErr) }
pub fn ev_bsrc() -> BSrc { opaque() }
pub fn ev_bseen(_: usize, _: bool, _: Vec<u8>) { opaque() }
pub fn ev_bout(_: crate::utf8::Out) { opaque() }
pub enum End { Keep, Cancel(SErr), Stall }
pub enum GSrc { Data(usize, &'static [u8], End), End, Fail(SErr) }
pub enum GStep { Commit, Load }
pub struct Strat(());
impl parcom_sequences::BufferStrategy for Strat { fn calc_capacity(&self, _: usize) -> usize { opaque() } }
pub fn ev_gsrc() -> GSrc { opaque() }
pub fn ev_gstep() -> GStep { opaque() }
pub fn ev_gseen(_: bool, _: bool, _: bool, _: Vec<u8>) { opaque() }
pub fn ev_gload(_: usize, _: usize, _: usize, _: bool) { opaque() }
pub fn ev_gfail(_: SErr) { opaque() }
pub fn ev_gread(_: usize, _: Vec<u8>) { opaque() }
// ---- notifications
pub fn ev_waker() -> &'static std::task::Waker { opaque() }
pub fn ev_sent() { opaque() }
pub fn ev_waiting() { opaque() }
pub fn ev_ready() { opaque() }
pub fn ev_pending() { opaque() }
// ---- a buffer filled by someone else while it is read
pub struct EvBuf(());
pub struct EvIter<'a>(PhantomData<&'a Seg>);
impl<'a> Iterator for EvIter<'a> {
    type Item = &'a Seg;
    fn next(&mut self) -> Option<&'a Seg> { opaque() }
}
impl parcom_sequence_core::SequenceBuffer for EvBuf {
    type Length = usize;
    type Segment = Seg;
    type Iter<'a> = EvIter<'a>;
    fn advance(&mut self, _: usize) -> usize { opaque() }
    fn segments(&self) -> EvIter<'_> { opaque() }
}
pub struct Ldr(());
pub struct LdF;
impl Future for LdF {
    type Output = Result<parcom_sequence_core::LoadInfo, SErr>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> { opaque() }
}
impl parcom_sequence_core::SequenceLoader for Ldr {
    type Length = usize;
    type Segment = Seg;
    type Error = SErr;
    type Load<'a> = LdF;
    fn force_commit(&mut self) { opaque() }
    fn load(&mut self) -> LdF { opaque() }
}
pub struct AnySrc(());
pub struct AnyNext<C>(PhantomData<fn() -> C>);
impl<C: parcom_sequence_core::SequenceControl> Future for AnyNext<C> {
    type Output = C::Result;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<C::Result> { opaque() }
}
impl parcom_sequence_core::SequenceSource for AnySrc {
    type Item = u8;
    type Error = SErr;
    type Next<'a, C> = AnyNext<C> where C: 'a + parcom_sequence_core::SequenceControl<Item = u8, Error = SErr>;
    fn next<'a, C>(&'a mut self, _: C, _: usize) -> AnyNext<C>
    where C: 'a + parcom_sequence_core::SequenceControl<Item = u8, Error = SErr> { opaque() }
}
pub struct Bld(());
impl parcom_sequence_core::SequenceBuilder<AnySrc> for Bld {
    type Length = usize;
    type Segment = Seg;
    type Buffer = EvBuf;
    type Loader = Ldr;
    fn build(&self, _: AnySrc) -> (EvBuf, Ldr) { opaque() }
}
pub fn ev_seg(_: &[u8]) { opaque() }
pub fn ev_call() { opaque() }
pub fn ev_some(_: &Seg) { opaque() }
pub fn ev_none() { opaque() }
pub fn ev_by(_: usize) { opaque() }
pub fn ev_amount() -> usize { opaque() }
pub fn ev_back<T>(_: &T) { opaque() }
