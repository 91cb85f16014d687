//! Small value types and helpers.
use crate::u::*;
use parcom_core::*;
use parcom_util::error::*;
use parcom_util::*;

macro_rules! pair { ($m:ident ($($p:ident : $t:ty),*) -> $r:ty; $lib:expr; $spec:expr) => { pub mod $m {
    use super::*;
    pub fn lib($($p: $t),*) -> $r { $lib }
    pub fn spec($($p: $t),*) -> $r { $spec }
} } }

// ---- which errors ask to terminate
pub mod term {
    use super::*;
    pair! { either (e: Either<E0, E1>) -> bool; e.should_terminate(); match e { Either::First(e) => e.should_terminate(), Either::Last(e) => e.should_terminate() } }
    pair! { either_both (e: EitherBoth<E0, E1>) -> bool; e.should_terminate(); match e {
        EitherBoth::First(e) => e.should_terminate(),
        EitherBoth::Last(e) => e.should_terminate(),
        EitherBoth::Both(a, b) => { let x = a.should_terminate(); let y = b.should_terminate(); x | y }
    } }
    pair! { option (e: Option<E0>) -> bool; e.should_terminate(); match e { Some(e) => e.should_terminate(), None => false } }
    pair! { reference (e: &E0) -> bool; ParseError::should_terminate(&e); e.should_terminate() }
    pair! { fatal (e: E0) -> bool; Fatal(e).should_terminate(); true }
    pair! { miss (e: E0) -> bool; Miss(e).should_terminate(); false }
    pair! { nested (e: EitherBoth<Option<E0>, Either<Miss<E1>, Fatal<E2>>>) -> bool; e.should_terminate(); {
        fn a(e: &Option<E0>) -> bool { match e { Some(e) => e.should_terminate(), None => false } }
        fn b(e: &Either<Miss<E1>, Fatal<E2>>) -> bool { match e { Either::First(_) => false, Either::Last(_) => true } }
        match &e {
            EitherBoth::First(e) => a(e),
            EitherBoth::Last(e) => b(e),
            EitherBoth::Both(x, y) => a(x) | b(y),
        }
    } }
}
// ---- helpers that end a parser
pub mod ends {
    use super::*;
    pair! { done (o: O0, s: S) -> ParseResult<S, O0, E0>; parcom_util::done(o, s); Ok((o, s)) }
    pair! { fail (e: X0, s: S) -> ParseResult<S, O0, EE>; parcom_util::fail(e, s); Err((EE::from(e), s.into())) }
    pair! { fatal_from (e: E0) -> E0; Fatal::from(e).0; e }
    pair! { miss_from (e: E0) -> E0; Miss::from(e).0; e }
}
// ---- two-way values
pub mod sides {
    use super::*;
    pair! { unify (e: Either<T0, T1>) -> TT; e.unify(); match e { Either::First(e) => TT::from(e), Either::Last(e) => TT::from(e) } }
    pair! { first_of_never (e: Either<O0, Never>) -> O0; e.always_first(); match e { Either::First(e) => e, Either::Last(n) => match n {} } }
    pair! { last_of_never (e: Either<Never, O0>) -> O0; e.always_last(); match e { Either::Last(e) => e, Either::First(n) => match n {} } }
    pair! { both_first (e: EitherBoth<O0, Never>) -> O0; e.always_first(); match e { EitherBoth::First(e) => e, EitherBoth::Last(n) => match n {}, EitherBoth::Both(_, n) => match n {} } }
    pair! { both_last (e: EitherBoth<Never, O0>) -> O0; e.always_last(); match e { EitherBoth::Last(e) => e, EitherBoth::First(n) => match n {}, EitherBoth::Both(n, _) => match n {} } }
    pair! { nested_first (e: Either<O0, Result<Never, Never>>) -> O0; e.always_first(); match e { Either::First(e) => e, Either::Last(_) => unspecified() } }
    pair! { nested_last (e: EitherBoth<Either<Never, Never>, O0>) -> O0; e.always_last(); match e { EitherBoth::Last(e) => e, _ => unspecified() } }
    pair! { unwrap_first (e: Either<V0, V1>) -> V0; e.unwrap_first(); match e { Either::First(e) => e, Either::Last(_) => panic!() } }
    pair! { unwrap_last (e: Either<V0, V1>) -> V1; e.unwrap_last(); match e { Either::Last(e) => e, Either::First(_) => panic!() } }
}
// ---- load reports
pub mod load {
    use super::*;
    use parcom_sequence_core::LoadInfo;
    pair! { going_on (c: usize, u: usize, b: usize) -> (usize, usize, usize, bool); { let l = LoadInfo::new(c, u, b); (l.commited(), l.uncommited(), l.buffer_capacity(), l.is_done()) }; (c, u, b, false) }
    pair! { finished (c: usize) -> (usize, usize, usize, bool); { let l = LoadInfo::done(c); (l.commited(), l.uncommited(), l.buffer_capacity(), l.is_done()) }; (c, 0, 0, true) }
    pair! { stable (c: usize, u: usize, b: usize) -> (usize, usize, usize, bool, usize, usize, usize, bool); {
        let l = LoadInfo::new(c, u, b);
        let x = (l.is_done(), l.buffer_capacity(), l.uncommited(), l.commited());
        (x.3, x.2, x.1, x.0, l.commited(), l.uncommited(), l.buffer_capacity(), l.is_done()) }; (c, u, b, false, c, u, b, false) }
}
// ---- growth policies behind a pointer
pub mod policy {
    use super::*;
    use parcom_sequences::BufferStrategy;
    use std::{rc::Rc, sync::Arc};
    pair! { reference (s: &Strat, n: usize) -> usize; BufferStrategy::calc_capacity(&s, n); <Strat as BufferStrategy>::calc_capacity(s, n) }
    pair! { arc (s: Arc<Strat>, n: usize) -> usize; BufferStrategy::calc_capacity(&s, n); <Strat as BufferStrategy>::calc_capacity(&*s, n) }
    pair! { rc (s: Rc<Strat>, n: usize) -> usize; BufferStrategy::calc_capacity(&s, n); <Strat as BufferStrategy>::calc_capacity(&*s, n) }
}
