//! Combinators and iteration adaptors: use of the library against its contract.
use crate::u::*;
use parcom_core::*;
use parcom_parsers::iterative::*;
use parcom_parsers::*;
use parcom_parsers::combinator::bin_expr::*;
use parcom_util::*;

/// `byref` and `once` use the library; `spec` is the contract both must meet.
macro_rules! comp {
    ($m:ident ($($p:ident : $t:ty),*) -> $O:ty, $E:ty; $build:expr; |$i:ident| $spec:block) => {
        pub mod $m {
            use super::*;
            pub async fn byref($($p: $t,)* input: S) -> ParseResult<S, $O, $E> {
                let r = $build;
                Parser::parse(&r, input).await
            }
            pub async fn once($($p: $t,)* input: S) -> ParseResult<S, $O, $E> {
                let r = $build;
                ParserOnce::parse_once(r, input).await
            }
            pub async fn spec($($p: $t,)* $i: S) -> ParseResult<S, $O, $E> $spec
        }
    };
}

comp! { or (p: P0, q: P1) -> Either<O0, O1>, EitherBoth<E0, E1>; p.or(q); |i| {
    let a = i.anchor();
    let (e0, r) = match p.parse(i).await {
        Ok((v, r)) => return Ok((Either::First(v), r)),
        Err(x) => x,
    };
    if e0.should_terminate() {
        return Err((EitherBoth::First(e0), r));
    }
    let i = r.rewind(a).await;
    match q.parse(i).await {
        Ok((v, r)) => Ok((Either::Last(v), r)),
        Err((e1, r)) => {
            if e1.should_terminate() {
                Err((EitherBoth::Last(e1), r))
            } else {
                Err((EitherBoth::Both(e0, e1), r))
            }
        }
    }
} }

comp! { optional (p: P0) -> Result<O0, E0>, E0; p.optional(); |i| {
    let a = i.anchor();
    match p.parse(i).await {
        Ok((v, r)) => Ok((Ok(v), r)),
        Err((e, r)) => if e.should_terminate() { Err((e, r)) } else { let r = r.rewind(a).await; Ok((Err(e), r)) },
    }
} }

comp! { join (p: P0, q: P1) -> (O0, O1), Either<E0, E1>; p.join(q); |i| {
    match p.parse(i).await {
        Err((e, r)) => Err((Either::First(e), r)),
        Ok((a, r)) => match q.parse(r).await {
            Err((e, r)) => Err((Either::Last(e), r)),
            Ok((b, r)) => Ok(((a, b), r)),
        },
    }
} }

comp! { map (p: P0) -> O2, E0; p.map(ev_map); |i| {
    match p.parse(i).await {
        Ok((v, r)) => { let o = ev_map(v); Ok((o, r)) }
        Err((e, r)) => Err((e, r)),
    }
} }

comp! { map_err (p: P0) -> O0, E2; p.map_err(ev_map_err); |i| {
    match p.parse(i).await {
        Ok((v, r)) => Ok((v, r)),
        Err((e, r)) => { let e = ev_map_err(e); Err((e, r)) }
    }
} }

comp! { and_then (p: P0) -> O2, EE; p.and_then(ev_try); |i| {
    match p.parse(i).await {
        Ok((v, r)) => match ev_try(v) { Ok(o) => Ok((o, r)), Err(e) => Err((e, r.into())) },
        Err((e, r)) => Err((EE::from(e), r)),
    }
} }

comp! { unify (p: PU) -> TT, E0; p.unify::<T0, T1, TT>(); |i| {
    match p.parse(i).await {
        Ok((Either::First(v), r)) => Ok((TT::from(v), r)),
        Ok((Either::Last(v), r)) => Ok((TT::from(v), r)),
        Err((e, r)) => Err((e, r)),
    }
} }

comp! { unify_err (p: PUE) -> O0, EE; p.unify_err::<X0, X1, EE>(); |i| {
    match p.parse(i).await {
        Ok((v, r)) => Ok((v, r)),
        Err((Either::First(e), r)) => Err((EE::from(e), r)),
        Err((Either::Last(e), r)) => Err((EE::from(e), r)),
    }
} }

// the wrappers change nothing
comp! { reference (p: P0) -> O0, E0; ParserExtension::<S>::as_ref(&p); |i| { p.parse(i).await } }
comp! { reference_new (p: P0) -> O0, E0; Ref::new(&p); |i| { p.parse(i).await } }
comp! { reference_copy (p: P0) -> O0, E0; { let r: Ref<'_, S, P0> = Ref::new(&p); let s = r; let _u = r; s.clone() }; |i| { p.parse(i).await } }
comp! { boxed (p: P0) -> O0, E0; p.boxed(); |i| { p.parse(i).await } }
comp! { closure () -> O0, E0; user_fn; |i| { user_fn(i).await } }
comp! { closure_capture (p: P0) -> O0, E0; |i: S| p.parse(i); |i| { p.parse(i).await } }

comp! { repeat (p: P0) -> (Vec<O0>, E0), E0; p.repeat(); |input| {
    let mut out = Vec::new();
    let mut i = input;
    loop {
        let a = i.anchor();
        match p.parse(i).await {
            Ok((v, r)) => { out.push(v); i = r; }
            Err((e, r)) => {
                if e.should_terminate() { return Err((e, r)); }
                let i = r.rewind(a).await;
                return Ok(((out, e), i));
            }
        }
    }
} }

comp! { collect (p: IP) -> (Coll, Option<E0>), E0; p.collect::<Coll>(); |input| {
    let mut st = p.parse_iterative();
    let mut c = Coll::default();
    let mut i = input;
    loop {
        let a = i.anchor();
        match st.parse_next(i).await {
            Ok((Some(v), r)) => { c.extend(Some(v)); i = r; }
            Ok((None, r)) => { let i = r.rewind(a).await; return Ok(((c, None), i)); }
            Err((e, r)) => {
                if e.should_terminate() { return Err((e, r)); }
                let i = r.rewind(a).await;
                return Ok(((c, Some(e)), i));
            }
        }
    }
} }

comp! { fold (p: IP, init: Acc) -> Acc, E0; p.fold(init, ev_fold); |input| {
    let mut st = p.parse_iterative();
    let mut acc = init;
    let mut i = input;
    loop {
        match st.parse_next(i).await {
            Ok((Some(v), r)) => { acc = ev_fold(acc, v); i = r; }
            Ok((None, r)) => return Ok((acc, r)),
            Err((e, r)) => return Err((e, r)),
        }
    }
} }

// ---- iterative adaptors: driven item by item, also beyond the end signal
pub async fn drive<St: IterativeParserState<S>>(mut st: St, input: S) -> ParseResult<S, (), St::Error> {
    let mut i = input;
    loop {
        let a = i.anchor();
        match st.parse_next(i).await {
            Ok((v, r)) => { if !ev_got(v) { return Ok(((), r)); } i = r; }
            Err((e, r)) => {
                // the caller may go on from the recorded position after a failure
                if !ev_got(e) { return Ok(((), r.rewind(a).await)); }
                i = r.rewind(a).await;
            }
        }
    }
}

macro_rules! iter {
    ($m:ident ($($p:ident : $t:ty),*) -> $O:ty, $E:ty; $build:expr; state $st:ident = $init:expr; |$i:ident| $spec:block) => {
        pub mod $m {
            use super::*;
            pub async fn byref($($p: $t,)* input: S) -> ParseResult<S, (), $E> {
                let r = $build;
                drive(IterativeParser::parse_iterative(&r), input).await
            }
            pub async fn once($($p: $t,)* input: S) -> ParseResult<S, (), $E> {
                let r = $build;
                drive(IterativeParserOnce::parse_iterative_once(r), input).await
            }
            pub async fn ref_once($($p: $t,)* input: S) -> ParseResult<S, (), $E> {
                let r = $build;
                drive(IterativeParserOnce::<S>::parse_iterative_once(&r), input).await
            }
            pub async fn ref_ref($($p: $t,)* input: S) -> ParseResult<S, (), $E> {
                let r = $build;
                let r = &r;
                drive(IterativeParser::<S>::parse_iterative(&r), input).await
            }
            pub async fn spec($($p: $t,)* input: S) -> ParseResult<S, (), $E> {
                let mut $st = $init;
                let mut $i = input;
                loop {
                    let a = $i.anchor();
                    let res: ParseResult<S, Option<$O>, $E> = $spec;
                    match res {
                        Ok((v, r)) => { if !ev_got(v) { return Ok(((), r)); } $i = r; }
                        Err((e, r)) => {
                            if !ev_got(e) { return Ok(((), r.rewind(a).await)); }
                            $i = r.rewind(a).await;
                        }
                    }
                }
            }
        }
    };
}

iter! { it_repeat (p: P0) -> O0, E0; p.repeat(); state st = (); |i| {
    let b = i.anchor();
    match p.parse(i).await {
        Ok((v, r)) => Ok((Some(v), r)),
        Err((e, r)) => if e.should_terminate() { Err((e, r)) } else { Ok((None, r.rewind(b).await)) },
    }
} }

iter! { it_optional (p: P0) -> O0, E0; p.optional(); state used = false; |i| {
    if used { Ok((None, i)) } else {
        used = true;
        let b = i.anchor();
        match p.parse(i).await {
            Ok((v, r)) => Ok((Some(v), r)),
            Err((e, r)) => if e.should_terminate() { Err((e, r)) } else { Ok((None, r.rewind(b).await)) },
        }
    }
} }

iter! { map_each (p: IP) -> O2, E0; p.map_each(ev_map); state st = p.parse_iterative(); |i| {
    match st.parse_next(i).await {
        Ok((Some(v), r)) => { let o = ev_map(v); Ok((Some(o), r)) }
        Ok((None, r)) => Ok((None, r)),
        Err((e, r)) => Err((e, r)),
    }
} }

iter! { map_while (p: IP) -> O2, E0; p.map_while(ev_opt); state st = p.parse_iterative(); |i| {
    match st.parse_next(i).await {
        Ok((Some(v), r)) => { let o = ev_opt(v); Ok((o, r)) }
        Ok((None, r)) => Ok((None, r)),
        Err((e, r)) => Err((e, r)),
    }
} }

iter! { try_map_each (p: IP) -> O2, EE; p.try_map_each(ev_try); state st = p.parse_iterative(); |i| {
    match st.parse_next(i).await {
        Ok((Some(v), r)) => match ev_try(v) {
            Ok(o) => Ok((Some(o), r)),
            Err(e) => if e.should_terminate() { Err((e, r.into())) } else { Ok((None, r)) },
        },
        Ok((None, r)) => Ok((None, r)),
        Err((e, r)) => Err((EE::from(e), r)),
    }
} }

iter! { scan (p: IP, init: St0) -> O2, E0; p.scan(init, ev_scan); state st = (p.parse_iterative(), init); |i| {
    match st.0.parse_next(i).await {
        Ok((Some(v), r)) => { let o = ev_scan(&mut st.1, v); Ok((Some(o), r)) }
        Ok((None, r)) => Ok((None, r)),
        Err((e, r)) => Err((e, r)),
    }
} }

iter! { take (p: IP, n: usize) -> O0, E0; p.take(n); state st = (p.parse_iterative(), 0usize); |i| {
    if st.1 >= n { Ok((None, i)) } else {
        match st.0.parse_next(i).await {
            Ok((Some(v), r)) => { st.1 += 1; Ok((Some(v), r)) }
            Ok((None, r)) => Ok((None, r)),
            Err((e, r)) => Err((e, r)),
        }
    }
} }

iter! { it_ref (p: IP) -> O0, E0; &p; state st = p.parse_iterative(); |i| { st.parse_next(i).await } }

// ---- binary expressions
fn yields<'a>(last: &'a Op, op: &'a Op) -> bool {
    match last.associativity() {
        Associativity::Left => op.precedence() <= last.precedence(),
        Associativity::Right => op.precedence() < last.precedence(),
    }
}
comp! { bin_expr (t: PTerm, o: POp) -> (EvExpr, Either<E1, E0>), Either<E1, E0>; BinExprParser::<S, PTerm, POp, EvExpr>::new(t, o); |input| {
    let (v, r) = match t.parse(input).await {
        Ok(x) => x,
        Err((e, r)) => return Err((Either::Last(e), r)),
    };
    // pending (left operand, operator) pairs, each waiting for its right operand
    let mut pending: Vec<(EvExpr, Op)> = Vec::new();
    let mut last = EvExpr::from(v);
    let mut i = r;
    let why = loop {
        let a = i.anchor();
        let (op, r) = match o.parse(i).await {
            Ok(x) => x,
            Err((e, r)) => {
                if e.should_terminate() { return Err((Either::First(e), r)); }
                i = r.rewind(a).await;
                break Either::First(e);
            }
        };
        let (v, r) = match t.parse(r).await {
            Ok(x) => x,
            Err((e, r)) => {
                if e.should_terminate() { return Err((Either::Last(e), r)); }
                i = r.rewind(a).await;
                break Either::Last(e);
            }
        };
        i = r;
        let term = EvExpr::from(v);
        loop {
            match pending.pop() {
                Some((l, p)) => {
                    if yields(&p, &op) {
                        last = EvExpr::from((l, p, last));
                    } else {
                        pending.push((l, p));
                        break;
                    }
                }
                None => break,
            }
        }
        pending.push((last, op));
        last = term;
    };
    while let Some((l, p)) = pending.pop() {
        last = EvExpr::from((l, p, last));
    }
    Ok(((last, why), i))
} }
