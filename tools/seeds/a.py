BIN_DEMO = r"""
#[derive(Debug)]
struct Op(usize);
impl Operator for Op {
    fn precedence(&self) -> usize { self.0 }
    fn associativity(&self) -> Associativity { Associativity::Left }
}
use parcom_parsers::bin_expr::*;
#[derive(Debug)]
struct E(String);
impl From<char> for E { fn from(c: char) -> E { E(c.to_string()) } }
impl From<(E, Op, E)> for E { fn from((a, o, b): (E, Op, E)) -> E { E(format!("({}{}{})", a.0, o.0, b.0)) } }
async fn op(i: &str) -> PR<'_, Op> {
    match i.chars().next().and_then(|c| c.to_digit(10)) { Some(d) => Ok((Op(d as usize), &i[1..])), None => parcom_util::fail(Er(false), i) }
}
"""
seed('c01-binexpr-late-anchor', 'C01', [('parcom-parsers/src/combinator/bin_expr.rs', """        let reason = loop {
            let anchor = rest.anchor();
""", """        let mut anchor = rest.anchor();
        let reason = loop {
"""), ('parcom-parsers/src/combinator/bin_expr.rs', """                    stack.push((rhs, op));
                    rhs = term;
                    break;
                };
""", """                    stack.push((rhs, op));
                    rhs = term;
                    anchor = rest.anchor();
                    break;
                };
"""), ('parcom-parsers/src/combinator/bin_expr.rs', """                    stack.push((rhs, op));
                    rhs = term;
                    break;
                }

""", """                    stack.push((rhs, op));
                    rhs = term;
                    anchor = rest.anchor();
                    break;
                }

"""), ('parcom-parsers/src/combinator/bin_expr.rs', """                rhs = Expr::from((lhs, last_op, rhs));
            }
        };""", """                rhs = Expr::from((lhs, last_op, rhs));
                if stack.is_empty() {
                    stack.push((rhs, op));
                    rhs = term;
                    break;
                }
            }
        };""")],
 'a left-associative chain of at least two operators followed by something that is not an operator', 'the last operator and operand are handed back as unread although they are part of the expression',
 BIN_DEMO + r"""
fn main() {
    let p = BinExprParser::<&str, _, _, E>::new(letter, op);
    for (i, rest) in [("a1b", ""), ("a1b1c?", "?"), ("a1b1c1", "1"), ("a1b2c", ""), ("a2b1c*", "*")] {
        let r = block_on(p.parse(i)).unwrap();
        assert_eq!(r.1, rest);
    }
}
""")
seed('c01-repeat-stale-anchor', 'C01', [('parcom-parsers/src/combinator/repeat.rs', """        let last_err = loop {
            let anchor = rest.anchor();
            match""", """        let mut start = None;
        let last_err = loop {
            let anchor = match start.take() {
                Some(a) => a,
                None => rest.anchor(),
            };
            match"""), ('parcom-parsers/src/combinator/repeat.rs', """                Ok((v, r)) => {
                    buf.push(v);
                    rest = r;
                }""", """                Ok((v, r)) => {
                    buf.push(v);
                    if buf.len() % 4 == 3 {
                        start = Some(anchor);
                    }
                    rest = r;
                }""")],
 'a repetition that ends after a multiple-of-four minus one successes', 'the last item is read again',
 r'''
fn main() {
    for n in 0..9 {
        let s: String = "a".repeat(n) + "1";
        let (v, r) = block_on(letter.repeat().parse(s.as_str())).unwrap();
        assert_eq!(v.0.len(), n);
        assert_eq!(r, "1");
    }
}
''')
seed('c02-opt-iter-swallow', 'C02', [('parcom-parsers/src/combinator/optional.rs', """        match me.parser.parse_once(input).await {
            Ok((v, r)) => done(Some(v), r),
            Err((e, r)) if e.should_terminate() => Err((e, r)),
            Err((_, r)) => done(None, r.rewind(anchor).await),""", """        match me.parser.parse_once(input).await {
            Ok((v, r)) => done(Some(v), r),
            Err((_, r)) => done(None, r.rewind(anchor).await),""")],
 'the by-value iterative form of optional and a terminating error', 'a terminating error is turned into the end of the iteration',
 r'''
fn main() {
    let mut st = letter.optional().parse_iterative_once();
    assert!(block_on(st.parse_next("A")).is_err());
    let mut st = letter.optional().parse_iterative_once();
    assert!(matches!(block_on(st.parse_next("1")), Ok((None, "1"))));
}
''')
seed('c02-both-and', 'C02', [('parcom-util/src/either_both.rs', "e0.should_terminate() || e1.should_terminate()", "e0.should_terminate() && e1.should_terminate()")],
 'an error carrying two errors of which one asks to terminate', 'the composed error does not ask to terminate',
 r'''
fn main() {
    for a in [false, true] { for b in [false, true] {
        assert_eq!(EitherBoth::Both(Er(a), Er(b)).should_terminate(), a || b);
    } }
}
''')
seed('c03-scan-shared', 'C03', [('parcom-parsers/src/iterative/scan.rs', """                let o = (self.f)(&mut self.state, v);
                done(Some(o), r)""", """                let o = (self.f)(&mut self.state, v);
                done(Some(o), r)
"""), ('parcom-parsers/src/combinator/or.rs', """            Err((e, r)) if !e.should_terminate() => (e, r),
            Err((e, r)) => return fail(EitherBoth::Last(e), r),
        };

        fail(EitherBoth::Both(err0, err1), rest)
    }
}

impl<S: RewindSequence, P0: Parser<S>, P1: Parser<S>> Parser<S>""", """            Err((e, r)) if !err0.should_terminate() => (e, r),
            Err((e, r)) => return fail(EitherBoth::Last(e), r),
        };

        fail(EitherBoth::Both(err0, err1), rest)
    }
}

impl<S: RewindSequence, P0: Parser<S>, P1: Parser<S>> Parser<S>""")],
 'by-value choice whose second part asks to terminate', 'by-value and by-reference choice report different errors',
 r'''
fn main() {
    let p = || bad(1, false).or(bad(2, true));
    let a = block_on(p().parse("abc")).unwrap_err().0;
    let b = block_on(p().parse_once("abc")).unwrap_err().0;
    assert_eq!(format!("{a:?}"), format!("{b:?}"));
}
''')
seed('c04-unify-once-err', 'C04', [('parcom-parsers/src/combinator/join.rs', """        let (item1, rest) = self
            .parser1
            .parse(rest)
            .await
            .map_err(|(e, r)| (Either::Last(e), r))?;""", """        let anchor = rest.anchor();
        let (item1, rest) = match self.parser1.parse(rest).await {
            Ok(v) => v,
            Err((e, r)) if parcom_core::ParseError::should_terminate(&e) => return Err((Either::Last(e), r)),
            Err((_, r)) => self
                .parser1
                .parse(r.rewind(anchor).await)
                .await
                .map_err(|(e, r)| (Either::Last(e), r))?,
        };""")],
 'a second part with an effect that fails recoverably', 'the second part is run twice',
 r'''
fn main() {
    let n = Cell::new(0);
    let p = ok(1).join(|i| { n.set(n.get() + 1); bad(1, false)(i) });
    assert!(block_on(p.parse("abc")).is_err());
    assert_eq!(n.get(), 1);
}
''')
seed('c05-or-once-label', 'C05', [('parcom-parsers/src/combinator/or.rs', """        let input = rest.rewind(anchor).await;

        let (err1, rest) = match self.parser1.parse_once(input).await {
            Ok((v, r)) => return done(Either::Last(v), r),
            Err((e, r)) if !e.should_terminate() => (e, r),
            Err((e, r)) => return fail(EitherBoth::Last(e), r),
        };""", """        let input = rest.rewind(anchor).await;

        let (err1, rest) = match self.parser1.parse_once(input).await {
            Ok((v, r)) => return done(Either::Last(v), r),
            Err((e, r)) => (e, r),
        };""")],
 'by-value choice whose second part asks to terminate', 'the error carries both errors instead of the terminating one',
 r'''
fn main() {
    let e = block_on(bad(1, false).or(bad(2, true)).parse_once("abc")).unwrap_err().0;
    assert!(matches!(e, EitherBoth::Last(Er(true))), "{e:?}");
}
''')
seed('c06-take-overread', 'C06', [('parcom-parsers/src/iterative/take.rs', """        if self.left == 0 {
            return done(None, input);
        }

        match self.state.parse_next(input).await? {
            (Some(v), r) => {
                self.left -= 1;
                done(Some(v), r)
            }
            (None, r) => done(None, r),
        }""", """        match self.state.parse_next(input).await? {
            (Some(v), r) if self.left > 0 => {
                self.left -= 1;
                done(Some(v), r)
            }
            (_, r) => done(None, r),
        }""")],
 'asking for an item after the limit has been reached', 'one more item is read and lost',
 r'''
fn main() {
    let p = letter.repeat().take(2);
    let mut st = p.parse_iterative();
    let (a, r) = block_on(st.parse_next("abcd")).unwrap();
    assert_eq!(a, Some('a'));
    let (b, r) = block_on(st.parse_next(r)).unwrap();
    assert_eq!(b, Some('b'));
    let (c, r) = block_on(st.parse_next(r)).unwrap();
    assert_eq!((c, r), (None, "cd"));
}
''')
seed('c06-mapwhile-collect', 'C06', [('parcom-parsers/src/iterative/try_map_each.rs', """                    if e.should_terminate() {
                        fail(e, r)
                    } else {
                        done(None, r)
                    }""", """                    if e.should_terminate() {
                        fail(e, r)
                    } else {
                        match self.state.parse_next(r).await {
                            Ok((Some(v), r)) => match (self.f)(v) {
                                Ok(v) => done(Some(v), r),
                                Err(e) => fail(e, r),
                            },
                            Ok((None, r)) => done(None, r),
                            Err((e, r)) => Err((e.into(), r)),
                        }
                    }""")],
 'a callback that fails recoverably in the middle of the iteration', 'iteration goes on past the failing item',
 r'''
fn main() {
    let p = letter.repeat().try_map_each(|c| if c == 'x' { Err(Er(false)) } else { Ok(c) });
    let mut st = p.parse_iterative();
    let (a, r) = block_on(st.parse_next("axb")).unwrap();
    assert_eq!(a, Some('a'));
    let (b, r) = block_on(st.parse_next(r)).unwrap();
    assert_eq!((b, r), (None, "b"));
}
''')
seed('c07-rhs-first', 'C07', [('parcom-parsers/src/combinator/bin_expr.rs', """                let Some((lhs, last_op)) = stack.pop() else {
                    stack.push((rhs, op));
""", """                let Some((lhs, last_op)) = stack.pop() else {
                    depth = 1;
                    stack.push((rhs, op));
"""), ('parcom-parsers/src/combinator/bin_expr.rs', """        let reason = loop {
            let anchor = rest.anchor();
""", """        let mut depth = 0;
        let reason = loop {
            let anchor = rest.anchor();
"""), ('parcom-parsers/src/combinator/bin_expr.rs', """                    stack.push((lhs, last_op));
                    stack.push((rhs, op));
                    rhs = term;
                    break;""", """                    stack.push((lhs, last_op));
                    if depth == 4 {
                        // keep the pending operators in the inline part of the stack
                        rhs = Expr::from((rhs, op, term));
                    } else {
                        depth += 1;
                        stack.push((rhs, op));
                        rhs = term;
                    }
                    break;"""), ('parcom-parsers/src/combinator/bin_expr.rs', """                rhs = Expr::from((lhs, last_op, rhs));
            }
        };""", """                rhs = Expr::from((lhs, last_op, rhs));
                depth -= 1;
            }
        };""")],
 'six operators of strictly rising precedence', 'the fifth operator takes its right operand away from the sixth',
 BIN_DEMO + r"""
fn main() {
    let p = BinExprParser::<&str, _, _, E>::new(letter, op);
    for (i, e) in [("a1b2c3d", "(a1(b2(c3d)))"), ("a1b1c", "((a1b)1c)"), ("a1b2c3d4e5f6g", "(a1(b2(c3(d4(e5(f6g))))))"), ("a1b2c3d4e5f4g", "(a1(b2(c3((d4(e5f))4g))))")] {
        let r = block_on(p.parse(i)).unwrap();
        assert_eq!(r.0 .0 .0, e);
    }
}
""")
seed('c08-the-char-empty', 'C08', [('parcom-parsers/src/primitive/the.rs', """            let Some(item) = segment.iter().next() else {
                continue;
            };""", """            let Some(item) = segment.iter().next() else {
                break;
            };""")],
 'an empty segment in front of the item', 'the item is not recognised behind an empty segment',
 r'''
struct Cut(Vec<Vec<u8>>, usize);
struct Segs<'a>(&'a Cut, usize);
impl Sequence for Cut {
    type Length = usize;
    type Segment = [u8];
    type Segments<'a> = Segs<'a>;
    type Advance = std::future::Ready<Self>;
    fn segments(&mut self) -> Segs<'_> { Segs(self, 0) }
    fn advance(mut self, n: usize) -> Self::Advance { self.1 += n; std::future::ready(self) }
}
impl<'x> SegmentStream for Segs<'x> {
    type Length = usize;
    type Segment = [u8];
    type Next<'b> = std::future::Ready<Option<&'b [u8]>> where Self: 'b;
    fn next(&mut self, _: usize) -> Self::Next<'_> {
        let i = self.1;
        self.1 += 1;
        std::future::ready(self.0 .0.get(i).map(|v| &v[..]))
    }
}
fn main() {
    let c = Cut(vec![vec![], vec![7, 8]], 0);
    let (_, r) = block_on(the_item(7u8).parse(c)).ok().unwrap();
    assert_eq!(r.1, 1);
}
''')
