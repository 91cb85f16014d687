SH = open(os.path.join(V, 'tools', 'demo.sh')).read().replace('timeout 250 cargo run', 'RUSTFLAGS="--cfg parcom_verif" timeout 250 cargo run')
f = 'parcom-sequences/src/generic/buffer.rs'
seed('c35-empty-blocks', 'C35', [(f, """        self.offset = 0;
        self.node = next;
        Some(seg)""", """        self.offset = 0;
        self.node = next;
        if seg.is_empty() && next.get().is_some() {
            // nothing to show for this block
            return self.next();
        }
        Some(seg)""")],
 'a long run of empty blocks in the growable buffer', 'reading overflows the stack', r'''
use parcom_sequence_core::*;
use parcom_sequences::{generic::*, BufferStrategy};
use std::future::{ready, Ready};
struct Min;
impl BufferStrategy for Min { fn calc_capacity(&self, n: usize) -> usize { n } }
struct Src;
impl SequenceSource for Src {
    type Item = u8;
    type Error = ();
    type Next<'a, C> = Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = ()> {
        ready(control.finish())
    }
}
fn main() {
    let (b, mut l): (GenericSequenceBuffer<u8>, GenericSequenceLoader<u8, Src, Min>) = GenericSequenceBuilder::new(Arc::new(Min)).build(Src);
    for _ in 0..500_000 { l.force_commit(); }
    let n: usize = b.segments().map(|s| s.len()).sum();
    assert_eq!(n, 0);
    std::mem::forget((b, l));
}
''', sh_body=SH)
f = 'parcom-parsers/src/combinator/bin_expr.rs'
seed('c35-fold-recursively', 'C35', [(f, """        while let Some((lhs, op)) = stack.pop() {
            rhs = Expr::from((lhs, op, rhs));
        }

        done((rhs, reason), rest)
    }
}
""", """        rhs = close(&mut stack, rhs);

        done((rhs, reason), rest)
    }
}

/// Applies the operators that are still open, innermost first.
fn close<T, Expr: From<(Expr, T, Expr)>, const N: usize>(
    stack: &mut ShortVec<(Expr, T), N>,
    rhs: Expr,
) -> Expr {
    match stack.pop() {
        Some((lhs, op)) => close(stack, Expr::from((lhs, op, rhs))),
        None => rhs,
    }
}
""")],
 'an expression with very many operators that nest to the right', 'parsing overflows the stack', r'''
use parcom_parsers::bin_expr::*;
#[derive(Debug)]
struct E(usize);
impl From<char> for E { fn from(_: char) -> E { E(1) } }
impl From<(E, Op, E)> for E { fn from((a, _, b): (E, Op, E)) -> E { E(a.0 + b.0) } }
#[derive(Debug)]
struct Op;
impl Operator for Op {
    fn precedence(&self) -> usize { 0 }
    fn associativity(&self) -> Associativity { Associativity::Right }
}
async fn op(i: &str) -> PR<'_, Op> {
    match i.chars().next() { Some('^') => Ok((Op, &i[1..])), _ => parcom_util::fail(Er(false), i) }
}
fn main() {
    const N: usize = 300_000;
    let t = format!("{}a", "a^".repeat(N));
    let p = BinExprParser::<_, _, _, E>::new(letter, op);
    let (e, rest) = block_on(p.parse(&t[..])).ok().unwrap();
    assert_eq!((e.0.0, rest), (N + 1, ""));
}
''')
f = 'parcom-metrics/src/line_colmn.rs'
seed('c35-one-character-at-a-time', 'C35', [(f, """        for c in segment.chars() {
            if self.next_is_new_line {""", """        let mut cs = segment.chars();
        if let Some(c) = cs.next() {
            if self.next_is_new_line {"""), (f, """                self.next_is_new_line = true;
            }
        }

        self
""", """                self.next_is_new_line = true;
            }
            return self.advance(cs.as_str());
        }

        self
""")],
 'a text of several hundred thousand characters in one segment', 'measuring it overflows the stack', r'''
use parcom_core::measured::*;
use parcom_metrics::*;
fn main() {
    let t = "ab\n".repeat(200_000);
    let m = LineColumnMeter::<end_of_line::LF>::default().advance(&t);
    assert_eq!(m.metrics().total_count, 600_000);
}
''')
