//! Line terminators, line/column meter, order of positions.
use crate::u::*;
use parcom_core::measured::*;
use parcom_metrics::end_of_line::*;
use parcom_metrics::*;
use std::cmp::Ordering;

// ---- positions
macro_rules! law { ($m:ident ($($p:ident : $t:ty),*) $lib:expr) => { pub mod $m {
    use super::*;
    pub fn lib($($p: &$t),*) -> bool { $lib }
    pub fn spec($($p: &$t),*) -> bool { true }
} } }
macro_rules! order { ($m:ident, $p:ty, $x:ident, $y:ident, $same:expr, $c:expr) => { pub mod $m {
    use super::*;
    type P = $p;
    fn same($x: &P, $y: &P) -> bool { $same }
    fn count($x: &P) -> usize { $c }
    law! { eq_is_fields (a: P, b: P) (a == b) == super::same(a, b) }
    law! { ne_is_not_eq (a: P, b: P) (a != b) == !(a == b) }
    law! { cmp_equal_is_eq (a: P, b: P) (a.cmp(b) == Ordering::Equal) == (a == b) }
    law! { partial_is_total (a: P, b: P) a.partial_cmp(b) == Some(a.cmp(b)) }
    law! { antisymmetric (a: P, b: P) a.cmp(b) == b.cmp(a).reverse() }
    law! { transitive (a: P, b: P, c: P) !(a.cmp(b) == Ordering::Less && b.cmp(c) == Ordering::Less) || a.cmp(c) == Ordering::Less }
    law! { transitive_eq (a: P, b: P, c: P) !(a.cmp(b) == Ordering::Equal) || a.cmp(c) == b.cmp(c) }
    law! { follows_count (a: P, b: P) !(super::count(a) < super::count(b)) || a.cmp(b) == Ordering::Less }
    law! { operators (a: P, b: P) (a < b) == (a.cmp(b) == Ordering::Less) && (a <= b) == (a.cmp(b) != Ordering::Greater) && (a > b) == (a.cmp(b) == Ordering::Greater) && (a >= b) == (a.cmp(b) != Ordering::Less) }
    law! { clone_is_equal (a: P) a.clone() == *a && a.clone().cmp(a) == Ordering::Equal }
} } }
order!(order_lf, LineColumn<LF>, a, b, a.total_count == b.total_count && a.line == b.line && a.column == b.column, a.total_count);
order!(order_crlf, LineColumn<CRLF>, a, b, a.total_count == b.total_count && a.line == b.line && a.column == b.column, a.total_count);
order!(order_bytes, parcom_core::primitive::BytesDelta, a, b, a.to_bytes() == b.to_bytes(), a.to_bytes());

// ---- terminators, character by character
fn told(m: EndOfLineMatch) -> u8 {
    match m { EndOfLineMatch::NotMatch => 0, EndOfLineMatch::PartialMatch => 1, EndOfLineMatch::Match => 2 }
}
fn feed<E: EndOfLine>(mut e: E) {
    loop {
        let c = ev_char();
        ev_told(told(e.next(c)));
    }
}
law! { match_eq (a: EndOfLineMatch, b: EndOfLineMatch) {
    let n = |m: &EndOfLineMatch| match m { EndOfLineMatch::NotMatch => 0, EndOfLineMatch::PartialMatch => 1, EndOfLineMatch::Match => 2 };
    (a == b) == (n(a) == n(b)) && (a != b) == (n(a) != n(b))
} }
macro_rules! eol { ($m:ident, $e:ty, $c:ident, $was_cr:ident => $spec:expr) => { pub mod $m {
    use super::*;
    pub fn lib() { feed(<$e>::default()) }
    pub fn spec() {
        let mut $was_cr = false;
        loop {
            let $c = ev_char();
            ev_told($spec);
            $was_cr = $c == '\r';
        }
    }
} } }
eol!(lf, LF, c, _p => if c == '\n' { 2 } else { 0 });
eol!(cr, CR, c, _p => if c == '\r' { 2 } else { 0 });
eol!(crlf, CRLF, c, p => if c == '\n' && p { 2 } else if c == '\r' { 1 } else { 0 });

impl EndOfLine for OwnEol { fn next(&mut self, c: char) -> EndOfLineMatch { ev_own(c) } }
fn own_hit(m: EndOfLineMatch) -> bool { match m { EndOfLineMatch::Match => true, _ => false } }

// ---- line and column over any series of pieces
macro_rules! meter { ($m:ident, $e:ty, $start:expr, $c:ident, $was_cr:ident => $hit:expr) => { pub mod $m {
    use super::*;
    pub fn lib() {
        let mut m: LineColumnMeter<$e> = $start;
        loop {
            let x = Meter::<str>::metrics(&m);
            ev_pos(x.total_count, x.line, x.column);
            m = Meter::<str>::advance(m, ev_text());
        }
    }
    pub fn spec() {
        let mut total = 0usize;
        let mut line = 0usize;
        let mut column = 0usize;
        let mut fresh = true;
        let mut $was_cr = false;
        loop {
            ev_pos(total, line, column);
            for $c in ev_text().chars() {
                if fresh {
                    line += 1;
                    column = 0;
                }
                total += 1;
                column += 1;
                fresh = $hit;
                $was_cr = $c == '\r';
            }
        }
    }
} } }
meter!(meter_lf, LF, Default::default(), c, _p => c == '\n');
meter!(meter_cr, CR, Default::default(), c, _p => c == '\r');
meter!(meter_crlf, CRLF, Default::default(), c, p => c == '\n' && p);
// a measurement started explicitly at the origin is one like any other
meter!(meter_new, LF, LineColumnMeter::new(LineColumn::default()), c, _p => c == '\n');
meter!(meter_new_crlf, CRLF, LineColumnMeter::new(LineColumn::default()), c, p => c == '\n' && p);
// a terminator of the user's own
meter!(meter_own, OwnEol, Default::default(), c, _p => { let h = own_hit(ev_own(c)); h });
// the position a measurement starts from is the one given
pub mod meter_start {
    use super::*;
    pub fn lib(a: LineColumn<LF>) -> (usize, usize, usize) { let m = LineColumnMeter::new(a); let x = Meter::<str>::metrics(&m); (x.total_count, x.line, x.column) }
    pub fn spec(a: LineColumn<LF>) -> (usize, usize, usize) { (a.total_count, a.line, a.column) }
}
