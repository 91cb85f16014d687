//! In-memory text and slice inputs, plain and measured.
use crate::u::*;
use parcom_core::measured::*;
use parcom_core::primitive::{BytesDelta, Nodes};
use parcom_core::*;

/// the text after the first n bytes; the contract is silent inside a character
fn suffix(q: &str, n: usize) -> &str {
    if n >= q.len() {
        return &q[q.len()..];
    }
    if !q.is_char_boundary(n) {
        unspecified();
    }
    &q[n..]
}
fn tail<T>(q: &[T], n: usize) -> &[T] {
    if n >= q.len() { &q[q.len()..] } else { &q[n..] }
}

pub mod str_advance {
    use super::*;
    pub async fn lib(q: &'static str, n: usize) -> &'static str { Sequence::advance(q, BytesDelta::from_bytes(n)).await }
    pub async fn spec(q: &'static str, n: usize) -> &'static str { suffix(q, n) }
}
pub mod slice_advance {
    use super::*;
    pub async fn lib(q: &'static [It], n: usize) -> &'static [It] { Sequence::advance(q, n).await }
    pub async fn spec(q: &'static [It], n: usize) -> &'static [It] { tail(q, n) }
}
pub mod zst_advance {
    use super::*;
    pub async fn lib(q: &'static [Z], n: usize) -> &'static [Z] { Sequence::advance(q, n).await }
    pub async fn spec(q: &'static [Z], n: usize) -> &'static [Z] { tail(q, n) }
}
// going on from a position, and back to it
macro_rules! back { ($m:ident, $t:ty, $n:ident => $d:expr, $suf:ident) => { pub mod $m {
    use super::*;
    pub async fn lib(q: &'static $t, a: usize, b: usize) -> (&'static $t, &'static $t, &'static $t) {
        let mk = |$n: usize| $d;
        let p = Sequence::advance(q, mk(a)).await;
        let at = p.anchor();
        let at2 = p.anchor();
        let r = Sequence::advance(p, mk(b)).await;
        let s = r.rewind(at).await;
        let t = s.rewind(at2).await;
        (r, s, t)
    }
    pub async fn spec(q: &'static $t, a: usize, b: usize) -> (&'static $t, &'static $t, &'static $t) {
        let p = $suf(q, a);
        let r = $suf(p, b);
        (r, p, p)
    }
} } }
back!(str_rewind, str, n => BytesDelta::from_bytes(n), suffix);
back!(slice_rewind, [It], n => n, tail);
back!(zst_rewind, [Z], n => n, tail);

// any two inputs: only a position the current input is a tail of is accepted
fn part_of<T>(cur: &[T], a: &[T]) -> bool {
    let c = cur.as_ptr() as usize;
    let s = a.as_ptr() as usize;
    s <= c && s + std::mem::size_of_val(a) == c + std::mem::size_of_val(cur)
}
pub mod str_foreign {
    use super::*;
    pub async fn lib(cur: &'static str, other: &'static str) -> &'static str { cur.rewind(other.anchor()).await }
    pub async fn spec(cur: &'static str, other: &'static str) -> &'static str {
        if part_of(cur.as_bytes(), other.as_bytes()) { other } else { panic!() }
    }
}
pub mod slice_foreign {
    use super::*;
    pub async fn lib(cur: &'static [It], other: &'static [It]) -> &'static [It] { cur.rewind(other.anchor()).await }
    pub async fn spec(cur: &'static [It], other: &'static [It]) -> &'static [It] {
        if part_of(cur, other) { other } else { panic!() }
    }
}

// segments: the unread data, then the end, whatever hints are passed
macro_rules! segs { ($m:ident, $t:ty, $l:ty) => { pub mod $m {
    use super::*;
    pub async fn lib(mut q: &'static $t, h: $l, h2: $l, h3: $l) -> (Option<&'static $t>, bool, bool, &'static $t) {
        let mut s = q.segments();
        let a: Option<&'static $t> = unsafe { std::mem::transmute(s.next(h).await) };
        let b = s.next(h2).await.is_none();
        let c = s.next(h3).await.is_none();
        (a, b, c, q)
    }
    pub async fn spec(q: &'static $t, _h: $l, _h2: $l, _h3: $l) -> (Option<&'static $t>, bool, bool, &'static $t) { (Some(q), true, true, q) }
} } }
segs!(str_segments, str, BytesDelta);
segs!(slice_segments, [It], usize);
segs!(zst_segments, [Z], usize);
pub mod str_peek {
    use super::*;
    pub async fn lib(mut q: &'static str) -> &'static str { q.peek() }
    pub async fn spec(q: &'static str) -> &'static str { q }
}
pub mod slice_peek {
    use super::*;
    pub async fn lib(mut q: &'static [It]) -> &'static [It] { q.peek() }
    pub async fn spec(q: &'static [It]) -> &'static [It] { q }
}
// segments: their length and their parts
macro_rules! parts { ($m:ident, $t:ty, $l:ty, $len:expr, $n:ident => $num:expr, $ok:ident => $fits:expr) => { pub mod $m {
    use super::*;
    type Parts = Option<(&'static $t, &'static $t)>;
    pub mod len {
        use super::*;
        pub fn lib(q: &'static $t) -> $l { SequenceSegment::len(q) }
        pub fn spec(q: &'static $t) -> $l { ($len)(q.len()) }
    }
    pub mod split {
        use super::*;
        pub fn lib(q: &'static $t, $n: $l) -> (&'static $t, &'static $t) { SequenceSegment::split_at(q, $n) }
        pub fn spec($ok: &'static $t, $n: $l) -> (&'static $t, &'static $t) {
            if !$fits { unspecified() }
            (&$ok[..$num], &$ok[$num..])
        }
    }
    pub mod checked {
        use super::*;
        pub fn lib(q: &'static $t, $n: $l) -> Parts { SequenceSegment::split_at_checked(q, $n) }
        pub fn spec($ok: &'static $t, $n: $l) -> Parts {
            if !$fits { return None }
            Some((&$ok[..$num], &$ok[$num..]))
        }
    }
} } }
parts!(str_parts, str, BytesDelta, BytesDelta::from_bytes, n => n.to_bytes(), q => q.is_char_boundary(n.to_bytes()));
parts!(slice_parts, [It], usize, |n: usize| n, n => n, q => n <= q.len());

// ---- text lengths count bytes
pub mod str_lengths {
    use super::*;
    pub fn lib(q: &'static str, c: char, n: usize) -> (usize, usize, usize, usize, usize) {
        (
            BytesDelta::ZERO.to_bytes(),
            BytesDelta::default().to_bytes(),
            BytesDelta::from_bytes(n).to_bytes(),
            BytesDelta::from_char(c).to_bytes(),
            BytesDelta::from_str(q).to_bytes(),
        )
    }
    pub fn spec(q: &'static str, c: char, n: usize) -> (usize, usize, usize, usize, usize) { (0, 0, n, c.len_utf8(), q.len()) }
}
