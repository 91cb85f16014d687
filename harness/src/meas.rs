//! Measured in-memory inputs against plain inputs plus a separately kept meter.
use crate::u::*;
use parcom_core::measured::*;
use parcom_core::primitive::BytesDelta;
use parcom_core::*;

fn cut(q: &str, n: usize) -> (&str, &str) {
    if n >= q.len() {
        return (q, &q[q.len()..]);
    }
    if !q.is_char_boundary(n) {
        unspecified();
    }
    (&q[..n], &q[n..])
}
fn cut_items<T>(q: &[T], n: usize) -> (&[T], &[T]) {
    let n = if n < q.len() { n } else { q.len() };
    (&q[..n], &q[n..])
}

macro_rules! meas { ($m:ident, $t:ty, $mx:ty, $mt:ty, $n:ident => $d:expr, $cut:ident) => { pub mod $m {
    use super::*;
    type Q = &'static $t;
    type M = $mt;
    type X = $mx;
    async fn data<S: Sequence<Segment = $t>>(s: &mut S) -> (Option<&'static $t>, bool) where S::Length: Default {
        let mut g = s.segments();
        let a: Option<&'static $t> = unsafe { std::mem::transmute(g.next(Default::default()).await) };
        let b = g.next(Default::default()).await.is_none();
        (a, b)
    }
    pub mod advance {
        use super::*;
        pub async fn lib(q: Q, m: M, a: usize, b: usize) -> (X, (Option<Q>, bool), X, (Option<Q>, bool), X, (Option<Q>, bool)) {
            let mk = |$n: usize| $d;
            let mut s = IntoMeasured::into_measured_with::<X>(q, m);
            let m0 = s.metrics();
            let d0 = data(&mut s).await;
            let mut s = s.advance(mk(a)).await;
            let m1 = s.metrics();
            let d1 = data(&mut s).await;
            let mut s = s.advance(mk(b)).await;
            let m2 = s.metrics();
            let d2 = data(&mut s).await;
            (m0, d0, m1, d1, m2, d2)
        }
        pub async fn spec(q: Q, m: M, a: usize, b: usize) -> (X, (Option<Q>, bool), X, (Option<Q>, bool), X, (Option<Q>, bool)) {
            let m0 = Meter::<$t>::metrics(&m);
            let d0 = (Some(q), true);
            let (p, q) = $cut(q, a);
            let m = Meter::<$t>::advance(m, p);
            let m1 = Meter::<$t>::metrics(&m);
            let d1 = (Some(q), true);
            let (p, q) = $cut(q, b);
            let m = Meter::<$t>::advance(m, p);
            let m2 = Meter::<$t>::metrics(&m);
            let d2 = (Some(q), true);
            (m0, d0, m1, d1, m2, d2)
        }
    }
    pub mod rewind {
        use super::*;
        pub async fn lib(q: Q, m: M, a: usize, b: usize, c: usize) -> (X, (Option<Q>, bool), X, (Option<Q>, bool), X) {
            let mk = |$n: usize| $d;
            let s = IntoMeasured::into_measured_with::<X>(q, m);
            let s = s.advance(mk(a)).await;
            let at = s.anchor();
            let at2 = s.anchor();
            let s = s.advance(mk(b)).await;
            let mut s = s.rewind(at).await;
            let m0 = s.metrics();
            let d0 = data(&mut s).await;
            let mut s = s.advance(mk(c)).await;
            let m1 = s.metrics();
            let d1 = data(&mut s).await;
            let s = s.rewind(at2).await;
            let m2 = s.metrics();
            (m0, d0, m1, d1, m2)
        }
        pub async fn spec(q: Q, m: M, a: usize, b: usize, c: usize) -> (X, (Option<Q>, bool), X, (Option<Q>, bool), X) {
            let (p, q) = $cut(q, a);
            let m = Meter::<$t>::advance(m, p);
            let keep = Meter::<$t>::metrics(&m);
            let (_, _) = $cut(q, b);
            let m0 = Meter::<$t>::metrics(&m);
            let d0 = (Some(q), true);
            let (p, q) = $cut(q, c);
            let m = Meter::<$t>::advance(m, p);
            let m1 = Meter::<$t>::metrics(&m);
            let d1 = (Some(q), true);
            (m0, d0, m1, d1, keep)
        }
    }
} } }
meas!(text, str, Mx, Mt, n => BytesDelta::from_bytes(n), cut);
meas!(items, [It], Mx, Mt, n => n, cut_items);
// the ready-made counter of items
meas!(count, [It], usize, usize, n => n, cut_items);

pub mod default_text {
    use super::*;
    pub async fn lib(q: &'static str) -> Mx { IntoMeasured::into_measured::<Mx>(q).metrics() }
    pub async fn spec(q: &'static str) -> Mx { Meter::<str>::metrics(&Mt::default()) }
}
pub mod default_items {
    use super::*;
    pub async fn lib(q: &'static [It]) -> Mx { IntoMeasured::into_measured::<Mx>(q).metrics() }
    pub async fn spec(q: &'static [It]) -> Mx { Meter::<[It]>::metrics(&Mt::default()) }
}
// the item counter counts items
pub mod counter {
    use super::*;
    pub async fn lib(q: &'static [It], n: usize) -> (usize, usize, usize) {
        let m = Meter::<[It]>::advance(n, q);
        (Measureable::<usize>::measure(q), m, Meter::<[It]>::metrics(&m))
    }
    pub async fn spec(q: &'static [It], n: usize) -> (usize, usize, usize) { (q.len(), n + q.len(), n + q.len()) }
}
