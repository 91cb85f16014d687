//! The small vector against a plain stack, driven by an arbitrary sequence of operations.
use crate::u::*;
use parcom_internals::ShortVec;

macro_rules! small { ($m:ident, $t:ty, $item:ident, $popped:ident, $seen:ident, $n:expr) => { pub mod $m {
    use super::*;
    pub fn lib(start: VecStart) {
        let mut need = match start { VecStart::Room(c) => c, _ => 0 };
        ev_fits(need <= $n);
        let mut v: ShortVec<$t, $n> = match start { VecStart::Room(c) => ShortVec::with_capacity(c), VecStart::New => ShortVec::new(), VecStart::Default => Default::default() };
        let mut len = 0usize;
        loop {
            match ev_op() {
                VecOp::Push => {
                    len += 1;
                    if len > need { need = len; }
                    ev_fits(need <= $n);
                    v.push($item())
                }
                VecOp::Pop => {
                    let x = v.pop();
                    if x.is_some() { len -= 1; }
                    $popped(x)
                }
                VecOp::Reserve(n) => {
                    if n > need { need = n; }
                    ev_fits(need <= $n);
                    v.reserve(n)
                }
                VecOp::ReserveExact(n) => {
                    if n > need { need = n; }
                    ev_fits(need <= $n);
                    v.reserve_exact(n)
                }
                VecOp::Look => $seen(v.as_slice()),
                VecOp::LookMut => $seen(v.as_slice_mut()),
                VecOp::Empty => ev_bool(v.is_empty()),
                VecOp::End => break,
            }
        }
        drop(v);
        ev_told(1);
    }
    pub fn spec(start: VecStart) {
        let mut v: Vec<$t> = Vec::new();
        loop {
            match ev_op() {
                VecOp::Push => v.push($item()),
                VecOp::Pop => $popped(v.pop()),
                VecOp::Reserve(_) | VecOp::ReserveExact(_) => {}
                VecOp::Look | VecOp::LookMut => $seen(v.as_slice()),
                VecOp::Empty => ev_bool(v.is_empty()),
                VecOp::End => break,
            }
        }
        drop(v);
        ev_told(1);
    }
} } }
small!(sized, DIt, ev_ditem, ev_dpopped, ev_dseen, 2);
small!(sized_one, DIt, ev_ditem, ev_dpopped, ev_dseen, 1);
small!(sized_none, DIt, ev_ditem, ev_dpopped, ev_dseen, 0);
small!(unsized_items, DZ, ev_zitem, ev_zpopped, ev_zseen, 1);
