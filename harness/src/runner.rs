//! The streaming input of the default runner, while its buffer is filled by someone else.
use crate::u::*;
use parcom_core::{SegmentStream, Sequence};
use parcom_runners::default_runner::DefaultSequence;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll};

pub mod segments {
    use super::*;
    pub fn trace(b: EvBuf, l: Ldr, hint: usize) {
        let mut s = DefaultSequence::<AnySrc, Bld>::new(b, l);
        let mut segs = s.segments();
        loop {
            ev_call();
            let mut f = pin!(segs.next(hint));
            loop {
                let mut cx = Context::from_waker(ev_waker());
                match f.as_mut().poll(&mut cx) {
                    Poll::Ready(Some(x)) => {
                        ev_some(x);
                        break;
                    }
                    Poll::Ready(None) => {
                        ev_none();
                        break;
                    }
                    Poll::Pending => ev_pending(),
                }
            }
        }
    }
}
pub mod advance {
    use super::*;
    pub fn trace(b: EvBuf, l: Ldr, n: usize) {
        let mut s = DefaultSequence::<AnySrc, Bld>::new(b, l);
        look(&mut s);
        ev_by(n);
        let mut f = pin!(s.advance(n));
        loop {
            let mut cx = Context::from_waker(ev_waker());
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(mut s) => {
                    ev_back(&s);
                    look(&mut s);
                    ev_sent();
                    break;
                }
                Poll::Pending => ev_pending(),
            }
        }
    }
    /// shows which signals a sequence listens to
    fn look(s: &mut DefaultSequence<AnySrc, Bld>) {
        let mut g = s.segments();
        let _ = pin!(g.next(0)).poll(&mut Context::from_waker(ev_waker()));
    }
}
