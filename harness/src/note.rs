//! Notifications: what one call of each operation does.
use crate::u::*;
use parcom_internals::future::notify::Notify;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll};

pub mod send {
    use super::*;
    pub fn trace(n: &Notify) {
        n.send();
        ev_sent();
    }
}
pub mod wait {
    use super::*;
    pub fn trace(n: &Notify) {
        let mut w = pin!(n.wait());
        ev_waiting();
        loop {
            let mut cx = Context::from_waker(ev_waker());
            match w.as_mut().poll(&mut cx) {
                Poll::Ready(()) => {
                    ev_ready();
                    break;
                }
                Poll::Pending => ev_pending(),
            }
        }
    }
}
