//! Optional futures and observer filters.
use crate::u::*;
use parcom_internals::future::option_future::OptionFuture;
use parcom_internals::reactive::{IObservable, IObserver, ObservableExtensions};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

// ---- a future that may be absent, polled until it is ready
pub mod future {
    use super::*;
    pub fn lib(o: Option<DFut>, cx: &mut Context<'_>) -> Option<O0> {
        let mut f = match o {
            Some(f) => OptionFuture::some(f),
            None => OptionFuture::none(),
        };
        ev_told(1);
        loop {
            match Pin::new(&mut f).poll(cx) {
                Poll::Ready(v) => return v,
                Poll::Pending => ev_told(2),
            }
        }
    }
    pub fn spec(o: Option<DFut>, cx: &mut Context<'_>) -> Option<O0> {
        ev_told(1);
        match o {
            None => None,
            Some(mut f) => loop {
                match Pin::new(&mut f).poll(cx) {
                    Poll::Ready(v) => return Some(v),
                    Poll::Pending => ev_told(2),
                }
            },
        }
    }
}
// ---- dropped before it is ready
pub mod future_dropped {
    use super::*;
    pub fn lib(o: Option<DFut>, cx: &mut Context<'_>) -> bool {
        let mut f = match o {
            Some(f) => OptionFuture::some(f),
            None => OptionFuture::none(),
        };
        let r = Pin::new(&mut f).poll(cx).is_ready();
        ev_told(1);
        drop(f);
        ev_told(2);
        r
    }
    pub fn spec(o: Option<DFut>, cx: &mut Context<'_>) -> bool {
        match o {
            None => {
                ev_told(1);
                ev_told(2);
                true
            }
            Some(mut f) => {
                let r = Pin::new(&mut f).poll(cx).is_ready();
                ev_told(1);
                drop(f);
                ev_told(2);
                r
            }
        }
    }
}

/// An observable that, when subscribed to, hands any number of items to the observer and keeps
/// the observer in the subscription.
pub struct Source;
pub struct Sub<U>(U, DTok);
impl IObservable<T0> for Source {
    type Subscription<U: IObserver<T0>> = Sub<U>;
    fn subscribe<U: IObserver<T0>>(&self, mut observer: U) -> Sub<U> {
        while let Some(item) = ev_item() {
            observer.next(item);
        }
        Sub(observer, ev_token())
    }
}
pub struct Obs(u8, DTok);
impl IObserver<T0> for Obs {
    fn next(&mut self, item: T0) {
        ev_seen(self.0, item)
    }
}
fn direct(n: u8, tok: DTok, p: &Pr) -> Sub<Obs> {
    let mut o = Obs(n, tok);
    while let Some(item) = ev_item() {
        if p.ok(&item) {
            ev_seen(n, item);
        }
    }
    Sub(o, ev_token())
}
pub mod filter {
    use super::*;
    pub fn lib(p: Pr, a: DTok) {
        let f = Source.filter(move |t: &T0| p.ok(t));
        let s = f.subscribe(Obs(1, a));
        ev_told(1);
        drop(s);
        ev_told(2);
    }
    pub fn spec(p: Pr, a: DTok) {
        let s = direct(1, a, &p);
        ev_told(1);
        drop(s);
        ev_told(2);
    }
}
// ---- two subscribers of one filter; the second outlives the filter
pub mod filter_twice {
    use super::*;
    pub fn lib(p: Pr, a: DTok, b: DTok) {
        let f = Source.filter(move |t: &T0| p.ok(t));
        let s = f.subscribe(Obs(1, a));
        let t = f.subscribe(Obs(2, b));
        drop(f);
        ev_told(1);
        drop(s);
        ev_told(2);
        drop(t);
        ev_told(3);
    }
    pub fn spec(p: Pr, a: DTok, b: DTok) {
        let s = direct(1, a, &p);
        let t = direct(2, b, &p);
        ev_told(1);
        drop(s);
        ev_told(2);
        drop(t);
        ev_told(3);
    }
}
// ---- a filter of a filter
pub mod filter_nested {
    use super::*;
    pub fn lib(p: Pr, q: Pr, a: DTok) {
        let f = Source.filter(move |t: &T0| p.ok(t)).filter(move |t: &T0| q.ok(t));
        let s = f.subscribe(Obs(1, a));
        ev_told(1);
        drop(s);
        ev_told(2);
    }
    pub fn spec(p: Pr, q: Pr, a: DTok) {
        let mut o = Obs(1, a);
        while let Some(item) = ev_item() {
            if p.ok(&item) && q.ok(&item) {
                ev_seen(1, item);
            }
        }
        let s = Sub(o, ev_token());
        ev_told(1);
        drop(s);
        ev_told(2);
    }
}
