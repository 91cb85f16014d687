#![allow(dead_code, unused_imports)]
use parcom_core::primitive::*;
use parcom_core::*;
use parcom_parsers::iterative::*;
use parcom_parsers::primitive::*;
use parcom_parsers::*;
use parcom_util::error::*;
use parcom_util::*;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let w = Waker::from(Arc::new(Nop));
    let mut cx = Context::from_waker(&w);
    for _ in 0..100000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("does not complete")
}
/// an error that asks to terminate or not
#[derive(Debug, Clone, Copy, PartialEq)]
struct Er(bool);
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        self.0
    }
}
type PR<'a, O> = ParseResult<&'a str, O, Er>;
/// consumes n bytes and then succeeds
fn ok<'a>(n: usize) -> impl Fn(&'a str) -> std::future::Ready<PR<'a, &'a str>> {
    move |i| std::future::ready(Ok((&i[..n], &i[n..])))
}
/// consumes n bytes and then fails
fn bad<'a>(n: usize, t: bool) -> impl Fn(&'a str) -> std::future::Ready<PR<'a, &'a str>> {
    move |i| std::future::ready(parcom_util::fail(Er(t), &i[n..]))
}
/// one lower-case letter; consumes it even on failure; upper case asks to terminate
async fn letter(i: &str) -> PR<'_, char> {
    match i.chars().next() {
        None => parcom_util::fail(Er(false), i),
        Some(c) => {
            let r = &i[c.len_utf8()..];
            if c.is_ascii_lowercase() { Ok((c, r)) } else { parcom_util::fail(Er(c.is_ascii_uppercase()), r) }
        }
    }
}
