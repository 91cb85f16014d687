//! The growable sequence: loading on one side, reading on the other.
use crate::u::*;
use parcom_sequence_core::{BufferWriter, LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequences::{generic::GenericSequenceBuilder, BufferStrategy};
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::Arc;
use std::task::{Context, Poll};

/// a source that does whatever it is told, and may keep an unfinished request
pub struct Src;
pub struct Act<C: SequenceControl> {
    w: Option<(C::Writer, End)>,
    done: Option<C::Result>,
}
impl<C: SequenceControl<Error = SErr>> Unpin for Act<C> {}
impl<C: SequenceControl<Error = SErr>> Future for Act<C>
where
    C::Writer: BufferWriter<Error = SErr, Result = C::Result>,
{
    type Output = C::Result;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<C::Result> {
        let this = Pin::into_inner(self);
        if let Some(r) = this.done.take() {
            return Poll::Ready(r);
        }
        match this.w.take() {
            Some((w, End::Keep)) => Poll::Ready(w.advance()),
            Some((w, End::Cancel(e))) => Poll::Ready(w.cancel(e)),
            other => {
                this.w = other;
                Poll::Pending
            }
        }
    }
}
impl SequenceSource for Src {
    type Item = u8;
    type Error = SErr;
    type Next<'a, C> = Act<C> where C: 'a + SequenceControl<Item = u8, Error = SErr>;
    fn next<'a, C>(&'a mut self, control: C, _hint: usize) -> Act<C>
    where
        C: 'a + SequenceControl<Item = u8, Error = SErr>,
    {
        match ev_gsrc() {
            GSrc::Data(n, chunk, end) => {
                let mut w = control.request_writer(n);
                let empty = w.len() == 0;
                let room = w.capacity() >= n;
                // the room announced is really there: its last place can be written to
                if let Some(last) = w.spare_capacity().last_mut() {
                    *last = std::mem::MaybeUninit::uninit();
                }
                if chunk.len() > w.capacity() {
                    unspecified()
                }
                unsafe {
                    std::ptr::copy_nonoverlapping(chunk.as_ptr(), w.as_mut_ptr(), chunk.len());
                    w.set_len(chunk.len());
                }
                ev_gseen(empty, room, w.capacity() >= n && w.len() == chunk.len(), w.as_slice().to_vec());
                Act { w: Some((w, end)), done: None }
            }
            GSrc::End => Act { w: None, done: Some(control.finish()) },
            GSrc::Fail(e) => Act { w: None, done: Some(control.cancel(e)) },
        }
    }
}
fn said(r: Result<LoadInfo, SErr>) {
    match r {
        Ok(i) => ev_gload(i.commited(), i.uncommited(), i.buffer_capacity(), i.is_done()),
        Err(e) => ev_gfail(e),
    }
}

pub mod run {
    use super::*;
    pub async fn lib(strategy: Strat) {
        let b = GenericSequenceBuilder::new(Arc::new(strategy));
        let (mut buf, mut loader) = b.build(Src);
        loop {
            match ev_gstep() {
                GStep::Commit => loader.force_commit(),
                GStep::Load => {
                    let mut f = pin!(loader.load());
                    match std::future::poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx))).await {
                        Poll::Ready(r) => said(r),
                        Poll::Pending => (),
                    }
                }
            }
            let mut seen = Vec::new();
            for s in buf.segments() {
                seen.extend_from_slice(s);
            }
            let left = buf.advance(seen.len());
            ev_gread(left, seen);
        }
    }
    pub async fn spec(strategy: Strat) {
        let mut pend: Vec<u8> = Vec::new();
        loop {
            let mut seen = Vec::new();
            match ev_gstep() {
                GStep::Commit => seen = std::mem::take(&mut pend),
                GStep::Load => match ev_gsrc() {
                    GSrc::Data(n, chunk, end) => {
                        let grown = pend.capacity() - pend.len() < n;
                        let mut before = Vec::new();
                        if grown {
                            let c = strategy.calc_capacity(n);
                            before = std::mem::replace(&mut pend, Vec::with_capacity(if c < n { n } else { c }));
                        }
                        let start = pend.len();
                        if chunk.len() > pend.capacity() - start {
                            unspecified()
                        }
                        pend.extend_from_slice(chunk);
                        ev_gseen(true, true, true, chunk.to_vec());
                        match end {
                            End::Keep => {
                                if grown {
                                    seen = before;
                                }
                                ev_gload(seen.len(), pend.len(), pend.capacity(), false);
                            }
                            other => {
                                if !grown || before.is_empty() {
                                    pend.truncate(start);
                                } else {
                                    pend = before;
                                }
                                if let End::Cancel(e) = other {
                                    ev_gfail(e)
                                }
                            }
                        }
                    }
                    GSrc::End => {
                        seen = std::mem::take(&mut pend);
                        ev_gload(seen.len(), 0, 0, true);
                    }
                    GSrc::Fail(e) => ev_gfail(e),
                },
            }
            ev_gread(0, seen);
        }
    }
}

/// a buffer somewhere in a chain of any length, moved until there is something left
pub mod chain_advance {
    use super::*;
    pub fn trace(buf: &mut parcom_sequences::generic::GenericSequenceBuffer<u8>) {
        look(buf);
        loop {
            let n = ev_amount();
            ev_by(n);
            let r = buf.advance(n);
            ev_len(r);
            look(buf);
        }
    }
    fn look(buf: &parcom_sequences::generic::GenericSequenceBuffer<u8>) {
        match buf.segments().next() {
            Some(s) => ev_seg(s),
            None => ev_none(),
        }
    }
}
pub mod chain_read {
    use super::*;
    pub fn trace(buf: &parcom_sequences::generic::GenericSequenceBuffer<u8>) {
        let mut it = buf.segments();
        loop {
            ev_call();
            match it.next() {
                Some(s) => ev_seg(s),
                None => ev_none(),
            }
        }
    }
}

/// a source of whole blocks
pub struct Blocks;
impl SequenceSource for Blocks {
    type Item = u8;
    type Error = SErr;
    type Next<'a, C> = std::future::Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = SErr>;
    fn next<'a, C>(&'a mut self, control: C, _hint: usize) -> std::future::Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = u8, Error = SErr>,
    {
        let chunk = ev_text().as_bytes();
        let mut w = control.request_writer(chunk.len());
        unsafe {
            std::ptr::copy_nonoverlapping(chunk.as_ptr(), w.as_mut_ptr(), chunk.len());
            w.set_len(chunk.len());
        }
        std::future::ready(w.advance())
    }
}
type Ld = parcom_sequences::generic::GenericSequenceLoader<u8, Blocks, Strat>;
type Bf = parcom_sequences::generic::GenericSequenceBuffer<u8>;
fn build(strategy: Strat) -> (Bf, Ld) {
    GenericSequenceBuilder::new(Arc::new(strategy)).build(Blocks)
}
async fn add(l: &mut Ld) {
    let _ = l.load().await;
    l.force_commit();
}
fn all(b: &Bf) -> Vec<u8> {
    let mut seen = Vec::new();
    for s in b.segments() {
        seen.extend_from_slice(s);
    }
    seen
}
fn rest(all: &Vec<u8>, pos: usize) -> Vec<u8> {
    all[pos..].to_vec()
}
fn more(all: &mut Vec<u8>) {
    all.extend_from_slice(ev_text().as_bytes());
}
/// moves on by n, as far as there is something
fn skip(all: &Vec<u8>, pos: &mut usize, n: usize) -> usize {
    let have = all.len() - *pos;
    if n < have {
        *pos += n;
        0
    } else {
        *pos = all.len();
        n - have
    }
}

// ---- a move before anything has been received
pub mod early {
    use super::*;
    pub async fn lib(strategy: Strat, n: usize) {
        let (mut b, mut l) = build(strategy);
        let r = b.advance(n);
        ev_gread(r, all(&b));
        add(&mut l).await;
        ev_gread(0, all(&b));
    }
    pub async fn spec(strategy: Strat, n: usize) {
        let mut a = Vec::new();
        ev_gread(n, Vec::new());
        more(&mut a);
        ev_gread(0, a);
    }
}
// ---- two blocks, a move, a third block
pub mod blocks {
    use super::*;
    pub async fn lib(strategy: Strat, n: usize) {
        let (mut b, mut l) = build(strategy);
        add(&mut l).await;
        add(&mut l).await;
        let r = b.advance(n);
        ev_gread(r, all(&b));
        add(&mut l).await;
        ev_gread(0, all(&b));
    }
    pub async fn spec(strategy: Strat, n: usize) {
        let mut a = Vec::new();
        let mut p = 0;
        more(&mut a);
        more(&mut a);
        let r = skip(&a, &mut p, n);
        ev_gread(r, rest(&a, p));
        more(&mut a);
        ev_gread(0, rest(&a, p));
    }
}
// ---- two moves
pub mod moves {
    use super::*;
    pub async fn lib(strategy: Strat, n: usize, m: usize) {
        let (mut b, mut l) = build(strategy);
        add(&mut l).await;
        ev_len(b.advance(n));
        add(&mut l).await;
        let r = b.advance(m);
        ev_gread(r, all(&b));
    }
    pub async fn spec(strategy: Strat, n: usize, m: usize) {
        let mut a = Vec::new();
        let mut p = 0;
        more(&mut a);
        ev_len(skip(&a, &mut p, n));
        more(&mut a);
        let r = skip(&a, &mut p, m);
        ev_gread(r, rest(&a, p));
    }
}
// ---- one iteration over everything, while blocks are added
pub mod follow {
    use super::*;
    pub async fn lib(strategy: Strat, n: usize) {
        let (mut b, mut l) = build(strategy);
        add(&mut l).await;
        ev_len(b.advance(n));
        let mut it = b.segments();
        ev_bool(it.next().is_some() && it.next().is_some());
        add(&mut l).await;
        match it.next() {
            Some(s) => ev_gread(1, s.to_vec()),
            None => ev_gread(0, Vec::new()),
        }
        ev_bool(it.next().is_some());
        add(&mut l).await;
        match it.next() {
            Some(s) => ev_gread(1, s.to_vec()),
            None => ev_gread(0, Vec::new()),
        }
        ev_bool(it.next().is_some());
        ev_gread(0, all(&b));
    }
    pub async fn spec(strategy: Strat, n: usize) {
        let mut a = Vec::new();
        let mut p = 0;
        more(&mut a);
        ev_len(skip(&a, &mut p, n));
        ev_bool(false);
        for _ in 0..2 {
            let t = ev_text().as_bytes();
            a.extend_from_slice(t);
            ev_gread(1, t.to_vec());
            ev_bool(false);
        }
        ev_gread(0, rest(&a, p));
    }
}
