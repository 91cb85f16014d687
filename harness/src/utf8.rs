//! The text filter between any byte source and any buffer.
use crate::u::*;
use parcom_sequence_core::{BufferWriter, SequenceControl, SequenceSource};
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
use std::future::{ready, Ready};

pub enum Out {
    Data(Vec<u8>),
    End,
    Invalid,
    Failed(SErr),
}
pub struct Ctl;
pub struct Wri {
    buf: Vec<u8>,
}
fn failed(e: Utf8ValidationError<SErr>) -> Out {
    match e {
        Utf8ValidationError::InvalidSequence => Out::Invalid,
        Utf8ValidationError::Inner(e) => Out::Failed(e),
    }
}
impl SequenceControl for Ctl {
    type Item = u8;
    type Result = Out;
    type Error = Utf8ValidationError<SErr>;
    type Writer = Wri;
    fn request_writer(self, n: usize) -> Wri {
        let mut buf = Vec::new();
        buf.reserve(n);
        Wri { buf }
    }
    fn cancel(self, e: Self::Error) -> Out { failed(e) }
    fn finish(self) -> Out { Out::End }
}
impl BufferWriter for Wri {
    type Segment = [u8];
    type Item = u8;
    type Result = Out;
    type Error = Utf8ValidationError<SErr>;
    fn capacity(&self) -> usize { self.buf.capacity() }
    fn len(&self) -> usize { self.buf.len() }
    fn as_ptr(&self) -> *const u8 { self.buf.as_ptr() }
    fn as_mut_ptr(&mut self) -> *mut u8 { self.buf.as_mut_ptr() }
    unsafe fn set_len(&mut self, n: usize) { self.buf.set_len(n) }
    fn advance(self) -> Out { Out::Data(self.buf) }
    fn cancel(self, e: Self::Error) -> Out { failed(e) }
}

/// a source that does whatever it is told
pub struct Src;
impl SequenceSource for Src {
    type Item = u8;
    type Error = SErr;
    type Next<'a, C> = Ready<C::Result> where C: 'a + SequenceControl<Item = u8, Error = SErr>;
    fn next<'a, C>(&'a mut self, control: C, _hint: usize) -> Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = u8, Error = SErr>,
    {
        ready(match ev_bsrc() {
            BSrc::Data(chunk, then) => {
                let mut w = control.request_writer(chunk.len());
                let before = w.len();
                let room = w.capacity() >= chunk.len();
                // all the room announced is really there
                if let Some(last) = w.spare_capacity().last_mut() {
                    last.write(0);
                }
                unsafe {
                    std::ptr::copy_nonoverlapping(chunk.as_ptr(), w.as_mut_ptr(), chunk.len());
                    w.set_len(chunk.len());
                }
                // (two places, so that an empty chunk and one with bytes are told apart)
                if chunk.is_empty() {
                    ev_bseen(before, room, w.as_slice().to_vec());
                } else {
                    ev_bseen(before, room, w.as_slice().to_vec());
                }
                match then {
                    Ok(()) => w.advance(),
                    Err(e) => w.cancel(e),
                }
            }
            BSrc::End => control.finish(),
            BSrc::Fail(e) => control.cancel(e),
        })
    }
}

/// what is kept back between two chunks
pub enum Held {
    None,
    One(u8),
    Two(u8, u8),
    Three(u8, u8, u8),
}
fn model(held: &mut Held) -> Out {
    match ev_bsrc() {
        BSrc::Data(chunk, then) => {
            if chunk.is_empty() {
                ev_bseen(0, true, chunk.to_vec());
            } else {
                ev_bseen(0, true, chunk.to_vec());
            }
            if let Err(e) = then {
                return Out::Failed(e);
            }
            let mut all = Vec::new();
            match *held {
                Held::None => (),
                Held::One(a) => all.extend_from_slice(&[a]),
                Held::Two(a, b) => all.extend_from_slice(&[a, b]),
                Held::Three(a, b, c) => all.extend_from_slice(&[a, b, c]),
            }
            all.extend_from_slice(chunk);
            let n = match std::str::from_utf8(&all) {
                Ok(_) => all.len(),
                Err(e) => e.valid_up_to(),
            };
            let k = all.len() - n;
            if k > 3 {
                return Out::Invalid;
            }
            *held = match k {
                0 => Held::None,
                1 => Held::One(all[n]),
                2 => Held::Two(all[n], all[n + 1]),
                _ => Held::Three(all[n], all[n + 1], all[n + 2]),
            };
            all.truncate(n);
            Out::Data(all)
        }
        BSrc::End => {
            if let Held::None = held { Out::End } else { Out::Invalid }
        }
        BSrc::Fail(e) => Out::Failed(e),
    }
}
pub mod run {
    use super::*;
    pub async fn lib() {
        let mut v = Utf8Validator::new(Src);
        loop {
            let o = v.next(Ctl, 0).await;
            let stop = matches!(o, Out::Invalid | Out::End);
            ev_bout(o);
            if stop { break; }
        }
    }
    pub async fn spec() {
        let mut held = Held::None;
        loop {
            let o = model(&mut held);
            let stop = matches!(o, Out::Invalid | Out::End);
            ev_bout(o);
            if stop { break; }
        }
    }
}
