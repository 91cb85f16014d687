//! Static-analysis harness: never executed.  `u` declares opaque stand-ins for everything a
//! client of the library supplies; every call into `u` is an observable event (or a pure term)
//! for the analyser.  The other modules pair a use of the library (`impl_*`) with the reference
//! contract of what it must do (`spec_*`).
#![allow(dead_code, unused_variables, unused_mut, unreachable_code, private_interfaces)]
#![allow(clippy::all)]
pub mod u;
pub mod comb;
pub mod prim;
pub mod runner;
pub mod grow;
pub mod mem;
pub mod meas;
pub mod misc;
pub mod metrics;
pub mod note;
pub mod opt;
pub mod vecs;
pub mod utf8;
pub mod wr;
pub mod src;
