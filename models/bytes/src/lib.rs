#![allow(missing_docs, static_mut_refs, dead_code, unused_variables, rust_2018_idioms, unsafe_op_in_unsafe_fn)]
#![no_std]
//! Verification model of the `bytes` crate (1.0.1).
//!
//! `buf/` (the `Buf`/`BufMut` traits and every adaptor) is the registry source, verbatim.
//! Only the storage of `Bytes`/`BytesMut` is replaced, see `model.rs`.

extern crate alloc;

#[cfg(feature = "std")]
extern crate std;

pub mod buf;
pub use crate::buf::{Buf, BufMut};

mod bytes;
mod bytes_mut;
mod fmt;
pub mod model;
pub use crate::bytes::Bytes;
pub use crate::bytes_mut::BytesMut;

