//! B02: what a frame decodes to does not depend on how its bytes are split over buffers.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;
use binate::verif::List;

fn same<T: PartialEq>(a: Result<T, DecodeError>, b: Result<T, DecodeError>) {
    match (a, b) {
        (Ok(a), Ok(b)) => check!(mk::same(&a, &b), "another frame when the input is in pieces"),
        (Err(a), Err(b)) => check!(a == b, "another error when the input is in pieces"),
        _ => check!(false, "accepted in one form and rejected in the other"),
    }
}
/// The decoder of a frame type on a body in three pieces, cut anywhere, against the same body in one.
fn cut<T: Case>() {
    let w = mk::bytes(1 << 20);
    let sid = u31();
    let fl = Flags::from_bits_truncate(nd::u16());
    same(T::decode(&mut w.clone(), sid, fl), T::decode(&mut cut::Cut::new(w), sid, fl));
}
per_type!(10, cut());

/// The header: of a frame without a body, of an unknown type, and truncated.
fn header(ty: u16) {
    use bytes::{BufMut, BytesMut};
    let mut w = BytesMut::with_capacity(6);
    w.put_u32(nd::u32());
    w.put_u16(ty << 10);
    let w = w.freeze();
    same(Frame::decode(&mut w.clone()), Frame::decode(&mut cut::Cut::new(w)));
}
fn truncated(n: usize) {
    let w = mk::bytes_n(n);
    same(Frame::decode(&mut w.clone()), Frame::decode(&mut cut::Cut::new(w)));
}
pub mod header {
    use crate::*;
    harness!(cancel(10) { super::header(9) });
    harness!(extension(10) { super::header(0x3F) });
    harness!(unknown(10) { super::header(0x2A) });
    harness!(empty(10) { super::truncated(0) });
    harness!(three_bytes(10) { super::truncated(3) });
    harness!(five_bytes(10) { super::truncated(5) });
}

/// The same for the list of buffers of a connection, cut inside a field.
fn list<T: Case>(size: usize, at: usize, fl: u16) {
    let w = mk::bytes_n(size);
    let sid = u31();
    let fl = Flags::from_bits_truncate(fl);
    let mut l = List::new();
    l.push(w.slice(..at));
    l.push(w.slice(at..));
    same(T::decode(&mut w.clone(), sid, fl), T::decode(&mut l, sid, fl));
}
pub mod list {
    use super::*;
    harness!(payload(10) { list::<PayloadFrame>(9, 2, 0x100) });
    harness!(keepalive(10) { list::<KeepaliveFrame>(12, 5, 0) });
    harness!(error(10) { list::<ErrorFrame>(7, 3, 0) });
    harness!(request_n(10) { list::<RequestNFrame>(4, 1, 0) });
}
