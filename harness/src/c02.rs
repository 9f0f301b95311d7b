//! C02: decoding never panics, whatever the bytes.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;

// Any byte string in one piece.
harness!(any_bytes(34) {
    let mut b = mk::bytes(1 << 25);
    let _ = Frame::decode(&mut b);
});

/// The decoder of a frame type, on any header it can be given and any body.
fn body<T: Case>() {
    let mut b = mk::bytes(1 << 25);
    let sid = u31();
    let fl = nd::u16();
    let _ = T::decode(&mut b, sid, Flags::from_bits_truncate(fl));
}
pub mod body {
    use super::*;
    per_type!(10, body());
}
/// The same for a body in three pieces, cut anywhere (also inside a field).
fn pieces<T: Case>() {
    let mut b = cut::Cut::new(mk::bytes(1 << 25));
    let sid = u31();
    let fl = nd::u16();
    let _ = T::decode(&mut b, sid, Flags::from_bits_truncate(fl));
}
pub mod pieces {
    use super::*;
    per_type!(10, pieces());
}
