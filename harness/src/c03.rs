//! C03: `len` is the encoded length, and encoding only ever appends.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;
use bytes::{Buf, BufMut, BytesMut};

fn length<T: Case>(p: P) {
    let f = T::gen(p).f;
    let n = f.len();
    let b = f.to_bytes();
    check!(b.len() == n, "len() is not the number of bytes to_bytes() gives");
    check!(!f.is_empty(), "a frame is empty");
    // behind what is in the buffer already
    let front = nd::u64();
    let mut buf = BytesMut::new();
    buf.put_u64(front);
    let f = T::wrap(f);
    check!(f.len() == n, "Frame::len() is not the length of the frame");
    f.encode(&mut buf);
    let mut buf = buf.freeze();
    check!(buf.len() == 8 + n, "encode() does not append len() bytes");
    check!(buf.get_u64() == front, "encode() changes bytes that were in the buffer");
    check!(mk::same(&buf, &b), "encode() into a buffer differs from to_bytes()");
}

pub mod none {
    use super::*;
    per_type!(34, length(P0));
}
pub mod data {
    use super::*;
    per_type!(34, length(PD));
}
pub mod meta {
    use super::*;
    harness!(setup(34) { length::<SetupFrame>(PM) });
    harness!(request_response(34) { length::<RequestResponseFrame>(PM) });
    harness!(request_fnf(34) { length::<RequestFnfFrame>(PM) });
    harness!(request_stream(34) { length::<RequestStreamFrame>(PM) });
    harness!(request_channel(34) { length::<RequestChannelFrame>(PM) });
    harness!(payload(34) { length::<PayloadFrame>(PM) });
}
pub mod both {
    use super::*;
    harness!(request_response(34) { length::<RequestResponseFrame>(PMD) });
    harness!(request_fnf(34) { length::<RequestFnfFrame>(PMD) });
    harness!(request_stream(34) { length::<RequestStreamFrame>(PMD) });
    harness!(request_channel(34) { length::<RequestChannelFrame>(PMD) });
    harness!(payload(34) { length::<PayloadFrame>(PMD) });
}
pub mod token {
    use super::*;
    harness!(setup(34) { length::<SetupFrame>(PTMD) });
    harness!(setup_bare(34) { length::<SetupFrame>(PR) });
    harness!(resume(34) { length::<ResumeFrame>(PT) });
}

// The parts of a frame that encode on their own.
harness!(version(34) {
    let v = Version::new(nd::u16(), nd::u16());
    check!(v.to_bytes().len() == v.len(), "len() of a version");
});
harness!(u24(34) {
    let v = U24::new(nd::u8(), nd::u16());
    check!(v.to_bytes().len() == v.len(), "len() of a 24-bit number");
});
harness!(payload_parts(34) {
    let (m, d) = (Len::In(0, DATA_MAX).make(), Len::In(0, DATA_MAX).make());
    let m = if nd::bool() { m } else { None };
    let d = if nd::bool() { d } else { None };
    let p = gen::payload(&m, &d);
    let n = m.as_ref().map_or(0, |m| m.len()) + d.as_ref().map_or(0, |d| d.len());
    check!(Encode::len(&p) == n, "len() of a payload");
    check!(p.len() == n, "len() of a payload");
    check!(p.to_bytes().len() == n, "encoded length of a payload");
});
