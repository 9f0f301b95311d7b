//! C11: with debug assertions off, values out of range never set reserved bits on the wire.
//! (With them on, the constructors refuse such values.)
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;
use bytes::{Buf, Bytes};

/// The encoded frame has a clear first bit, its own type, and at `at` the value.
fn wire<T: Encode>(f: &T, sid: u32, ty: u16) -> Bytes {
    let mut b = f.to_bytes();
    check!(b.get_u32() == sid & U31, "stream ID with a reserved bit");
    check!(b.get_u16() >> 10 == ty, "frame type");
    b
}
fn flags<T: Encode>(f: &T, allowed: u16) {
    let b = f.to_bytes();
    let fl = (mk::at(&b, 4) as u16) << 8 | mk::at(&b, 5) as u16;
    check!(fl & 0x3FF & !allowed == 0, "a flag the frame type does not have");
}

harness!(request_response(34) {
    let sid = nd::u32();
    let f = RequestResponseFrame::new(sid, nd::bool(), gen::payload(&None, &None));
    wire(&f, sid, 4);
    flags(&f, F);
    check!(f.stream_id() == sid & U31, "stream ID");
});
harness!(request_fnf(34) {
    let sid = nd::u32();
    let f = RequestFnfFrame::new(sid, nd::bool(), gen::payload(&None, &None));
    wire(&f, sid, 5);
    flags(&f, F);
    check!(f.stream_id() == sid & U31, "stream ID");
});
harness!(request_stream(34) {
    let (sid, n) = (nd::u32(), nd::u32());
    let f = RequestStreamFrame::new(sid, nd::bool(), n, gen::payload(&None, &None));
    let mut b = wire(&f, sid, 6);
    flags(&f, F);
    check!(b.get_u32() == n & U31, "initial request n with a reserved bit");
    check!(f.stream_id() == sid & U31, "stream ID");
    check!(f.initial_request_n() == n & U31, "initial request n");
});
harness!(request_channel(34) {
    let (sid, n) = (nd::u32(), nd::u32());
    let f = RequestChannelFrame::new(sid, nd::bool(), nd::bool(), n, gen::payload(&None, &None));
    let mut b = wire(&f, sid, 7);
    flags(&f, F | C);
    check!(b.get_u32() == n & U31, "initial request n with a reserved bit");
    check!(f.stream_id() == sid & U31, "stream ID");
    check!(f.initial_request_n() == n & U31, "initial request n");
});
harness!(request_n(34) {
    let (sid, n) = (nd::u32(), nd::u32());
    let f = RequestNFrame::new(sid, n);
    let mut b = wire(&f, sid, 8);
    flags(&f, 0);
    check!(b.get_u32() == n & U31, "request n with a reserved bit");
    check!(f.stream_id() == sid & U31 && f.request_n() == n & U31, "values");
});
harness!(cancel(34) {
    let sid = nd::u32();
    let f = CancelFrame::new(sid);
    wire(&f, sid, 9);
    flags(&f, 0);
    check!(f.stream_id() == sid & U31, "stream ID");
});
harness!(payload(34) {
    let (sid, bits) = (nd::u32(), nd::u16());
    let f = PayloadFrame::new(sid, Flags::from_bits_truncate(bits), gen::payload(&None, &None));
    wire(&f, sid, 10);
    flags(&f, F | C | N);
    check!(f.stream_id() == sid & U31, "stream ID");
});
harness!(payload_meta(34) {
    let (sid, bits, m) = (nd::u32(), nd::u16(), mk::bytes(META_MAX));
    let f = PayloadFrame::new(sid, Flags::from_bits_truncate(bits), gen::payload(&Some(m.clone()), &None));
    let mut b = wire(&f, sid, 10);
    flags(&f, M | F | C | N);
    let n = (b.get_u8() as usize) << 16 | b.get_u16() as usize;
    check!(n == m.len(), "metadata length");
});
harness!(error(34) {
    let (sid, code) = (nd::u32(), nd::u32());
    let f = ErrorFrame::new(sid, code, None);
    let mut b = wire(&f, sid, 11);
    flags(&f, 0);
    check!(b.get_u32() == code, "error code");
    check!(f.stream_id() == sid & U31 && f.error_code() == code, "values");
});
harness!(lease(34) {
    let (ttl, n) = (nd::u32(), nd::u32());
    let f = LeaseFrame::new(ttl, n, None);
    let mut b = wire(&f, 0, 2);
    flags(&f, 0);
    check!(b.get_u32() == ttl & U31, "time to live with a reserved bit");
    check!(b.get_u32() == n & U31, "number of requests with a reserved bit");
    check!(f.number_of_requests() == n & U31, "number of requests");
});
harness!(keepalive(34) {
    let p = nd::u64();
    let f = KeepaliveFrame::new(p, None, nd::bool());
    let mut b = wire(&f, 0, 3);
    flags(&f, F);
    check!(b.get_u64() == p & U63, "position with a reserved bit");
    check!(f.last_received_position() == p & U63, "position");
});
harness!(resume(34) {
    let (a, c) = (nd::u64(), nd::u64());
    let f = ResumeFrame::new(Version::new(nd::u16(), nd::u16()), Bytes::new(), a, c);
    let mut b = wire(&f, 0, 13);
    flags(&f, 0);
    b.advance(6);
    check!(b.get_u64() == a & U63, "server position with a reserved bit");
    check!(b.get_u64() == c & U63, "client position with a reserved bit");
    check!(f.last_received_server_position() == a & U63, "server position");
    check!(f.first_available_client_position() == c & U63, "client position");
});
harness!(resume_ok(34) {
    let p = nd::u64();
    let f = ResumeOkFrame::new(p);
    let mut b = wire(&f, 0, 14);
    flags(&f, 0);
    check!(b.get_u64() == p & U63, "position with a reserved bit");
    check!(f.last_received_server_position() == p & U63, "position");
});
harness!(setup(34) {
    let (a, c) = (nd::u32(), nd::u32());
    let f = SetupFrame::builder().set_keepalive_interval(a).set_keepalive_timeout(c).build();
    let mut b = wire(&f, 0, 1);
    flags(&f, F | C);
    b.advance(4);
    check!(b.get_u32() == a & U31, "keepalive interval with a reserved bit");
    check!(b.get_u32() == c & U31, "max lifetime with a reserved bit");
});
