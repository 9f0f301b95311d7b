//! C09: a frame reports exactly what it was built from.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;
use binate::Payload;
use bytes::Bytes;
use std::time::Duration;

fn maybe(max: usize) -> Option<Bytes> {
    if nd::bool() {
        Some(mk::bytes(max))
    } else {
        None
    }
}
fn opt(a: Option<&Bytes>, b: &Option<Bytes>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => mk::same(a, b),
        _ => false,
    }
}
fn is(p: Payload, m: &Option<Bytes>, d: &Option<Bytes>) {
    check!(opt(p.metadata(), m), "metadata of the payload");
    check!(opt(p.data(), d), "data of the payload");
}
fn header<T: Encode>(f: &T, sid: u32, ty: u16) {
    let h = spec::header(&f.to_bytes());
    check!(h.0 == sid && h.1 == ty, "stream ID or type");
}
macro_rules! check_payload {
    ($x:ident, $m:ident, $d:ident, $data:ident) => {
        check!(opt($x.metadata(), &$m), "metadata");
        check!(opt($x.$data(), &$d), "data");
        is($x.payload(), &$m, &$d);
    };
}

harness!(request_response(34) {
    let (sid, fo, m, d) = (u31(), nd::bool(), maybe(META_MAX), maybe(DATA_MAX));
    let x = RequestResponseFrame::new(sid, fo, gen::payload(&m, &d));
    check!(x.stream_id() == sid, "stream id");
    check!(x.is_follows() == fo, "follows");
    check_payload!(x, m, d, data);
});
harness!(request_fnf(34) {
    let (sid, fo, m, d) = (u31(), nd::bool(), maybe(META_MAX), maybe(DATA_MAX));
    let x = RequestFnfFrame::new(sid, fo, gen::payload(&m, &d));
    check!(x.stream_id() == sid, "stream id");
    check!(x.is_follows() == fo, "follows");
    check_payload!(x, m, d, request_data);
});
harness!(request_stream(34) {
    let (sid, fo, n, m, d) = (u31(), nd::bool(), pos31(), maybe(META_MAX), maybe(DATA_MAX));
    let x = RequestStreamFrame::new(sid, fo, n, gen::payload(&m, &d));
    check!(x.stream_id() == sid, "stream id");
    check!(x.is_follows() == fo, "follows");
    check!(x.initial_request_n() == n, "initial request n");
    check_payload!(x, m, d, data);
});
harness!(request_channel(34) {
    let (sid, fo, co, n) = (u31(), nd::bool(), nd::bool(), pos31());
    let (m, d) = (maybe(META_MAX), maybe(DATA_MAX));
    let x = RequestChannelFrame::new(sid, fo, co, n, gen::payload(&m, &d));
    check!(x.stream_id() == sid, "stream id");
    check!(x.is_follows() == fo, "follows");
    check!(x.is_complete() == co, "complete");
    check!(x.initial_request_n() == n, "initial request n");
    check_payload!(x, m, d, data);
});
harness!(payload(34) {
    let (sid, bits, m, d) = (u31(), nd::u16(), maybe(META_MAX), maybe(DATA_MAX));
    let x = PayloadFrame::new(sid, Flags::from_bits_truncate(bits), gen::payload(&m, &d));
    check!(x.stream_id() == sid, "stream id");
    check!(x.is_follows() == (bits & F != 0), "follows");
    check!(x.is_complete() == (bits & C != 0), "complete");
    check!(x.is_next() == (bits & N != 0), "next");
    check_payload!(x, m, d, data);
});
harness!(request_n(34) {
    let (sid, n) = (u31(), pos31());
    let x = RequestNFrame::new(sid, n);
    check!(x.stream_id() == sid && x.request_n() == n, "request n");
});
harness!(cancel(34) {
    let sid = u31();
    check!(CancelFrame::new(sid).stream_id() == sid, "stream id");
});
harness!(error(34) {
    let (sid, code, d) = (u31(), nd::u32(), maybe(DATA_MAX));
    let x = ErrorFrame::new(sid, code, d.clone());
    check!(x.stream_id() == sid, "stream id");
    check!(x.error_code() == code, "error code");
    check!(opt(x.data(), &d), "data");
});
harness!(error_codes(34) {
    check!(ErrorFrame::INVALID_SETUP == 1 && ErrorFrame::UNSUPPORTED_SETUP == 2, "setup error codes");
    check!(ErrorFrame::REJECTED_SETUP == 3 && ErrorFrame::REJECTED_RESUME == 4, "setup error codes");
    check!(ErrorFrame::CONNECTION_ERROR == 0x101 && ErrorFrame::CONNECTION_CLOSE == 0x102, "connection error codes");
    check!(ErrorFrame::APPLICATION_ERROR == 0x201 && ErrorFrame::REJECTED == 0x202, "stream error codes");
    check!(ErrorFrame::CANCELED == 0x203 && ErrorFrame::INVALID == 0x204, "stream error codes");
});
harness!(metadata_push(34) {
    let m = mk::bytes(DATA_MAX);
    let x = MetadataPushFrame::new(m.clone());
    check!(mk::same(x.metadata(), &m), "metadata");
});
harness!(keepalive(34) {
    let (p, r, d) = (u63(), nd::bool(), maybe(DATA_MAX));
    let x = KeepaliveFrame::new(p, d.clone(), r);
    check!(x.last_received_position() == p, "position");
    check!(x.is_respond() == r, "respond");
    check!(opt(x.data(), &d), "data");
});
harness!(resume(34) {
    let (v, t, a, b) = (Version::new(nd::u16(), nd::u16()), mk::bytes(65_535), u63(), u63());
    let x = ResumeFrame::new(v, t.clone(), a, b);
    check!(x.version() == v, "version");
    check!(mk::same(x.resume_token(), &t), "token");
    check!(x.last_received_server_position() == a, "server position");
    check!(x.first_available_client_position() == b, "client position");
});
harness!(resume_ok(34) {
    let a = u63();
    check!(ResumeOkFrame::new(a).last_received_server_position() == a, "position");
});
harness!(#[kani::solver(cvc5)] lease(34) {
    let (ttl, n) = (u31(), u31());
    let x = LeaseFrame::new(ttl, n, None);
    check!(x.ttl() == Duration::from_millis(ttl as u64), "time to live");
    check!(x.number_of_requests() == n, "number of requests");
    check!(x.metadata().is_none(), "metadata");
});
harness!(lease_meta(34) {
    let (ttl, n, m) = (u31(), u31(), maybe(DATA_MAX));
    let x = LeaseFrame::new(ttl, n, m.clone());
    check!(x.number_of_requests() == n, "number of requests");
    check!(opt(x.metadata(), &m), "metadata");
});
harness!(#[kani::solver(cvc5)] setup_times(34) {
    let (a, b) = (u31(), u31());
    let x = SetupFrame::builder().set_keepalive_interval(a).set_keepalive_timeout(b).build();
    check!(x.keepalive_interval() == Duration::from_millis(a as u64), "keepalive interval");
    check!(x.keepalive_timeout() == Duration::from_millis(b as u64), "keepalive timeout");
});
harness!(setup(34) {
    let (maj, min, l) = (nd::u16(), nd::u16(), nd::bool());
    let (t, m, d) = (maybe(65_535), maybe(META_MAX), maybe(DATA_MAX));
    let b = SetupFrame::builder().set_version(maj, min);
    let b = if l { b.set_lease_flag() } else { b };
    let b = match &t { Some(t) => b.set_resume_token(t.clone()), None => b };
    let b = match &m { Some(m) => b.set_metadata(m.clone()), None => b };
    let b = match &d { Some(d) => b.set_data(d.clone()), None => b };
    let x = b.build();
    check!(x.version() == Version::new(maj, min), "version");
    check!(x.is_lease() == l, "lease");
    check!(x.is_resume() == t.is_some(), "resume");
    check!(opt(x.resume_token(), &t), "token");
    check_payload!(x, m, d, data);
});
/// A MIME type of 2 bytes: ASCII text comes back.
fn mime(first: bool) {
    let (a, b) = (nd::u8() & 0x7F, nd::u8() & 0x7F);
    let v: &'static [u8] = Box::leak(Box::new([a, b]));
    let s = unsafe { std::str::from_utf8_unchecked(v) };
    let x = SetupFrame::builder();
    let x = if first { x.set_metadata_mimetype(s) } else { x.set_data_mimetype(s) }.build();
    let got = if first { x.metadata_mimetype() } else { x.data_mimetype() };
    match got {
        Some(g) => {
            let g = g.as_bytes();
            check!(g.len() == 2 && g[0] == a && g[1] == b, "MIME type");
        }
        None => check!(false, "MIME type is lost"),
    }
}
harness!(mime_metadata(6) { mime(true) });
harness!(mime_data(6) { mime(false) });
/// Text of one character that is not ASCII is no MIME type.
fn no_mime(first: bool) {
    let (a, b) = (nd::u8(), nd::u8());
    nd::assume(a >= 0xC2 && a <= 0xDF && b & 0xC0 == 0x80);
    let v: &'static [u8] = Box::leak(Box::new([a, b]));
    let s = unsafe { std::str::from_utf8_unchecked(v) };
    let x = SetupFrame::builder();
    let x = if first { x.set_metadata_mimetype(s) } else { x.set_data_mimetype(s) }.build();
    let got = if first { x.metadata_mimetype() } else { x.data_mimetype() };
    check!(got.is_none(), "text that is not ASCII is a MIME type");
}
harness!(no_mime_metadata(6) { no_mime(true) });
harness!(no_mime_data(6) { no_mime(false) });
/// The data of an error as text.
fn error_text(n: usize) {
    let x = [nd::u8(), nd::u8()];
    let valid = match n {
        1 => x[0] < 0x80,
        _ => (x[0] < 0x80 && x[1] < 0x80) || (x[0] >= 0xC2 && x[0] <= 0xDF && x[1] & 0xC0 == 0x80),
    };
    let v: &'static [u8] = Box::leak(Box::new(x));
    let f = ErrorFrame::new(1, nd::u32(), Some(Bytes::from_static(&v[..n])));
    match f.data_utf8() {
        Some(s) => check!(valid && s.len() == n && s.as_bytes()[0] == x[0] && s.as_bytes()[n - 1] == x[n - 1], "text"),
        None => check!(!valid, "text is lost"),
    }
}
harness!(error_text_1(4) { error_text(1) });
harness!(error_text_2(4) { error_text(2) });
harness!(error_no_text(4) {
    check!(ErrorFrame::new(1, 2, None).data_utf8().is_none(), "text without data");
    check!(ErrorFrame::MIN_APPLICATION_ERROR_CODE == 0x301, "first application error code");
    check!(ErrorFrame::MAX_APPLICATION_ERROR_CODE == 0xFFFF_FFFE, "last application error code");
});
