//! C05: connection-level frames live on stream 0 only; error codes belong to one side.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;

/// A connection-level frame on another stream is rejected, and one on stream 0 is not rejected
/// for its stream ID.
fn connection<T: Case>() {
    let w = mk::bytes(1 << 25);
    nd::assume(w.len() >= 6);
    let (sid, ty, _) = spec::header(&w);
    nd::assume(ty == T::TYPE);
    let mut b = w.clone();
    match Frame::decode(&mut b) {
        Ok(_) => check!(sid == 0, "connection-level frame accepted on a stream"),
        Err(DecodeError::InvalidStreamId { found, .. }) => {
            check!(sid != 0, "connection-level frame on stream 0 rejected for its stream ID");
            check!(found == sid, "another stream ID reported than was found");
        }
        Err(_) => check!(sid == 0, "connection-level frame on a stream rejected for something else"),
    }
}
harness!(setup(34) { connection::<SetupFrame>() });
harness!(lease(34) { connection::<LeaseFrame>() });
harness!(keepalive(34) { connection::<KeepaliveFrame>() });
harness!(metadata_push(34) { connection::<MetadataPushFrame>() });
harness!(resume(34) { connection::<ResumeFrame>() });
harness!(resume_ok(34) { connection::<ResumeOkFrame>() });

harness!(error(34) {
    let w = mk::bytes(1 << 25);
    nd::assume(w.len() >= 10);
    let (sid, ty, _) = spec::header(&w);
    nd::assume(ty == 11);
    let code = u32::from_be_bytes([mk::at(&w, 6), mk::at(&w, 7), mk::at(&w, 8), mk::at(&w, 9)]);
    let fits = match on_connection(code) {
        Some(c) => c == (sid == 0),
        None => true,
    };
    let mut b = w.clone();
    match Frame::decode(&mut b) {
        Ok(Frame::Error(e)) => {
            check!(fits, "error code accepted where it does not belong");
            check!(e.error_code() == code, "error code");
            check!(e.stream_id() == sid, "stream ID");
        }
        Ok(_) => check!(false, "decoded as a frame of another type"),
        Err(DecodeError::InvalidStreamId { found, .. }) => {
            check!(!fits, "error code rejected where it belongs");
            check!(found == sid, "another stream ID reported than was found");
        }
        Err(_) => check!(false, "complete ERROR frame rejected"),
    }
});

/// Connection-level frames are sent on stream 0.
fn sent<T: Case>(p: P) {
    let b = T::gen(p).f.to_bytes();
    let (sid, ty, _) = spec::header(&b);
    check!(sid == 0, "connection-level frame sent on a stream");
    check!(ty == T::TYPE, "frame type sent");
}
pub mod sent {
    use super::*;
    harness!(setup(34) { sent::<SetupFrame>(P0) });
    harness!(lease(34) { sent::<LeaseFrame>(PD) });
    harness!(keepalive(34) { sent::<KeepaliveFrame>(PD) });
    harness!(metadata_push(34) { sent::<MetadataPushFrame>(PD) });
    harness!(resume(34) { sent::<ResumeFrame>(PT) });
    harness!(resume_ok(34) { sent::<ResumeOkFrame>(P0) });
}

// Stream frames keep their stream ID.
fn stream<T: Case>(p: P) {
    let g = T::gen(p);
    let sid = spec::header(&g.f.to_bytes()).0;
    let mut want = 0;
    let mut i = 0;
    while i < 4 {
        want = want << 8 | g.segs.at(i) as u32;
        i += 1;
    }
    check!(sid == want, "frame sent on another stream");
}
pub mod on_stream {
    use super::*;
    harness!(request_response(34) { stream::<RequestResponseFrame>(P0) });
    harness!(request_fnf(34) { stream::<RequestFnfFrame>(P0) });
    harness!(request_stream(34) { stream::<RequestStreamFrame>(P0) });
    harness!(request_channel(34) { stream::<RequestChannelFrame>(P0) });
    harness!(request_n(34) { stream::<RequestNFrame>(P0) });
    harness!(cancel(34) { stream::<CancelFrame>(P0) });
    harness!(payload(34) { stream::<PayloadFrame>(P0) });
    harness!(error(34) { stream::<ErrorFrame>(P0) });
}
