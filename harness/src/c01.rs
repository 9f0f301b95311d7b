//! C01: decoding the encoding of a frame gives that frame back.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;
use bytes::Buf;

/// Encode, then decode with the decoder of the frame type.
fn direct<T: Case>(p: P) {
    let g = T::gen(p);
    let mut b = g.f.to_bytes();
    #[cfg(kani)]
    let r = {
        let sid = b.get_u32();
        let fl = b.get_u16();
        check!(fl >> 10 == T::TYPE, "a frame does not come back as its own type");
        T::decode(&mut b, sid & U31, Flags::from_bits_truncate(fl))
    };
    #[cfg(not(kani))]
    let r = {
        let _ = U31;
        let _ = b.remaining();
        Frame::decode(&mut b).map(|f| T::unwrap(f).expect("a frame does not come back as its own type"))
    };
    match r {
        Ok(r) => check!(mk::same(&r, &g.want), "a frame does not come back from its own encoding"),
        Err(_) => check!(false, "the encoding of a frame is rejected"),
    }
}

harness!(setup(34) { direct::<SetupFrame>(P0) });
harness!(setup_data(34) { direct::<SetupFrame>(PD) });
harness!(setup_token(34) { direct::<SetupFrame>(PT) });
harness!(setup_meta(34) { direct::<SetupFrame>(PM) });
harness!(setup_resume_flag(34) { direct::<SetupFrame>(PR) });
harness!(setup_all(34) {
    direct::<SetupFrame>(P { mime: Len::Is(10), token: Len::Is(3), meta: Len::Is(4), data: Len::Is(5), ..P0 })
});
#[cfg(thorough)]
harness!(setup_everything(34) { direct::<SetupFrame>(P { mime: Len::Is(10), ..PTMD }) });
harness!(lease(34) { direct::<LeaseFrame>(P0) });
harness!(lease_meta(34) { direct::<LeaseFrame>(PD) });
harness!(lease_empty(34) { direct::<LeaseFrame>(PE) });
harness!(keepalive(34) { direct::<KeepaliveFrame>(P0) });
harness!(keepalive_data(34) { direct::<KeepaliveFrame>(PD) });
harness!(keepalive_empty(34) { direct::<KeepaliveFrame>(PE) });
macro_rules! with_payload {
    ($m:ident, $t:ident) => {
        pub mod $m {
            use super::*;
            harness!(none(34) { direct::<$t>(P0) });
            harness!(data(34) { direct::<$t>(PD) });
            harness!(meta(34) { direct::<$t>(PM) });
            harness!(both(34) { direct::<$t>(PMD) });
            harness!(empty(34) { direct::<$t>(PE) });
        }
    };
}
with_payload!(request_response, RequestResponseFrame);
with_payload!(request_fnf, RequestFnfFrame);
with_payload!(request_stream, RequestStreamFrame);
with_payload!(request_channel, RequestChannelFrame);
with_payload!(payload, PayloadFrame);
harness!(request_n(34) { direct::<RequestNFrame>(P0) });
harness!(cancel(34) { direct::<CancelFrame>(P0) });
harness!(error(34) { direct::<ErrorFrame>(P0) });
harness!(error_data(34) { direct::<ErrorFrame>(PD) });
harness!(error_empty(34) { direct::<ErrorFrame>(PE) });
harness!(metadata_push(34) { direct::<MetadataPushFrame>(PD) });
harness!(metadata_push_empty(34) { direct::<MetadataPushFrame>(P0) });
harness!(resume(34) { direct::<ResumeFrame>(PT) });
harness!(resume_ok(34) { direct::<ResumeOkFrame>(P0) });

/// The entry point: any byte string that is an encoding of a frame of type `T` decodes to what it
/// spells.
fn entry<T: Case>() {
    let w = mk::bytes(1 << 25);
    nd::assume(w.len() >= 6);
    nd::assume(spec::header(&w).1 == T::TYPE);
    nd::assume(spec::canonical(&w, T::TYPE));
    let mut b = w.clone();
    let r = Frame::decode(&mut b);
    spec::agree(&w, r, T::TYPE);
}
pub mod entry {
    use super::*;
    harness!(setup(34) { entry::<SetupFrame>() });
    harness!(lease(34) { entry::<LeaseFrame>() });
    harness!(keepalive(34) { entry::<KeepaliveFrame>() });
    harness!(request_response(34) { entry::<RequestResponseFrame>() });
    harness!(request_fnf(34) { entry::<RequestFnfFrame>() });
    harness!(request_stream(34) { entry::<RequestStreamFrame>() });
    harness!(request_channel(34) { entry::<RequestChannelFrame>() });
    harness!(request_n(34) { entry::<RequestNFrame>() });
    harness!(cancel(34) { entry::<CancelFrame>() });
    harness!(payload(34) { entry::<PayloadFrame>() });
    harness!(error(34) { entry::<ErrorFrame>() });
    harness!(metadata_push(34) { entry::<MetadataPushFrame>() });
    harness!(resume(34) { entry::<ResumeFrame>() });
    harness!(resume_ok(34) { entry::<ResumeOkFrame>() });
}
