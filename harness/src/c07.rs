//! C07: what was decoded encodes to something that decodes the same.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;
use bytes::Buf;

/// Input whose flags have the bits of `mask` set as in `set`.
pub fn again<T: Case>(mask: u16, set: u16) {
    let mut b = mk::bytes(1 << 20);
    let sid = if spec::connection_type(T::TYPE) { 0 } else { u31() };
    let fl = Flags::from_bits_truncate(nd::u16() & !mask | set);
    if let Ok(f) = T::decode(&mut b, sid, fl) {
        let mut e = f.to_bytes();
        check!(e.len() == f.len(), "length of a decoded frame");
        let (s, ty, _) = spec::header(&e);
        check!(e.len() >= 6 && ty == T::TYPE && s == sid, "header of a decoded frame");
        e.advance(4);
        let fl = Flags::from_bits_truncate(e.get_u16());
        match T::decode(&mut e, sid, fl) {
            Ok(g) => check!(mk::same(&f, &g), "a decoded frame does not survive re-encoding"),
            Err(_) => check!(false, "the encoding of a decoded frame is rejected"),
        }
    }
}

/// A well-formed frame encodes back to the very bytes it was decoded from.
pub fn exact<T: Case>(mask: u16, set: u16) {
    let w = mk::bytes(1 << 20);
    nd::assume(w.len() >= 6);
    let (sid, ty, fl) = spec::header(&w);
    nd::assume(ty == T::TYPE && fl & mask == set && spec::canonical(&w, T::TYPE));
    let sid = if spec::connection_type(T::TYPE) {
        nd::assume(sid == 0);
        0
    } else {
        sid
    };
    match T::TYPE {
        // The METADATA flag says whether there is metadata.
        2 => nd::assume((fl & M != 0) == (w.len() > 14)),
        12 => nd::assume(fl & M != 0),
        13 => {
            nd::assume(w.len() >= 12);
            let p = 12 + ((mk::at(&w, 10) as usize) << 8 | mk::at(&w, 11) as usize);
            nd::assume(w.len() >= p + 16);
            nd::assume(mk::at(&w, p) & 0x80 == 0 && mk::at(&w, p + 8) & 0x80 == 0);
        }
        _ => (),
    }
    let mut b = w.clone();
    b.advance(6);
    if let Ok(f) = T::decode(&mut b, sid, Flags::from_bits_truncate(fl & !mask | set)) {
        // Bytes behind a frame of fixed length are not part of it.
        let end = match T::TYPE {
            8 | 9 | 13 | 14 => f.len(),
            _ => w.len(),
        };
        check!(mk::same(&f.to_bytes(), &w.slice(..end)), "a well-formed frame encodes to other bytes");
    }
}

macro_rules! each {
    ($m:ident, $f:ident, $($more:item)*) => {
        pub mod $m {
            use super::*;
            harness!(lease(10) { $f::<LeaseFrame>(0, 0) });
            harness!(keepalive(10) { $f::<KeepaliveFrame>(0, 0) });
            harness!(request_response(10) { $f::<RequestResponseFrame>(M, 0) });
            harness!(request_response_m(10) { $f::<RequestResponseFrame>(M, M) });
            harness!(request_fnf(10) { $f::<RequestFnfFrame>(M, 0) });
            harness!(request_fnf_m(10) { $f::<RequestFnfFrame>(M, M) });
            harness!(request_stream(10) { $f::<RequestStreamFrame>(M, 0) });
            harness!(request_stream_m(10) { $f::<RequestStreamFrame>(M, M) });
            harness!(request_channel(10) { $f::<RequestChannelFrame>(M, 0) });
            harness!(request_channel_m(10) { $f::<RequestChannelFrame>(M, M) });
            harness!(request_n(10) { $f::<RequestNFrame>(0, 0) });
            harness!(cancel(10) { $f::<CancelFrame>(0, 0) });
            harness!(payload(10) { $f::<PayloadFrame>(M, 0) });
            harness!(payload_m(10) { $f::<PayloadFrame>(M, M) });
            harness!(error(10) { $f::<ErrorFrame>(0, 0) });
            harness!(metadata_push(10) { $f::<MetadataPushFrame>(0, 0) });
            harness!(resume(10) { $f::<ResumeFrame>(0, 0) });
            harness!(resume_ok(10) { $f::<ResumeOkFrame>(0, 0) });
            harness!(setup(10) { $f::<SetupFrame>(M | F, 0) });
            $($more)*
        }
    };
}
each!(twice, again,
    #[cfg(thorough)]
    harness!(setup_m(10) { again::<SetupFrame>(M | F, M) });
    #[cfg(thorough)]
    harness!(setup_t(10) { again::<SetupFrame>(M | F, F) });
);
each!(same, exact,
    harness!(setup_m(10) { exact::<SetupFrame>(M | F, M) });
    harness!(setup_t(10) { exact::<SetupFrame>(M | F, F) });
    #[cfg(thorough)]
    harness!(setup_mt(10) { exact::<SetupFrame>(M | F, M | F) });
);
