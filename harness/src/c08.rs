//! C08: frame type codes.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;

const TYPES: [(FrameType, u16); 15] = [
    (FrameType::SETUP, 1),
    (FrameType::LEASE, 2),
    (FrameType::KEEPALIVE, 3),
    (FrameType::REQUEST_RESPONSE, 4),
    (FrameType::REQUEST_FNF, 5),
    (FrameType::REQUEST_STREAM, 6),
    (FrameType::REQUEST_CHANNEL, 7),
    (FrameType::REQUEST_N, 8),
    (FrameType::CANCEL, 9),
    (FrameType::PAYLOAD, 10),
    (FrameType::ERROR, 11),
    (FrameType::METADATA_PUSH, 12),
    (FrameType::RESUME, 13),
    (FrameType::RESUME_OK, 14),
    (FrameType::EXT, 0x3F),
];

// Every code is exactly one type, under both ways of asking, or none.
harness!(codes(34) {
    let v = nd::u16();
    let want = match v {
        1..=14 => Some(TYPES[v as usize - 1].0),
        0x3F => Some(FrameType::EXT),
        _ => None,
    };
    check!(FrameType::from_value(v) == want, "frame type of a code");
    if let Some(t) = want {
        check!(t.value() == v, "code of a frame type");
        check!(t.bits() == v << 10, "bits of a frame type");
    }
});
harness!(bits(34) {
    let b = nd::u16();
    check!(FrameType::from_bits(b) == FrameType::from_value(b >> 10), "frame type of header bits");
});
harness!(flags(34) {
    let b = nd::u16();
    let f = Flags::from_bits_truncate(b);
    check!(f.bits() == b & (I | M | F | C | N), "known flags");
    check!(f.is_ignore() == (b & I != 0), "IGNORE");
    check!(f.is_metadata() == (b & M != 0), "METADATA");
    check!(f.is_follows() == (b & F != 0), "FOLLOWS");
    check!(f.is_resume() == (b & F != 0), "RESUME");
    check!(f.is_respond() == (b & F != 0), "RESPOND");
    check!(f.is_complete() == (b & C != 0), "COMPLETE");
    check!(f.is_lease() == (b & C != 0), "LEASE");
    check!(f.is_next() == (b & N != 0), "NEXT");
});

// A frame of a type that is not known is reported with the code found, whatever else it holds.
harness!(unknown(34) {
    let w = mk::bytes(1 << 25);
    nd::assume(w.len() >= 6);
    let ty = spec::header(&w).1;
    nd::assume(!spec::known(ty));
    let r = Frame::decode(&mut w.clone());
    check!(matches!(r, Err(DecodeError::UnrecognizedFrameType(x)) if x == ty), "unknown frame type not reported");
});

/// Encoding writes the type's own code, decoding that code gives the type back.
fn own<T: Case>(p: P) {
    let f = T::gen(p).f;
    check!(spec::header(&f.to_bytes()).1 == T::TYPE, "type code sent");
    check!(spec::header(&T::wrap(f).to_bytes()).1 == T::TYPE, "type code sent");
}
pub mod own {
    use super::*;
    per_type!(34, own(P0));
}
/// What is decoded is of the type its header names.
fn named<T: Case>() {
    let w = mk::bytes(1 << 25);
    nd::assume(w.len() >= 6 && spec::header(&w).1 == T::TYPE);
    match Frame::decode(&mut w.clone()) {
        Ok(f) => check!(T::unwrap(f).is_some(), "decoded as a frame of another type"),
        Err(e) => check!(!matches!(e, DecodeError::UnrecognizedFrameType(_)), "known type reported as unknown"),
    }
}
pub mod named {
    use super::*;
    per_type!(34, named());
}
// The type and stream ID the frame types state.
harness!(stated(4) {
    check!(SetupFrame::TYPE == FrameType::SETUP && KeepaliveFrame::TYPE == FrameType::KEEPALIVE, "type stated");
    check!(RequestResponseFrame::TYPE == FrameType::REQUEST_RESPONSE, "type stated");
    check!(RequestFnfFrame::TYPE == FrameType::REQUEST_FNF, "type stated");
    check!(RequestStreamFrame::TYPE == FrameType::REQUEST_STREAM, "type stated");
    check!(RequestChannelFrame::TYPE == FrameType::REQUEST_CHANNEL, "type stated");
    check!(RequestNFrame::TYPE == FrameType::REQUEST_N && CancelFrame::TYPE == FrameType::CANCEL, "type stated");
    check!(PayloadFrame::TYPE == FrameType::PAYLOAD && ErrorFrame::TYPE == FrameType::ERROR, "type stated");
    check!(MetadataPushFrame::TYPE == FrameType::METADATA_PUSH, "type stated");
    check!(SetupFrame::STREAM_ID == 0 && KeepaliveFrame::STREAM_ID == 0 && LeaseFrame::STREAM_ID == 0, "stream");
    check!(MetadataPushFrame::STREAM_ID == 0 && ResumeFrame::STREAM_ID == 0 && ResumeOkFrame::STREAM_ID == 0, "stream");
});
