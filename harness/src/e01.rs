//! E01: errors are classified and described by their protocol code.
use crate::*;
use binate::verif::error;
use binate::frame::DecodeError;
use binate::Error;
use std::fmt::Write;

const TEXT: [&str; 12] = [
    "error decoding frame",
    "I/O error",
    "INVALID_SETUP (0x00000001)",
    "UNSUPPORTED_SETUP (0x00000002)",
    "REJECTED_SETUP (0x00000003)",
    "REJECTED_RESUME (0x00000004)",
    "CONNECTION_ERROR (0x00000101)",
    "CONNECTION_CLOSE (0x00000102)",
    "APPLICATION_ERROR (0x00000201)",
    "REJECTED (0x00000202)",
    "CANCELED (0x00000203)",
    "INVALID (0x00000204)",
];

fn classes(e: &Error, k: usize) {
    check!(e.is_decode() == (k == 0), "decode error");
    check!(e.is_protocol() == (k >= 2), "protocol error");
    check!(e.is_setup() == (k >= 2 && k <= 4), "setup error");
    check!(e.is_invalid_setup() == (k == 2), "INVALID_SETUP");
    check!(e.is_unsupported_setup() == (k == 3), "UNSUPPORTED_SETUP");
    check!(e.is_rejected_setup() == (k == 4), "REJECTED_SETUP");
    check!(e.is_rejected_resume() == (k == 5), "REJECTED_RESUME");
    check!(e.is_connection_error() == (k == 6), "CONNECTION_ERROR");
    check!(e.is_connection_close() == (k == 7), "CONNECTION_CLOSE");
    check!(e.is_application_error() == (k == 8), "APPLICATION_ERROR");
    check!(e.is_rejected() == (k == 9), "REJECTED");
    check!(e.is_cancel() == (k == 10), "CANCELED");
    check!(e.is_invalid() == (k == 11), "INVALID");
}
harness!(classified(4) {
    let k = nd::upto(11);
    let e = error(k, if nd::bool() { Some("x") } else { None });
    classes(&e, k);
});

/// Collects what is written.
struct Out {
    b: [u8; 64],
    n: usize,
}
impl Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            check!(self.n < 64, "the description is longer than expected");
            self.b[self.n] = s[i];
            self.n += 1;
            i += 1;
        }
        Ok(())
    }
}
fn told(e: &Error, first: &str, then: &str) {
    let mut o = Out { b: [0; 64], n: 0 };
    check!(write!(o, "{}", e).is_ok(), "the description is not given");
    let (f, t) = (first.as_bytes(), then.as_bytes());
    check!(o.n == f.len() + t.len(), "description");
    let mut i = 0;
    while i < o.n {
        let want = if i < f.len() { f[i] } else { t[i - f.len()] };
        check!(o.b[i] == want, "description");
        i += 1;
    }
}
harness!(described(50) {
    let k = nd::upto(11);
    told(&error(k, None), TEXT[k], "");
});
harness!(described_with_cause(50) {
    let k = nd::upto(11);
    let e = error(k, Some("xy"));
    told(&e, TEXT[k], ": xy");
    check!(std::error::Error::source(&e).is_some(), "the cause is lost");
});
harness!(no_cause(4) {
    let e = error(nd::upto(11), None);
    check!(std::error::Error::source(&e).is_none(), "a cause appears");
});

// The codes applications use.
harness!(codes(4) {
    use binate::Code::*;
    check!(InvalidSetup as u32 == 1 && UnsupportedSetup as u32 == 2, "setup codes");
    check!(RejectedSetup as u32 == 3 && RejectedResume as u32 == 4, "setup codes");
    check!(ConnectionError as u32 == 0x101 && ConnectionClose as u32 == 0x102, "connection codes");
    check!(ApplicationError as u32 == 0x201 && Rejected as u32 == 0x202, "stream codes");
    check!(Canceled as u32 == 0x203 && Invalid as u32 == 0x204, "stream codes");
});

// An error made from a decode error is one, whatever it says, and keeps what it says.
fn decode(e: DecodeError) -> Error {
    let e: Error = e.into();
    classes(&e, 0);
    check!(std::error::Error::source(&e).is_some(), "the cause is lost");
    e
}
harness!(from_decode(40) { std::mem::forget(decode(DecodeError::InComplete)) });
harness!(from_decode_type(40) { std::mem::forget(decode(DecodeError::UnrecognizedFrameType(nd::u16()))) });
harness!(from_decode_stream(40) {
    std::mem::forget(decode(DecodeError::InvalidStreamId { expected: "0", found: nd::u32() }))
});
harness!(from_decode_text(40) {
    let e: Error = DecodeError::InComplete.into();
    told(&e, TEXT[0], ": incomplete frame");
    std::mem::forget(e);
});
// One made from an I/O error is neither a decode nor a protocol error, and keeps its cause.
harness!(from_io(4) {
    let e: Error = std::io::Error::from(std::io::ErrorKind::BrokenPipe).into();
    classes(&e, 1);
    check!(std::error::Error::source(&e).is_some(), "the cause is lost");
    std::mem::forget(e);
});

/// What a decode error says.
fn says(e: &DecodeError, first: &str, n: u32, radix: u32, last: &str) {
    let mut o = Out { b: [0; 64], n: 0 };
    check!(write!(o, "{}", e).is_ok(), "the description is not given");
    let (mut v, mut i) = (n, first.len());
    check!(o.n >= first.len() + last.len(), "description");
    let mut k = 0;
    while k < first.len() {
        check!(o.b[k] == first.as_bytes()[k], "description");
        k += 1;
    }
    // The number, from its last digit.
    let end = o.n - last.len();
    let mut at = end;
    loop {
        check!(at > i, "a digit is missing");
        at -= 1;
        let d = (v % radix) as u8;
        check!(o.b[at] == if d < 10 { b'0' + d } else { b'a' + d - 10 }, "digits");
        v /= radix;
        if v == 0 {
            break;
        }
    }
    check!(at == i, "digits in front of the number");
    i = 0;
    while i < last.len() {
        check!(o.b[end + i] == last.as_bytes()[i], "description");
        i += 1;
    }
}
harness!(says_type(66) {
    let v = nd::u16() & 0x3F;
    says(&DecodeError::UnrecognizedFrameType(v), "unrecognized frame type 0x", v as u32, 16, "");
});
harness!(says_stream(66) {
    let v = nd::u16();
    let e = DecodeError::InvalidStreamId { expected: "0", found: v as u32 };
    says(&e, "invalid stream ID (expected 0, found ", v as u32, 10, ")");
});
