//! A reference decoder, written from the protocol specification: what decoding ANY byte string
//! must give, checked through the public accessors of the decoded frame.
use crate::gen::*;
use crate::mk;
use binate::frame::codec::*;
use binate::frame::*;
use bytes::Bytes;

type R = Result<Frame, DecodeError>;

/// A reading position in the input.
pub struct Cur<'a> {
    w: &'a Bytes,
    pos: usize,
}

#[derive(Clone, Copy)]
pub struct Part(usize, usize);

impl Cur<'_> {
    fn left(&self) -> usize {
        self.w.len() - self.pos
    }
    fn uint(&mut self, n: usize) -> u64 {
        let mut v = 0;
        let mut i = 0;
        while i < n {
            v = v << 8 | mk::at(self.w, self.pos + i) as u64;
            i += 1;
        }
        self.pos += n;
        v
    }
    fn u16(&mut self) -> u16 {
        self.uint(2) as u16
    }
    fn u32(&mut self) -> u32 {
        self.uint(4) as u32
    }
    fn part(&mut self, n: usize) -> Part {
        let p = Part(self.pos, n);
        self.pos += n;
        p
    }
    /// The rest, absent when empty.
    fn rest(&mut self) -> Option<Part> {
        match self.left() {
            0 => None,
            n => Some(self.part(n)),
        }
    }
}

fn is_part(b: &Bytes, w: &Bytes, p: Part) -> bool {
    mk::same(b, &w.slice(p.0..p.0 + p.1))
}
fn is_opt(b: Option<&Bytes>, w: &Bytes, p: Option<Part>) -> bool {
    match (b, p) {
        (None, None) => true,
        (Some(b), Some(p)) => is_part(b, w, p),
        _ => false,
    }
}

macro_rules! need {
    ($c:ident, $n:expr, $r:ident) => {
        if $c.left() < $n {
            check!(matches!($r, Err(DecodeError::InComplete)), "truncated input not reported as incomplete");
            return;
        }
    };
}
macro_rules! get {
    ($r:ident, $t:ty) => {
        match $r {
            Ok(f) => match <$t>::unwrap(f) {
                Some(x) => x,
                None => {
                    check!(false, "decoded as a frame of another type");
                    return;
                }
            },
            Err(_) => {
                check!(false, "well-formed input rejected");
                return;
            }
        }
    };
}
macro_rules! payload {
    ($c:ident, $fl:ident, $r:ident, $m:ident, $d:ident) => {
        let $m = if $fl & M != 0 {
            need!($c, 3, $r);
            let n = $c.uint(3) as usize;
            need!($c, n, $r);
            Some($c.part(n))
        } else {
            None
        };
        let $d = $c.rest();
    };
}

pub const CONNECTION: [u16; 6] = [1, 2, 3, 12, 13, 14];

pub fn known(ty: u16) -> bool {
    (1..=14).contains(&ty)
}
pub fn connection_type(ty: u16) -> bool {
    matches!(ty, 1 | 2 | 3 | 12 | 13 | 14)
}

/// The header fields of an input of at least 6 bytes: stream ID, frame type, flags.
pub fn header(w: &Bytes) -> (u32, u16, u16) {
    let mut c = Cur { w, pos: 0 };
    let sid = c.u32() & U31;
    let t = c.u16();
    (sid, t >> 10, t & (I | M | F | C | N))
}

/// `r` is what decoding `w` gave; `only`: the type `w` is known to have (0: not known).
pub fn agree(w: &Bytes, r: R, only: u16) {
    if w.len() < 6 {
        check!(matches!(r, Err(DecodeError::InComplete)), "truncated header not reported as incomplete");
        return;
    }
    let (sid, ty, fl) = header(w);
    let ty = if only != 0 { only } else { ty };
    if !known(ty) {
        check!(matches!(r, Err(DecodeError::UnrecognizedFrameType(x)) if x == ty), "unknown frame type not reported");
        return;
    }
    if connection_type(ty) && sid != 0 {
        check!(
            matches!(r, Err(DecodeError::InvalidStreamId { found, .. }) if found == sid),
            "connection frame on a stream not rejected"
        );
        return;
    }
    let mut c = Cur { w, pos: 6 };
    let c = &mut c;
    match ty {
        1 => setup(c, fl, r),
        2 => lease(c, r),
        3 => keepalive(c, fl, r),
        4 => request_response(c, sid, fl, r),
        5 => request_fnf(c, sid, fl, r),
        6 => request_stream(c, sid, fl, r),
        7 => request_channel(c, sid, fl, r),
        8 => request_n(c, sid, r),
        9 => {
            let x = get!(r, CancelFrame);
            check!(x.stream_id() == sid, "CANCEL stream id");
        }
        10 => payload(c, sid, fl, r),
        11 => error(c, sid, r),
        12 => {
            let p = c.rest();
            let x = get!(r, MetadataPushFrame);
            check!(is_part(x.metadata(), c.w, p.unwrap_or(Part(6, 0))), "METADATA_PUSH metadata");
        }
        13 => resume(c, r),
        14 => {
            need!(c, 8, r);
            let v = c.uint(8) & U63;
            let x = get!(r, ResumeOkFrame);
            check!(x.last_received_server_position() == v, "RESUME_OK position");
        }
        _ => (),
    }
}

pub fn agree_t<T: Case>(w: &Bytes, r: Result<T, DecodeError>) {
    agree(w, r.map(T::wrap), T::TYPE)
}

fn setup(c: &mut Cur<'_>, fl: u16, r: R) {
    need!(c, 4, r);
    let (maj, min) = (c.u16(), c.u16());
    need!(c, 4, r);
    let ka = c.u32() & U31;
    need!(c, 4, r);
    let lt = c.u32() & U31;
    let token = if fl & F != 0 {
        need!(c, 2, r);
        let n = c.u16() as usize;
        need!(c, n, r);
        Some(c.part(n))
    } else {
        None
    };
    need!(c, 1, r);
    let n = c.uint(1) as usize;
    need!(c, n, r);
    let mm = c.part(n);
    need!(c, 1, r);
    let n = c.uint(1) as usize;
    need!(c, n, r);
    let dm = c.part(n);
    payload!(c, fl, r, m, d);
    let x = get!(r, SetupFrame);
    check!(x.version() == Version::new(maj, min), "SETUP version");
    check!(x.is_resume() == (fl & F != 0), "SETUP resume flag");
    check!(x.is_lease() == (fl & C != 0), "SETUP lease flag");
    check!(is_opt(x.resume_token(), c.w, token), "SETUP token");
    check!(is_opt(x.metadata(), c.w, m), "SETUP metadata");
    check!(is_opt(x.data(), c.w, d), "SETUP data");
    let (a, b, i, t) = binate::verif::setup_fields(&x);
    check!(is_part(a, c.w, mm), "SETUP metadata MIME type");
    check!(is_part(b, c.w, dm), "SETUP data MIME type");
    check!(i == ka, "SETUP keepalive interval");
    check!(t == lt, "SETUP max lifetime");
}

fn lease(c: &mut Cur<'_>, r: R) {
    need!(c, 4, r);
    let ttl = c.u32() & U31;
    need!(c, 4, r);
    let n = c.u32() & U31;
    let m = c.rest();
    let x = get!(r, LeaseFrame);
    check!(mk::same(&x, &LeaseFrame::new(ttl, n, x.metadata().cloned())), "LEASE ttl");
    check!(x.number_of_requests() == n, "LEASE number of requests");
    check!(is_opt(x.metadata(), c.w, m), "LEASE metadata");
}

fn keepalive(c: &mut Cur<'_>, fl: u16, r: R) {
    need!(c, 8, r);
    let p = c.uint(8) & U63;
    let d = c.rest();
    let x = get!(r, KeepaliveFrame);
    check!(x.is_respond() == (fl & F != 0), "KEEPALIVE respond flag");
    check!(x.last_received_position() == p, "KEEPALIVE position");
    check!(is_opt(x.data(), c.w, d), "KEEPALIVE data");
}

fn request_response(c: &mut Cur<'_>, sid: u32, fl: u16, r: R) {
    payload!(c, fl, r, m, d);
    let x = get!(r, RequestResponseFrame);
    check!(x.stream_id() == sid, "REQUEST_RESPONSE stream id");
    check!(x.is_follows() == (fl & F != 0), "REQUEST_RESPONSE follows flag");
    check!(is_opt(x.metadata(), c.w, m), "REQUEST_RESPONSE metadata");
    check!(is_opt(x.data(), c.w, d), "REQUEST_RESPONSE data");
}

fn request_fnf(c: &mut Cur<'_>, sid: u32, fl: u16, r: R) {
    payload!(c, fl, r, m, d);
    let x = get!(r, RequestFnfFrame);
    check!(x.stream_id() == sid, "REQUEST_FNF stream id");
    check!(x.is_follows() == (fl & F != 0), "REQUEST_FNF follows flag");
    check!(is_opt(x.metadata(), c.w, m), "REQUEST_FNF metadata");
    check!(is_opt(x.request_data(), c.w, d), "REQUEST_FNF data");
}

fn request_stream(c: &mut Cur<'_>, sid: u32, fl: u16, r: R) {
    need!(c, 4, r);
    let n = c.u32() & U31;
    payload!(c, fl, r, m, d);
    let x = get!(r, RequestStreamFrame);
    check!(x.stream_id() == sid, "REQUEST_STREAM stream id");
    check!(x.is_follows() == (fl & F != 0), "REQUEST_STREAM follows flag");
    check!(x.initial_request_n() == n, "REQUEST_STREAM initial request n");
    check!(is_opt(x.metadata(), c.w, m), "REQUEST_STREAM metadata");
    check!(is_opt(x.data(), c.w, d), "REQUEST_STREAM data");
}

fn request_channel(c: &mut Cur<'_>, sid: u32, fl: u16, r: R) {
    need!(c, 4, r);
    let n = c.u32() & U31;
    payload!(c, fl, r, m, d);
    let x = get!(r, RequestChannelFrame);
    check!(x.stream_id() == sid, "REQUEST_CHANNEL stream id");
    check!(x.is_follows() == (fl & F != 0), "REQUEST_CHANNEL follows flag");
    check!(x.is_complete() == (fl & C != 0), "REQUEST_CHANNEL complete flag");
    check!(x.initial_request_n() == n, "REQUEST_CHANNEL initial request n");
    check!(is_opt(x.metadata(), c.w, m), "REQUEST_CHANNEL metadata");
    check!(is_opt(x.data(), c.w, d), "REQUEST_CHANNEL data");
}

fn request_n(c: &mut Cur<'_>, sid: u32, r: R) {
    need!(c, 4, r);
    let n = c.u32() & U31;
    let x = get!(r, RequestNFrame);
    check!(x.stream_id() == sid, "REQUEST_N stream id");
    check!(x.request_n() == n, "REQUEST_N request n");
}

fn payload(c: &mut Cur<'_>, sid: u32, fl: u16, r: R) {
    payload!(c, fl, r, m, d);
    let x = get!(r, PayloadFrame);
    check!(x.stream_id() == sid, "PAYLOAD stream id");
    check!(x.is_follows() == (fl & F != 0), "PAYLOAD follows flag");
    check!(x.is_complete() == (fl & C != 0), "PAYLOAD complete flag");
    check!(x.is_next() == (fl & N != 0), "PAYLOAD next flag");
    check!(is_opt(x.metadata(), c.w, m), "PAYLOAD metadata");
    check!(is_opt(x.data(), c.w, d), "PAYLOAD data");
}

fn error(c: &mut Cur<'_>, sid: u32, r: R) {
    need!(c, 4, r);
    let code = c.u32();
    if let Some(conn) = on_connection(code) {
        if conn != (sid == 0) {
            check!(
                matches!(r, Err(DecodeError::InvalidStreamId { found, .. }) if found == sid),
                "ERROR with a code that does not belong on its stream id not rejected"
            );
            return;
        }
    }
    let d = c.rest();
    let x = get!(r, ErrorFrame);
    check!(x.stream_id() == sid, "ERROR stream id");
    check!(x.error_code() == code, "ERROR code");
    check!(is_opt(x.data(), c.w, d), "ERROR data");
}

fn resume(c: &mut Cur<'_>, r: R) {
    need!(c, 4, r);
    let (maj, min) = (c.u16(), c.u16());
    need!(c, 2, r);
    let n = c.u16() as usize;
    need!(c, n, r);
    let t = c.part(n);
    need!(c, 8, r);
    let a = c.uint(8) & U63;
    need!(c, 8, r);
    let b = c.uint(8) & U63;
    let x = get!(r, ResumeFrame);
    check!(x.version() == Version::new(maj, min), "RESUME version");
    check!(is_part(x.resume_token(), c.w, t), "RESUME token");
    check!(x.last_received_server_position() == a, "RESUME server position");
    check!(x.first_available_client_position() == b, "RESUME client position");
}

/// Whether no reserved bit at a fixed position is set, and only flags the frame type has.
pub fn canonical(w: &Bytes, ty: u16) -> bool {
    let mut c = Cur { w, pos: 0 };
    let sid = c.u32();
    let fl = c.u16() & 0x3FF;
    let flags = match ty {
        1 => M | F | C,
        2 => M,
        3 => F,
        4 | 5 | 6 => M | F,
        7 => M | F | C,
        10 => M | F | C | N,
        12 => M,
        _ => 0,
    };
    let clear = |at: usize| w.len() <= at || mk::at(w, at) & 0x80 == 0;
    sid <= U31
        && fl & !flags == 0
        && match ty {
            1 => clear(10) && clear(14),
            2 => clear(6) && clear(10),
            3 | 6 | 7 | 8 | 14 => clear(6),
            _ => true,
        }
}
