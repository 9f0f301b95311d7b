//! Arbitrary frames with their specified wire layout, written from the RSocket protocol
//! specification (v1.0) and not from the code under test.
use crate::seg::Segs;
use crate::{mk, nd};
use binate::frame::codec::*;
use binate::frame::*;
use binate::Payload;
use bytes::Bytes;

pub const U31: u32 = 0x7FFF_FFFF;
pub const U63: u64 = 0x7FFF_FFFF_FFFF_FFFF;

pub const I: u16 = 0x100;
pub const M: u16 = 0x080;
pub const F: u16 = 0x040;
pub const C: u16 = 0x020;
pub const N: u16 = 0x010;

/// Which optional parts a frame has (a choice made by the harness, not by the solver) and how
/// long they are.
#[derive(Clone, Copy)]
pub struct P {
    pub meta: Len,
    pub data: Len,
    pub token: Len,
    pub mime: Len,
    /// The RESUME flag without a token.
    pub bare_resume: bool,
}

#[derive(Clone, Copy)]
pub enum Len {
    No,
    /// Exactly this long.
    Is(usize),
    /// Any length between the two (inclusive).
    In(usize, usize),
}
use Len::*;

impl Len {
    pub fn make(self) -> Option<Bytes> {
        match self {
            No => None,
            Is(n) => Some(mk::bytes_n(n)),
            In(lo, hi) => {
                let n = nd::upto(hi);
                nd::assume(n >= lo);
                Some(mk::bytes_n(n))
            }
        }
    }
    fn string(self) -> String {
        match self {
            No => String::new(),
            Is(n) => mk::string_n(n),
            In(lo, hi) => {
                let n = nd::upto(hi);
                nd::assume(n >= lo);
                mk::string_n(n)
            }
        }
    }
}

pub const META_MAX: usize = (1 << 24) - 1;
pub const DATA_MAX: usize = 1 << 25;
/// Nothing optional.
pub const P0: P = P { meta: No, data: No, token: No, mime: In(0, 255), bare_resume: false };
pub const PD: P = P { data: In(1, DATA_MAX), ..P0 };
pub const PM: P = P { meta: In(0, META_MAX), ..P0 };
pub const PMD: P = P { meta: In(0, META_MAX), ..PD };
pub const PE: P = P { data: Is(0), ..P0 };
pub const PT: P = P { token: In(0, 65_535), ..P0 };
pub const PTMD: P = P { token: In(0, 65_535), ..PMD };
pub const PR: P = P { bare_resume: true, ..P0 };

pub struct Gen<X> {
    pub f: X,
    /// The same frame as it must come back from the wire: trailing data that is present but
    /// empty is absent there, a resumable SETUP always has a token.
    pub want: X,
    pub segs: Segs,
}

pub trait Case: Encode + Decode<Value = Self> + Clone + PartialEq + Sized {
    const TYPE: u16;
    fn gen(p: P) -> Gen<Self>;
    fn wrap(self) -> Frame;
    fn unwrap(f: Frame) -> Option<Self>;
}

pub fn u31() -> u32 {
    let v = nd::u32();
    nd::assume(v <= U31);
    v
}
pub fn u63() -> u64 {
    let v = nd::u64();
    nd::assume(v <= U63);
    v
}
/// 1 ..= 2^31-1
pub fn pos31() -> u32 {
    let v = u31();
    nd::assume(v > 0);
    v
}

fn head(s: &mut Segs, sid: u32, ty: u16, flags: u16) {
    s.u32(sid);
    s.u16(ty << 10 | flags);
}

fn bit(c: bool, v: u16) -> u16 {
    if c {
        v
    } else {
        0
    }
}

pub fn payload(m: &Option<Bytes>, d: &Option<Bytes>) -> Payload {
    let b = Payload::builder();
    let b = match m {
        Some(m) => b.set_metadata(m.clone()),
        None => b,
    };
    let b = match d {
        Some(d) => b.set_data(d.clone()),
        None => b,
    };
    b.build()
}

fn trail(d: Option<Bytes>, p: Len) -> Option<Bytes> {
    match p {
        Is(0) => None,
        _ => d,
    }
}

/// Metadata with its 24-bit length, then data.
fn put_payload(s: &mut Segs, m: &Option<Bytes>, d: &Option<Bytes>) {
    if let Some(m) = m {
        s.u24(m.len());
        s.part(m);
    }
    if let Some(d) = d {
        s.part(d);
    }
}

macro_rules! wrapped {
    ($v:ident) => {
        fn wrap(self) -> Frame {
            Frame::$v(self)
        }
        fn unwrap(f: Frame) -> Option<Self> {
            match f {
                Frame::$v(x) => Some(x),
                _ => None,
            }
        }
    };
}

impl Case for SetupFrame {
    const TYPE: u16 = 1;
    wrapped!(Setup);
    fn gen(p: P) -> Gen<Self> {
        let (maj, min) = (nd::u16(), nd::u16());
        let (ka, lt) = (u31(), u31());
        let lease = nd::bool();
        let (m, d, t) = (p.meta.make(), p.data.make(), p.token.make());
        let (mm, dm) = (p.mime.string(), p.mime.string());
        let (mb, db) = (mk::view(&mm), mk::view(&dm));
        let build = |t: &Option<Bytes>, d: &Option<Bytes>, mm: String, dm: String| {
            let b = SetupFrame::builder()
                .set_version(maj, min)
                .set_keepalive_interval(ka)
                .set_keepalive_timeout(lt)
                .set_metadata_mimetype(mm)
                .set_data_mimetype(dm);
            let b = if lease { b.set_lease_flag() } else { b };
            let b = if p.bare_resume { b.set_resume_flag() } else { b };
            let b = match t {
                Some(t) => b.set_resume_token(t.clone()),
                None => b,
            };
            let b = match &m {
                Some(m) => b.set_metadata(m.clone()),
                None => b,
            };
            let b = match d {
                Some(d) => b.set_data(d.clone()),
                None => b,
            };
            b.build()
        };
        let tw = match (&t, p.bare_resume) {
            (None, true) => Some(Bytes::new()),
            _ => t.clone(),
        };
        let want = build(&tw, &trail(d.clone(), p.data), mk::string_again(&mm), mk::string_again(&dm));
        let f = build(&t, &d, mm, dm);
        let mut s = Segs::new();
        head(&mut s, 0, 1, bit(lease, C) | bit(tw.is_some(), F) | bit(m.is_some(), M));
        s.u16(maj);
        s.u16(min);
        s.u32(ka);
        s.u32(lt);
        if let Some(t) = &tw {
            s.u16(t.len() as u16);
            s.part(t);
        }
        s.u8(mb.len() as u8);
        s.part(&mb);
        s.u8(db.len() as u8);
        s.part(&db);
        put_payload(&mut s, &m, &d);
        Gen { f, want, segs: s }
    }
}

impl Case for LeaseFrame {
    const TYPE: u16 = 2;
    wrapped!(Lease);
    fn gen(p: P) -> Gen<Self> {
        let (ttl, n, m) = (u31(), u31(), p.data.make());
        let f = LeaseFrame::new(ttl, n, m.clone());
        let want = LeaseFrame::new(ttl, n, trail(m.clone(), p.data));
        let mut s = Segs::new();
        head(&mut s, 0, 2, bit(m.is_some(), M));
        s.u32(ttl);
        s.u32(n);
        if let Some(m) = &m {
            s.part(m);
        }
        Gen { f, want, segs: s }
    }
}

impl Case for KeepaliveFrame {
    const TYPE: u16 = 3;
    wrapped!(Keepalive);
    fn gen(p: P) -> Gen<Self> {
        let (pos, respond, d) = (u63(), nd::bool(), p.data.make());
        let f = KeepaliveFrame::new(pos, d.clone(), respond);
        let want = KeepaliveFrame::new(pos, trail(d.clone(), p.data), respond);
        let mut s = Segs::new();
        head(&mut s, 0, 3, bit(respond, F));
        s.u64(pos);
        if let Some(d) = &d {
            s.part(d);
        }
        Gen { f, want, segs: s }
    }
}

macro_rules! request {
    ($t:ident, $v:ident, $code:expr) => {
        impl Case for $t {
            const TYPE: u16 = $code;
            wrapped!($v);
            fn gen(p: P) -> Gen<Self> {
                let (sid, follows, m, d) = (u31(), nd::bool(), p.meta.make(), p.data.make());
                let f = $t::new(sid, follows, payload(&m, &d));
                let want = $t::new(sid, follows, payload(&m, &trail(d.clone(), p.data)));
                let mut s = Segs::new();
                head(&mut s, sid, $code, bit(follows, F) | bit(m.is_some(), M));
                put_payload(&mut s, &m, &d);
                Gen { f, want, segs: s }
            }
        }
    };
}
request!(RequestResponseFrame, RequestResponse, 4);
request!(RequestFnfFrame, RequestFnf, 5);

impl Case for RequestStreamFrame {
    const TYPE: u16 = 6;
    wrapped!(RequestStream);
    fn gen(p: P) -> Gen<Self> {
        let (sid, follows, n, m, d) = (u31(), nd::bool(), pos31(), p.meta.make(), p.data.make());
        let f = RequestStreamFrame::new(sid, follows, n, payload(&m, &d));
        let want = RequestStreamFrame::new(sid, follows, n, payload(&m, &trail(d.clone(), p.data)));
        let mut s = Segs::new();
        head(&mut s, sid, 6, bit(follows, F) | bit(m.is_some(), M));
        s.u32(n);
        put_payload(&mut s, &m, &d);
        Gen { f, want, segs: s }
    }
}

impl Case for RequestChannelFrame {
    const TYPE: u16 = 7;
    wrapped!(RequestChannel);
    fn gen(p: P) -> Gen<Self> {
        let (sid, follows, complete) = (u31(), nd::bool(), nd::bool());
        let (n, m, d) = (pos31(), p.meta.make(), p.data.make());
        let f = RequestChannelFrame::new(sid, follows, complete, n, payload(&m, &d));
        let want =
            RequestChannelFrame::new(sid, follows, complete, n, payload(&m, &trail(d.clone(), p.data)));
        let mut s = Segs::new();
        head(&mut s, sid, 7, bit(follows, F) | bit(complete, C) | bit(m.is_some(), M));
        s.u32(n);
        put_payload(&mut s, &m, &d);
        Gen { f, want, segs: s }
    }
}

impl Case for RequestNFrame {
    const TYPE: u16 = 8;
    wrapped!(RequestN);
    fn gen(_: P) -> Gen<Self> {
        let (sid, n) = (u31(), pos31());
        let f = RequestNFrame::new(sid, n);
        let mut s = Segs::new();
        head(&mut s, sid, 8, 0);
        s.u32(n);
        Gen { want: f.clone(), f, segs: s }
    }
}

impl Case for CancelFrame {
    const TYPE: u16 = 9;
    wrapped!(Cancel);
    fn gen(_: P) -> Gen<Self> {
        let sid = u31();
        let f = CancelFrame::new(sid);
        let mut s = Segs::new();
        head(&mut s, sid, 9, 0);
        Gen { want: f.clone(), f, segs: s }
    }
}

impl Case for PayloadFrame {
    const TYPE: u16 = 10;
    wrapped!(Payload);
    fn gen(p: P) -> Gen<Self> {
        let (sid, bits, m, d) = (u31(), nd::u16(), p.meta.make(), p.data.make());
        let flags = Flags::from_bits_truncate(bits);
        let f = PayloadFrame::new(sid, flags, payload(&m, &d));
        let want = PayloadFrame::new(sid, flags, payload(&m, &trail(d.clone(), p.data)));
        let mut s = Segs::new();
        head(&mut s, sid, 10, bits & (F | C | N) | bit(m.is_some(), M));
        put_payload(&mut s, &m, &d);
        Gen { f, want, segs: s }
    }
}

/// Whether an ERROR frame with this code belongs on the connection (`Some(true)`), on a stream
/// (`Some(false)`) or may be on either.
pub fn on_connection(code: u32) -> Option<bool> {
    match code {
        1..=4 | 0x101 | 0x102 => Some(true),
        0x201..=0x204 => Some(false),
        _ => None,
    }
}

impl Case for ErrorFrame {
    const TYPE: u16 = 11;
    wrapped!(Error);
    fn gen(p: P) -> Gen<Self> {
        let (sid, code, d) = (u31(), nd::u32(), p.data.make());
        match on_connection(code) {
            Some(c) => nd::assume(c == (sid == 0)),
            None => (),
        }
        let f = ErrorFrame::new(sid, code, d.clone());
        let want = ErrorFrame::new(sid, code, trail(d.clone(), p.data));
        let mut s = Segs::new();
        head(&mut s, sid, 11, 0);
        s.u32(code);
        if let Some(d) = &d {
            s.part(d);
        }
        Gen { f, want, segs: s }
    }
}

impl Case for MetadataPushFrame {
    const TYPE: u16 = 12;
    wrapped!(MetadataPush);
    fn gen(p: P) -> Gen<Self> {
        let m = p.data.make().unwrap_or_default();
        let f = MetadataPushFrame::new(m.clone());
        let mut s = Segs::new();
        head(&mut s, 0, 12, M);
        s.part(&m);
        Gen { want: f.clone(), f, segs: s }
    }
}

impl Case for ResumeFrame {
    const TYPE: u16 = 13;
    wrapped!(Resume);
    fn gen(p: P) -> Gen<Self> {
        let (maj, min, a, b) = (nd::u16(), nd::u16(), u63(), u63());
        let t = p.token.make().unwrap_or_default();
        let f = ResumeFrame::new(Version::new(maj, min), t.clone(), a, b);
        let mut s = Segs::new();
        head(&mut s, 0, 13, 0);
        s.u16(maj);
        s.u16(min);
        s.u16(t.len() as u16);
        s.part(&t);
        s.u64(a);
        s.u64(b);
        Gen { want: f.clone(), f, segs: s }
    }
}

impl Case for ResumeOkFrame {
    const TYPE: u16 = 14;
    wrapped!(ResumeOk);
    fn gen(_: P) -> Gen<Self> {
        let a = u63();
        let f = ResumeOkFrame::new(a);
        let mut s = Segs::new();
        head(&mut s, 0, 14, 0);
        s.u64(a);
        Gen { want: f.clone(), f, segs: s }
    }
}
