//! C12: frames and payloads are equal exactly when everything they hold is.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;
use binate::Payload;
use bytes::Bytes;

/// What a frame was built from, as numbers.
struct Key([u64; 10], usize);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        let mut same = true;
        let mut i = 0;
        while i < 10 {
            same &= self.0[i] == o.0[i];
            i += 1;
        }
        same
    }
}
impl Key {
    fn new() -> Key {
        Key([0; 10], 0)
    }
    fn put(&mut self, v: u64) {
        self.0[self.1] = v;
        self.1 += 1;
    }
    fn u16(&mut self) -> u16 {
        let v = nd::u16();
        self.put(v as u64);
        v
    }
    fn u32(&mut self) -> u32 {
        let v = nd::u32();
        self.put(v as u64);
        v
    }
    fn u31(&mut self) -> u32 {
        let v = u31();
        self.put(v as u64);
        v
    }
    fn pos31(&mut self) -> u32 {
        let v = pos31();
        self.put(v as u64);
        v
    }
    fn u63(&mut self) -> u64 {
        let v = u63();
        self.put(v);
        v
    }
    fn bool(&mut self) -> bool {
        let v = nd::bool();
        self.put(v as u64);
        v
    }
    /// Up to two bytes.
    fn bytes(&mut self) -> Bytes {
        let (a, b, n) = (nd::u8(), nd::u8(), nd::upto(2));
        let v: &'static [u8] = Box::leak(Box::new([a, b]));
        let (a, b) = (if n > 0 { a } else { 0 }, if n > 1 { b } else { 0 });
        self.put(1 << 32 | (n as u64) << 16 | (a as u64) << 8 | b as u64);
        Bytes::from_static(&v[..n])
    }
    fn maybe(&mut self) -> Option<Bytes> {
        if nd::bool() {
            Some(self.bytes())
        } else {
            self.put(0);
            None
        }
    }
    fn payload(&mut self) -> Payload {
        let (m, d) = (self.maybe(), self.maybe());
        gen::payload(&m, &d)
    }
    fn text(&mut self) -> String {
        let b = self.bytes();
        nd::assume((b.is_empty() || b[0] < 128) && (b.len() < 2 || b[1] < 128));
        unsafe { String::from_utf8_unchecked(b.to_vec()) }
    }
}
fn pair<T: PartialEq + Clone>(make: fn(&mut Key) -> T) {
    let (mut k, mut l) = (Key::new(), Key::new());
    let (a, b) = (make(&mut k), make(&mut l));
    check!((a == b) == (k == l), "equality does not say whether two values hold the same");
    check!((a != b) == (k != l), "inequality does not say whether two values differ");
    check!(a.clone() == a, "a clone differs");
}
macro_rules! pairs {
    ($($name:ident $k:ident $make:expr;)*) => {$(
        harness!($name(20) { pair(|$k| $make) });
    )*};
}
pairs! {
    payload_value k k.payload();
    lease k Frame::Lease(LeaseFrame::new(k.u31(), k.u31(), k.maybe()));
    keepalive k { let (p, d) = (k.u63(), k.maybe()); Frame::Keepalive(KeepaliveFrame::new(p, d, k.bool())) };
    request_response k Frame::RequestResponse(RequestResponseFrame::new(k.u31(), k.bool(), k.payload()));
    request_fnf k Frame::RequestFnf(RequestFnfFrame::new(k.u31(), k.bool(), k.payload()));
    request_stream k Frame::RequestStream(RequestStreamFrame::new(k.u31(), k.bool(), k.pos31(), k.payload()));
    request_channel k Frame::RequestChannel(RequestChannelFrame::new(k.u31(), k.bool(), k.bool(), k.pos31(), k.payload()));
    request_n k Frame::RequestN(RequestNFrame::new(k.u31(), k.pos31()));
    cancel k Frame::Cancel(CancelFrame::new(k.u31()));
    payload k {
        let (sid, f) = (k.u31(), nd::u16() & (F | C | N));
        k.put(f as u64);
        Frame::Payload(PayloadFrame::new(sid, Flags::from_bits_truncate(f), k.payload()))
    };
    error k Frame::Error(ErrorFrame::new(k.u31(), k.u32(), k.maybe()));
    metadata_push k Frame::MetadataPush(MetadataPushFrame::new(k.bytes()));
    resume k Frame::Resume(ResumeFrame::new(Version::new(k.u16(), k.u16()), k.bytes(), k.u63(), k.u63()));
    resume_ok k Frame::ResumeOk(ResumeOkFrame::new(k.u63()));
    setup k {
        let b = SetupFrame::builder().set_version(k.u16(), k.u16());
        let b = b.set_keepalive_interval(k.u31()).set_keepalive_timeout(k.u31());
        let b = if k.bool() { b.set_lease_flag() } else { b };
        let b = match k.maybe() { Some(t) => b.set_resume_token(t), None => b };
        let b = match k.maybe() { Some(m) => b.set_metadata(m), None => b };
        let b = match k.maybe() { Some(d) => b.set_data(d), None => b };
        Frame::Setup(b.build())
    };
    setup_mime k Frame::Setup(SetupFrame::builder().set_metadata_mimetype(k.text()).set_data_mimetype(k.text()).build());
}
// Frames of different types with the same contents differ.
harness!(types(12) {
    let (sid, p) = (u31(), Payload::default());
    let f = [
        Frame::RequestResponse(RequestResponseFrame::new(sid, false, p.clone())),
        Frame::RequestFnf(RequestFnfFrame::new(sid, false, p.clone())),
        Frame::RequestStream(RequestStreamFrame::new(sid, false, 1, p.clone())),
        Frame::RequestChannel(RequestChannelFrame::new(sid, false, false, 1, p.clone())),
        Frame::Payload(PayloadFrame::new(sid, Flags::empty(), p)),
        Frame::Cancel(CancelFrame::new(sid)),
        Frame::RequestN(RequestNFrame::new(sid, 1)),
        Frame::Error(ErrorFrame::new(sid, 1, None)),
        Frame::ResumeOk(ResumeOkFrame::new(0)),
    ];
    let mut i = 0;
    while i < f.len() {
        let mut j = 0;
        while j < i {
            check!(f[i] != f[j], "frames of different types are equal");
            j += 1;
        }
        i += 1;
    }
});
