//! P04: a payload holds what it was given.
use crate::gen::{DATA_MAX, META_MAX};
use crate::*;
use binate::frame::Encode;
use binate::Payload;
use bytes::{Buf, Bytes};

fn maybe() -> Option<Bytes> {
    if nd::bool() {
        Some(mk::bytes(DATA_MAX))
    } else {
        None
    }
}
fn opt(a: Option<&Bytes>, b: &Option<Bytes>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => mk::same(a, b),
        _ => false,
    }
}
harness!(parts(34) {
    let (m, d) = (maybe(), maybe());
    let p = gen::payload(&m, &d);
    let n = m.as_ref().map_or(0, |m| m.len()) + d.as_ref().map_or(0, |d| d.len());
    check!(p.has_metadata() == m.is_some(), "has_metadata");
    check!(p.has_data() == d.is_some(), "has_data");
    check!(opt(p.metadata(), &m), "metadata");
    check!(opt(p.data(), &d), "data");
    check!(p.len() == n, "length");
    check!(p.is_empty() == (n == 0), "emptiness");
    let q = p.clone();
    let (pm, pd) = p.split();
    check!(opt(pm.as_ref(), &m), "metadata of the split payload");
    check!(opt(pd.as_ref(), &d), "data of the split payload");
    check!(mk::same(&q, &gen::payload(&m, &d)), "equality of payloads");
});
harness!(encoded(34) {
    let (m, d) = (mk::bytes(META_MAX), mk::bytes(DATA_MAX));
    let mut b = gen::payload(&Some(m.clone()), &Some(d.clone())).to_bytes();
    check!(b.len() == m.len() + d.len(), "encoded length");
    let f = b.split_to(m.len());
    check!(mk::same(&f, &m), "metadata is not encoded first");
    check!(mk::same(&b, &d), "data is not encoded behind the metadata");
});
harness!(last_set(34) {
    let (a, b) = (mk::bytes(DATA_MAX), mk::bytes(DATA_MAX));
    let p = Payload::builder().set_data(a.clone()).set_metadata(a.clone()).set_data(b.clone()).build();
    check!(opt(p.data(), &Some(b.clone())), "data set last");
    check!(opt(p.metadata(), &Some(a.clone())), "metadata is touched by setting data");
    let p = Payload::builder().set_metadata(a.clone()).set_data(a.clone()).set_metadata(b.clone()).build();
    check!(opt(p.metadata(), &Some(b)), "metadata set last");
    check!(opt(p.data(), &Some(a)), "data is touched by setting metadata");
});
// Text of up to 2 bytes: valid UTF-8 comes back as it is, anything else is an error.
fn text(n: usize, meta: bool) {
    let x = [nd::u8(), nd::u8()];
    let valid = match n {
        0 => true,
        1 => x[0] < 0x80,
        _ => (x[0] < 0x80 && x[1] < 0x80) || (x[0] >= 0xC2 && x[0] <= 0xDF && x[1] & 0xC0 == 0x80),
    };
    let v: &'static [u8] = Box::leak(Box::new(x));
    let b = Bytes::from_static(&v[..n]);
    let p = if meta { Payload::builder().set_metadata(b) } else { Payload::builder().set_data(b) }.build();
    let (it, other) = if meta { (p.metadata_utf8(), p.data_utf8()) } else { (p.data_utf8(), p.metadata_utf8()) };
    match it {
        Ok(s) => {
            let s = s.as_bytes();
            check!(valid && s.len() == n && (n < 1 || s[0] == x[0]) && (n < 2 || s[1] == x[1]), "text");
        }
        Err(_) => check!(!valid, "a part that is text is rejected"),
    }
    check!(other.map_or(false, |s| s.len() == 0), "the absent part as text");
}
pub mod text {
    use crate::*;
    harness!(data_0(4) { super::text(0, false) });
    harness!(data_1(4) { super::text(1, false) });
    harness!(data_2(4) { super::text(2, false) });
    harness!(metadata_0(4) { super::text(0, true) });
    harness!(metadata_1(4) { super::text(1, true) });
    harness!(metadata_2(4) { super::text(2, true) });
}
