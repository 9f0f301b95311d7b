//! T01: building a SETUP frame.
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;
use bytes::Bytes;

const TOKEN: usize = 1 << 20;

// The defaults.
harness!(defaults(34) {
    let f = SetupFrame::builder().build();
    check!(f.version() == Version::new(1, 0), "default version");
    check!(!f.is_lease() && !f.is_resume(), "default flags");
    check!(f.resume_token().is_none() && f.metadata().is_none() && f.data().is_none(), "default contents");
    let (m, d, i, t) = binate::verif::setup_fields(&f);
    check!(i == 30_000, "default keepalive interval");
    check!(t == 60_000, "default max lifetime");
    check!(&m[..] == b"application/binary" && &d[..] == b"application/binary", "default MIME types");
});
// Setting one thing leaves the others alone, and what was set last counts.
harness!(last_set(34) {
    let (a, b) = (mk::bytes(65_535), mk::bytes(65_535));
    let (i, t, l) = (gen::u31(), gen::u31(), nd::bool());
    let f = SetupFrame::builder()
        .set_data(a.clone())
        .set_keepalive_timeout(t)
        .set_resume_token(a.clone())
        .set_metadata(a.clone())
        .set_keepalive_interval(7)
        .set_version(nd::u16(), 3)
        .set_resume_token(b.clone())
        .set_keepalive_interval(i)
        .set_metadata(b.clone())
        .set_version(1, 2)
        .set_data(b.clone());
    let f = if l { f.set_lease_flag() } else { f };
    let f = f.build();
    check!(f.version() == Version::new(1, 2), "version set last");
    check!(f.is_lease() == l, "lease flag");
    check!(f.is_resume(), "resume flag of a token");
    check!(mk::same(f.resume_token().unwrap(), &b), "token set last");
    check!(mk::same(f.metadata().unwrap(), &b), "metadata set last");
    check!(mk::same(f.data().unwrap(), &b), "data set last");
    let (_, _, ki, kt) = binate::verif::setup_fields(&f);
    check!(ki == i, "keepalive interval set last");
    check!(kt == t, "max lifetime");
});
// What the frame cannot express is refused, everything else is accepted.
harness!(token_refused(34) {
    let b = mk::bytes(TOKEN);
    nd::assume(b.len() > 65_535);
    refuses!({ SetupFrame::builder().set_resume_token(b.clone()); }, "a token too long for its length field is accepted");
});
harness!(metadata_mimetype_refused(34) {
    let s = mk::string_n(256 + nd::u8() as usize);
    refuses!({ SetupFrame::builder().set_metadata_mimetype(mk::string_again(&s)); }, "a MIME type too long for its length field is accepted");
});
harness!(data_mimetype_refused(34) {
    let s = mk::string_n(256 + nd::u8() as usize);
    refuses!({ SetupFrame::builder().set_data_mimetype(mk::string_again(&s)); }, "a MIME type too long for its length field is accepted");
});
harness!(accepted(34) {
    let (b, n) = (mk::bytes(65_535), nd::u8() as usize);
    let (s, t) = (mk::string_n(n), mk::string_n(n));
    let (sv, tv) = (mk::view(&s), mk::view(&t));
    let f = SetupFrame::builder()
        .set_resume_token(b.clone())
        .set_metadata_mimetype(s)
        .set_data_mimetype(t)
        .build();
    let (m, d, _, _) = binate::verif::setup_fields(&f);
    check!(mk::same(m, &sv), "metadata MIME type");
    check!(mk::same(d, &tv), "data MIME type");
    check!(mk::same(f.resume_token().unwrap(), &b), "token");
});
// The flags alone.
harness!(flags(34) {
    let f = SetupFrame::builder().set_resume_flag().build();
    check!(f.is_resume() && !f.is_lease() && f.resume_token().is_none(), "resume flag");
    let f = SetupFrame::builder().set_lease_flag().build();
    check!(f.is_lease() && !f.is_resume(), "lease flag");
    let (a, b) = (nd::bool(), nd::bool());
    let f = SetupFrame::builder();
    let f = if a { f.set_lease_flag() } else { f };
    let f = if b { f.set_resume_flag() } else { f };
    let f = f.set_metadata(mk::bytes(16)).build();
    check!(f.is_lease() == a && f.is_resume() == b, "flags set by metadata");
});
