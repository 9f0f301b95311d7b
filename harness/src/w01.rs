//! W01: the names of well-known MIME types.
use crate::*;
use binate::mimetype::WellKnownMimeType as W;
use binate::mimetype::WellKnownMimeType::*;

const ALL: [W; 48] = [
    UNPARSEABLE, APPLICATION_AVRO, APPLICATION_CBOR, APPLICATION_GRAPHQL, APPLICATION_GZIP,
    APPLICATION_JAVASCRIPT, APPLICATION_JSON, APPLICATION_OCTET_STREAM, APPLICATION_PDF,
    APPLICATION_VND_APACHE_THRIFT_BINARY, APPLICATION_VND_GOOGLE_PROTOBUF, APPLICATION_XML,
    APPLICATION_ZIP, AUDIO_AAC, AUDIO_MP3, AUDIO_MP4, AUDIO_MPEG3, AUDIO_MPEG, AUDIO_OGG, AUDIO_OPUS,
    AUDIO_VORBIS, IMAGE_BMP, IMAGE_GIF, IMAGE_HEIC_SEQUENCE, IMAGE_HEIC, IMAGE_HEIF_SEQUENCE,
    IMAGE_HEIF, IMAGE_JPEG, IMAGE_PNG, IMAGE_TIFF, MULTIPART_MIXED, TEXT_CSS, TEXT_CSV, TEXT_HTML,
    TEXT_PLAIN, TEXT_XML, VIDEO_H264, VIDEO_H265, VIDEO_VP8, APPLICATION_X_HESSIAN,
    APPLICATION_X_JAVA_OBJECT, APPLICATION_CLOUDEVENTS_JSON, MESSAGE_X_RSOCKET_MIME_TYPE_V0,
    MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0, MESSAGE_X_RSOCKET_AUTHENTICATION_V0,
    MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0, MESSAGE_X_RSOCKET_ROUTING_V0,
    MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
];

fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    let mut i = 0;
    while i < a.len() {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}

/// The name of a type names that type.
fn names(from: usize, to: usize) {
    let mut i = from;
    while i < to {
        let name: &'static str = ALL[i].into();
        check!(W::from(name) == ALL[i], "the name of a MIME type does not name it");
        check!((i == 0) == name.is_empty(), "a well-known MIME type without a name");
        i += 1;
    }
}
// Text that is not the name of a type is no type.
fn text(n: usize) {
    let a: [u8; 44] = mk::arr();
    let s = unsafe { std::str::from_utf8_unchecked(&a[..n]) };
    let t = W::from(s);
    if t != UNPARSEABLE {
        let name: &'static str = t.into();
        check!(eq(name.as_bytes(), &a[..n]), "text that is not the name of a MIME type names one");
    }
}
fn texts(from: usize, to: usize) {
    let mut n = from;
    while n < to {
        text(n);
        n += 1;
    }
}
macro_rules! split {
    ($f:ident: $($name:ident $from:expr, $to:expr;)*) => {
        pub mod $f {
            use crate::*;
            $(harness!($name(60) { super::$f($from, $to) });)*
        }
    };
}
split!(names: a 0, 8; b 8, 16; c 16, 24; d 24, 32; e 32, 40; f 40, 48;);
split!(texts: a 0, 8; b 8, 10; c 10, 12; d 12, 16; e 16, 20; f 20, 25; g 25, 30; h 30, 36; i 36, 42; j 42, 45;);

/// The registered names of the types (the first 42; the RSocket ones follow the crate's own table).
const REGISTERED: [&str; 42] = [
    "", "application/avro", "application/cbor", "application/graphql", "application/gzip",
    "application/javascript", "application/json", "application/octet-stream", "application/pdf",
    "application/vnd.apache.thrift.binary", "application/vnd.google.protobuf", "application/xml",
    "application/zip", "audio/aac", "audio/mp3", "audio/mp4", "audio/mpeg3", "audio/mpeg", "audio/ogg",
    "audio/opus", "audio/vorbis", "image/bmp", "image/gif", "image/heic-sequence", "image/heic",
    "image/heif-sequence", "image/heif", "image/jpeg", "image/png", "image/tiff", "multipart/mixed",
    "text/css", "text/csv", "text/html", "text/plain", "text/xml", "video/H264", "video/H265", "video/VP8",
    "application/x-hessian", "application/x-java-object", "application/cloudevents+json",
];
harness!(registered(60) {
    let k = nd::upto(41);
    let name: &'static str = ALL[k].into();
    check!(eq(name.as_bytes(), REGISTERED[k].as_bytes()), "not the registered name");
});
