//! C10: 24-bit numbers and protocol versions.
use crate::*;
use binate::frame::*;
use std::cmp::Ordering;

harness!(u24(34) {
    let v = nd::u32();
    nd::assume(v <= 0xFF_FFFF);
    let (a, b) = (U24::from_u32(v), U24::from_usize(v as usize));
    check!(a == b, "from_u32 and from_usize differ");
    check!(a.into_u32() == v, "into_u32 of from_u32");
    check!(a.into_usize() == v as usize, "into_usize of from_u32");
    check!(a == U24::new((v >> 16) as u8, v as u16), "parts of a 24-bit number");
    let w = a.to_bytes();
    check!(w.len() == 3, "encoded length");
    check!(mk::at(&w, 0) == (v >> 16) as u8, "high byte");
    check!(mk::at(&w, 1) == (v >> 8) as u8, "middle byte");
    check!(mk::at(&w, 2) == v as u8, "low byte");
});
harness!(u24_parts(34) {
    let (h, l) = (nd::u8(), nd::u16());
    let a = U24::new(h, l);
    check!(a.into_u32() == (h as u32) << 16 | l as u32, "value of the parts");
    check!(a.into_u32() <= U24::MAX && a.into_usize() == a.into_u32() as usize, "range");
    check!(U24::from_u32(a.into_u32()) == a, "from_u32 of into_u32");
    check!(U24::from_usize(a.into_usize()) == a, "from_usize of into_usize");
});
// Numbers that do not fit are refused, not truncated.
harness!(u24_u32_refused(34) {
    let v = nd::u32();
    nd::assume(v > 0xFF_FFFF);
    refuses!({ U24::from_u32(v); }, "a number above 24 bits is accepted");
});
harness!(u24_usize_refused(34) {
    let v = nd::u64() as usize;
    nd::assume(v > 0xFF_FFFF);
    refuses!({ U24::from_usize(v); }, "a number above 24 bits is accepted");
});

harness!(version(34) {
    let (a, b) = ((nd::u16(), nd::u16()), (nd::u16(), nd::u16()));
    let (v, w) = (Version::new(a.0, a.1), Version::new(b.0, b.1));
    check!(v.major() == a.0 && v.minor() == a.1, "parts of a version");
    let want = a.cmp(&b);
    check!(v.cmp(&w) == want, "order of versions");
    check!(v.partial_cmp(&w) == Some(want), "partial order of versions");
    check!((v == w) == (want == Ordering::Equal), "equality of versions");
    check!((v < w) == (want == Ordering::Less), "< of versions");
    check!((v >= w) == (want != Ordering::Less), ">= of versions");
    let e = v.to_bytes();
    check!(e.len() == 4, "encoded length of a version");
    check!(mk::at(&e, 0) == (a.0 >> 8) as u8 && mk::at(&e, 1) == a.0 as u8, "encoded major version");
    check!(mk::at(&e, 2) == (a.1 >> 8) as u8 && mk::at(&e, 3) == a.1 as u8, "encoded minor version");
});
harness!(version_default(34) {
    check!(Version::default() == Version::new(1, 0), "default version");
});
harness!(limits(4) {
    check!(U24::MAX == 0xFF_FFFF && U24::MIN == 0, "limits of 24-bit numbers");
    check!(MAX_U31 == 0x7FFF_FFFF && MAX_U63 == 0x7FFF_FFFF_FFFF_FFFF, "limits of 31-bit and 63-bit numbers");
});
/// Collects what is written.
struct Out([u8; 12], usize);
impl std::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            check!(self.1 < 12, "the text is longer than expected");
            self.0[self.1] = s[i];
            self.1 += 1;
            i += 1;
        }
        Ok(())
    }
}
fn digits(o: &mut Out, v: u16) {
    let mut on = false;
    for d in [10_000u16, 1000, 100, 10, 1] {
        let x = v / d % 10;
        on |= x != 0 || d == 1;
        if on {
            o.0[o.1] = b'0' + x as u8;
            o.1 += 1;
        }
    }
}
harness!(version_text(14) {
    use std::fmt::Write;
    let (a, b) = (nd::u16(), nd::u16());
    let (mut o, mut w) = (Out([0; 12], 0), Out([0; 12], 0));
    check!(write!(o, "{}", Version::new(a, b)).is_ok(), "no text");
    digits(&mut w, a);
    w.0[w.1] = b'.';
    w.1 += 1;
    digits(&mut w, b);
    check!(o.1 == w.1, "length of the text");
    let mut i = 0;
    while i < 12 {
        check!(i >= o.1 || o.0[i] == w.0[i], "text of a version");
        i += 1;
    }
});
