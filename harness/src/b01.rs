//! B01: a list of buffers reads like the buffers one after the other.
use crate::*;
use binate::verif::List;
use bytes::{Buf, BufMut, Bytes, BytesMut};

/// A list of `k` buffers and their concatenation.
fn list(k: usize, min: usize) -> (List, Bytes) {
    let mut l = List::new();
    let mut w = BytesMut::new();
    let mut i = 0;
    while i < k {
        let b = mk::bytes(1 << 25);
        nd::assume(b.len() >= min);
        w.extend_from_slice(&b);
        l.push(b);
        i += 1;
    }
    (l, w.freeze())
}

/// `l` is the bytes of `w` from `pos` on.
fn stands(l: &List, w: &Bytes, pos: usize) {
    check!(l.remaining() == w.len() - pos, "remaining()");
    check!(l.has_remaining() == (pos < w.len()), "has_remaining()");
    let c = l.chunk();
    check!(c.len() <= w.len() - pos, "chunk() is longer than what remains");
    check!(!c.is_empty() || pos == w.len(), "chunk() is empty although bytes remain");
    if pos < w.len() && !c.is_empty() {
        check!(c[0] == mk::at(w, pos), "chunk() starts with another byte");
        let e = c.len() - 1;
        check!(c[e] == mk::at(w, pos + e), "chunk() ends with another byte");
    }
}

fn advance(k: usize) {
    let (mut l, w) = list(k, 1);
    let a = nd::upto(1 << 28);
    nd::assume(a <= w.len());
    l.advance(a);
    stands(&l, &w, a);
}
// Across buffers, of fixed lengths.
fn copy_over(lens: &[usize], a: usize) {
    let (mut l, w) = fixed(lens);
    copied(&mut l, &w, a);
}
fn copied(l: &mut List, w: &Bytes, a: usize) {
    let x = l.copy_to_bytes(a);
    check!(x.len() == a, "copy_to_bytes() gives another length");
    check!(mk::same(&x, &w.slice(..a)), "copy_to_bytes() gives other bytes");
    stands(l, w, a);
}
/// A list of buffers of these lengths and their concatenation.
fn fixed(lens: &[usize]) -> (List, Bytes) {
    let mut l = List::new();
    let mut w = BytesMut::new();
    let mut i = 0;
    while i < lens.len() {
        let b = mk::bytes_n(lens[i]);
        w.extend_from_slice(&b);
        l.push(b);
        i += 1;
    }
    (l, w.freeze())
}
harness!(advance_2(6) { advance(2) });
harness!(advance_3(6) { advance(3) });
pub mod copy {
    use crate::*;
    harness!(front(6) { super::copy_over(&[9, 5], 7) });
    harness!(all_of_front(6) { super::copy_over(&[9, 5], 9) });
    harness!(nothing(6) { super::copy_over(&[9, 5], 0) });
    harness!(all_of_2(6) { super::copy_over(&[3, 5], 8) });
    harness!(into_second(6) { super::copy_over(&[3, 5], 4) });
    harness!(into_second_of_3(6) { super::copy_over(&[1, 300, 2], 300) });
    harness!(two_of_3(6) { super::copy_over(&[2, 2, 2], 4) });
    harness!(into_third(6) { super::copy_over(&[1, 1, 70], 9) });
    harness!(all_of_3(6) { super::copy_over(&[1, 2, 3], 6) });
}
harness!(empty(6) {
    let mut l = List::new();
    stands(&l, &Bytes::new(), 0);
    l.advance(0);
    check!(l.copy_to_bytes(0).is_empty(), "copy of nothing");
});
macro_rules! numbers {
    ($($name:ident $get:ident $lens:expr;)*) => {
        pub mod numbers {
            use super::*;
            $(harness!($name(10) {
                let (mut l, w) = fixed(&$lens);
                let mut r = w.clone();
                check!(l.$get() == r.$get(), "another number than from one buffer");
                stands(&l, &w, w.len() - r.len());
            });)*
        }
    };
}
numbers! {
    u8 get_u8 [1, 2];
    u16_1 get_u16 [1, 2];
    u16_2 get_u16 [2, 2];
    u16_long get_u16 [40, 2];
    u32_1 get_u32 [1, 9];
    u32_2 get_u32 [2, 9];
    u32_3 get_u32 [3, 9];
    u32_over_3 get_u32 [1, 2, 5];
    u64_3 get_u64 [3, 9];
    u64_7 get_u64 [7, 1];
}
harness!(stands_3(6) {
    let (l, w) = list(3, 1);
    stands(&l, &w, 0);
});
fn vectored(l: &List, w: &Bytes, a: usize) {
    let mut v = [std::io::IoSlice::new(&[]), std::io::IoSlice::new(&[]), std::io::IoSlice::new(&[])];
    let room = nd::upto(3);
    let n = l.chunks_vectored(&mut v[..room]);
    check!(n <= room, "more slices than there is room for");
    check!(n > 0 || room == 0 || a == w.len(), "no slice although bytes remain");
    let mut at = a;
    let mut i = 0;
    while i < 3 {
        if i < n {
            let c: &[u8] = &v[i];
            check!(c.len() <= w.len() - at, "the slices are longer than what remains");
            if !c.is_empty() {
                check!(c[0] == mk::at(w, at), "a slice starts with another byte");
                check!(c[c.len() - 1] == mk::at(w, at + c.len() - 1), "a slice ends with another byte");
            }
            at += c.len();
        }
        i += 1;
    }
    check!(at == w.len() || n == room, "the slices leave out bytes although there is room");
}
harness!(vectored_3(6) {
    let (l, w) = list(3, 1);
    vectored(&l, &w, 0);
});
harness!(vectored_later(6) {
    let (mut l, w) = list(2, 1);
    let a = nd::upto(1 << 27);
    nd::assume(a <= w.len());
    l.advance(a);
    vectored(&l, &w, a);
});

// Two reads, one after the other.
harness!(advance_twice(6) {
    let (mut l, w) = list(2, 1);
    let (a, b) = (nd::upto(1 << 27), nd::upto(1 << 27));
    nd::assume(a <= w.len() && b <= w.len() - a);
    l.advance(a);
    l.advance(b);
    stands(&l, &w, a + b);
});
/// Reads `a`, then `b` bytes.
fn twice(lens: &[usize], a: usize, b: usize, copy_first: bool) {
    let (mut l, w) = fixed(lens);
    if copy_first {
        copied(&mut l, &w, a);
    } else {
        l.advance(a);
    }
    let x = l.copy_to_bytes(b);
    check!(mk::same(&x, &w.slice(a..a + b)), "copy_to_bytes() gives other bytes after another read");
    stands(&l, &w, a + b);
}
pub mod twice {
    use crate::*;
    harness!(advance_into_first(6) { super::twice(&[5, 4], 2, 5, false) });
    harness!(advance_over_first(6) { super::twice(&[5, 4], 5, 3, false) });
    harness!(advance_into_second(6) { super::twice(&[2, 9], 4, 7, false) });
    harness!(copy_front_then_over(6) { super::twice(&[5, 4], 3, 4, true) });
    harness!(copy_over_then_rest(6) { super::twice(&[3, 5], 4, 4, true) });
    harness!(number_after_copy(10) {
        let (mut l, w) = super::fixed(&[3, 2, 6]);
        super::copied(&mut l, &w, 2);
        use bytes::Buf;
        let mut r = w.slice(2..);
        check!(l.get_u32() == r.get_u32(), "another number than from one buffer after another read");
        super::stands(&l, &w, 6);
    });
}
