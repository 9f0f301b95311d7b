//! P02: the number of chunks is known in advance, exactly.
use crate::*;
use binate::Payload;
use bytes::Bytes;

fn part(max: usize) -> Option<Bytes> {
    if nd::bool() {
        Some(mk::bytes(max))
    } else {
        None
    }
}

/// At every step, `len` and `size_hint` are the number of chunks still to come.
fn counted(k: usize, n: usize, max: usize) {
    let (m, d) = (part(max), part(max));
    let (ml, dl) = (m.as_ref().map_or(0, |b| b.len()), d.as_ref().map_or(0, |b| b.len()));
    nd::assume(ml <= n * k && dl <= n * k);
    let mut it = gen::payload(&m, &d).chunks(n);
    let total = it.len();
    let mut got = 0;
    let mut i = 0;
    while i <= k {
        let (low, high) = it.size_hint();
        check!(low + got == total && high == Some(low), "size_hint() does not go down by one with each chunk");
        if it.next().is_some() {
            got += 1;
        }
        i += 1;
    }
    check!(got == total, "len() is not the number of chunks");
    check!(it.len() == 0, "len() is not zero at the end");
}

/// The count of any payload: the larger of the counts of its parts, each rounded up.
fn count(n: usize, max: usize) {
    let (m, d) = (part(max), part(max));
    let c = gen::payload(&m, &d).chunks(n).len();
    let (mut enough, mut needed) = (true, c == 0);
    for p in [&m, &d] {
        if let Some(p) = p {
            enough = enough && c >= 1 && c * n >= p.len();
            needed = needed || c == 1 || (c - 1) * n < p.len();
        }
    }
    check!(enough, "too few chunks are announced");
    check!(needed, "too many chunks are announced");
    check!(c == 0 || m.is_some() || d.is_some(), "chunks of nothing are announced");
}

fn small(max: usize) -> usize {
    let n = nd::upto(max + 1);
    nd::assume(n > 0);
    n
}

// Any small chunk size; and particular chunk sizes with large parts (a division by a variable of more bits than these
// is out of reach of the solver).
harness!(any_size(6) { count(small(15), 0xFF) });
harness!(any_size_steps(6) { counted(3, small(15), 45) });
#[cfg(thorough)]
harness!(any_size_wide(6) { count(small(63), 0x3FF) });
#[cfg(thorough)]
harness!(any_size_more_steps(8) { counted(6, small(15), 90) });

macro_rules! sizes {
    ($($name:ident $n:expr, $max:expr;)*) => {$(
        pub mod $name {
            use crate::*;
            harness!(count(6) { super::count($n, $max) });
            harness!(steps(6) { super::counted(3, $n, $max) });
        }
    )*};
}
sizes! {
    by_1 1, 0xFFFF;
    by_3 3, 0xFFFF;
    by_64 64, 0xFF_FFFF;
    by_1000 1000, 0xFFFF;
    by_4096 4096, 0xFF_FFFF;
    by_65535 65535, 0xFF_FFFF;
    by_u24 0xFF_FFFF, 0xFFF_FFFF;
}
