//! P01: the chunks of a payload, put together in order, are the payload.
use crate::*;
use binate::Payload;
use bytes::Bytes;

const BIG: usize = 1 << 40;

/// One part of the payload: `x` is what chunk `i` holds of `whole`, of which `pos` bytes came before.
fn piece(x: Option<&Bytes>, whole: &Option<Bytes>, pos: usize, i: usize, n: usize) -> usize {
    let total = whole.as_ref().map_or(0, |w| w.len());
    match (x, whole) {
        (Some(x), Some(w)) => {
            check!(pos < total || (total == 0 && i == 0), "a chunk holds bytes beyond the end of the payload");
            let want = if total - pos < n { total - pos } else { n };
            check!(x.len() == want, "a chunk is not filled up to the chunk size");
            check!(mk::same(x, &w.slice(pos..pos + want)), "a chunk holds other bytes than the payload");
            pos + want
        }
        (Some(_), None) => {
            check!(false, "a chunk holds a part the payload does not have");
            pos
        }
        (None, _) => {
            check!(pos == total, "bytes of the payload are left out");
            check!(i > 0 || whole.is_none(), "an empty part is left out");
            pos
        }
    }
}

/// A payload of at most `k` chunks.
fn partition(has_m: bool, has_d: bool, k: usize) {
    let n = nd::upto(BIG);
    nd::assume(n > 0);
    let part = |has: bool| {
        if !has {
            return None;
        }
        let b = mk::bytes(BIG);
        nd::assume(b.len() <= n * k);
        Some(b)
    };
    let (m, d) = (part(has_m), part(has_d));
    let mut it = gen::payload(&m, &d).chunks(n);
    let (mut mp, mut dp) = (0, 0);
    let mut i = 0;
    let mut over = false;
    while i < k {
        match it.next() {
            Some(c) => {
                check!(!over, "a chunk after the end");
                check!(c.has_metadata() || c.has_data(), "a chunk without contents");
                mp = piece(c.metadata(), &m, mp, i, n);
                dp = piece(c.data(), &d, dp, i, n);
            }
            None => over = true,
        }
        i += 1;
    }
    check!(it.next().is_none(), "a chunk after the end");
    check!(mp == m.as_ref().map_or(0, |m| m.len()), "metadata is left out");
    check!(dp == d.as_ref().map_or(0, |d| d.len()), "data is left out");
}

harness!(data(34) { partition(false, true, 4) });
harness!(metadata(34) { partition(true, false, 4) });
harness!(both(34) { partition(true, true, 3) });
harness!(none(34) { partition(false, false, 2) });
#[cfg(thorough)]
harness!(many(34) { partition(true, true, 8) });
harness!(no_size_refused(34) {
    refuses!({ let _ = Payload::builder().build().chunks(0); }, "a chunk size of 0 is accepted");
});
