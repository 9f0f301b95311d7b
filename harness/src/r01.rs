//! R01: permits are neither lost nor invented.
use crate::*;
use binate::connection::RequestCounter;

const MAX: i64 = 0x7FFF_FFFF;

/// A history of `k` operations against plain arithmetic.
fn history(k: usize) {
    let n = nd::u32();
    let c = RequestCounter::new(n);
    let mut want = (n & 0x7FFF_FFFF) as i64;
    check!(c.load() as i64 == want, "permits of a new counter");
    let mut i = 0;
    while i < k {
        if nd::bool() {
            let n = nd::u32();
            c.add(n);
            want += (n & 0x7FFF_FFFF) as i64;
            if want > MAX {
                want = MAX;
            }
        } else {
            check!(c.dec() as i64 == want, "permits before one is used");
            want -= 1;
        }
        check!(c.load() as i64 == want, "permits after an operation");
        check!(c.is_zero() == (want == 0), "no permits left");
        i += 1;
    }
}
harness!(history_3(6) { history(3) });
#[cfg(thorough)]
harness!(history_8(10) { history(8) });

// One caller adds, others use permits and add in between, at any point.
fn concurrent(k: usize, adds: bool) {
    let n = nd::u32() & 0x0FFF_FFFF;
    let a = nd::u32() & 0x0FFF_FFFF;
    let b = nd::u32() & 0x0FFF_FFFF;
    let plan = nd::u8();
    let c = RequestCounter::new(n);
    let d = &c;
    // The other caller: what it did, and what it was told.
    let (mut used, mut added, mut told) = (0i64, 0i64, [-1i64 << 40; 4]);
    let mut left = k;
    let mut got = 0;
    race::during(
        || {
            if adds {
                c.add(a);
            } else {
                got = c.dec() as i64;
            }
        },
        || {
            if left > 0 {
                left -= 1;
                if plan >> left & 1 == 1 {
                    told[left] = d.dec() as i64;
                    used += 1;
                } else {
                    d.add(b);
                    added += b as i64;
                }
            }
        },
    );
    let want = n as i64 + added - used + if adds { a as i64 } else { -1 };
    check!(c.load() as i64 == want, "permits are lost or invented when callers overlap");
    if !adds {
        let mut i = 0;
        while i < 4 {
            check!(added > 0 || told[i] != got, "two callers are told of the same permit");
            i += 1;
        }
    }
}
race!(adding(8) { concurrent(2, true) });
race!(using(8) { concurrent(2, false) });
