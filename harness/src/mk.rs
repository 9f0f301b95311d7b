//! Input byte strings.
use crate::nd;
use bytes::Bytes;

/// A byte string of any length up to `max` with any contents.
pub fn bytes(max: usize) -> Bytes {
    bytes_n(nd::upto(max))
}

/// A byte string of length `n` with any contents, in an object of its own.
#[cfg(kani)]
pub fn bytes_n(n: usize) -> Bytes {
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n + 1, 1));
        bytes::model::add_arena(p, n);
        #[cfg(feature = "emit")]
        {
            // Written out: a loop would need a larger unwinding bound than the harness has.
            macro_rules! each {
                ($($i:literal)*) => { $( if $i < n { bytes::model::emit(p.add($i), *p.add($i)); } )* };
            }
            each!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23);
        }
        Bytes::from_static(std::slice::from_raw_parts(p, n))
    }
}
#[cfg(not(kani))]
pub fn bytes_n(n: usize) -> Bytes {
    let mut v: Vec<u8> = (0..n).map(|_| (nd::rnd() >> 24) as u8).collect();
    nd::IN.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.arenas;
        i.arenas += 1;
        for &(a, off, val) in &i.emits {
            if a == k && off < n {
                v[off] = val;
            }
        }
    });
    Bytes::from(v)
}

/// An ASCII string of length `n` (under Kani: `n` arbitrary bytes; nothing looks at them).
#[cfg(kani)]
pub fn string_n(n: usize) -> String {
    let b = bytes_n(n);
    unsafe { String::from_raw_parts(b.as_ptr() as *mut u8, n, n + 1) }
}
#[cfg(not(kani))]
pub fn string_n(n: usize) -> String {
    let v = bytes_n(n).iter().map(|c| c & 0x7F).collect();
    String::from_utf8(v).unwrap()
}
/// The bytes of a string made by `string_n`.
pub fn view(s: &String) -> Bytes {
    #[cfg(kani)]
    return Bytes::from_static(unsafe { std::slice::from_raw_parts(s.as_ptr(), s.len()) });
    #[cfg(not(kani))]
    Bytes::copy_from_slice(s.as_bytes())
}
/// The same string once more, without copying it.
pub fn string_again(s: &String) -> String {
    #[cfg(kani)]
    return unsafe { String::from_raw_parts(s.as_ptr() as *mut u8, s.len(), s.len() + 1) };
    #[cfg(not(kani))]
    s.clone()
}

/// `N` arbitrary bytes.
pub fn arr<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    let mut i = 0;
    while i < N {
        a[i] = nd::u8();
        i += 1;
    }
    a
}

/// Equality where only asserting it (not its negation) is meant: see `set_ghost_eq`.
pub fn same<T: PartialEq>(a: &T, b: &T) -> bool {
    #[cfg(kani)]
    bytes::model::set_ghost_eq(true);
    let r = a == b;
    #[cfg(kani)]
    bytes::model::set_ghost_eq(false);
    r
}

pub fn at(b: &Bytes, i: usize) -> u8 {
    #[cfg(kani)]
    return bytes::model::byte_at(b, i);
    #[cfg(not(kani))]
    b[i]
}
