//! Nondeterministic inputs: solver variables under Kani; natively the values of a recorded
//! counterexample (replay) or pseudo-random ones (smoke runs).

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    #[derive(Default)]
    pub struct Input {
        /// Recorded values, in order; `None`: pseudo-random.
        pub vals: Option<std::collections::VecDeque<Vec<u8>>>,
        /// Recorded (arena, offset, value) bytes.
        pub emits: Vec<(usize, usize, u8)>,
        pub seed: u64,
        pub arenas: usize,
    }
    thread_local!(pub static IN: RefCell<Input> = RefCell::new(Input::default()));

    pub fn rnd() -> u64 {
        IN.with(|i| {
            let mut i = i.borrow_mut();
            i.seed ^= i.seed << 13;
            i.seed ^= i.seed >> 7;
            i.seed ^= i.seed << 17;
            i.seed
        })
    }
    fn take<const N: usize>() -> [u8; N] {
        let rec = IN.with(|i| {
            let mut i = i.borrow_mut();
            i.vals.as_mut().map(|q| q.pop_front().unwrap_or_else(|| vec![0; N]))
        });
        match rec {
            Some(v) => {
                assert_eq!(v.len(), N, "REPLAY-DESYNC: recorded value of another width");
                let mut a = [0; N];
                a.copy_from_slice(&v);
                a
            }
            None => {
                let mut a = [0; N];
                // corners more often than chance
                match rnd() % 4 {
                    0 => a[0] = (rnd() % 4) as u8,
                    1 => a = [0xFF; N],
                    _ => a.iter_mut().for_each(|x| *x = rnd() as u8),
                }
                a
            }
        }
    }
    pub fn u8() -> u8 {
        take::<1>()[0]
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(take())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(take())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(take())
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any("ASSUMPTION");
        }
    }
    pub fn snapshot() -> Option<std::collections::VecDeque<Vec<u8>>> {
        IN.with(|i| i.borrow().vals.clone())
    }
    pub fn restore(s: &Option<std::collections::VecDeque<Vec<u8>>>) {
        IN.with(|i| i.borrow_mut().vals = s.clone())
    }
    pub fn random() -> bool {
        IN.with(|i| i.borrow().vals.is_none())
    }
}
pub use imp::*;

pub fn bool() -> bool {
    u8() & 1 == 1
}
/// Any value up to and including `max`.
pub fn upto(max: usize) -> usize {
    let n = u64() as usize;
    #[cfg(not(kani))]
    let n = if random() { if rnd() % 4 == 0 { n % (max + 1) } else { n % (max + 1) % 70 } } else { n };
    assume(n <= max);
    n
}

/// The assertion of a property.
macro_rules! check {
    ($c:expr, $($m:tt)*) => { assert!($c, $($m)*) };
}

/// Asserts that the block panics.  Under Kani the panic itself is a failed check inside the code
/// under test, which the driver does not count for harnesses named `.._refused`.
macro_rules! refuses {
    ($b:block, $($m:tt)*) => {
        #[cfg(kani)]
        {
            $b;
            check!(false, $($m)*);
        }
        #[cfg(not(kani))]
        check!(std::panic::catch_unwind(|| $b).is_err(), $($m)*);
    };
}

/// Declares harnesses: a plain function natively, a Kani proof under Kani.
macro_rules! harness {
    ($(#[$a:meta])* $name:ident ($unwind:expr) $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        $(#[cfg_attr(kani, $a)])*
        pub fn $name() {
            $body;
            #[cfg(all(kani, vacuity))]
            kani::cover!(true, "harness end reached");
        }
    };
}
