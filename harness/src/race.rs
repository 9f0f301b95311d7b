//! Interference of another caller: under Kani the atomic operations of the standard library are stubbed
//! by versions that let the other caller run (whole calls) before each operation, wherever the
//! solver likes.  Natively the two really run at the same time, many times over.
#[cfg(kani)]
mod imp {
    static mut OTHER: Option<*mut dyn FnMut()> = None;

    pub fn during(a: impl FnOnce(), b: impl FnMut()) {
        let mut b = b;
        {
            let other: &mut dyn FnMut() = &mut b;
            unsafe { OTHER = Some(std::mem::transmute(other as *mut dyn FnMut())) };
        }
        a();
        point();
        unsafe { OTHER = None };
    }
    /// Between two atomic operations.
    pub fn point() {
        let other = unsafe { OTHER.take() };
        if let Some(f) = other {
            if crate::nd::bool() {
                unsafe { (*f)() };
            }
            unsafe { OTHER = Some(f) };
        }
    }

    // The functions of core::sync::atomic that every atomic operation goes through.
    use std::sync::atomic::Ordering;
    fn bin<T: Copy, U: Copy>(dst: *mut T, val: U, f32: fn(u32, u32) -> u32, f64: fn(u64, u64) -> u64) -> T {
        point();
        unsafe {
            let old = *dst;
            match std::mem::size_of::<T>() {
                4 => {
                    let d = dst as *mut u32;
                    *d = f32(*d, std::mem::transmute_copy::<U, u32>(&val));
                }
                8 => {
                    let d = dst as *mut u64;
                    *d = f64(*d, std::mem::transmute_copy::<U, u64>(&val));
                }
                _ => panic!("MODEL-LIMIT: atomic of this size"),
            }
            old
        }
    }
    pub unsafe fn add<T: Copy, U: Copy>(dst: *mut T, val: U, _: Ordering) -> T {
        bin(dst, val, u32::wrapping_add, u64::wrapping_add)
    }
    pub unsafe fn sub<T: Copy, U: Copy>(dst: *mut T, val: U, _: Ordering) -> T {
        bin(dst, val, u32::wrapping_sub, u64::wrapping_sub)
    }
    pub unsafe fn and<T: Copy, U: Copy>(dst: *mut T, val: U, _: Ordering) -> T {
        bin(dst, val, |a, b| a & b, |a, b| a & b)
    }
    pub unsafe fn or<T: Copy, U: Copy>(dst: *mut T, val: U, _: Ordering) -> T {
        bin(dst, val, |a, b| a | b, |a, b| a | b)
    }
    pub unsafe fn swap<T: Copy>(dst: *mut T, val: T, _: Ordering) -> T {
        point();
        std::mem::replace(&mut *dst, val)
    }
    pub unsafe fn load<T: Copy, const VOLATILE: bool>(dst: *const T, _: Ordering) -> T {
        point();
        *dst
    }
    pub unsafe fn store<T: Copy, const VOLATILE: bool>(dst: *mut T, val: T, _: Ordering) {
        point();
        *dst = val
    }
    pub unsafe fn exchange<T: Copy>(dst: *mut T, old: T, new: T, _: Ordering, _: Ordering) -> Result<T, T> {
        point();
        let found = *dst;
        let same = match std::mem::size_of::<T>() {
            4 => std::mem::transmute_copy::<T, u32>(&found) == std::mem::transmute_copy::<T, u32>(&old),
            8 => std::mem::transmute_copy::<T, u64>(&found) == std::mem::transmute_copy::<T, u64>(&old),
            _ => panic!("MODEL-LIMIT: atomic of this size"),
        };
        if same {
            *dst = new;
            Ok(found)
        } else {
            Err(found)
        }
    }
}
#[cfg(not(kani))]
mod imp {
    pub fn during(a: impl FnOnce() + Send, b: impl FnMut() + Send) {
        use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
        let gate = AtomicU32::new(0);
        let wait = || {
            gate.fetch_add(1, SeqCst);
            while gate.load(SeqCst) < 2 {}
        };
        let mut b = b;
        std::thread::scope(|s| {
            s.spawn(|| {
                wait();
                b();
                b();
            });
            wait();
            a();
        });
    }
}
pub use imp::*;

/// A harness whose atomic operations are open to interference.
macro_rules! race {
    ($name:ident ($unwind:expr) $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        #[cfg_attr(kani, kani::stub(core::sync::atomic::atomic_add, crate::race::add))]
        #[cfg_attr(kani, kani::stub(core::sync::atomic::atomic_sub, crate::race::sub))]
        #[cfg_attr(kani, kani::stub(core::sync::atomic::atomic_and, crate::race::and))]
        #[cfg_attr(kani, kani::stub(core::sync::atomic::atomic_or, crate::race::or))]
        #[cfg_attr(kani, kani::stub(core::sync::atomic::atomic_swap, crate::race::swap))]
        #[cfg_attr(kani, kani::stub(core::sync::atomic::atomic_load, crate::race::load))]
        #[cfg_attr(kani, kani::stub(core::sync::atomic::atomic_store, crate::race::store))]
        #[cfg_attr(kani, kani::stub(core::sync::atomic::atomic_compare_exchange, crate::race::exchange))]
        #[cfg_attr(kani, kani::stub(core::sync::atomic::atomic_compare_exchange_weak, crate::race::exchange))]
        pub fn $name() {
            #[cfg(kani)]
            $body;
            // Natively the schedule is not chosen: the same input again and again.
            #[cfg(not(kani))]
            {
                let again = crate::nd::snapshot();
                for _ in 0..20_000 {
                    crate::nd::restore(&again);
                    $body;
                }
            }
            #[cfg(all(kani, vacuity))]
            kani::cover!(true, "harness end reached");
        }
    };
}
