//! Model of tokio for symbolic execution: spawned tasks are kept in a list and polled by the harness, which
//! also moves the clock.  Nothing happens by itself.
#![allow(static_mut_refs)]

pub mod model {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    use std::time::Duration;

    pub(crate) type Task = Pin<Box<dyn Future<Output = ()>>>;
    pub const CAP: usize = 3;
    static mut TASKS: [Option<Task>; CAP] = [None, None, None];
    static mut DONE: [bool; CAP] = [false, false, false];
    static mut COUNT: usize = 0;
    static mut NOW: Duration = Duration::ZERO;
    static mut RING: usize = usize::MAX;

    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &TABLE)
    }
    fn nothing(_: *const ()) {}
    static TABLE: RawWakerVTable = RawWakerVTable::new(clone, nothing, nothing, nothing);
    pub fn waker() -> Waker {
        unsafe { Waker::from_raw(clone(std::ptr::null())) }
    }

    pub(crate) fn push(t: Task) {
        unsafe {
            if COUNT == CAP {
                panic!("MODEL-LIMIT: too many tasks");
            }
            TASKS[COUNT] = Some(t);
            COUNT += 1;
        }
    }
    /// How many tasks were spawned.
    pub fn spawned() -> usize {
        unsafe { COUNT }
    }
    /// Polls a task once; true when it has ended.
    pub fn poll(i: usize) -> bool {
        if unsafe { DONE[i] } {
            return true;
        }
        let t = unsafe { &mut TASKS[i] };
        match t {
            None => true,
            Some(f) => {
                let w = waker();
                match f.as_mut().poll(&mut Context::from_waker(&w)) {
                    Poll::Ready(()) => {
                        // Kept: its drop is of no interest here.
                        unsafe { DONE[i] = true };
                        true
                    }
                    Poll::Pending => false,
                }
            }
        }
    }
    /// Runs a future that never has to wait.
    pub fn now_or_never<F: Future + ?Sized>(mut f: Pin<&mut F>) -> Option<F::Output> {
        let w = waker();
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(x) => Some(x),
            Poll::Pending => None,
        }
    }
    /// How many timers go off from now on: histories in which it is otherwise are left out.
    pub fn ring(n: usize) {
        unsafe { RING = n }
    }
    pub(crate) fn rings(ready: bool) -> bool {
        unsafe {
            if RING == usize::MAX {
                return ready;
            }
            let r = RING > 0;
            if r {
                RING -= 1;
            }
            assume(ready == r);
            r
        }
    }
    #[cfg(kani)]
    fn assume(x: bool) {
        kani::assume(x)
    }
    #[cfg(not(kani))]
    fn assume(_: bool) {}
    pub fn now() -> Duration {
        unsafe { NOW }
    }
    pub fn advance(d: Duration) {
        unsafe { NOW = NOW.checked_add(d).unwrap() }
    }
}

pub mod task {
    use std::future::Future;
    use std::marker::PhantomData;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    struct Quiet<F>(F);
    impl<F: Future> Future for Quiet<F> {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let f = unsafe { self.map_unchecked_mut(|s| &mut s.0) };
            match f.poll(cx) {
                Poll::Ready(x) => {
                    std::mem::forget(x);
                    Poll::Ready(())
                }
                Poll::Pending => Poll::Pending,
            }
        }
    }

    #[derive(Debug)]
    pub struct JoinHandle<T>(PhantomData<T>);

    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            panic!("MODEL-LIMIT: abort of a task")
        }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::model::push(Box::pin(Quiet(f)));
        JoinHandle(PhantomData)
    }
}
pub use task::spawn;

pub mod time {
    use crate::model;
    use std::future::Future;
    use std::ops::{Add, AddAssign, Sub, SubAssign};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use std::time::Duration;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(Duration);

    impl Instant {
        pub fn now() -> Instant {
            Instant(model::now())
        }
        pub fn duration_since(&self, e: Instant) -> Duration {
            self.0.saturating_sub(e.0)
        }
        pub fn saturating_duration_since(&self, e: Instant) -> Duration {
            self.0.saturating_sub(e.0)
        }
        pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
            self.0.checked_sub(e.0)
        }
        pub fn elapsed(&self) -> Duration {
            Instant::now().duration_since(*self)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d)
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            self.0 -= d
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, e: Instant) -> Duration {
            self.0.saturating_sub(e.0)
        }
    }

    #[derive(Debug)]
    pub struct Sleep(Instant);

    impl Sleep {
        pub fn deadline(&self) -> Instant {
            self.0
        }
        pub fn is_elapsed(&self) -> bool {
            Instant::now() >= self.0
        }
        pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
            self.0 = at
        }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            if model::rings(self.is_elapsed()) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        }
    }
    pub fn sleep(d: Duration) -> Sleep {
        Sleep(Instant::now() + d)
    }
    pub fn sleep_until(at: Instant) -> Sleep {
        Sleep(at)
    }

    /// Ticks at once and then every period; late ticks are made up for without a pause.
    #[derive(Debug)]
    pub struct Interval(Instant, Duration);
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            let at = self.0;
            sleep_until(at).await;
            self.0 = at + self.1;
            at
        }
    }
    pub fn interval(period: Duration) -> Interval {
        Interval(Instant::now(), period)
    }
    pub fn interval_at(start: Instant, period: Duration) -> Interval {
        Interval(start, period)
    }
}

pub mod sync {
    use std::cell::UnsafeCell;
    use std::ops::{Deref, DerefMut};

    /// Model of the lock for one poller: nobody ever holds it across a poll.
    pub struct RwLock<T: ?Sized>(UnsafeCell<T>);
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a T);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a mut T);

    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self {
            RwLock(UnsafeCell::new(t))
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            RwLockReadGuard(unsafe { &*self.0.get() })
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            RwLockWriteGuard(unsafe { &mut *self.0.get() })
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0
        }
    }
}
