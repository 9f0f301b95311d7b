//! A requester with a connection that records what is done to it, and control of tasks and time.
use crate::*;
use binate::connection::{ConnectionStatus, DuplexConnection};
use binate::frame::Frame;
use binate::verif::Machine;
use binate::{Error, Flux, Mono, Payload};
use bytes::Bytes;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio_stream::Stream;

pub struct State {
    /// Called for every frame sent; an error is returned for the frame with number `fail_at`.
    pub on_frame: Option<fn(Frame)>,
    pub frames: usize,
    pub fail_at: usize,
    pub closed: usize,
    pub connected: usize,
    pub streams_sent: usize,
    pub subscriptions: usize,
    pub statuses: [u8; 6],
    pub pos: usize,
    pub seen: usize,
    pub after_end: usize,
    pub waits: usize,
}
impl State {
    pub const fn new() -> State {
        State {
            on_frame: None,
            frames: 0,
            fail_at: usize::MAX,
            closed: 0,
            connected: 0,
            streams_sent: 0,
            subscriptions: 0,
            statuses: [END; 6],
            pos: 0,
            seen: 0,
            after_end: 0,
            waits: 0,
        }
    }
}
static mut STATE: State = State::new();
pub fn state() -> &'static mut State {
    unsafe { &mut STATE }
}

pub const END: u8 = 0;
/// Nothing to tell yet.
pub const WAIT: u8 = 1;
pub const UNCONNECTED: u8 = 2;
pub const CONNECTING: u8 = 3;
pub const CONNECTED: u8 = 4;
pub const CLOSED: u8 = 5;
pub const ERROR: u8 = 6;

struct Statuses(usize);
impl Stream for Statuses {
    type Item = ConnectionStatus;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<ConnectionStatus>> {
        let s = state();
        let x = s.statuses[self.0];
        self.0 += 1;
        if x == END {
            s.after_end += 1;
            return Poll::Ready(None);
        }
        if x == WAIT {
            s.waits += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        s.seen += 1;
        Poll::Ready(Some(match x {
            UNCONNECTED => ConnectionStatus::Unconnected,
            CONNECTING => ConnectionStatus::Connecting,
            CONNECTED => ConnectionStatus::Connected,
            CLOSED => ConnectionStatus::Closed,
            _ => ConnectionStatus::Error(String::new()),
        }))
    }
}
struct Nothing;
impl Stream for Nothing {
    type Item = Frame;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Frame>> {
        Poll::Pending
    }
}
/// The result of sending, given out when polled.
struct Sent(bool);
impl std::future::Future for Sent {
    type Output = Result<(), Error>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        Poll::Ready(if self.0 { Ok(()) } else { Err(binate::verif::error(9, None)) })
    }
}

pub struct Conn;
impl Conn {
    fn sent(&self, frame: Frame) -> bool {
        let s = state();
        let n = s.frames;
        s.frames += 1;
        check!(n <= s.fail_at, "sending goes on after the connection refused a frame");
        if let Some(f) = s.on_frame {
            f(frame);
        }
        n != s.fail_at
    }
}
impl DuplexConnection for Conn {
    fn send(&self, frame: Frame) -> Mono<Result<(), Error>> {
        Box::pin(Sent(self.sent(frame)))
    }
    fn send_and_forget(&self, frame: Frame) -> Result<(), Error> {
        if self.sent(frame) {
            Ok(())
        } else {
            Err(binate::verif::error(9, None))
        }
    }
    fn send_stream(&self, _: Flux<Frame>) {
        state().streams_sent += 1;
    }
    fn receive(&self) -> Flux<Frame> {
        Box::pin(Nothing)
    }
    fn connect(&self) {
        state().connected += 1;
    }
    fn close(&self) {
        state().closed += 1;
    }
    fn connection_status(&self) -> Flux<ConnectionStatus> {
        state().subscriptions += 1;
        Box::pin(Statuses(0))
    }
}

/// The requester in its runtime.
pub struct World {
    pub machine: std::mem::ManuallyDrop<Machine>,
    #[cfg(not(kani))]
    rt: tokio::runtime::Runtime,
}

#[cfg(kani)]
impl World {
    pub fn new(server: bool, timeout: Duration) -> World {
        let mut f = Box::pin(Machine::new(server, Conn, timeout));
        match tokio::model::now_or_never(f.as_mut()) {
            Some(machine) => {
                std::mem::forget(f);
                World { machine: std::mem::ManuallyDrop::new(machine) }
            }
            None => panic!("MODEL-LIMIT: construction of the requester waits"),
        }
    }
    /// Polls every task once.
    pub fn turn(&mut self) {
        tokio::model::poll(0);
        tokio::model::poll(1);
        tokio::model::poll(2);
    }
    /// How many timers go off from now on.
    pub fn ring(n: usize) {
        tokio::model::ring(n);
    }
    pub fn advance(&mut self, d: Duration) {
        tokio::model::advance(d);
    }
    pub fn wait<T>(&mut self, mut m: Mono<T>) -> T {
        match tokio::model::now_or_never(m.as_mut()) {
            Some(x) => {
                std::mem::forget(m);
                x
            }
            None => panic!("MODEL-LIMIT: a result is waited for"),
        }
    }
}
#[cfg(not(kani))]
impl World {
    pub fn new(server: bool, timeout: Duration) -> World {
        *state() = State { on_frame: state().on_frame, fail_at: state().fail_at, statuses: state().statuses, ..State::new() };
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        let machine = rt.block_on(async {
            tokio::time::pause();
            Machine::new(server, Conn, timeout).await
        });
        World { machine: std::mem::ManuallyDrop::new(machine), rt }
    }
    pub fn turn(&mut self) {
        self.rt.block_on(async {
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
        });
    }
    pub fn ring(_: usize) {}
    pub fn advance(&mut self, d: Duration) {
        self.rt.block_on(tokio::time::advance(d));
    }
    pub fn wait<T>(&mut self, m: Mono<T>) -> T {
        self.rt.block_on(m)
    }
}

/// What an Arc holds is leaked when its last owner goes: dropping the requester is of no interest here.
#[cfg(kani)]
pub fn leak<T: ?Sized, A: std::alloc::Allocator>(_: &mut std::sync::Arc<T, A>) {}

macro_rules! machine {
    ($name:ident ($unwind:expr) $body:block) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        #[cfg_attr(kani, kani::stub(std::sync::Arc::drop_slow, crate::world::leak))]
        pub fn $name() {
            $body;
            #[cfg(all(kani, vacuity))]
            kani::cover!(true, "harness end reached");
        }
    };
}
pub(crate) use machine;
