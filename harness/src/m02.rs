//! M02: a silent connection is closed once, and not before its time.
use crate::world::*;
use crate::*;
use std::time::Duration;

fn time(max: u32) -> Duration {
    let (s, ms) = (nd::u32(), nd::u16());
    nd::assume(s <= max && ms < 1000);
    Duration::new(s as u64, ms as u32 * 1_000_000)
}

macro_rules! watch {
    ($name:ident ($server:expr) $($n:expr),*) => {
        machine!($name(4) {
            let mut w = Watch::new($server);
            $(w.wake($n);)*
        });
    };
}

/// The longest timeout of a SETUP frame, in seconds.
const LONGEST: u32 = 2_147_483;

/// A connection on which nothing is received.
struct Watch {
    w: World,
    t: Duration,
    passed: Duration,
    due: Duration,
}
impl Watch {
    fn new(server: bool) -> Watch {
        let t = time(LONGEST);
        nd::assume(t > Duration::ZERO);
        let mut w = World::new(server, t);
        World::ring(0);
        w.turn();
        check!(state().closed == 0, "closed at once");
        // When the watch must have seen that more than the timeout has passed: it looks at the first wake-up
        // after the timeout, and if that is the very moment of the timeout, one timeout later.
        Watch { w, t, passed: Duration::ZERO, due: t }
    }
    /// The tasks run again after any time; `n` timers go off.
    fn wake(&mut self, n: usize) {
        let d = time(2 * LONGEST);
        World::ring(n);
        self.w.advance(d);
        self.w.turn();
        self.passed += d;
        check!(self.passed >= self.t || state().closed == 0, "closed before the timeout");
        if self.passed >= self.due {
            check!(self.passed == self.t || state().closed == 1, "a silent connection is not closed");
            self.due = self.t + self.t;
        }
        check!(state().closed <= 1, "closed more than once");
        check!(state().frames == 0 && state().connected == 0, "something else is done to the connection");
    }
}
// Wake-ups at which the timer has, or has not, gone off.
watch!(early(false) 0, 0);
watch!(late(true) 1);
watch!(late_client(false) 1);
watch!(once(true) 1, 0);
watch!(again(false) 1, 1);
watch!(early_late(true) 0, 1);
watch!(early_late_once(false) 0, 1, 0);
watch!(early_again(true) 0, 1, 1);
watch!(again_once(false) 1, 1, 0);
machine!(on_request(4) {
    let mut w = World::new(nd::bool(), Duration::new(10, 0));
    check!(state().closed == 0, "closed at once");
    w.machine.close();
    check!(state().closed == 1, "the connection is not closed on request");
});
