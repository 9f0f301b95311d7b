//! M03: every status of a connection is seen, once.
use crate::world::*;
use crate::*;
use std::time::Duration;

/// Any statuses where `shape` has a true, pauses elsewhere; then the end.
fn statuses<const K: usize>(shape: [bool; K]) {
    let mut want = 0;
    let mut i = 0;
    while i < K {
        state().statuses[i] = if shape[i] {
            let x = nd::u8();
            nd::assume(x >= UNCONNECTED && x <= ERROR);
            want += 1;
            x
        } else {
            WAIT
        };
        i += 1;
    }
    let mut w = World::new(nd::bool(), Duration::new(1000, 0));
    World::ring(0);
    w.turn();
    let mut i = 0;
    while i < K {
        if !shape[i] {
            w.turn();
        }
        i += 1;
    }
    let s = state();
    check!(s.subscriptions == 1, "the requester does not subscribe to the status once");
    check!(s.seen == want, "a status is not seen, or seen twice");
    check!(s.after_end == 1, "the end of the statuses is not seen, or asked for again");
    check!(s.closed == 0, "a status makes the requester close the connection");
    check!(s.frames == 0 && s.connected == 0, "a status makes the requester do something to the connection");
}
machine!(none(3) { statuses([]) });
machine!(one(4) { statuses([true]) });
machine!(pause(4) { statuses([false]) });
machine!(two(5) { statuses([true, true]) });
machine!(pause_one(5) { statuses([false, true]) });
machine!(one_pause(5) { statuses([true, false]) });
machine!(three(6) { statuses([true, true, true]) });
machine!(one_pause_one(6) { statuses([true, false, true]) });
machine!(pause_two(6) { statuses([false, true, true]) });
machine!(two_pause(6) { statuses([true, true, false]) });
machine!(pauses(6) { statuses([false, false, true]) });
