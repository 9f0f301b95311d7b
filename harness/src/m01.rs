//! M01: a fire-and-forget request is sent completely, in order and once.
use crate::world::*;
use crate::*;
use binate::frame::Frame;
use binate::RSocket;
use bytes::Bytes;
use std::time::Duration;

/// What is being sent, and how much of it was.
struct Plan {
    server: bool,
    m: Option<Bytes>,
    d: Option<Bytes>,
    /// 0: not fragmented.
    size: usize,
    mp: usize,
    dp: usize,
    over: bool,
    stream: u32,
}
static mut PLAN: Option<Plan> = None;
fn plan() -> &'static mut Plan {
    unsafe { PLAN.as_mut().unwrap() }
}
fn len(b: &Option<Bytes>) -> usize {
    b.as_ref().map_or(0, |b| b.len())
}
fn piece(x: Option<&Bytes>, whole: &Option<Bytes>, pos: &mut usize) {
    if let Some(x) = x {
        match whole {
            Some(w) => {
                check!(x.len() <= w.len() - *pos, "more is sent than the payload holds");
                check!(mk::same(x, &w.slice(*pos..*pos + x.len())), "other bytes are sent than the payload holds");
                *pos += x.len();
            }
            None => check!(false, "a part is sent that the payload does not have"),
        }
    }
}
fn frame(f: Frame) {
    let p = plan();
    check!(!p.over, "frames are sent after the last one");
    let (sid, follows, payload) = match f {
        Frame::RequestFnf(f) => (f.stream_id(), f.is_follows(), f.payload()),
        Frame::Payload(f) => {
            check!(p.stream != 0, "a request starts with a PAYLOAD frame");
            (f.stream_id(), f.is_follows(), f.payload())
        }
        _ => {
            check!(false, "a frame of another type is sent");
            return;
        }
    };
    check!(sid != 0 && sid <= gen::U31, "stream ID of a request");
    check!((sid & 1 == 1) != p.server, "a request is sent on a stream of the other side");
    check!(p.stream == 0 || p.stream == sid, "fragments are sent on different streams");
    p.stream = sid;
    let (x, y) = (payload.metadata(), payload.data());
    if p.size > 0 {
        check!(x.map_or(0, |x| x.len()) <= p.size && y.map_or(0, |y| y.len()) <= p.size, "a fragment is too large");
    }
    piece(x, &p.m, &mut p.mp);
    piece(y, &p.d, &mut p.dp);
    p.over = !follows;
    let left = p.mp < len(&p.m) || p.dp < len(&p.d);
    check!(follows == left, "the last fragment, and no other, is marked as the last");
}

/// As many fragments as it takes.
const MANY: usize = usize::MAX;

/// A request of at most `k` fragments, of which one of the first `k` is refused, if `fail`.
fn request(has_m: bool, has_d: bool, k: usize, fail: bool, server: bool) {
    let size = if k == 0 {
        0
    } else {
        let n = nd::upto(gen::META_MAX);
        nd::assume(n > 0);
        n
    };
    let part = |has: bool| {
        if !has {
            return None;
        }
        let b = mk::bytes(1 << 25);
        nd::assume(k == 0 || k == MANY || b.len() <= size * k);
        Some(b)
    };
    let (m, d) = (part(has_m), part(has_d));
    let fail_at = if fail { nd::upto(if k == MANY { 1 } else { k }) } else { usize::MAX };
    unsafe {
        PLAN = Some(Plan { server, m: m.clone(), d: d.clone(), size, mp: 0, dp: 0, over: false, stream: 0 });
    }
    state().on_frame = Some(frame);
    state().fail_at = fail_at;
    let mut w = World::new(server, Duration::new(10, 0));
    w.machine.set_chunk_size(if size == 0 { None } else { Some(size) });
    let r = w.machine.requester().fire_and_forget(gen::payload(&m, &d));
    let n = state().frames;
    check!(r.is_ok() == (n <= fail_at), "the result does not say whether everything was sent");
    if n <= fail_at {
        check!(plan().over && n > 0, "the last frame is not sent");
        check!(plan().mp == len(&m) && plan().dp == len(&d), "part of the payload is not sent");
        check!(k > 0 || n == 1, "a request that is not fragmented is not one frame");
    }
    check!(state().closed == 0, "the connection is closed");
}
machine!(whole(6) { request(true, true, 0, false, false) });
machine!(whole_data(6) { request(false, true, 0, false, true) });
machine!(whole_empty(6) { request(false, false, 0, false, false) });
machine!(whole_fail(6) { request(false, true, 0, true, false) });
machine!(pieces_data(6) { request(false, true, 3, false, false) });
machine!(pieces_metadata(6) { request(true, false, 3, false, true) });
machine!(pieces_both(6) { request(true, true, 2, false, false) });
machine!(pieces_empty(6) { request(false, false, 2, false, false) });
machine!(pieces_fail(6) { request(false, true, 3, true, false) });
// However many fragments there would be, the first two are as they should be.
machine!(many_data(6) { request(false, true, MANY, true, false) });
machine!(many_both(6) { request(true, true, MANY, true, true) });
machine!(pieces_both_fail(6) { request(true, true, 2, true, true) });

// Two requests are sent on two streams.
machine!(streams(6) {
    unsafe {
        PLAN = Some(Plan { server: false, m: None, d: None, size: 0, mp: 0, dp: 0, over: false, stream: 0 });
    }
    state().on_frame = Some(frame);
    let w = World::new(false, Duration::new(10, 0));
    check!(w.machine.requester().fire_and_forget(gen::payload(&None, &None)).is_ok(), "request");
    let a = plan().stream;
    plan().stream = 0;
    plan().over = false;
    check!(w.machine.requester().fire_and_forget(gen::payload(&None, &None)).is_ok(), "request");
    check!(plan().stream != a, "two requests are sent on one stream");
});

fn pushed(f: Frame) {
    match f {
        Frame::MetadataPush(f) => check!(Some(f.metadata()) == plan().m.as_ref(), "metadata pushed"),
        _ => check!(false, "a frame of another type is sent"),
    }
}
machine!(metadata_push(6) {
    let m = mk::bytes(gen::DATA_MAX);
    let fail = nd::bool();
    unsafe {
        PLAN = Some(Plan { server: false, m: Some(m.clone()), d: None, size: 0, mp: 0, dp: 0, over: false, stream: 0 });
    }
    state().on_frame = Some(|f| match f {
        Frame::MetadataPush(f) => check!(mk::same(f.metadata(), plan().m.as_ref().unwrap()), "metadata pushed"),
        _ => check!(false, "a frame of another type is sent"),
    });
    state().fail_at = if fail { 0 } else { usize::MAX };
    let mut w = World::new(nd::bool(), Duration::new(10, 0));
    w.machine.set_chunk_size(if nd::bool() { Some(1) } else { None });
    let r = w.machine.requester().metadata_push(m);
    let r = w.wait(r);
    check!(state().frames == 1, "metadata is not pushed in exactly one frame");
    check!(r.is_ok() != fail, "the result does not say whether the metadata was sent");
});
