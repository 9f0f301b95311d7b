//! S01: stream IDs are valid, of the right parity, free, and never given out twice.
use crate::*;
use binate::connection::StreamIdProvider;
use dashmap::DashMap;

fn valid(id: u32, odd: bool, used: &[u32; 3]) {
    check!(id != 0, "stream ID 0 given out");
    check!(id <= 0x7FFF_FFFF, "a stream ID above 31 bits given out");
    check!((id & 1 == 1) == odd, "a stream ID of the other side given out");
    check!(id != used[0] && id != used[1] && id != used[2], "a stream ID in use given out");
}
fn store(used: &[u32; 3]) -> DashMap<u32, ()> {
    let s = DashMap::new();
    s.insert(used[0], ());
    s.insert(used[1], ());
    s.insert(used[2], ());
    s
}

/// Three IDs from any state of the counter, which has the parity of its side.
fn any_state(odd: bool) {
    let init = nd::u32() & !1 | odd as u32;
    let used = [nd::u32(), nd::u32(), nd::u32()];
    let s = store(&used);
    let p = binate::verif::stream_ids(init as i32);
    let (a, b, c) = (p.next_stream_id(&s), p.next_stream_id(&s), p.next_stream_id(&s));
    valid(a, odd, &used);
    valid(b, odd, &used);
    valid(c, odd, &used);
    check!(a != b && b != c && a != c, "a stream ID given out twice");
}
harness!(client(8) { any_state(true) });
harness!(server(8) { any_state(false) });

fn fresh(odd: bool) {
    let used = [nd::u32(), nd::u32(), nd::u32()];
    let s = store(&used);
    let p = if odd { StreamIdProvider::new_for_client() } else { StreamIdProvider::new_for_server() };
    let (a, b) = (p.next_stream_id(&s), p.next_stream_id(&s));
    valid(a, odd, &used);
    valid(b, odd, &used);
    check!(a != b, "a stream ID given out twice");
}
harness!(fresh_client(8) { fresh(true) });
harness!(fresh_server(8) { fresh(false) });

// Two callers at once, also where the counter wraps around.
fn concurrent(odd: bool) {
    let init = nd::u32() & !1 | odd as u32;
    let used = [nd::u32(); 3];
    let s = DashMap::new();
    s.insert(used[0], ());
    let p = binate::verif::stream_ids(init as i32);
    let (mut a, mut b) = (0, [0; 2]);
    let mut n = 0;
    race::during(
        || a = p.next_stream_id(&s),
        || {
            if n < 2 {
                b[n] = p.next_stream_id(&s);
                n += 1;
            }
        },
    );
    valid(a, odd, &used);
    let mut i = 0;
    while i < n {
        valid(b[i], odd, &used);
        check!(b[i] != a, "two callers are given the same stream ID");
        i += 1;
    }
    check!(n < 2 || b[0] != b[1], "a stream ID given out twice");
}
race!(concurrent_client(5) { concurrent(true) });
race!(concurrent_server(5) { concurrent(false) });
