//! P03: a payload sent in fragments is put together again.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;
use binate::verif::List;
use binate::Payload;
use bytes::Bytes;

/// The received part is the fragments' parts, one after the other; absent when they are all empty.
fn joined(got: Option<Bytes>, parts: &[Option<Bytes>]) {
    let mut total = 0;
    let mut k = 0;
    while k < parts.len() {
        if let Some(b) = &parts[k] {
            total += b.len();
        }
        k += 1;
    }
    let got = match got {
        None => {
            check!(total == 0, "a part is lost in reassembly");
            return;
        }
        Some(b) => b,
    };
    check!(total != 0, "a part appears in reassembly");
    check!(got.len() == total, "a part has another length after reassembly");
    // Any byte of any fragment is where it must be.
    let mut at = 0;
    let mut k = 0;
    while k < parts.len() {
        if let Some(b) = &parts[k] {
            if !b.is_empty() {
                let i = nd::upto(b.len() - 1);
                check!(mk::at(&got, at + i) == mk::at(b, i), "a part differs after reassembly");
            }
            at += b.len();
        }
        k += 1;
    }
}

type Fragment = fn(u32, bool, Payload) -> Bytes;
fn fnf(sid: u32, follows: bool, p: Payload) -> Bytes {
    RequestFnfFrame::new(sid, follows, p).to_bytes()
}
fn response(sid: u32, follows: bool, p: Payload) -> Bytes {
    RequestResponseFrame::new(sid, follows, p).to_bytes()
}
fn stream(sid: u32, follows: bool, p: Payload) -> Bytes {
    RequestStreamFrame::new(sid, follows, pos31(), p).to_bytes()
}
fn channel(sid: u32, follows: bool, p: Payload) -> Bytes {
    RequestChannelFrame::new(sid, follows, !follows, pos31(), p).to_bytes()
}
fn channel_open(sid: u32, follows: bool, p: Payload) -> Bytes {
    RequestChannelFrame::new(sid, follows, false, pos31(), p).to_bytes()
}
fn channel_any(sid: u32, follows: bool, p: Payload) -> Bytes {
    RequestChannelFrame::new(sid, follows, nd::bool(), pos31(), p).to_bytes()
}
// No flag but METADATA has a say in what a fragment carries.
fn payload_any(sid: u32, _: bool, p: Payload) -> Bytes {
    PayloadFrame::new(sid, Flags::from_bits_truncate(nd::u16() & (C | N | F)), p).to_bytes()
}
fn payload(sid: u32, follows: bool, p: Payload) -> Bytes {
    PayloadFrame::new(sid, if follows { Flags::FOLLOWS | Flags::NEXT } else { Flags::NEXT | Flags::COMPLETE }, p).to_bytes()
}

/// Fragments: for each, the lengths of its metadata and data, if it has them; `ANY`: any length.
const ANY: usize = usize::MAX;
fn put_together(shape: &[(Option<usize>, Option<usize>)], first: Fragment) {
    let sid = pos31();
    let mut list = List::new();
    let mut ms = [None, None, None, None];
    let mut ds = [None, None, None, None];
    let mut k = 0;
    while k < shape.len() {
        ms[k] = match shape[k].0 {
            Some(ANY) => Some(mk::bytes(META_MAX)),
            Some(n) => Some(mk::bytes_n(n)),
            None => None,
        };
        ds[k] = match shape[k].1 {
            Some(ANY) => {
                let d = mk::bytes(DATA_MAX);
                nd::assume(!d.is_empty());
                Some(d)
            }
            Some(n) => Some(mk::bytes_n(n)),
            None => None,
        };
        let p = super::gen::payload(&ms[k], &ds[k]);
        let follows = k + 1 < shape.len();
        list.push(if k == 0 { first(sid, follows, p) } else { payload(sid, follows, p) });
        k += 1;
    }
    match list.reassemble() {
        Ok(p) => {
            let (m, d) = p.split();
            joined(m, &ms);
            joined(d, &ds);
        }
        Err(_) => check!(false, "fragments are rejected"),
    }
}

pub mod any {
    use super::ANY;
    use crate::*;
    harness!(fnf(6) { super::put_together(&[(None, Some(ANY))], super::fnf) });
    harness!(channel(6) { super::put_together(&[(None, Some(ANY))], super::channel_any) });
    harness!(payload(6) { super::put_together(&[(None, Some(ANY))], super::payload_any) });
}
macro_rules! shapes {
    ($($kind:ident: $($name:ident $shape:expr),*;)*) => {$(
        pub mod $kind {
            use crate::*;
            $(harness!($name(8) { super::put_together(&$shape, super::$kind) });)*
        }
    )*};
}
shapes! {
    fnf: meta [(Some(1), None)], meta_data [(Some(3), Some(5)), (None, Some(2))];
    response: data [(None, Some(1))], meta_both [(Some(2), None), (Some(3), Some(4))];
    stream: both_both [(Some(9), Some(9)), (Some(1), Some(1))];
    channel_open: data_data [(None, Some(500)), (None, Some(3))], one [(Some(1), Some(2))];
    channel: three [(Some(300), Some(1)), (Some(0), Some(2)), (None, Some(3))];
    payload: empty [(Some(0), None)],
        four [(Some(2), Some(2)), (Some(2), Some(2)), (Some(1), Some(2)), (None, Some(1))];
}

/// A payload of fixed part lengths and any contents, through the chunk iterator and the frames.
fn sent(ml: usize, dl: usize, n: usize, first: Fragment) {
    let (m, d) = (Some(mk::bytes_n(ml)), Some(mk::bytes_n(dl)));
    let sid = pos31();
    let mut list = List::new();
    let mut it = super::gen::payload(&m, &d).chunks(n);
    let mut k = 0;
    let count = it.len();
    while k < count {
        if let Some(c) = it.next() {
            let follows = k + 1 < count;
            list.push(if k == 0 { first(sid, follows, c) } else { payload(sid, follows, c) });
        }
        k += 1;
    }
    match list.reassemble() {
        Ok(p) => {
            let (pm, pd) = p.split();
            joined(pm, &[m]);
            joined(pd, &[d]);
        }
        Err(_) => check!(false, "fragments are rejected"),
    }
}
pub mod sent {
    use crate::*;
    harness!(even(8) { super::sent(4, 4, 2, super::fnf) });
    harness!(uneven(8) { super::sent(3, 5, 2, super::channel) });
    harness!(longer_metadata(8) { super::sent(300, 100, 128, super::response) });
    harness!(one_chunk(8) { super::sent(300, 100, 1000, super::stream) });
}
harness!(nothing(8) {
    match List::new().reassemble() {
        Ok(p) => {
            let (m, d) = p.split();
            check!(m.is_none() && d.is_none(), "a part appears in reassembly");
        }
        Err(_) => check!(false, "no fragments are rejected"),
    }
});
// A fragment that does not decode is an error, not a shorter payload.
harness!(broken(8) {
    let mut list = List::new();
    let a = mk::bytes(5);
    nd::assume(!a.is_empty());
    list.push(a);
    check!(list.reassemble().is_err(), "a truncated fragment is ignored");
});
