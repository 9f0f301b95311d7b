//! C06: any byte string decodes to what the protocol says it spells, or to the error it deserves;
//! it is incomplete exactly when it ends before the lengths it declares.
use crate::gen::*;
use crate::*;
use binate::frame::codec::*;
use binate::frame::*;

fn any<T: Case>() {
    let w = mk::bytes(1 << 25);
    nd::assume(w.len() >= 6);
    nd::assume(spec::header(&w).1 == T::TYPE);
    let mut b = w.clone();
    let r = Frame::decode(&mut b);
    spec::agree(&w, r, T::TYPE);
}
per_type!(34, any());

harness!(short(34) {
    let w = mk::bytes(5);
    let r = Frame::decode(&mut w.clone());
    check!(matches!(r, Err(DecodeError::InComplete)), "truncated header not reported as incomplete");
});
