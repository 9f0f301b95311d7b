use core::iter::{FromIterator, Iterator};
use core::ops::{Deref, DerefMut};
use core::{cmp, fmt, hash};

use alloc::{
    borrow::{Borrow, BorrowMut},
    string::String,
    vec::Vec,
};

use crate::buf::{IntoIter, UninitSlice};
use crate::model::{self, View};
use crate::{Buf, BufMut, Bytes};

/// Model of a growable byte buffer: a rope of literal bytes and of references into the arena.
pub struct BytesMut {
    pub(crate) view: View,
    cap: usize,
}

impl BytesMut {
    #[inline]
    pub fn with_capacity(capacity: usize) -> BytesMut {
        BytesMut {
            view: View::EMPTY,
            cap: capacity,
        }
    }
    #[inline]
    pub fn new() -> BytesMut {
        BytesMut::with_capacity(0)
    }
    #[inline]
    pub fn len(&self) -> usize {
        self.view.len()
    }
    #[inline]
    pub fn is_empty(&self) -> bool {
        self.view.len() == 0
    }
    #[inline]
    pub fn capacity(&self) -> usize {
        cmp::max(self.cap, self.view.len())
    }
    #[inline]
    pub fn freeze(self) -> Bytes {
        Bytes { view: self.view }
    }
    fn ensure(&mut self) {
        if self.view.id == 0 {
            self.view = View::rope(model::new_rope());
        }
    }
    /// Appends `src`: by reference when it lies in the arena, else byte by byte.
    pub fn extend_from_slice(&mut self, src: &[u8]) {
        self.ensure();
        let rope = model::rope(self.view.id);
        rope.push_slice(src);
        self.view.grow(src.len());
    }
    fn push_bytes<const N: usize>(&mut self, src: [u8; N]) {
        self.ensure();
        let (rope, lit) = (model::rope(self.view.id), model::lit(self.view.id));
        rope.push_lits(lit, src);
        self.view.grow(N);
    }
    pub fn split_off(&mut self, at: usize) -> BytesMut {
        assert!(at <= self.capacity(), "split_off out of bounds");
        if at > self.len() {
            model::limit();
        }
        if at == self.len() {
            return BytesMut::new();
        }
        let mut v = self.view;
        v.advance(at);
        let o = BytesMut { view: v, cap: 0 };
        self.view.set_len(at);
        self.seal();
        o
    }
    // The kept front no longer ends where its rope ends: give it a rope of its own, so that what
    // is appended next goes behind the kept bytes.
    fn seal(&mut self) {
        let s = self.view;
        self.clear();
        self.ensure();
        let rope = model::rope(self.view.id);
        rope.push_view(&s);
        self.view.set_len(s.len());
    }
    pub fn split(&mut self) -> BytesMut {
        let len = self.len();
        self.split_to(len)
    }
    #[must_use = "consider BytesMut::advance if you don't need the other half"]
    pub fn split_to(&mut self, at: usize) -> BytesMut {
        assert!(at <= self.len(), "split_to out of bounds");
        let v = self.view.take(at);
        let mut o = BytesMut { view: View::EMPTY, cap: 0 };
        if at > 0 {
            o.ensure();
            let rope = model::rope(o.view.id);
            rope.push_view(&v);
            o.view.set_len(v.len());
        }
        o
    }
    pub fn truncate(&mut self, len: usize) {
        if len < self.len() {
            self.view.set_len(len);
            self.seal();
        }
    }
    pub fn clear(&mut self) {
        self.view = View::EMPTY;
    }
    pub fn resize(&mut self, new_len: usize, value: u8) {
        let len = self.len();
        if new_len > len {
            for _ in len..new_len {
                self.push_bytes([value]);
            }
        } else {
            self.truncate(new_len);
        }
    }
    #[inline]
    pub unsafe fn set_len(&mut self, len: usize) {
        if len > self.len() {
            model::limit();
        }
        self.truncate(len);
    }
    #[inline]
    pub fn reserve(&mut self, additional: usize) {
        let want = self.view.len().checked_add(additional).expect("overflow");
        if want > self.cap {
            self.cap = want;
        }
    }
    pub fn unsplit(&mut self, other: BytesMut) {
        if self.is_empty() {
            *self = other;
            return;
        }
        let mut o = other;
        self.put(&mut o);
    }
    #[inline]
    pub(crate) fn as_slice(&self) -> &[u8] {
        self.view.as_slice()
    }
    #[inline]
    fn as_slice_mut(&mut self) -> &mut [u8] {
        if self.view.len() == 0 {
            return &mut [];
        }
        let c = self.view.chunk();
        if c.len() == self.view.len() && !model::in_arena(c.as_ptr()) {
            return unsafe { core::slice::from_raw_parts_mut(c.as_ptr() as *mut u8, c.len()) };
        }
        // private copy, as one literal
        let v = self.view;
        self.clear();
        self.ensure();
        let (rope, lit) = (model::rope(self.view.id), model::lit(self.view.id));
        let mut i = 0;
        while i < v.len() {
            rope.push_lit(lit, v.at(i));
            i += 1;
        }
        self.view.set_len(v.len());
        let c = self.view.chunk();
        unsafe { core::slice::from_raw_parts_mut(c.as_ptr() as *mut u8, c.len()) }
    }
}

impl Buf for BytesMut {
    #[inline]
    fn remaining(&self) -> usize {
        self.view.len()
    }
    #[inline]
    fn chunk(&self) -> &[u8] {
        self.view.chunk()
    }
    #[inline]
    fn advance(&mut self, cnt: usize) {
        assert!(cnt <= self.view.len(), "cannot advance past `remaining`");
        self.view.advance(cnt);
    }
    fn copy_to_bytes(&mut self, len: usize) -> crate::Bytes {
        self.split_to(len).freeze()
    }
}

unsafe impl BufMut for BytesMut {
    #[inline]
    fn remaining_mut(&self) -> usize {
        usize::MAX - self.len()
    }
    #[inline]
    unsafe fn advance_mut(&mut self, cnt: usize) {
        self.ensure();
        let (rope, lit) = (model::rope(self.view.id), model::lit(self.view.id));
        rope.extend_lit(lit, cnt);
        self.view.grow(cnt);
    }
    #[inline]
    fn chunk_mut(&mut self) -> &mut UninitSlice {
        self.ensure();
        let lit = model::lit(self.view.id);
        let s = lit.spare();
        unsafe { UninitSlice::from_raw_parts_mut(s.as_mut_ptr(), s.len()) }
    }
    fn put<T: crate::Buf>(&mut self, mut src: T)
    where
        Self: Sized,
    {
        while src.has_remaining() {
            let s = src.chunk();
            let l = s.len();
            self.extend_from_slice(s);
            src.advance(l);
        }
    }
    fn put_slice(&mut self, src: &[u8]) {
        self.extend_from_slice(src);
    }
    fn put_u8(&mut self, n: u8) {
        self.push_bytes([n]);
    }
    fn put_u16(&mut self, n: u16) {
        self.push_bytes(n.to_be_bytes());
    }
    fn put_u32(&mut self, n: u32) {
        self.push_bytes(n.to_be_bytes());
    }
    fn put_u64(&mut self, n: u64) {
        self.push_bytes(n.to_be_bytes());
    }
}

unsafe impl Send for BytesMut {}
unsafe impl Sync for BytesMut {}

impl AsRef<[u8]> for BytesMut {
    #[inline]
    fn as_ref(&self) -> &[u8] {
        self.as_slice()
    }
}

impl Deref for BytesMut {
    type Target = [u8];

    #[inline]
    fn deref(&self) -> &[u8] {
        self.as_ref()
    }
}

impl AsMut<[u8]> for BytesMut {
    #[inline]
    fn as_mut(&mut self) -> &mut [u8] {
        self.as_slice_mut()
    }
}

impl DerefMut for BytesMut {
    #[inline]
    fn deref_mut(&mut self) -> &mut [u8] {
        self.as_mut()
    }
}

impl<'a> From<&'a [u8]> for BytesMut {
    fn from(src: &'a [u8]) -> BytesMut {
        { let mut b = BytesMut::new(); b.extend_from_slice(src); b }
    }
}

impl<'a> From<&'a str> for BytesMut {
    fn from(src: &'a str) -> BytesMut {
        BytesMut::from(src.as_bytes())
    }
}

impl From<BytesMut> for Bytes {
    fn from(src: BytesMut) -> Bytes {
        src.freeze()
    }
}

impl PartialEq for BytesMut {
    fn eq(&self, other: &BytesMut) -> bool {
        self.as_slice() == other.as_slice()
    }
}

impl PartialOrd for BytesMut {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(other.as_slice())
    }
}

impl Ord for BytesMut {
    fn cmp(&self, other: &BytesMut) -> cmp::Ordering {
        self.as_slice().cmp(other.as_slice())
    }
}

impl Eq for BytesMut {}

impl Default for BytesMut {
    #[inline]
    fn default() -> BytesMut {
        BytesMut::new()
    }
}

impl hash::Hash for BytesMut {
    fn hash<H>(&self, state: &mut H)
    where
        H: hash::Hasher,
    {
        let s: &[u8] = self.as_ref();
        s.hash(state);
    }
}

impl Borrow<[u8]> for BytesMut {
    fn borrow(&self) -> &[u8] {
        self.as_ref()
    }
}

impl BorrowMut<[u8]> for BytesMut {
    fn borrow_mut(&mut self) -> &mut [u8] {
        self.as_mut()
    }
}

impl fmt::Write for BytesMut {
    #[inline]
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.remaining_mut() >= s.len() {
            self.put_slice(s.as_bytes());
            Ok(())
        } else {
            Err(fmt::Error)
        }
    }

    #[inline]
    fn write_fmt(&mut self, args: fmt::Arguments<'_>) -> fmt::Result {
        fmt::write(self, args)
    }
}

impl Clone for BytesMut {
    fn clone(&self) -> BytesMut {
        BytesMut::from(&self[..])
    }
}

impl IntoIterator for BytesMut {
    type Item = u8;
    type IntoIter = IntoIter<BytesMut>;

    fn into_iter(self) -> Self::IntoIter {
        IntoIter::new(self)
    }
}

impl<'a> IntoIterator for &'a BytesMut {
    type Item = &'a u8;
    type IntoIter = core::slice::Iter<'a, u8>;

    fn into_iter(self) -> Self::IntoIter {
        self.as_ref().into_iter()
    }
}

impl Extend<u8> for BytesMut {
    fn extend<T>(&mut self, iter: T)
    where
        T: IntoIterator<Item = u8>,
    {
        let iter = iter.into_iter();

        let (lower, _) = iter.size_hint();
        self.reserve(lower);

        // TODO: optimize
        // 1. If self.kind() == KIND_VEC, use Vec::extend
        // 2. Make `reserve` inline-able
        for b in iter {
            self.reserve(1);
            self.put_u8(b);
        }
    }
}

impl<'a> Extend<&'a u8> for BytesMut {
    fn extend<T>(&mut self, iter: T)
    where
        T: IntoIterator<Item = &'a u8>,
    {
        self.extend(iter.into_iter().map(|b| *b))
    }
}

impl FromIterator<u8> for BytesMut {
    fn from_iter<T: IntoIterator<Item = u8>>(into_iter: T) -> Self {
        { let mut b = BytesMut::new(); for x in into_iter { b.put_u8(x); } b }
    }
}

impl<'a> FromIterator<&'a u8> for BytesMut {
    fn from_iter<T: IntoIterator<Item = &'a u8>>(into_iter: T) -> Self {
        BytesMut::from_iter(into_iter.into_iter().map(|b| *b))
    }
}

impl PartialEq<[u8]> for BytesMut {
    fn eq(&self, other: &[u8]) -> bool {
        &**self == other
    }
}

impl PartialOrd<[u8]> for BytesMut {
    fn partial_cmp(&self, other: &[u8]) -> Option<cmp::Ordering> {
        (**self).partial_cmp(other)
    }
}

impl PartialEq<BytesMut> for [u8] {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for [u8] {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self, other)
    }
}

impl PartialEq<str> for BytesMut {
    fn eq(&self, other: &str) -> bool {
        &**self == other.as_bytes()
    }
}

impl PartialOrd<str> for BytesMut {
    fn partial_cmp(&self, other: &str) -> Option<cmp::Ordering> {
        (**self).partial_cmp(other.as_bytes())
    }
}

impl PartialEq<BytesMut> for str {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for str {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self.as_bytes(), other)
    }
}

impl PartialEq<Vec<u8>> for BytesMut {
    fn eq(&self, other: &Vec<u8>) -> bool {
        *self == &other[..]
    }
}

impl PartialOrd<Vec<u8>> for BytesMut {
    fn partial_cmp(&self, other: &Vec<u8>) -> Option<cmp::Ordering> {
        (**self).partial_cmp(&other[..])
    }
}

impl PartialEq<BytesMut> for Vec<u8> {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for Vec<u8> {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        other.partial_cmp(self)
    }
}

impl PartialEq<String> for BytesMut {
    fn eq(&self, other: &String) -> bool {
        *self == &other[..]
    }
}

impl PartialOrd<String> for BytesMut {
    fn partial_cmp(&self, other: &String) -> Option<cmp::Ordering> {
        (**self).partial_cmp(other.as_bytes())
    }
}

impl PartialEq<BytesMut> for String {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for String {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self.as_bytes(), other)
    }
}

impl<'a, T: ?Sized> PartialEq<&'a T> for BytesMut
where
    BytesMut: PartialEq<T>,
{
    fn eq(&self, other: &&'a T) -> bool {
        *self == **other
    }
}

impl<'a, T: ?Sized> PartialOrd<&'a T> for BytesMut
where
    BytesMut: PartialOrd<T>,
{
    fn partial_cmp(&self, other: &&'a T) -> Option<cmp::Ordering> {
        self.partial_cmp(*other)
    }
}

impl PartialEq<BytesMut> for &[u8] {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for &[u8] {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self, other)
    }
}

impl PartialEq<BytesMut> for &str {
    fn eq(&self, other: &BytesMut) -> bool {
        *other == *self
    }
}

impl PartialOrd<BytesMut> for &str {
    fn partial_cmp(&self, other: &BytesMut) -> Option<cmp::Ordering> {
        other.partial_cmp(self)
    }
}

impl PartialEq<BytesMut> for Bytes {
    fn eq(&self, other: &BytesMut) -> bool {
        &other[..] == &self[..]
    }
}

impl PartialEq<Bytes> for BytesMut {
    fn eq(&self, other: &Bytes) -> bool {
        &other[..] == &self[..]
    }
}

