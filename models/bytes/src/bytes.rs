use core::iter::FromIterator;
use core::ops::{Deref, RangeBounds};
use core::{cmp, hash};

use alloc::{borrow::Borrow, string::String, vec::Vec};

use crate::buf::IntoIter;
use crate::model::{self, View};
use crate::Buf;

/// Model of an immutable byte string: a view of leaked storage.
pub struct Bytes {
    pub(crate) view: View,
}

impl Bytes {
    pub const fn new() -> Bytes {
        Bytes { view: View::EMPTY }
    }
    pub const fn from_static(bytes: &'static [u8]) -> Bytes {
        Bytes { view: View::contiguous(bytes.as_ptr(), bytes.len()) }
    }
    #[inline]
    pub const fn len(&self) -> usize {
        self.view.len()
    }
    #[inline]
    pub const fn is_empty(&self) -> bool {
        self.view.len() == 0
    }
    pub fn copy_from_slice(data: &[u8]) -> Self {
        let mut b = crate::BytesMut::new();
        b.extend_from_slice(data);
        b.freeze()
    }
    pub fn slice(&self, range: impl RangeBounds<usize>) -> Bytes {
        use core::ops::Bound;
        let len = self.len();
        let begin = match range.start_bound() {
            Bound::Included(&n) => n,
            Bound::Excluded(&n) => n + 1,
            Bound::Unbounded => 0,
        };
        let end = match range.end_bound() {
            Bound::Included(&n) => n.checked_add(1).expect("out of range"),
            Bound::Excluded(&n) => n,
            Bound::Unbounded => len,
        };
        assert!(begin <= end, "range start must not be greater than end");
        assert!(end <= len, "range end out of bounds");
        Bytes { view: self.view.part(begin, end) }
    }
    pub fn slice_ref(&self, subset: &[u8]) -> Bytes {
        if subset.is_empty() {
            return Bytes::new();
        }
        let s = self.as_slice();
        let off = (subset.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
        assert!(off <= s.len() && subset.len() <= s.len() - off, "subset is out of bounds");
        self.slice(off..off + subset.len())
    }
    #[must_use = "consider Bytes::truncate if you don't need the other half"]
    pub fn split_off(&mut self, at: usize) -> Bytes {
        assert!(at <= self.len(), "split_off out of bounds");
        let mut v = self.view;
        v.advance(at);
        self.view.set_len(at);
        Bytes { view: v }
    }
    #[must_use = "consider Bytes::advance if you don't need the other half"]
    pub fn split_to(&mut self, at: usize) -> Bytes {
        assert!(at <= self.len(), "split_to out of bounds");
        Bytes { view: self.view.take(at) }
    }
    #[inline]
    pub fn truncate(&mut self, len: usize) {
        if len < self.view.len() {
            self.view.set_len(len);
        }
    }
    #[inline]
    pub fn clear(&mut self) {
        self.truncate(0);
    }
    #[inline]
    pub(crate) fn as_slice(&self) -> &[u8] {
        self.view.as_slice()
    }
}

unsafe impl Send for Bytes {}
unsafe impl Sync for Bytes {}

impl Clone for Bytes {
    #[inline]
    fn clone(&self) -> Bytes {
        Bytes { view: self.view }
    }
}

impl Buf for Bytes {
    #[inline]
    fn remaining(&self) -> usize {
        self.view.len()
    }
    #[inline]
    fn chunk(&self) -> &[u8] {
        self.view.chunk()
    }
    #[inline]
    fn advance(&mut self, cnt: usize) {
        assert!(cnt <= self.view.len(), "cannot advance past `remaining`");
        self.view.advance(cnt);
    }
    fn copy_to_bytes(&mut self, len: usize) -> crate::Bytes {
        assert!(len <= self.view.len(), "range end out of bounds");
        Bytes { view: self.view.take(len) }
    }
    // The scalar getters below return the same values as the trait's defaults; they are
    // written out so that a read from the arena can be reported (see `model::emit`).
    fn get_u8(&mut self) -> u8 {
        assert!(self.view.len() >= 1);
        self.view.read::<1>()[0]
    }
    fn get_u16(&mut self) -> u16 {
        assert!(self.view.len() >= 2);
        u16::from_be_bytes(self.view.read::<2>())
    }
    fn get_u32(&mut self) -> u32 {
        assert!(self.view.len() >= 4);
        u32::from_be_bytes(self.view.read::<4>())
    }
    fn get_u64(&mut self) -> u64 {
        assert!(self.view.len() >= 8);
        u64::from_be_bytes(self.view.read::<8>())
    }
}

impl Deref for Bytes {
    type Target = [u8];
    #[inline]
    fn deref(&self) -> &[u8] {
        self.as_slice()
    }
}

impl AsRef<[u8]> for Bytes {
    #[inline]
    fn as_ref(&self) -> &[u8] {
        self.as_slice()
    }
}

impl hash::Hash for Bytes {
    fn hash<H>(&self, state: &mut H)
    where
        H: hash::Hasher,
    {
        self.as_slice().hash(state);
    }
}

impl Borrow<[u8]> for Bytes {
    fn borrow(&self) -> &[u8] {
        self.as_slice()
    }
}

impl IntoIterator for Bytes {
    type Item = u8;
    type IntoIter = IntoIter<Bytes>;

    fn into_iter(self) -> Self::IntoIter {
        IntoIter::new(self)
    }
}

impl<'a> IntoIterator for &'a Bytes {
    type Item = &'a u8;
    type IntoIter = core::slice::Iter<'a, u8>;

    fn into_iter(self) -> Self::IntoIter {
        self.as_slice().into_iter()
    }
}

impl FromIterator<u8> for Bytes {
    fn from_iter<T: IntoIterator<Item = u8>>(into_iter: T) -> Self {
        Vec::from_iter(into_iter).into()
    }
}

// impl Eq

impl PartialEq for Bytes {
    fn eq(&self, other: &Bytes) -> bool {
        model::views_eq(&self.view, &other.view)
    }
}

impl PartialOrd for Bytes {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(other.as_slice())
    }
}

impl Ord for Bytes {
    fn cmp(&self, other: &Bytes) -> cmp::Ordering {
        self.as_slice().cmp(other.as_slice())
    }
}

impl Eq for Bytes {}

impl PartialEq<[u8]> for Bytes {
    fn eq(&self, other: &[u8]) -> bool {
        self.as_slice() == other
    }
}

impl PartialOrd<[u8]> for Bytes {
    fn partial_cmp(&self, other: &[u8]) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(other)
    }
}

impl PartialEq<Bytes> for [u8] {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for [u8] {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self, other)
    }
}

impl PartialEq<str> for Bytes {
    fn eq(&self, other: &str) -> bool {
        self.as_slice() == other.as_bytes()
    }
}

impl PartialOrd<str> for Bytes {
    fn partial_cmp(&self, other: &str) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(other.as_bytes())
    }
}

impl PartialEq<Bytes> for str {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for str {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self.as_bytes(), other)
    }
}

impl PartialEq<Vec<u8>> for Bytes {
    fn eq(&self, other: &Vec<u8>) -> bool {
        *self == &other[..]
    }
}

impl PartialOrd<Vec<u8>> for Bytes {
    fn partial_cmp(&self, other: &Vec<u8>) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(&other[..])
    }
}

impl PartialEq<Bytes> for Vec<u8> {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for Vec<u8> {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self, other)
    }
}

impl PartialEq<String> for Bytes {
    fn eq(&self, other: &String) -> bool {
        *self == &other[..]
    }
}

impl PartialOrd<String> for Bytes {
    fn partial_cmp(&self, other: &String) -> Option<cmp::Ordering> {
        self.as_slice().partial_cmp(other.as_bytes())
    }
}

impl PartialEq<Bytes> for String {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for String {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self.as_bytes(), other)
    }
}

impl PartialEq<Bytes> for &[u8] {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for &[u8] {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self, other)
    }
}

impl PartialEq<Bytes> for &str {
    fn eq(&self, other: &Bytes) -> bool {
        *other == *self
    }
}

impl PartialOrd<Bytes> for &str {
    fn partial_cmp(&self, other: &Bytes) -> Option<cmp::Ordering> {
        <[u8] as PartialOrd<[u8]>>::partial_cmp(self.as_bytes(), other)
    }
}

impl<'a, T: ?Sized> PartialEq<&'a T> for Bytes
where
    Bytes: PartialEq<T>,
{
    fn eq(&self, other: &&'a T) -> bool {
        *self == **other
    }
}

impl<'a, T: ?Sized> PartialOrd<&'a T> for Bytes
where
    Bytes: PartialOrd<T>,
{
    fn partial_cmp(&self, other: &&'a T) -> Option<cmp::Ordering> {
        self.partial_cmp(&**other)
    }
}

// impl From

impl Default for Bytes {
    #[inline]
    fn default() -> Bytes {
        Bytes::new()
    }
}

impl From<&'static [u8]> for Bytes {
    fn from(slice: &'static [u8]) -> Bytes {
        Bytes::from_static(slice)
    }
}

impl From<&'static str> for Bytes {
    fn from(slice: &'static str) -> Bytes {
        Bytes::from_static(slice.as_bytes())
    }
}

impl From<Vec<u8>> for Bytes {
    fn from(vec: Vec<u8>) -> Bytes {
        let v = core::mem::ManuallyDrop::new(vec);
        Bytes { view: View::contiguous(v.as_ptr(), v.len()) }
    }
}

impl From<alloc::boxed::Box<[u8]>> for Bytes {
    fn from(b: alloc::boxed::Box<[u8]>) -> Bytes {
        Bytes::from(Vec::from(b))
    }
}

impl From<String> for Bytes {
    fn from(s: String) -> Bytes {
        Bytes::from(s.into_bytes())
    }
}
