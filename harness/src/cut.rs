//! A byte string in several pieces: what `chunk` shows ends at each cut, and everything else follows from
//! the contract of `Buf`.
use crate::nd;
use bytes::{Buf, Bytes};

pub struct Cut {
    w: Bytes,
    size: usize,
    at: [usize; 2],
}

impl Cut {
    /// `w` cut at two places, anywhere.
    pub fn new(w: Bytes) -> Cut {
        let at = [nd::u32() as usize, nd::u32() as usize];
        Cut { size: w.len(), w, at }
    }
}

impl Buf for Cut {
    fn remaining(&self) -> usize {
        self.w.remaining()
    }
    fn chunk(&self) -> &[u8] {
        let pos = self.size - self.w.len();
        let mut n = self.w.len();
        let mut i = 0;
        while i < 2 {
            if self.at[i] > pos && self.at[i] - pos < n {
                n = self.at[i] - pos;
            }
            i += 1;
        }
        &self.w.chunk()[..n]
    }
    fn advance(&mut self, n: usize) {
        self.w.advance(n)
    }
    fn get_u8(&mut self) -> u8 {
        self.w.get_u8()
    }
    fn get_u16(&mut self) -> u16 {
        self.w.get_u16()
    }
    fn get_u32(&mut self) -> u32 {
        self.w.get_u32()
    }
    fn get_u64(&mut self) -> u64 {
        self.w.get_u64()
    }
    fn copy_to_bytes(&mut self, n: usize) -> Bytes {
        self.w.copy_to_bytes(n)
    }
}
