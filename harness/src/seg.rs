//! What a frame must look like on the wire, as a list of segments.
use crate::{mk, nd};
use bytes::Bytes;

const CAP: usize = 16;

#[derive(Clone)]
pub struct Segs {
    lit: [[u8; 8]; CAP],
    part: [Bytes; CAP],
    is_part: [bool; CAP],
    start: [usize; CAP],
    n: usize,
    total: usize,
}

const NONE: Bytes = Bytes::new();

impl Segs {
    pub fn new() -> Segs {
        Segs { lit: [[0; 8]; CAP], part: [NONE; CAP], is_part: [false; CAP], start: [0; CAP], n: 0, total: 0 }
    }
    fn lit(&mut self, v: u64, n: usize) {
        let b = v.to_be_bytes();
        let mut i = 0;
        while i < n {
            self.lit[self.n][i] = b[8 - n + i];
            i += 1;
        }
        self.start[self.n] = self.total;
        self.n += 1;
        self.total += n;
    }
    pub fn u8(&mut self, v: u8) {
        self.lit(v as u64, 1)
    }
    pub fn u16(&mut self, v: u16) {
        self.lit(v as u64, 2)
    }
    pub fn u24(&mut self, v: usize) {
        self.lit(v as u64, 3)
    }
    pub fn u32(&mut self, v: u32) {
        self.lit(v as u64, 4)
    }
    pub fn u64(&mut self, v: u64) {
        self.lit(v, 8)
    }
    pub fn part(&mut self, b: &Bytes) {
        self.part[self.n] = b.clone();
        self.is_part[self.n] = true;
        self.start[self.n] = self.total;
        self.n += 1;
        self.total += b.len();
    }
    pub fn total(&self) -> usize {
        self.total
    }
    pub fn at(&self, i: usize) -> u8 {
        let mut r = 0;
        let mut k = 0;
        while k < self.n {
            let e = if k + 1 < self.n { self.start[k + 1] } else { self.total };
            if self.start[k] <= i && i < e {
                r = if self.is_part[k] { mk::at(&self.part[k], i - self.start[k]) } else { self.lit[k][i - self.start[k]] };
            }
            k += 1;
        }
        r
    }
    /// Checks that `b` is exactly these bytes.
    pub fn check(&self, b: &Bytes) {
        check!(b.len() == self.total, "encoded length differs from the specified layout");
        #[cfg(kani)]
        {
            if self.total > 0 {
                let i = bytes::model::ghost();
                nd::assume(i < self.total);
                check!(mk::at(b, i) == self.at(i), "encoded byte differs from the specified layout");
            }
        }
        #[cfg(not(kani))]
        {
            for i in 0..self.total {
                check!(mk::at(b, i) == self.at(i), "encoded byte {} differs from the specified layout", i);
            }
        }
    }
}
