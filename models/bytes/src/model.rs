//! Storage model: everything is leaked, nothing is reference counted.
//!
//! * a *contiguous* view is a pointer and a length;
//! * a *rope* view walks the slots of a `Rope`; a slot is either a run of literal bytes (copied
//!   into the rope's `Lit`) or a reference into the *arena*, one object of symbolic size whose
//!   contents are arbitrary.  Recording arena slices by reference is what lets symbolic execution
//!   encode byte strings of any length without a loop.

/// Slots per rope.
#[cfg(kani)]
pub const CAP: usize = 14;
#[cfg(not(kani))]
pub const CAP: usize = 4096;
/// Literal bytes per rope.
#[cfg(kani)]
pub const LITCAP: usize = 64;
#[cfg(not(kani))]
pub const LITCAP: usize = 1 << 16;
/// Bytes one `put_slice` can copy (slices outside the arena).
#[cfg(kani)]
pub const SMALLCAP: usize = 32;
#[cfg(not(kani))]
pub const SMALLCAP: usize = 1 << 16;

#[derive(Debug)]
pub struct Rope {
    /// Slot `k` holds the bytes `start[k] .. start[k + 1]` of the rope (`total` ends the last one).
    ptr: [*const u8; CAP],
    start: [usize; CAP],
    n: usize,
    total: usize,
    tail_lit: bool,
}

#[derive(Debug)]
pub struct Lit {
    buf: [u8; LITCAP],
    len: usize,
}

const NEW_ROPE: Rope =
    Rope { ptr: [core::ptr::null(); CAP], start: [0; CAP], n: 0, total: 0, tail_lit: false };
const NEW_LIT: Lit = Lit { buf: [0; LITCAP], len: 0 };

#[cold]
pub fn limit() -> ! {
    panic!("MODEL-LIMIT: operation outside the byte-buffer model")
}

// Ropes are named by a number (0: none) rather than by a pointer: a number the model checker cannot
// fold to a constant is a choice among the ropes in use, a pointer would be one among offsets too.
// Each rope is an object of its own, typed, not a heap block of raw bytes.
#[cfg(kani)]
mod pool {
    use super::*;
    static mut ROPES: usize = 0;
    static mut SMALLS: usize = 0;
    macro_rules! pool {
        ($($rope:ident, $lit:ident = $k:expr;)*) => {
            $(static mut $rope: Rope = NEW_ROPE; static mut $lit: Lit = NEW_LIT;)*
            pub const POOL: usize = [$($k),*].len();
            pub fn rope(id: usize) -> &'static mut Rope {
                unsafe { match id { $($k => &mut *(&raw mut $rope),)* _ => limit(), } }
            }
            pub fn lit(id: usize) -> &'static mut Lit {
                unsafe { match id { $($k => &mut *(&raw mut $lit),)* _ => limit(), } }
            }
        };
    }
    pool!(A, AL = 1; B, BL = 2; C, CL = 3; D, DL = 4; E, EL = 5; F, FL = 6; G, GL = 7; H, HL = 8; I, IL = 9; J, JL = 10;);
    pub fn new_rope() -> usize {
        unsafe {
            if ROPES == POOL {
                limit();
            }
            ROPES += 1;
            ROPES
        }
    }
    pub fn find(id: usize, pos: usize) -> (*const u8, usize) {
        let mut r = (core::ptr::NonNull::<u8>::dangling().as_ptr() as *const u8, 0);
        let mut k = 1;
        while k <= unsafe { ROPES } {
            if k == id {
                r = rope(k).find(pos);
            }
            k += 1;
        }
        r
    }
    macro_rules! smalls {
        ($($n:ident = $k:expr),*) => {
            $(static mut $n: [u8; SMALLCAP] = [0; SMALLCAP];)*
            pub fn new_small() -> *mut [u8; SMALLCAP] {
                unsafe {
                    SMALLS += 1;
                    match SMALLS {
                        $($k => &raw mut $n,)*
                        _ => limit(),
                    }
                }
            }
        };
    }
    smalls!(SA = 1, SB = 2, SC = 3, SD = 4, SE = 5, SF = 6, SG = 7, SH = 8, SI = 9, SJ = 10, SK = 11,
        SL = 12, SM = 13, SN = 14, SO = 15, SP = 16);
}
#[cfg(not(kani))]
mod pool {
    use super::*;
    use alloc::boxed::Box;
    pub fn new_rope() -> usize {
        Box::leak(Box::new((NEW_ROPE, NEW_LIT))) as *mut _ as usize
    }
    pub fn rope(id: usize) -> &'static mut Rope {
        unsafe { &mut (*(id as *mut (Rope, Lit))).0 }
    }
    pub fn lit(id: usize) -> &'static mut Lit {
        unsafe { &mut (*(id as *mut (Rope, Lit))).1 }
    }
    pub fn find(id: usize, pos: usize) -> (*const u8, usize) {
        rope(id).find(pos)
    }
    pub fn new_small() -> *mut [u8; SMALLCAP] {
        Box::leak(Box::new([0; SMALLCAP]))
    }
}
pub(crate) use pool::{lit, new_rope, new_small, rope};

impl Lit {
    pub(crate) fn spare(&mut self) -> &mut [u8] {
        let l = self.len;
        &mut self.buf[l..]
    }
}

impl Rope {
    pub(crate) fn total(&self) -> usize {
        self.total
    }
    fn slot(&mut self, ptr: *const u8, len: usize) {
        if self.n >= CAP {
            limit();
        }
        self.ptr[self.n] = ptr;
        self.start[self.n] = self.total;
        self.n += 1;
        self.total += len;
    }
    pub(crate) fn push_ref(&mut self, ptr: *const u8, len: usize) {
        self.slot(ptr, len);
        self.tail_lit = false;
    }
    /// Appends a slice as one slot: by reference when it lies in an arena, else copied.
    pub(crate) fn push_slice(&mut self, src: &[u8]) {
        let p = src.as_ptr();
        if is_arena_base(p) {
            self.push_ref(p, src.len());
            return;
        }
        let small = new_small();
        if in_arena(p) {
            self.push_ref(p, src.len());
        } else {
            if src.len() > SMALLCAP {
                limit();
            }
            let buf = unsafe { &mut *small };
            let mut i = 0;
            while i < src.len() {
                buf[i] = src[i];
                i += 1;
            }
            self.push_ref(buf.as_ptr(), src.len());
        }
    }
    pub(crate) fn push_lit(&mut self, lit: &mut Lit, b: u8) {
        self.push_lits(lit, [b]);
    }
    pub(crate) fn push_lits<const N: usize>(&mut self, lit: &mut Lit, bs: [u8; N]) {
        if LITCAP - lit.len < N {
            limit();
        }
        let at = lit.len;
        let mut i = 0;
        while i < N {
            lit.buf[at + i] = bs[i];
            i += 1;
        }
        self.extend_lit(lit, N);
    }
    pub(crate) fn extend_lit(&mut self, lit: &mut Lit, cnt: usize) {
        let at = lit.len;
        if LITCAP - at < cnt {
            limit();
        }
        lit.len = at + cnt;
        if self.tail_lit {
            self.total += cnt;
        } else {
            let p = unsafe { lit.buf.as_ptr().wrapping_add(at) };
            self.slot(p, cnt);
            self.tail_lit = true;
        }
    }
    /// Appends the bytes of a view by reference (views are immutable and leaked).
    pub(crate) fn push_view(&mut self, v: &View) {
        if !v.is_rope() {
            self.push_ref(v.p(), v.len());
            return;
        }
        let r = rope(v.id);
        let mut k = 0;
        while k < r.n {
            let (s, e) = (r.start[k], r.end(k));
            let lo = if v.pos > s { v.pos } else { s };
            let hi = if v.end < e { v.end } else { e };
            if lo < hi {
                self.push_ref(unsafe { r.ptr[k].wrapping_add(lo - s) }, hi - lo);
            }
            k += 1;
        }
    }
    fn end(&self, k: usize) -> usize {
        if k + 1 < self.n {
            self.start[k + 1]
        } else {
            self.total
        }
    }
    /// Where byte `pos` is stored, and how many bytes follow in the same slot (0: past the end).
    /// Every slot is visited, so that the loop bound is the (concrete) slot count.
    fn find(&self, pos: usize) -> (*const u8, usize) {
        let mut p: *const u8 = core::ptr::null();
        let mut avail = 0;
        let mut k = 0;
        while k < self.n {
            let (s, e) = (self.start[k], self.end(k));
            if s <= pos && pos < e {
                p = unsafe { self.ptr[k].wrapping_add(pos - s) };
                avail = e - pos;
            }
            k += 1;
        }
        (p, avail)
    }
}

/// A read-only view of leaked storage: the bytes `pos .. end` behind `ptr` (`id` 0) or of rope `id`.
/// (Positions are kept, not a length: a cursor that only ever grows by what is consumed is easier
/// to reason about for a bit-level solver than one that is also subtracted from a length.)
#[derive(Clone, Copy, Debug)]
pub struct View {
    ptr: core::ptr::NonNull<u8>,
    pub(crate) id: usize,
    pos: usize,
    end: usize,
}

impl View {
    pub(crate) const EMPTY: View =
        View { ptr: core::ptr::NonNull::<u8>::dangling(), id: 0, pos: 0, end: 0 };
    pub(crate) const fn contiguous(ptr: *const u8, len: usize) -> View {
        View { ptr: unsafe { core::ptr::NonNull::new_unchecked(ptr as *mut u8) }, id: 0, pos: 0, end: len }
    }
    pub(crate) fn rope(id: usize) -> View {
        View { ptr: core::ptr::NonNull::<u8>::dangling(), id, pos: 0, end: 0 }
    }
    #[inline]
    pub(crate) const fn len(&self) -> usize {
        self.end - self.pos
    }
    /// Sets the length.
    #[inline]
    pub(crate) fn set_len(&mut self, n: usize) {
        self.end = self.pos + n;
    }
    /// Adds to the length.
    #[inline]
    pub(crate) fn grow(&mut self, n: usize) {
        self.end += n;
    }
    /// The part `from .. to`.
    pub(crate) fn part(&self, from: usize, to: usize) -> View {
        View { ptr: self.ptr, id: self.id, pos: self.pos + from, end: self.pos + to }
    }
    /// The address of the first byte (contiguous views only).
    fn p(&self) -> *const u8 {
        (self.ptr.as_ptr() as *const u8).wrapping_add(self.pos)
    }
    fn is_rope(&self) -> bool {
        self.id != 0
    }
    pub(crate) fn chunk(&self) -> &'static [u8] {
        if !self.is_rope() {
            return unsafe { core::slice::from_raw_parts(self.p(), self.len()) };
        }
        if self.pos == self.end {
            return &[];
        }
        let (p, avail) = pool::find(self.id, self.pos);
        let len = self.len();
        let l = if avail < len { avail } else { len };
        unsafe { core::slice::from_raw_parts(p, l) }
    }
    /// Moves the cursor; `cnt <= len` is the caller's duty.
    pub(crate) fn advance(&mut self, cnt: usize) {
        self.pos += cnt;
    }
    /// Splits off the first `n` bytes (`n <= len`).
    pub(crate) fn take(&mut self, n: usize) -> View {
        let mut v = *self;
        self.pos += n;
        v.end = self.pos;
        v
    }
    fn addr(&self, i: usize) -> *const u8 {
        if !self.is_rope() {
            return unsafe { self.p().wrapping_add(i) };
        }
        pool::find(self.id, self.pos + i).0
    }
    pub(crate) fn at(&self, i: usize) -> u8 {
        unsafe { *self.addr(i) }
    }
    pub(crate) fn read<const N: usize>(&mut self) -> [u8; N] {
        let mut out = [0u8; N];
        let (p, avail) = if self.is_rope() {
            pool::find(self.id, self.pos)
        } else {
            (self.p(), self.len())
        };
        let mut i = 0;
        while i < N {
            let q = if i < avail { unsafe { p.wrapping_add(i) } } else { self.addr(i) };
            out[i] = unsafe { *q };
            emit(q, out[i]);
            i += 1;
        }
        self.advance(N);
        out
    }
    pub(crate) fn as_slice(&self) -> &'static [u8] {
        if !self.is_rope() {
            return self.chunk();
        }
        let c = self.chunk();
        if c.len() == self.len() {
            return c;
        }
        // Bytes of several slots.  With an arena in play their number is unbounded: give up.
        if unsafe { ARENAS > 0 } {
            limit();
        }
        let lit = lit(new_rope());
        let mut i = 0;
        while i < self.len() {
            if i >= LITCAP {
                limit();
            }
            lit.buf[i] = self.at(i);
            i += 1;
        }
        &lit.buf[..self.len()]
    }
}

/// An arbitrary index.  It is not an input of the code under test: the tag in the upper bits lets
/// a replay skip it among the recorded values.
#[cfg(kani)]
pub fn ghost() -> usize {
    let w: u128 = kani::any();
    kani::assume(w >> 64 == 0xB17F_0000_0000_0000);
    w as u64 as usize
}

/// Equality of two byte strings.
pub(crate) fn views_eq(a: &View, b: &View) -> bool {
    if a.len() != b.len() {
        return false;
    }
    #[cfg(kani)]
    if unsafe { GHOST_EQ } {
        if a.len() == 0 {
            return true;
        }
        let i = ghost();
        kani::assume(i < a.len());
        return a.at(i) == b.at(i);
    }
    let mut i = 0;
    while i < a.len() {
        if a.at(i) != b.at(i) {
            return false;
        }
        i += 1;
    }
    true
}

// ---- the arenas -----------------------------------------------------------------------------
// Objects of symbolic size and arbitrary contents, one per input byte string.

const NARENA: usize = 8;
static mut ARENA: [*const u8; NARENA] = [core::ptr::null(); NARENA];
static mut ARENA_LEN: [usize; NARENA] = [0; NARENA];
static mut ARENAS: usize = 0;
static mut GHOST_EQ: bool = false;

/// Declares `[base, base+len)` as an arena.
pub unsafe fn add_arena(base: *const u8, len: usize) {
    ARENA[ARENAS] = base;
    ARENA_LEN[ARENAS] = len;
    ARENAS += 1;
}

fn is_arena_base(p: *const u8) -> bool {
    let mut k = 0;
    while k < unsafe { ARENAS } {
        if p == unsafe { ARENA[k] } {
            return true;
        }
        k += 1;
    }
    false
}

fn find_arena(p: *const u8) -> usize {
    let mut r = NARENA;
    let mut k = 0;
    while k < unsafe { ARENAS } {
        #[cfg(kani)]
        let hit = unsafe { kani::mem::same_allocation(p, ARENA[k]) };
        #[cfg(not(kani))]
        let hit = unsafe { (p as usize).wrapping_sub(ARENA[k] as usize) < ARENA_LEN[k] };
        if hit {
            r = k;
        }
        k += 1;
    }
    r
}

pub(crate) fn in_arena(p: *const u8) -> bool {
    find_arena(p) < NARENA
}

/// While on, `Bytes == Bytes` compares the lengths and the bytes at ONE arbitrary index: asserting
/// it is asserting equality at every index.  Harnesses switch it on only around such assertions.
pub fn set_ghost_eq(on: bool) {
    unsafe { GHOST_EQ = on }
}

/// The byte of `b` at `i`, wherever it is stored.
pub fn byte_at(b: &crate::Bytes, i: usize) -> u8 {
    let x = b.view.at(i);
    x
}

/// Reports a byte read from an arena: the counterexample then carries (arena, offset, value).
#[allow(unused)]
pub fn emit(p: *const u8, v: u8) {
    #[cfg(all(kani, feature = "emit"))]
    unsafe {
        let k = find_arena(p);
        if k < NARENA {
            let off = (p as usize).wrapping_sub(ARENA[k] as usize);
            let w: u128 = kani::any();
            kani::assume(w == (0xB17E_u128 << 112) | ((k as u128) << 96) | ((off as u128) << 16) | v as u128);
        }
    }
}
