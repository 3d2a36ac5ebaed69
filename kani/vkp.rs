//! Shared vocabulary of the contracts: injected as `crate::vkp` next to the
//! code of /repo, compiled only by the verifier (cfg(kani)).
#![allow(warnings)]
use crate::*;

/// Contents of a mutable static of the contracts (see ghosts in bin/kanirun.py).
pub struct Ghost<T> { pub magic: u64, pub v: T }
/// Same value: equal, or both undefined.
pub fn same32(a: f32, b: f32) -> bool { a == b || (a != a && b != b) }
/// Same value: equal, or both undefined.
pub fn same64(a: f64, b: f64) -> bool { a == b || (a != a && b != b) }

/// Domain of a symbolic number.
/// `All`: every bit pattern. `Fin`: every finite number. `Aud`: magnitude at most 2^16.
/// `Int`: the integers -8..=7, on which sums and products of the code under
/// contract are exact in whatever order they are evaluated. `Tiny`: the same, audio samples 2^-100 of that.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Dom { All, Fin, Aud, Int, Tiny }

pub fn f32_in(d: Dom) -> f32 {
    match d {
        Dom::All => kani::any(),
        Dom::Fin => { let x: f32 = kani::any(); kani::assume(x.is_finite()); x }
        Dom::Aud => { let x: f32 = kani::any(); kani::assume(x >= -65536.0 && x <= 65536.0); x }
        Dom::Int | Dom::Tiny => { let x: i8 = kani::any(); kani::assume(x >= -8 && x < 8); x as f32 }
    }
}
pub fn f64_in(d: Dom) -> f64 {
    match d {
        Dom::All => kani::any(),
        Dom::Fin => { let x: f64 = kani::any(); kani::assume(x.is_finite()); x }
        Dom::Aud => { let x: f64 = kani::any(); kani::assume(x >= -65536.0 && x <= 65536.0); x }
        Dom::Int | Dom::Tiny => { let x: i8 = kani::any(); kani::assume(x >= -8 && x < 8); x as f64 }
    }
}

/// Any number of the closed range.
pub fn f32_range(lo: f32, hi: f32) -> f32 { let x: f32 = kani::any(); kani::assume(x >= lo && x <= hi); x }
/// Any number of the closed range.
pub fn f64_range(lo: f64, hi: f64) -> f64 { let x: f64 = kani::any(); kani::assume(x >= lo && x <= hi); x }

/// Stands in for f32::sqrt where only the square root of 0.5 is taken:
/// correctly rounded there, anything elsewhere.
pub fn sqrt_half(x: f32) -> f32 { if x == 0.5 { 0.70710678118654752440 } else { kani::any() } }

// Stands-in for powers and logarithms, read on a logarithmic scale: a power is
// represented by its decimal logarithm, a logarithm of v by v itself. What is
// assumed of std is that powf, exp, exp2, log10, ln and log2 are these functions.
pub const LN10: f64 = std::f64::consts::LN_10;
pub const LOG2_10: f64 = std::f64::consts::LOG2_10;
pub fn powf_log(b: f64, e: f64) -> f64 {
    if b == 10.0 { e } else if b == 2.0 { e / LOG2_10 } else if b == std::f64::consts::E { e / LN10 } else { kani::any() }
}
pub fn powi_log(b: f64, e: i32) -> f64 { powf_log(b, e as f64) }
pub fn exp_log(e: f64) -> f64 { e / LN10 }
pub fn exp2_log(e: f64) -> f64 { e / LOG2_10 }
pub fn log10_log(v: f64) -> f64 { v }
pub fn ln_log(v: f64) -> f64 { v * LN10 }
pub fn log2_log(v: f64) -> f64 { v * LOG2_10 }
pub fn log_log(v: f64, b: f64) -> f64 { if b == 10.0 { v } else { kani::any() } }
pub fn within(a: f64, b: f64, e: f64) -> bool { a - b <= e && b - a <= e }
/// -2, -2+1/64, .. : sums and small products of these are exact.
pub fn grid() -> f64 { let k: i8 = kani::any(); k as f64 / 64.0 }
/// Phases and rates: any number, or the multiples of 1/64 in [-2,2).
pub fn unit(d: Dom) -> f64 { if d == Dom::Int { grid() } else { kani::any() } }
pub fn freq_ok(f: f64) -> bool { f >= 0.0 && f <= 24000.0 && f.is_sign_positive() }
/// Frequencies from 0 to half the sampling rate.
pub fn freq(d: Dom) -> f64 {
    if d == Dom::Int { let k: u8 = kani::any(); kani::assume(k <= 64); 375.0 * k as f64 }
    else { let f: f64 = kani::any(); kani::assume(freq_ok(f)); f }
}
/// Same as f32::abs and f64::abs (proved for every number by abs_is_abs), in a form the SMT back end keeps symbolic.
pub fn abs32(x: f32) -> f32 { if x <= 0.0 { 0.0 - x } else { x } }
pub fn abs64(x: f64) -> f64 { if x <= 0.0 { 0.0 - x } else { x } }

/// An audio sample.
pub fn samp(d: Dom) -> f32 {
    if d == Dom::Tiny { f32_in(Dom::Int) * 7.888609052210118e-31 } else { f32_in(d) }
}
/// std's double-ended queue, by its contract: a queue is a stretch (from HEAD, of
/// LEN) of an endless stream, of which one position, POS, is watched: it holds VAL.
/// Assumed: push_back appends, pop_front takes the first element if there is one,
/// len counts.
pub mod queue {
    use super::*;
    use std::collections::VecDeque;
    pub static mut HEAD: usize = 0;
    pub static mut LEN: usize = 0;
    pub static mut POS: usize = 0;
    pub static mut VAL: f32 = 0.0;
    /// What is said of a queue: where it begins, how long it is, what the watched position holds.
    #[derive(Clone, Copy)]
    pub struct St { pub head: usize, pub len: usize, pub pos: usize, pub val: f32 }
    pub fn now() -> St { unsafe { St { head: HEAD, len: LEN, pos: POS, val: VAL } } }
    /// Any queue (of less than 2^40 elements), any position watched.
    pub fn any() -> St {
        unsafe {
            HEAD = kani::any();
            LEN = kani::any();
            POS = kani::any();
            VAL = kani::any();
            kani::assume(HEAD < 1 << 40 && LEN < 1 << 40);
        }
        now()
    }
    /// An empty queue, any position watched.
    pub fn empty() -> St { let s = any(); unsafe { HEAD = 0; LEN = 0; } now() }
    /// `b` is `a` advanced by one element: as long, `v` appended, nothing else different.
    pub fn advanced(a: St, b: St, v: f32) -> bool {
        b.head == a.head + 1 && b.len == a.len && b.pos == a.pos && if a.pos == a.head + a.len { same32(b.val, v) } else { same32(b.val, a.val) }
    }
    /// `y` is what the watched position of `a` held, if that was the first.
    pub fn first(a: St, y: f32) -> bool { a.pos != a.head || same32(y, a.val) }
    /// `n` zeros.
    pub fn zeros(s: St, n: usize) -> bool { s.head == 0 && s.len == n && (s.pos >= n || s.val == 0.0) }
    pub fn push_back<T, A: std::alloc::Allocator>(q: &mut VecDeque<T, A>, v: T) {
        unsafe { if HEAD + LEN == POS { VAL = *(&v as *const T as *const f32); } LEN += 1; }
    }
    pub fn pop_front<T, A: std::alloc::Allocator>(q: &mut VecDeque<T, A>) -> Option<T> {
        unsafe {
            if LEN == 0 { return None; }
            let v: f32 = if HEAD == POS { VAL } else { kani::any() };
            HEAD += 1;
            LEN -= 1;
            Some(std::ptr::read(&v as *const f32 as *const T))
        }
    }
    /// pop_front on a queue that is not empty, whose first position is the watched one.
    pub fn pop_watched<T, A: std::alloc::Allocator>(q: &mut VecDeque<T, A>) -> Option<T> {
        unsafe {
            assert!(LEN > 0 && HEAD == POS, "first element of an empty queue");
            HEAD += 1;
            LEN -= 1;
            Some(std::ptr::read(&raw const VAL as *const T))
        }
    }
    pub static mut OTHER: usize = 0;
    /// Length of a queue that is only read.
    pub fn len<T, A: std::alloc::Allocator>(q: &VecDeque<T, A>) -> usize { unsafe { OTHER } }
    /// The rule for loops, with the invariant `zeros(queue, iterations so far)`: it is
    /// proved to hold at first and to be kept by any one iteration; behind the loop it is assumed.
    pub struct Fill { i: usize, n: usize, calls: u8 }
    pub fn fill(n: usize) -> Fill { Fill { i: 0, n, calls: 0 } }
    impl Iterator for Fill {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            self.calls += 1;
            if self.calls == 2 {
                assert!(zeros(now(), self.i + 1), "loop invariant: one zero more with each iteration");
                kani::assume(false);
            }
            assert!(zeros(now(), 0), "loop invariant: empty at first");
            let done: bool = kani::any();
            self.i = if done { self.n } else { kani::any() };
            kani::assume(done || self.i < self.n);
            unsafe { LEN = self.i; VAL = kani::any(); }
            kani::assume(zeros(now(), self.i));
            if done { None } else { Some(self.i) }
        }
    }
}
