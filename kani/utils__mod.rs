//@ subst cut `for s in t \{(\s*if )` `for s in vk::watched(t) {\1`
//@ subst* cut `for i in 0\.\.len \{` `for i in vk::Frames::of(len) {`
//@ subst* cut `for i in 0\.\.d\.len\(\) \{` `for i in vk::Dealt::of(d.len()) {`
//@ subst norm `let y = t\.clone\(\);` `let y = vk::copy(t);`
//@ subst norm `for s in &y \{(\s*dc \+=)` `for s in vk::Sum::of(&y, &raw mut dc) {\1`
//@ subst norm `for s in y \{(\s*if )` `for s in vk::Peak::of(y, &raw mut max) {\1`
//@ subst norm `for s in t \{(\s*\*s = )` `for s in vk::kept(t) {\1`
use crate::vkp::*;

// write_wav on tracks of any length: the data handed to the wav crate is a ghost
// sequence of DONE values, of which the one of channel CH at position AT is watched.
static mut CHANNELS: usize = 0;
static mut AT: usize = 0;
static mut CH: usize = 0;
static mut DONE: usize = 0;
static mut VAL: i64 = 0;
static mut WANT: i64 = 0;
fn place() -> usize { unsafe { AT * CHANNELS + CH } }
/// Invariant of the loops over the frames: all channels of the frames so far are there, the watched one is right.
fn frames(n: usize) -> bool { unsafe { DONE == n * CHANNELS && (place() >= DONE || VAL == WANT) } }
pub fn push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
    unsafe {
        if DONE == place() {
            VAL = match std::mem::size_of::<T>() { 1 => *(&x as *const T as *const u8) as i64, 2 => *(&x as *const T as *const i16) as i64, _ => *(&x as *const T as *const i32) as i64 };
        }
        DONE += 1;
    }
    std::mem::forget(x);
}
/// The rule for loops with the invariant `frames(iterations so far)`.
pub struct Frames { i: usize, n: usize, calls: u8 }
impl Frames { pub fn of(n: usize) -> Frames { Frames { i: 0, n, calls: 0 } } }
impl Iterator for Frames {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        self.calls += 1;
        if self.calls == 2 {
            assert!(frames(self.i + 1), "write: one sample of each channel in order with each frame");
            kani::assume(false);
        }
        assert!(frames(0), "write: starts with nothing");
        let done: bool = kani::any();
        self.i = if done { self.n } else { kani::any() };
        kani::assume(done || self.i < self.n);
        unsafe { DONE = self.i * CHANNELS; VAL = kani::any(); }
        kani::assume(frames(self.i));
        if done { None } else { Some(self.i) }
    }
}
/// The rule for loops over a track whose iterations touch only their own sample: the watched one's.
pub fn watched(t: &mut SampleTrackT) -> std::slice::IterMut<'_, SampleT> { let i = unsafe { AT }; if i < t.len() { t[i..i + 1].iter_mut() } else { [].iter_mut() } }
pub fn enc8(x: f32) -> u8 { (x.to_bits() >> 24) as u8 ^ (x.to_bits() >> 11) as u8 }
pub fn enc16(x: f32) -> i16 { (x.to_bits() >> 16) as i16 ^ (x.to_bits() as i16) }
pub fn enc24(x: f32) -> i32 { x.to_bits() as i32 }
static mut CALLS: u8 = 0;
static mut BPS: u16 = 0;
/// The wav crate's writer: what it is given.
pub fn note(h: wav::Header, d: wav::BitDepth, _: &mut dyn std::io::Write) -> std::io::Result<()> {
    unsafe {
        CALLS += 1;
        assert!(h == wav::Header::new(1, CHANNELS as u16, 48000, BPS), "write: wrong header");
        assert!(match d { wav::BitDepth::Eight(_) => BPS == 8, wav::BitDepth::Sixteen(_) => BPS == 16, wav::BitDepth::TwentyFour(_) => BPS == 24, _ => false }, "write: another width");
    }
    std::mem::forget(d);
    Ok(())
}
fn track(n: usize) -> SampleTrackT { let mut v = SampleTrackT::with_capacity(n); unsafe { v.set_len(n); } v }
fn writes(two: bool, bps: u16) {
    let (n, m): (usize, usize) = kani::any();
    kani::assume(n <= 1 << 24 && m <= 1 << 24);
    let clip: bool = kani::any();
    let t = if two { vec![track(n), track(m)] } else { vec![track(n)] };
    unsafe {
        CHANNELS = if two { 2 } else { 1 };
        AT = kani::any();
        CH = kani::any();
        kani::assume(CH < CHANNELS && AT < n && (!two || AT < m));
        let x = t[CH][AT];
        kani::assume(x == x);
        let y = if !clip { x } else if x > 1.0 { 1.0 } else if x < -1.0 { -1.0 } else { x };
        WANT = if bps == 8 { enc8(y) as i64 } else if bps == 16 { enc16(y) as i64 } else { enc24(y) as i64 };
        DONE = 0;
        CALLS = 0;
        BPS = bps;
        let r = write_wav(t, bps, &mut std::io::sink(), clip);
        let ok = !two || n == m;
        assert!(r.is_ok() == ok, "write: refuses tracks of the same length or accepts others");
        assert!(CALLS == if ok { 1 } else { 0 }, "write: not written once");
        assert!(!ok || frames(n), "write: other samples");
        kani::cover!(ok && AT > 1000, "reached");
        std::mem::forget(r);
    }
}
//# C19 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(std::vec::Vec::push, push)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn write_8_mono() { writes(false, 8) }
//# C19 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(std::vec::Vec::push, push)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn write_8_stereo() { writes(true, 8) }
//# C19 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(std::vec::Vec::push, push)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn write_16_mono() { writes(false, 16) }
//# C19 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(std::vec::Vec::push, push)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn write_16_stereo() { writes(true, 16) }
//# C19 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(std::vec::Vec::push, push)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn write_24_mono() { writes(false, 24) }
//# C19 variant=cut
#[kani::proof]
#[kani::unwind(3)]
#[kani::stub(wav::write_wav, note)]
#[kani::stub(std::vec::Vec::push, push)]
#[kani::stub(crate::sample_format::sample_to_u8, enc8)]
#[kani::stub(crate::sample_format::sample_to_i16, enc16)]
#[kani::stub(crate::sample_format::sample_to_i24, enc24)]
pub fn write_24_stereo() { writes(true, 24) }

// read_wav on data of any length: of the tracks it fills, the one of channel CH
// is watched: how many samples it has got (DONE) and which is at position AT (VAL).
static mut BASE: usize = 0;
static mut FVAL: f32 = 0.0;
static mut FWANT: f32 = 0.0;
/// Invariant of the loops over the samples: the watched track has got its share of the first n, the watched one is right.
fn dealt(n: usize) -> bool { unsafe { DONE == (n + CHANNELS - 1 - CH) / CHANNELS && (AT >= DONE || FVAL == FWANT) } }
pub fn push_track<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
    unsafe {
        if std::mem::size_of::<T>() != 4 {
            let n = v.len();
            v.insert(n, x);
            BASE = v.as_ptr() as usize;
        } else {
            if v as *const Vec<T, A> as usize == BASE + CH * std::mem::size_of::<SampleTrackT>() {
                if DONE == AT { FVAL = *(&x as *const T as *const f32); }
                DONE += 1;
            }
            std::mem::forget(x);
        }
    }
}
/// The rule for loops with the invariant `dealt(iterations so far)`.
pub struct Dealt { i: usize, n: usize, calls: u8 }
impl Dealt { pub fn of(n: usize) -> Dealt { Dealt { i: 0, n, calls: 0 } } }
impl Iterator for Dealt {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        self.calls += 1;
        if self.calls == 2 {
            assert!(dealt(self.i + 1), "read: each sample to the track of its channel");
            kani::assume(false);
        }
        assert!(dealt(0), "read: starts with nothing");
        let done: bool = kani::any();
        self.i = if done { self.n } else { kani::any() };
        kani::assume(done || self.i < self.n);
        unsafe { DONE = kani::any(); FVAL = kani::any(); }
        kani::assume(dealt(self.i));
        if done { None } else { Some(self.i) }
    }
}
static mut LEN: usize = 0;
/// The wav crate's reader: any data of this width.
pub fn give(_: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, wav::BitDepth)> {
    unsafe {
        let n: usize = kani::any();
        let k = AT * CHANNELS + CH;
        kani::assume(n <= 1 << 24 && k < n);
        LEN = n;
        let d = match BPS {
            8 => { let mut v: Vec<u8> = Vec::with_capacity(n); v.set_len(n); FWANT = dec8(v[k]); wav::BitDepth::Eight(v) }
            16 => { let mut v: Vec<i16> = Vec::with_capacity(n); v.set_len(n); FWANT = dec16(v[k]); wav::BitDepth::Sixteen(v) }
            _ => { let mut v: Vec<i32> = Vec::with_capacity(n); v.set_len(n); FWANT = dec24(v[k]); wav::BitDepth::TwentyFour(v) }
        };
        Ok((wav::Header::new(1, CHANNELS as u16, 44100, BPS), d))
    }
}
pub fn dec8(x: u8) -> f32 { x as f32 + 1024.0 }
pub fn dec16(x: i16) -> f32 { x as f32 + 0.5 }
pub fn dec24(x: i32) -> f32 { f32::from_bits(x as u32 & 0x3fff_ffff) }
fn reads(ch: usize, bps: u16) {
    unsafe {
        CHANNELS = ch;
        BPS = bps;
        DONE = 0;
        AT = kani::any();
        CH = kani::any();
        kani::assume(CH < ch && AT < 1 << 24);
        let r = read_wav(&mut std::io::empty());
        if let Ok((h, t)) = &r {
            assert!(*h == wav::Header::new(1, ch as u16, 44100, bps) && t.len() == ch, "read: not a track for each channel");
            assert!(dealt(LEN), "read: other samples");
        } else { assert!(false, "read: refuses valid data"); }
        kani::cover!(AT > 1000, "reached");
        std::mem::forget(r);
    }
}
//# C20 variant=cut
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(std::vec::Vec::push, push_track)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn read_8_1() { reads(1, 8) }
//# C20 variant=cut
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(std::vec::Vec::push, push_track)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn read_8_2() { reads(2, 8) }
//# C20 variant=cut
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(std::vec::Vec::push, push_track)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn read_8_3() { reads(3, 8) }
//# C20 variant=cut
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(std::vec::Vec::push, push_track)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn read_16_1() { reads(1, 16) }
//# C20 variant=cut
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(std::vec::Vec::push, push_track)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn read_16_2() { reads(2, 16) }
//# C20 variant=cut
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(std::vec::Vec::push, push_track)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn read_16_3() { reads(3, 16) }
//# C20 variant=cut
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(std::vec::Vec::push, push_track)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn read_24_1() { reads(1, 24) }
//# C20 variant=cut
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(std::vec::Vec::push, push_track)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn read_24_2() { reads(2, 24) }
//# C20 variant=cut
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(wav::read_wav, give)]
#[kani::stub(std::vec::Vec::push, push_track)]
#[kani::stub(crate::sample_format::sample_from_u8, dec8)]
#[kani::stub(crate::sample_format::sample_from_i16, dec16)]
#[kani::stub(crate::sample_format::sample_from_i24, dec24)]
pub fn read_24_3() { reads(3, 24) }

// normalize on tracks of any length, of which the sample at AT is watched and kept;
// any other number may be at any other place.
static mut SUM: f32 = 0.0;
static mut MEAN: f32 = 0.0;
static mut MAX: f32 = 0.0;
static mut LENGTH: usize = 0;
static mut KEPT: f32 = 0.0;
/// Which of the loops takes a step; those before it are at their end.
static mut PART: u8 = 0;
static mut NEXT: f32 = 0.0;
/// A vector's clone is as long and has its contents.
pub fn copy(t: &SampleTrackT) -> SampleTrackT { unsafe { std::ptr::read(t) } }
fn magnitude(x: f32) -> f32 { let d = x - unsafe { MEAN }; if d < 0.0 { -d } else { d } }
/// The sample of an iteration: that of any place.
fn any_sample() { unsafe { let i: usize = kani::any(); kani::assume(i < LENGTH); NEXT = if i == AT { KEPT } else { kani::any() }; } }
/// The rule for the loop that sums up: after i samples, the sum of i samples from first to last.
pub struct Sum { s: *mut f32, calls: u8 }
impl Sum { pub fn of(t: &SampleTrackT, s: *mut f32) -> Sum { Sum { s, calls: 0 } } }
impl Iterator for Sum {
    type Item = &'static f32;
    fn next(&mut self) -> Option<&'static f32> {
        unsafe {
            self.calls += 1;
            if self.calls == 2 { assert!(same32(*self.s, SUM + NEXT), "normalize: not the sum of its samples"); kani::assume(false); }
            assert!(*self.s == 0.0, "normalize: sum does not start with nothing");
            SUM = kani::any();
            *self.s = SUM;
            if PART > 0 { MEAN = SUM / LENGTH as f32; return None; }
            any_sample();
            Some(&*(&raw const NEXT))
        }
    }
}
/// The rule for the loop that takes the largest: after i samples, that of i magnitudes around the mean.
pub struct Peak { m: *mut f32, was: f32, calls: u8 }
impl Peak { pub fn of(y: SampleTrackT, m: *mut f32) -> Peak { std::mem::forget(y); Peak { m, was: 0.0, calls: 0 } } }
impl Iterator for Peak {
    type Item = f32;
    fn next(&mut self) -> Option<f32> {
        unsafe {
            self.calls += 1;
            if self.calls == 2 { let d = magnitude(NEXT); assert!(*self.m == if d > self.was { d } else { self.was }, "normalize: not the largest magnitude around the mean"); kani::assume(false); }
            assert!(*self.m == 0.0, "normalize: largest does not start with nothing");
            self.was = kani::any();
            kani::assume(self.was >= 0.0);
            *self.m = self.was;
            if PART > 1 { MAX = self.was; return None; }
            any_sample();
            Some(NEXT)
        }
    }
}
/// The rule for the loop whose iterations touch only their own sample: the watched one's.
pub fn kept(t: &mut SampleTrackT) -> std::slice::IterMut<'_, SampleT> { unsafe { std::slice::from_raw_parts_mut(t.as_mut_ptr(), 1).iter_mut() } }
static mut LEVEL: (f64, f64) = (0.0, 0.0);
pub fn level(d: f64) -> f64 { unsafe { LEVEL = (d, kani::any()); LEVEL.1 } }
fn norm(part: u8) {
    let db: f64 = kani::any();
    unsafe {
        PART = part;
        LENGTH = kani::any();
        AT = kani::any();
        kani::assume(LENGTH <= 1 << 24 && AT < LENGTH);
        let x: f32 = kani::any();
        KEPT = x;
        let mut b = [x];
        let mut t = std::mem::ManuallyDrop::new(SampleTrackT::from_raw_parts(b.as_mut_ptr(), LENGTH, LENGTH));
        LEVEL = (db, 0.0);
        kani::cover!(true, "reached");
        normalize(db, &mut t);
        assert!(t.len() == LENGTH && t.as_ptr() == b.as_ptr(), "normalize: another length");
        assert!(!(MAX > 0.0) || same64(LEVEL.0, db), "normalize: another level");
        let f = if MAX > 0.0 { LEVEL.1 as f32 / MAX } else { 1.0 };
        assert!(same32(b[0], (x - MEAN) * f), "normalize: not the sample around the mean in proportion");
    }
}
//# C21 variant=norm
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
#[kani::stub(db_to_linear, level)]
pub fn norm_sum() { norm(0) }
//# C21 variant=norm
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
#[kani::stub(db_to_linear, level)]
pub fn norm_peak() { norm(1) }
//# C21 variant=norm
#[kani::proof]
#[kani::unwind(3)]
#[kani::solver(cvc5)]
#[kani::stub(db_to_linear, level)]
pub fn norm_track() { norm(2) }
