use crate::vkp::*;
use sample_format::Mono;

/// Looping within the track or not at all; the position is not negative and, when
/// looping, before the end of the loop; no playing backwards.
pub fn inv(s: &MonoResampler) -> bool {
    let n = s.data.len();
    let step = s.inc * s.speed as SampleT;
    s.ind >= 0.0 && s.ind <= 33554432.0 && step >= 0.0 && step <= 16777216.0
        && if s.loop_end == 0 { s.loop_start == 0 } else { s.loop_start < s.loop_end && s.loop_end <= n && s.ind < s.loop_end as f64 }
}
const MAX: usize = 1 << 24;
/// A track of any length and any contents.
pub fn track() -> MonoTrackT {
    let n: usize = kani::any();
    kani::assume(n <= MAX);
    let mut v = MonoTrackT::with_capacity(n);
    unsafe { v.set_len(n); }
    v
}
pub fn any() -> MonoResampler {
    let s = MonoResampler { data: track(), ind: kani::any(), inc: kani::any(), speed: kani::any(), loop_start: kani::any(), loop_end: kani::any() };
    kani::assume(inv(&s));
    s
}
/// The position after one sample.
fn moved(o: f64, step: f32, ls: usize, le: usize) -> f64 {
    let p = o + step as f64;
    if le == 0 || p < le as f64 { return p; }
    let k = p.trunc() as usize;
    (ls + (k - ls) % (le - ls)) as f64 + (p - p.trunc())
}
//# C18
#[kani::proof]
pub fn res_safe() {
    let mut s = any();
    s.process();
    kani::cover!(s.loop_end > 100, "reached");
    std::mem::forget(s);
}
//# C18
#[kani::proof]
#[kani::solver(cvc5)]
pub fn res_moves() {
    let mut s = any();
    let (o, st, ls, le, n, inc, sp) = (s.ind, s.inc * s.speed as SampleT, s.loop_start, s.loop_end, s.data.len(), s.inc, s.speed);
    s.process();
    assert!(s.ind == if le == 0 && o as usize >= n { o } else { moved(o, st, ls, le) }, "resampler: wrong position");
    assert!(s.loop_start == ls && s.loop_end == le && s.data.len() == n, "resampler: track or loop changes");
    assert!(same32(s.inc, inc), "resampler: rate changes");
    assert!(same64(s.speed, sp), "resampler: speed changes");
    kani::cover!(s.loop_end > 100, "reached");
    std::mem::forget(s);
}
/// Lemma: where one sample takes the position is in the loop, or within one step behind the track.
//# C18
#[kani::proof]
pub fn moved_stays_once() {
    let (o, st, n): (f64, f32, usize) = kani::any();
    kani::assume(n <= MAX && o >= 0.0 && (o as usize) < n && st >= 0.0 && st <= 16777216.0);
    let p = moved(o, st, 0, 0);
    assert!(p >= o && p <= 33554432.0, "resampler: position outside of its track");
    kani::cover!(n > 100, "reached");
}
//# C18
#[kani::proof]
pub fn moved_stays_loop() {
    let (o, st, ls, le): (f64, f32, usize, usize) = kani::any();
    kani::assume(ls < le && le <= MAX && o >= 0.0 && o < le as f64 && st >= 0.0 && st <= 16777216.0);
    let p = moved(o, st, ls, le);
    assert!(p >= 0.0 && p < le as f64, "resampler: position outside of its loop");
    assert!(o < ls as f64 || p >= ls as f64, "resampler: position outside of its loop");
    kani::cover!(ls > 100, "reached");
}
fn value(grid: bool, looped: bool) {
    let mut s = any();
    kani::assume(looped == (s.loop_end != 0));
    if !looped { s.loop_end = 0; }
    let (o, ls, le, n) = (s.ind, s.loop_start, s.loop_end, s.data.len());
    kani::assume(o < n as f64);
    let k = o as usize;
    let j = if le != 0 { if k + 1 >= le { ls } else { k + 1 } } else if k + 1 >= n { k } else { k + 1 };
    if grid {
        kani::assume((o * 4.0).trunc() == o * 4.0);
        s.data[k].mono = f32_in(Dom::Int);
        s.data[j].mono = f32_in(Dom::Int);
    }
    let (a, b) = (s.data[k].mono, s.data[j].mono);
    let y = s.process();
    assert!(same32(y, a + (o - o.trunc()) as f32 * (b - a)), "resampler: not on the line between its neighbours");
    kani::cover!(s.data.len() > 100, "reached");
    std::mem::forget(s);
}
//# C18
#[kani::proof]
#[kani::solver(cvc5)]
pub fn res_value_once() { value(false, false) }
//# C18
#[kani::proof]
#[kani::solver(cvc5)]
pub fn res_value_loop() { value(false, true) }
//# weak res_value_once
#[kani::proof]
pub fn res_value_once_grid() { value(true, false) }
//# weak res_value_loop
#[kani::proof]
pub fn res_value_loop_grid() { value(true, true) }
//# C18
#[kani::proof]
pub fn res_silent() {
    let mut s = any();
    kani::assume(s.loop_end == 0 && s.ind >= s.data.len() as f64);
    let o = s.ind;
    assert!(s.process() == 0.0 && s.ind >= o, "resampler: not silent behind its track");
    kani::cover!(s.data.len() > 100, "reached");
    std::mem::forget(s);
}

/// As res_moves, on positions and steps of multiples of 1/4.
//# weak res_moves
#[kani::proof]
pub fn res_moves_grid() {
    let mut s = any();
    let (i, k, ls, le, n): (u8, u8, u8, u8, u8) = kani::any();
    let (ls, le) = (ls as usize, le as usize);
    s.ind = i as f64 / 4.0;
    s.inc = k as f32 / 8.0;
    s.speed = 2.0;
    s.loop_start = ls;
    s.loop_end = le;
    kani::assume(inv(&s) && s.data.len() < 64);
    let n = s.data.len();
    s.process();
    assert!(s.ind == if le == 0 && i as usize / 4 >= n { i as f64 / 4.0 } else { moved(i as f64 / 4.0, k as f32 / 4.0, ls, le) }, "resampler: wrong position");
    assert!(s.loop_start == ls && s.loop_end == le && s.data.len() == n && s.inc == k as f32 / 8.0 && s.speed == 2.0, "resampler: parameters change");
    std::mem::forget(s);
}
/// Loops are put in order and limited to the track; an empty one is none.
//# C18
#[kani::proof]
#[kani::solver(cvc5)]
pub fn res_new() {
    let d = track();
    let (n, a, b, r): (usize, usize, usize, f64) = (d.len(), kani::any(), kani::any(), kani::any());
    let s = MonoResampler::new(d, r, a, b);
    let lo = if a < b { a } else { b };
    let hi = if a < b { b } else { a };
    let hi = if hi < n { hi } else { n };
    assert!(s.data.len() == n, "new resampler: another track");
    if lo < hi { assert!(s.loop_start == lo && s.loop_end == hi, "new resampler: another loop"); }
    else { assert!(s.loop_start == 0 && s.loop_end == 0, "new resampler: loops though there is no loop"); }
    assert!(s.ind == 0.0 && s.speed == 1.0, "new resampler: not at its start, at its own speed");
    kani::cover!(lo < hi && hi < n, "reached");
    std::mem::forget(s);
}
//# C18
#[kani::proof]
#[kani::solver(cvc5)]
pub fn res_rate() {
    let r: f64 = kani::any();
    let s = MonoResampler::new(MonoTrackT::new(), r, 0, 0);
    assert!(same32(s.inc, (r * INV_SAMPLE_RATE) as f32), "resampler: not a step of its rate over 48000");
}
//# weak res_rate
#[kani::proof]
pub fn w_res_rate() {
    const R: [f64; 6] = [48000.0, 0.0, 44100.0, 96000.0, 8000.0, 22050.0];
    let mut i = 0;
    while i < 6 {
        let s = MonoResampler::new(MonoTrackT::new(), R[i], 0, 0);
        assert!(within(s.inc as f64 * 48000.0, R[i], R[i] * 1.0e-7), "resampler: not a step of its rate over 48000");
        i += 1;
    }
}
//# C29
#[kani::proof]
pub fn res_speed() {
    let mut s = any();
    let f: f64 = kani::any();
    s.set_playback_speed(f);
    assert!(same64(s.get_playback_speed(), f), "resampler: not the speed set");
    kani::assume(f == 1.0 && inv(&s));
    s.process();
    assert!(s.get_playback_speed() == 1.0, "resampler: speed changes");
    assert!(MonoResampler::new(MonoTrackT::new(), 0.0, 0, 0).get_playback_speed() == 1.0, "new resampler: not at its own speed");
    kani::cover!(true, "reached");
    std::mem::forget(s);
}
//# C10 bounded='tracks of three samples'
#[kani::proof]
#[kani::unwind(5)]
pub fn res_clone() {
    let mut s = MonoResampler { data: vec![Mono::from(kani::any()), Mono::from(kani::any()), Mono::from(kani::any())], ind: kani::any(), inc: kani::any(), speed: kani::any(), loop_start: kani::any(), loop_end: kani::any() };
    kani::assume(inv(&s));
    let c = s.clone();
    let mut i = 0;
    assert!(c.data.len() == 3, "clone of a resampler: another track");
    while i < 3 { assert!(same32(c.data[i].mono, s.data[i].mono), "clone of a resampler: another track"); i += 1; }
    assert!(c.ind == 0.0 && same32(c.inc, s.inc) && same64(c.speed, s.speed) && c.loop_start == s.loop_start && c.loop_end == s.loop_end, "clone of a resampler: other parameters or not at its start");
    kani::cover!(true, "reached");
}
