//@ in `impl Modifier for ADSR` fn process
//@   requires(vk::inv(self))
//@   ensures(|y| vk::inv(self) && vk::stepped(old(vk::snap(self)), self, x, *y))
//@   modifies(self)
//@ in `impl ADSR` fn release
//@   requires(vk::inv(self))
//@   ensures(|_| vk::inv(self) && vk::released(old(vk::snap(self)), self))
//@   modifies(self)
use crate::vkp::*;

#[derive(Clone, Copy)]
pub struct St { a: f32, d: f32, s: f32, r: f32, st: u8, g: f32 }
fn code(s: &ADSRState) -> u8 { match s { ADSRState::Attack => 0, ADSRState::Decay => 1, ADSRState::Sustain => 2, ADSRState::Release => 3, ADSRState::Stopped => 4 } }
fn state(c: u8) -> ADSRState { match c { 0 => ADSRState::Attack, 1 => ADSRState::Decay, 2 => ADSRState::Sustain, 3 => ADSRState::Release, _ => ADSRState::Stopped } }
pub fn snap(s: &ADSR) -> St { St { a: s.a, d: s.d, s: s.s, r: s.r, st: code(&s.state), g: s.g } }
/// Rates point the right way (not-a-number: nothing to do in no time), the gain is within [0,1],
/// at most 1 in the attack, at least the sustain level in the decay and exactly it in the sustain.
pub fn inv(s: &ADSR) -> bool {
    s.a > 0.0 && !(s.d > 0.0) && !(s.r > 0.0) && s.s >= 0.0 && s.s <= 1.0 && s.g >= 0.0 && s.g <= 1.0
        && match code(&s.state) { 1 => s.g >= s.s, 2 => s.g == s.s, _ => true }
}
fn params(o: St, s: &ADSR) -> bool { same32(s.a, o.a) && same32(s.d, o.d) && s.s == o.s && same32(s.r, o.r) }
pub fn released(o: St, s: &ADSR) -> bool { params(o, s) && s.g == o.g && (code(&s.state) == 3 || o.st == 4 && code(&s.state) == 4) }
/// Where one sample takes the envelope.
pub fn next(o: St) -> (u8, f32) {
    match o.st {
        0 => { let g = o.g + o.a; if g >= 1.0 { (1, 1.0) } else { (0, g) } }
        1 => { let g = o.g + o.d; if g > o.s { (1, g) } else { (2, o.s) } }
        2 => (2, o.g),
        3 => { let g = o.g + o.r; if g > 0.0 { (3, g) } else { (4, 0.0) } }
        _ => (4, o.g),
    }
}
pub fn stepped(o: St, s: &ADSR, x: f32, y: f32) -> bool {
    let (st, g) = next(o);
    params(o, s) && code(&s.state) == st && s.g == g && if o.st == 4 { y == 0.0 } else { same32(y, x * g) }
}
pub fn any(d: Dom) -> ADSR {
    let c: u8 = kani::any();
    kani::assume(c <= 4);
    let s = ADSR { a: f(d), d: f(d), s: f(d), r: f(d), state: state(c), g: f(d) };
    kani::assume(inv(&s));
    s
}
fn f(d: Dom) -> f32 {
    if d == Dom::All { return kani::any() }
    let (k, q): (i8, bool) = kani::any();
    if q && k < 3 { if k == 0 { f32::INFINITY } else if k == 1 { f32::NEG_INFINITY } else { f32::NAN } } else { k as f32 / 64.0 }
}

//# C11 cost=5
#[kani::proof_for_contract(<ADSR as Modifier>::process)]
#[kani::solver(cvc5)]
pub fn c_adsr_process() { let mut s = any(Dom::All); s.process(kani::any()); kani::cover!(true, "reached"); }
fn adsr_process(d: Dom) {
    let mut s = any(d);
    let (o, x) = (snap(&s), samp(d));
    let y = s.process(x);
    assert!(stepped(o, &s, x, y), "envelope does not follow its stages");
    assert!(inv(&s), "envelope's gain leaves its range");
}
//@TW+ c_adsr_process adsr_process
//# C11
#[kani::proof_for_contract(ADSR::release)]
pub fn c_adsr_release() { let mut s = any(Dom::All); s.release(); kani::cover!(true, "reached"); }
//# twin c_adsr_release
#[kani::proof]
pub fn t_adsr_release() {
    let mut s = any(Dom::All);
    let o = snap(&s);
    s.release();
    assert!(inv(&s) && released(o, &s), "releasing does more than to start the release");
}
//# C11
#[kani::proof]
pub fn adsr_range() {
    let mut s = any(Dom::All);
    let x = f32_range(-1.0, 1.0);
    let y = s.process(x);
    assert!(y >= -1.0 && y <= 1.0, "envelope amplifies");
    assert!(inv(&s), "envelope's gain leaves its range");
    kani::cover!(y > 0.5, "reached");
}
//# C11
#[kani::proof]
pub fn adsr_stopped() {
    let mut s = any(Dom::All);
    s.state = ADSRState::Stopped;
    assert!(s.process(kani::any()) == 0.0 && code(&s.state) == 4, "stopped envelope is not silent");
    kani::cover!(true, "reached");
}

// ---- new ---------------------------------------------------------------------
static mut LIN: f64 = 0.5;
static mut EXP: f64 = 0.0;
static mut OK: bool = true;
/// 10^e: one number, for the one exponent asked for, which is noted.
pub fn pow(b: f64, e: f64) -> f64 { unsafe { if b != 10.0 { OK = false; } EXP = e; LIN } }
/// A time given by its seconds (assumed of Duration::as_secs_f64: the length of the time).
static mut SECS: [f64; 3] = [0.0; 3];
pub fn secs(d: &Duration) -> f64 { unsafe { SECS[d.as_secs() as usize] } }
fn new_with(s: f64, lin: f64, t: [f64; 3]) -> ADSR {
    unsafe { LIN = lin; SECS = t; OK = true; }
    let e = ADSR::new(Duration::new(0, 0), Duration::new(1, 0), s, Duration::new(2, 0));
    assert!(unsafe { OK && EXP == if s < 0.0 { s } else { 0.0 } / 20.0 }, "sustain: not the level given, at most 0 dB");
    e
}
//# C11
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::powf, pow)]
#[kani::stub(std::time::Duration::as_secs_f64, secs)]
pub fn adsr_new() {
    let (lin, t0, t1, t2): (f64, f64, f64, f64) = kani::any();
    let e = new_with(-10.0, lin, [t0, t1, t2]);
    assert!(code(&e.state) == 0 && e.g == 0.0, "envelope does not start silent, in its attack");
    assert!(same32(e.a, 1.0 / (t0 * 48000.0) as f32), "attack: not from 0 to 1 in its time");
    assert!(same32(e.s, lin as f32), "sustain: not the level given, at most 0 dB");
    assert!(same32(e.d, ((lin - 1.0) / (t1 * 48000.0)) as f32), "decay: not from 1 to the sustain level in its time");
    assert!(same32(e.r, (-lin / (t2 * 48000.0)) as f32), "release: not from the sustain level to 0 in its time");
    kani::cover!(true, "reached");
}
//# C11
#[kani::proof]
#[kani::stub(f64::powf, pow)]
#[kani::stub(std::time::Duration::as_secs_f64, secs)]
pub fn adsr_new_level() {
    let s: f64 = kani::any();
    kani::assume(!s.is_nan());
    new_with(s, 0.5, [1.0, 1.0, 1.0]);
    kani::cover!(s > 0.0, "reached");
}
fn near(a: f32, e: f64) -> bool { a as f64 == e || within(a as f64 / e, 1.0, 1.0e-5) }
//# weak adsr_new
#[kani::proof]
#[kani::stub(f64::powf, pow)]
#[kani::stub(std::time::Duration::as_secs_f64, secs)]
pub fn adsr_new_near() {
    const S: [f64; 4] = [-20.0, -6.5, 3.0, -0.125];
    const L: [f64; 4] = [0.1, 0.4, 1.0, 0.9];
    const T: [f64; 4] = [0.25, 0.0003, 11.0, 1.0e6];
    let i: u8 = kani::any();
    let mut k = 0;
    while k < 4 {
        let e = new_with(S[k], L[k], [T[k], T[(k + 1) % 4], T[(k + 2) % 4]]);
        assert!(code(&e.state) == 0 && e.g == 0.0, "envelope does not start silent, in its attack");
        assert!(near(e.a, 1.0 / (T[k] * 48000.0)), "attack: not from 0 to 1 in its time");
        assert!(near(e.s, L[k]), "sustain: not the level given, at most 0 dB");
        assert!(near(e.d, (L[k] - 1.0) / (T[(k + 1) % 4] * 48000.0)), "decay: not from 1 to the sustain level in its time");
        assert!(near(e.r, -L[k] / (T[(k + 2) % 4] * 48000.0)), "release: not from the sustain level to 0 in its time");
        k += 1;
    }
}
//# C11
#[kani::proof]
#[kani::stub(f64::powf, pow)]
#[kani::stub(std::time::Duration::as_secs_f64, secs)]
pub fn adsr_new_inv() {
    // at the extremes of the times and levels, the rates point the right way
    const T: [f64; 4] = [0.0, 1.0e-9, 1.0, 1.8e19];
    const L: [f64; 4] = [0.0, 1.0e-300, 0.5, 1.0];
    let (mut i, mut j) = (0, 0);
    while i < 4 {
        j = 0;
        while j < 4 {
            let e = new_with(-1.0, L[j], [T[i], T[i], T[i]]);
            assert!(inv(&e), "a new envelope's rates point the wrong way");
            j += 1;
        }
        i += 1;
    }
    kani::cover!(true, "reached");
}
//# C10
#[kani::proof]
pub fn adsr_clone() {
    let s = any(Dom::All);
    let c = s.clone();
    assert!(params(snap(&s), &c) && code(&c.state) == 0 && c.g == 0.0, "clone of an envelope: other parameters or not at its start");
    kani::cover!(true, "reached");
}
