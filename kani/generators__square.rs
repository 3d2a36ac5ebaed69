//@ in `impl Generator for Square` fn process
//@   requires(vk::inv(self))
//@   ensures(|y| vk::inv(self) && vk::stepped(old(vk::snap(self)), self, *y))
//@   modifies(self)
//@ in `impl FreqMod for Square` fn set_frequency
//@   requires(vk::inv(self) && crate::vkp::freq_ok(f))
//@   ensures(|_| vk::inv(self) && vk::rated(old(vk::snap(self)), self, f))
//@   modifies(self)
//@ in `impl FreqMod for Square` fn new
//@   requires(crate::vkp::freq_ok(f))
//@   ensures(|s: &Square| vk::inv(s) && vk::rated((0.0, 0.0), s, f))
use crate::vkp::*;

pub type St = (MathT, MathT);
pub fn snap(s: &Square) -> St { (s.ind, s.inv) }
/// Samples since the period began, and half the period in samples (infinite at 0 Hz).
pub fn inv(s: &Square) -> bool { s.ind >= 0.0 && s.ind < 9.0e15 && s.inv >= 1.0 }
pub fn rated(o: St, s: &Square, f: MathT) -> bool { s.ind == o.0 && same64(s.inv, 48000.0 / (2.0 * f)) }
/// 1 in the first half of a period, -1 in the second, one sample further on.
pub fn stepped(o: St, s: &Square, y: SampleT) -> bool {
    let n = if o.0 >= 2.0 * o.1 { o.0 - 2.0 * o.1 } else { o.0 };
    // beyond one period (only after the frequency was raised) the sample is not specified
    (o.0 >= 2.0 * o.1 + 1.0 || y == if n < o.1 { 1.0 } else { -1.0 }) && s.inv == o.1 && s.ind == n + 1.0
}
pub fn any(d: Dom) -> Square {
    let s = if d == Dom::Int {
        let (a, b): (u8, u8) = kani::any();
        Square { ind: a as f64 / 4.0, inv: b as f64 / 4.0 }
    } else { Square { ind: kani::any(), inv: kani::any() } };
    kani::assume(inv(&s) && s.ind < 8.0e15);
    s
}

//# C08
#[kani::proof]
pub fn sqr_range() {
    let mut s = any(Dom::All);
    let y = s.process();
    assert!(y == 1.0 || y == -1.0, "square sample neither 1 nor -1");
    assert!(inv(&s), "square position leaves its range");
    kani::cover!(y < 0.0, "reached");
}
//# C08
#[kani::proof]
pub fn sqr_range_set() {
    let f = freq(Dom::All);
    assert!(inv(&Square::new(f)), "new square outside of its range");
    let mut s = any(Dom::All);
    s.set_frequency(f);
    assert!(inv(&s), "setting the frequency moves the square out of its range");
    assert!(inv(&s.clone()), "a square's clone is outside of its range");
    kani::cover!(true, "reached");
}
//# C09
#[kani::proof_for_contract(<Square as Generator>::process)]
#[kani::solver(cvc5)]
pub fn c_sqr_process() { let mut s = any(Dom::All); s.process(); kani::cover!(true, "reached"); }
fn sqr_process(d: Dom) {
    let mut s = any(d);
    let o = snap(&s);
    let y = s.process();
    assert!(inv(&s) && stepped(o, &s, y), "square does not advance by one sample");
}
//@TW c_sqr_process sqr_process
//# C09
#[kani::proof_for_contract(<Square as FreqMod>::set_frequency)]
#[kani::solver(cvc5)]
pub fn c_sqr_set() { let mut s = any(Dom::All); s.set_frequency(kani::any()); kani::cover!(true, "reached"); }
fn near_rate(r: MathT, f: MathT) -> bool { if f == 0.0 { r == MathT::INFINITY } else { within(r * f, 24000.0, 1.0e-7) } }
fn sqr_set(d: Dom) {
    let mut s = any(d);
    let (o, f) = (snap(&s), freq(d));
    s.set_frequency(f);
    assert!(inv(&s) && s.ind == o.0, "square jumps when its frequency is set");
    assert!(if d == Dom::Int { near_rate(s.inv, f) } else { rated(o, &s, f) }, "square: wrong period");
}
//@TW c_sqr_set sqr_set
//# C09
#[kani::proof_for_contract(<Square as FreqMod>::new)]
#[kani::solver(cvc5)]
pub fn c_sqr_new() { let s = Square::new(kani::any()); kani::cover!(true, "reached"); }
fn sqr_new(d: Dom) {
    let f = freq(d);
    let s = Square::new(f);
    assert!(inv(&s) && s.ind == 0.0, "new square not at the start of its period");
    assert!(if d == Dom::Int { near_rate(s.inv, f) } else { rated((0.0, 0.0), &s, f) }, "square: wrong period");
}
//@TW c_sqr_new sqr_new
//# C10
#[kani::proof]
pub fn sq_clone() {
    let s = any(Dom::All);
    let c = s.clone();
    assert!(same64(c.inv, s.inv) && c.ind == 0.0, "clone of a square: another frequency or not at its start");
    kani::cover!(true, "reached");
}
//# C29
#[kani::proof]
#[kani::solver(cvc5)]
pub fn sq_get() {
    let s = any(Dom::All);
    assert!(same64(s.get_frequency(), 48000.0 / (2.0 * s.inv)), "square: not the frequency of its rate");
    kani::cover!(true, "reached");
}
//# C29 weak sq_get fallback sq_get bounded='six frequencies'
#[kani::proof]
pub fn sq_get_set() {
    const F: [f64; 6] = [0.0, 0.75, 20.0, 440.0, 12345.678, 24000.0];
    let mut i = 0;
    while i < 6 {
        let mut s = Square::new(F[i]);
        assert!(within(s.get_frequency(), F[i], F[i] * 1.0e-12), "square: not the frequency given");
        s.set_frequency(F[5 - i]);
        assert!(within(s.get_frequency(), F[5 - i], F[5 - i] * 1.0e-12), "square: not the frequency set");
        assert!(within(s.clone().get_frequency(), F[5 - i], F[5 - i] * 1.0e-12), "clone of a square: another frequency");
        i += 1;
    }
}
