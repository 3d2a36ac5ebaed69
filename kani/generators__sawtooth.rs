//@ in `impl Generator for Sawtooth` fn process
//@   requires(vk::inv(self))
//@   ensures(|y| vk::inv(self) && vk::stepped(old(vk::snap(self)), self, *y))
//@   modifies(self)
//@ in `impl FreqMod for Sawtooth` fn set_frequency
//@   requires(vk::inv(self) && crate::vkp::freq_ok(f))
//@   ensures(|_| vk::inv(self) && vk::rated(old(vk::snap(self)), self, f))
//@   modifies(self)
//@ in `impl FreqMod for Sawtooth` fn new
//@   requires(crate::vkp::freq_ok(f))
//@   ensures(|s: &Sawtooth| vk::inv(s) && vk::rated((0.0, 0.0), s, f))
use crate::vkp::*;

pub type St = (MathT, MathT);
pub fn snap(s: &Sawtooth) -> St { (s.irate, s.inc) }
/// Phase in [-1,1), at most half a period per sample.
pub fn inv(s: &Sawtooth) -> bool { s.inc >= -1.0 && s.inc < 1.0 && s.irate >= 0.0 && s.irate <= 1.0 }
/// Same phase, and the rate is the 2f/48000 of this frequency.
pub fn rated(o: St, s: &Sawtooth, f: MathT) -> bool { s.inc == o.1 && same64(s.irate, 2.0 * f * INV_SAMPLE_RATE) }
/// The output is the phase; the phase advances by the rate and wraps from 1 to -1.
pub fn stepped(o: St, s: &Sawtooth, y: SampleT) -> bool {
    let n = o.1 + o.0;
    y == o.1 as SampleT && s.irate == o.0 && s.inc == if n >= 1.0 { n - 2.0 } else { n }
}
pub fn any(d: Dom) -> Sawtooth { let s = Sawtooth { irate: unit(d), inc: unit(d) }; kani::assume(inv(&s)); s }

//# C08
#[kani::proof]
pub fn saw_range() {
    let mut s = any(Dom::All);
    let y = s.process();
    assert!(y >= -1.0 && y <= 1.0, "sawtooth sample outside of [-1,1]");
    assert!(inv(&s), "sawtooth phase leaves its period");
    kani::cover!(s.inc < 0.0, "reached");
}
//# C08
#[kani::proof]
pub fn saw_range_set() {
    let f = freq(Dom::All);
    assert!(inv(&Sawtooth::new(f)), "new sawtooth outside of its period");
    let mut s = any(Dom::All);
    s.set_frequency(f);
    assert!(inv(&s), "setting the frequency moves the sawtooth out of its period");
    assert!(inv(&s.clone()), "a sawtooth's clone is outside of its period");
    kani::cover!(true, "reached");
}

//# C09
#[kani::proof_for_contract(<Sawtooth as Generator>::process)]
#[kani::solver(cvc5)]
pub fn c_saw_process() { let mut s = any(Dom::All); s.process(); kani::cover!(s.inc < 0.0, "reached"); }
fn saw_process(d: Dom) {
    let mut s = any(d);
    let o = snap(&s);
    let y = s.process();
    assert!(inv(&s) && stepped(o, &s, y), "sawtooth does not advance by its rate");
}
//@TW c_saw_process saw_process
//# C09
#[kani::proof_for_contract(<Sawtooth as FreqMod>::set_frequency)]
#[kani::solver(cvc5)]
pub fn c_saw_set() { let mut s = any(Dom::All); s.set_frequency(kani::any()); kani::cover!(true, "reached"); }
fn near_rate(r: MathT, f: MathT) -> bool { within(r * 24000.0, f, f * 1.0e-12) }
fn saw_set(d: Dom) {
    let mut s = any(d);
    let (o, f) = (snap(&s), freq(d));
    s.set_frequency(f);
    assert!(inv(&s) && s.inc == o.1, "sawtooth jumps when its frequency is set");
    assert!(if d == Dom::Int { near_rate(s.irate, f) } else { rated(o, &s, f) }, "sawtooth: wrong rate");
}
//@TW c_saw_set saw_set
//# C09
#[kani::proof_for_contract(<Sawtooth as FreqMod>::new)]
#[kani::solver(cvc5)]
pub fn c_saw_new() { let s = Sawtooth::new(kani::any()); kani::cover!(true, "reached"); }
fn saw_new(d: Dom) {
    let f = freq(d);
    let s = Sawtooth::new(f);
    assert!(inv(&s) && s.inc == 0.0, "new sawtooth not at the start of its period");
    assert!(if d == Dom::Int { near_rate(s.irate, f) } else { rated((0.0, 0.0), &s, f) }, "sawtooth: wrong rate");
}
//@TW c_saw_new saw_new
//# C10
#[kani::proof]
pub fn saw_clone() {
    let s = any(Dom::All);
    let c = s.clone();
    assert!(same64(c.irate, s.irate) && c.inc == 0.0, "clone of a sawtooth: another frequency or not at its start");
    kani::cover!(true, "reached");
}
//# C29
#[kani::proof]
#[kani::solver(cvc5)]
pub fn saw_get() {
    let s = any(Dom::All);
    assert!(same64(s.get_frequency(), s.irate / (2.0 * INV_SAMPLE_RATE)), "sawtooth: not the frequency of its rate");
    kani::cover!(true, "reached");
}
//# C29 weak saw_get fallback saw_get bounded='six frequencies'
#[kani::proof]
pub fn saw_get_set() {
    const F: [f64; 6] = [0.0, 0.75, 20.0, 440.0, 12345.678, 24000.0];
    let mut i = 0;
    while i < 6 {
        let mut s = Sawtooth::new(F[i]);
        assert!(within(s.get_frequency(), F[i], F[i] * 1.0e-12), "sawtooth: not the frequency given");
        s.set_frequency(F[5 - i]);
        assert!(within(s.get_frequency(), F[5 - i], F[5 - i] * 1.0e-12), "sawtooth: not the frequency set");
        assert!(within(s.clone().get_frequency(), F[5 - i], F[5 - i] * 1.0e-12), "clone of a sawtooth: another frequency");
        i += 1;
    }
}
