//@ in `impl Generator for Triangle` fn process
//@   requires(vk::inv(self))
//@   ensures(|y| vk::inv(self) && vk::stepped(old(vk::snap(self)), self, *y))
//@   modifies(self)
//@ in `impl FreqMod for Triangle` fn set_frequency
//@   requires(vk::inv(self) && crate::vkp::freq_ok(f))
//@   ensures(|_| vk::inv(self) && vk::rated(old(vk::snap(self)), self, f))
//@   modifies(self)
//@ in `impl FreqMod for Triangle` fn new
//@   requires(crate::vkp::freq_ok(f))
//@   ensures(|s: &Triangle| vk::inv(s) && vk::rated((0.0, 0.0, 1.0), s, f))
use crate::vkp::*;

pub type St = (MathT, MathT, MathT);
pub fn snap(s: &Triangle) -> St { (s.irate, s.inc, s.dir) }
/// Level in [-1,1], rising or falling, at most half a period per sample.
pub fn inv(s: &Triangle) -> bool { s.inc >= -1.0 && s.inc <= 1.0 && s.irate >= 0.0 && s.irate <= 2.0 && (s.dir == 1.0 || s.dir == -1.0) }
/// Same position, and the rate is the 4f/48000 of this frequency.
pub fn rated(o: St, s: &Triangle, f: MathT) -> bool { s.inc == o.1 && s.dir == o.2 && same64(s.irate, 4.0 * f * INV_SAMPLE_RATE) }
/// The output is the level; the level moves by the rate and is reflected at 1 and -1.
pub fn stepped(o: St, s: &Triangle, y: SampleT) -> bool {
    let n = o.1 + o.2 * o.0;
    y == o.1 as SampleT && s.irate == o.0
        && if n >= 1.0 { s.dir == -o.2 && s.inc == 2.0 - n } else if n <= -1.0 { s.dir == -o.2 && s.inc == -2.0 - n } else { s.dir == o.2 && s.inc == n }
}
pub fn any(d: Dom) -> Triangle {
    let s = Triangle { irate: unit(d), inc: unit(d), dir: if kani::any() { 1.0 } else { -1.0 } };
    kani::assume(inv(&s));
    // where the level is at an end, the direction is away from it (or the rate is 0)
    kani::assume(!(s.inc == 1.0 && s.dir == 1.0 || s.inc == -1.0 && s.dir == -1.0));
    s
}

//# C08
#[kani::proof]
pub fn tri_range() {
    let mut s = Triangle { irate: kani::any(), inc: kani::any(), dir: kani::any() };
    kani::assume(inv(&s));
    let y = s.process();
    assert!(y >= -1.0 && y <= 1.0, "triangle sample outside of [-1,1]");
    assert!(inv(&s), "triangle level leaves its range");
    kani::cover!(s.inc < 0.0, "reached");
}
//# C08
#[kani::proof]
pub fn tri_range_set() {
    let f = freq(Dom::All);
    assert!(inv(&Triangle::new(f)), "new triangle outside of its range");
    let mut s = any(Dom::All);
    s.set_frequency(f);
    assert!(inv(&s), "setting the frequency moves the triangle out of its range");
    assert!(inv(&s.clone()), "a triangle's clone is outside of its range");
    kani::cover!(true, "reached");
}

//# C09
#[kani::proof_for_contract(<Triangle as Generator>::process)]
#[kani::solver(cvc5)]
pub fn c_tri_process() { let mut s = any(Dom::All); s.process(); kani::cover!(s.inc < 0.0, "reached"); }
fn tri_process(d: Dom) {
    let mut s = any(d);
    let o = snap(&s);
    let y = s.process();
    assert!(inv(&s) && stepped(o, &s, y), "triangle does not move by its rate");
}
//@TW c_tri_process tri_process
//# C09
#[kani::proof_for_contract(<Triangle as FreqMod>::set_frequency)]
#[kani::solver(cvc5)]
pub fn c_tri_set() { let mut s = any(Dom::All); s.set_frequency(kani::any()); kani::cover!(true, "reached"); }
fn near_rate(r: MathT, f: MathT) -> bool { within(r * 12000.0, f, f * 1.0e-12) }
fn tri_set(d: Dom) {
    let mut s = any(d);
    let (o, f) = (snap(&s), freq(d));
    s.set_frequency(f);
    assert!(inv(&s) && s.inc == o.1 && s.dir == o.2, "triangle jumps when its frequency is set");
    assert!(if d == Dom::Int { near_rate(s.irate, f) } else { rated(o, &s, f) }, "triangle: wrong rate");
}
//@TW c_tri_set tri_set
//# C09
#[kani::proof_for_contract(<Triangle as FreqMod>::new)]
#[kani::solver(cvc5)]
pub fn c_tri_new() { let s = Triangle::new(kani::any()); kani::cover!(true, "reached"); }
fn tri_new(d: Dom) {
    let f = freq(d);
    let s = Triangle::new(f);
    assert!(inv(&s) && s.inc == 0.0 && s.dir == 1.0, "new triangle not at the start of its rise");
    assert!(if d == Dom::Int { near_rate(s.irate, f) } else { rated((0.0, 0.0, 1.0), &s, f) }, "triangle: wrong rate");
}
//@TW c_tri_new tri_new
//# C10
#[kani::proof]
pub fn tri_clone() {
    let s = any(Dom::All);
    let c = s.clone();
    assert!(same64(c.irate, s.irate) && c.inc == 0.0 && c.dir == 1.0, "clone of a triangle: another frequency or not at its start");
    kani::cover!(true, "reached");
}
//# C29
#[kani::proof]
#[kani::solver(cvc5)]
pub fn tri_get() {
    let s = any(Dom::All);
    assert!(same64(s.get_frequency(), s.irate / (4.0 * INV_SAMPLE_RATE)), "triangle: not the frequency of its rate");
    kani::cover!(true, "reached");
}
//# C29 weak tri_get fallback tri_get bounded='six frequencies'
#[kani::proof]
pub fn tri_get_set() {
    const F: [f64; 6] = [0.0, 0.75, 20.0, 440.0, 12345.678, 24000.0];
    let mut i = 0;
    while i < 6 {
        let mut s = Triangle::new(F[i]);
        assert!(within(s.get_frequency(), F[i], F[i] * 1.0e-12), "triangle: not the frequency given");
        s.set_frequency(F[5 - i]);
        assert!(within(s.get_frequency(), F[5 - i], F[5 - i] * 1.0e-12), "triangle: not the frequency set");
        assert!(within(s.clone().get_frequency(), F[5 - i], F[5 - i] * 1.0e-12), "clone of a triangle: another frequency");
        i += 1;
    }
}
