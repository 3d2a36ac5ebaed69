//@ subst small `const\s+WAVETABLE_FREQ\s*:\s*u64\s*=\s*10\s*;` `const WAVETABLE_FREQ:u64 = 6000;`
//@ in `impl Generator for Sine` fn process
//@   requires(vk::inv(self))
//@   ensures(|y| vk::inv(self) && vk::stepped(old(vk::snap(self)), self, *y))
//@   modifies(self)
//@ in `impl FreqMod for Sine` fn set_frequency
//@   requires(vk::inv(self) && crate::vkp::freq_ok(f))
//@   ensures(|_| vk::inv(self) && vk::rated(old(vk::snap(self)), self, f))
//@   modifies(self)
//@ in `impl FreqMod for Sine` fn new
//@   requires(crate::vkp::freq_ok(f))
//@   ensures(|s: &Sine| vk::inv(s) && vk::rated((0.0, 0.0), s, f))
use crate::vkp::*;

const N: MathT = WAVETABLE_SIZE as MathT;
pub type Wt = [MathT; WAVETABLE_SIZE as usize];
static mut WT: *const Wt = std::ptr::null();
/// A table of the right size with any contents.
pub fn table(_: &WAVETABLE) -> &'static Wt { tab() }
pub fn new_tab() { unsafe { WT = std::alloc::alloc(std::alloc::Layout::new::<Wt>()) as *const Wt; } }
pub fn tab() -> &'static Wt { unsafe { &*WT } }
pub type St = (MathT, MathT);
pub fn snap(s: &Sine) -> St { (s.ind, s.inc) }
/// Position in [0, size of the table), at most half the table per sample.
pub fn inv(s: &Sine) -> bool { s.ind >= 0.0 && s.ind < N && s.inc >= 0.0 && s.inc <= N / 2.0 }
pub fn rated(o: St, s: &Sine, f: MathT) -> bool { s.ind == o.0 && same64(s.inc, f / (48000.0 / N)) }
fn ends(p: MathT) -> (MathT, MathT, MathT) {
    let k = p as usize;
    (p - p.floor(), tab()[k], tab()[if k + 1 >= WAVETABLE_SIZE as usize { 0 } else { k + 1 }])
}
pub fn interp(g: MathT, a: MathT, b: MathT) -> SampleT { ((1.0 - g) * a + g * b) as SampleT }
/// The output is the interpolated table at the position, which advances by the
/// rate and wraps at the size of the table.
pub fn stepped(o: St, s: &Sine, y: SampleT) -> bool {
    let (g, a, b) = ends(o.0);
    same32(y, interp(g, a, b)) && s.inc == o.1 && s.ind == if o.0 + o.1 >= N { o.0 + o.1 - N } else { o.0 + o.1 }
}
pub fn any(d: Dom) -> Sine {
    let s = if d == Dom::Int {
        let (k, i): (u16, u16) = kani::any();
        Sine { ind: k as f64 / 4.0, inc: i as f64 / 4.0 }
    } else { Sine { ind: kani::any(), inc: kani::any() } };
    kani::assume(inv(&s));
    s
}

//# C08 C09 cost=9
#[kani::proof_for_contract(<Sine as Generator>::process)]
#[kani::solver(cvc5)]
#[kani::stub(<WAVETABLE as std::ops::Deref>::deref, table)]
pub fn c_sine_process() { new_tab(); let mut s = any(Dom::All); s.process(); kani::cover!(s.ind > 1.0, "reached"); }
//# twin c_sine_process
#[kani::proof]
#[kani::stub(<WAVETABLE as std::ops::Deref>::deref, table)]
pub fn t_sine_process() {
    new_tab();
    let mut s = any(Dom::All);
    let o = snap(&s);
    let y = s.process();
    assert!(inv(&s) && stepped(o, &s, y), "sine does not follow its table");
}
//# weak c_sine_process variant=small
#[kani::proof]
#[kani::stub(<WAVETABLE as std::ops::Deref>::deref, table)]
pub fn w_sine_process() {
    new_tab();
    let mut s = any(Dom::Int);
    let o = snap(&s);
    let (g, a, b) = ends(o.0);
    let (p, q): (i8, i8) = kani::any();
    kani::assume(p >= -64 && p <= 64 && q >= -64 && q <= 64 && a == p as f64 / 64.0 && b == q as f64 / 64.0);
    let y = s.process();
    assert!(y >= -1.0 && y <= 1.0, "sine sample outside of [-1,1]");
    assert!(within(y as f64, (1.0 - g) * a + g * b, 1.0e-6), "sine does not follow its table");
    assert!(inv(&s) && s.inc == o.1 && s.ind == if o.0 + o.1 >= N { o.0 + o.1 - N } else { o.0 + o.1 }, "sine does not advance by its rate");
}
// The interpolation keeps within [-1,1] where the table does. (1-g)*a is within
// 1-g of 0 since rounding is monotone; what is left is the sum of the two.
//# C08
#[kani::proof]
pub fn interp_sum() {
    let (g, p, q): (f64, f64, f64) = kani::any();
    kani::assume(g >= 0.0 && g < 1.0 && p <= 1.0 - g && p >= -(1.0 - g) && q <= g && q >= -g);
    let y = (p + q) as f32;
    assert!(y <= 1.0 && y >= -1.0, "interpolation between samples of [-1,1] leaves it");
    kani::cover!(true, "reached");
}
//# C08 tier=thorough timeout=400
#[kani::proof]
#[kani::solver(kissat)]
pub fn interp_bound() {
    let (g, a, b): (f64, f64, f64) = kani::any();
    kani::assume(g >= 0.0 && g < 1.0 && a >= -1.0 && a <= 1.0 && b >= -1.0 && b <= 1.0);
    assert!(interp(g, a, b) <= 1.0, "interpolation between samples of [-1,1] leaves it");
    kani::cover!(true, "reached");
}
//# C08
#[kani::proof]
#[kani::stub(<WAVETABLE as std::ops::Deref>::deref, table)]
pub fn sine_range() {
    new_tab();
    let mut s = any(Dom::All);
    let y = s.process();
    assert!(inv(&s), "sine position outside of its table");
    let f = freq(Dom::All);
    s.set_frequency(f);
    assert!(inv(&s), "setting the frequency moves the sine out of its table");
    assert!(inv(&s.clone()) && inv(&Sine::new(f)), "a new sine is outside of its table");
    kani::cover!(true, "reached");
}
//# C09
#[kani::proof_for_contract(<Sine as FreqMod>::set_frequency)]
#[kani::solver(cvc5)]
pub fn c_sine_set() { let mut s = any(Dom::All); s.set_frequency(kani::any()); kani::cover!(true, "reached"); }
fn near_rate(r: MathT, f: MathT) -> bool { within(r * 48000.0, f * N, f * N * 1.0e-12) }
fn sine_set(d: Dom) {
    let mut s = any(d);
    let (o, f) = (snap(&s), freq(d));
    s.set_frequency(f);
    assert!(inv(&s) && s.ind == o.0, "sine jumps when its frequency is set");
    assert!(if d == Dom::Int { near_rate(s.inc, f) } else { rated(o, &s, f) }, "sine: wrong rate");
}
//@TW c_sine_set sine_set
//# C09
#[kani::proof_for_contract(<Sine as FreqMod>::new)]
#[kani::solver(cvc5)]
pub fn c_sine_new() { let s = Sine::new(kani::any()); kani::cover!(true, "reached"); }
fn sine_new(d: Dom) {
    let f = freq(d);
    let s = Sine::new(f);
    assert!(inv(&s) && s.ind == 0.0, "new sine not at the start of its table");
    assert!(if d == Dom::Int { near_rate(s.inc, f) } else { rated((0.0, 0.0), &s, f) }, "sine: wrong rate");
}
//@TW c_sine_new sine_new

// What the table holds, with the table instantiated at 8 entries: the sine is
// read as its argument, so that the output shows the phase looked up.
pub fn phase_of(x: f64) -> f64 { x }
//# C09 variant=small bounded="the code's table instantiated with 8 entries instead of 4800"
#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(f64::sin, phase_of)]
pub fn sine_table() {
    let k: u8 = kani::any();
    kani::assume(k < 8);
    let mut s = Sine { ind: k as f64, inc: 0.0 };
    assert!(within(s.process() as f64 * 4.0, k as f64 * std::f64::consts::PI, 1.0e-5), "sine table: an entry is not the sine of its phase");
    kani::cover!(k == 7, "reached");
}
//# C10
#[kani::proof]
pub fn sine_clone() {
    let s = any(Dom::All);
    let c = s.clone();
    assert!(same64(c.inc, s.inc) && c.ind == 0.0, "clone of a sine: another frequency or not at its start");
    kani::cover!(true, "reached");
}
//# C29
#[kani::proof]
#[kani::solver(cvc5)]
pub fn sine_get() {
    let s = any(Dom::All);
    assert!(same64(s.get_frequency(), s.inc * 10.0), "sine: not the frequency of its rate");
    kani::cover!(true, "reached");
}
//# C29 weak sine_get fallback sine_get bounded='six frequencies'
#[kani::proof]
pub fn sine_get_set() {
    const F: [f64; 6] = [0.0, 0.75, 20.0, 440.0, 12345.678, 24000.0];
    let mut i = 0;
    while i < 6 {
        let mut s = Sine::new(F[i]);
        assert!(within(s.get_frequency(), F[i], F[i] * 1.0e-12), "sine: not the frequency given");
        s.set_frequency(F[5 - i]);
        assert!(within(s.get_frequency(), F[5 - i], F[5 - i] * 1.0e-12), "sine: not the frequency set");
        assert!(within(s.clone().get_frequency(), F[5 - i], F[5 - i] * 1.0e-12), "clone of a sine: another frequency");
        i += 1;
    }
}
