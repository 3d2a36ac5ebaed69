//@ in `impl Modifier for Envelope` fn process
//@   ensures(|y| vk::stepped(old(vk::snap(self)), self, x, *y))
//@   modifies(self)
use crate::vkp::*;

#[derive(Clone, Copy)]
pub struct St { au: f32, bu: f32, ad: f32, bd: f32, x: f32, y: f32 }
pub fn snap(s: &Envelope) -> St { St { au: s.au, bu: s.bu, ad: s.ad, bd: s.bd, x: s.x1, y: s.y1 } }
pub fn params(o: St, s: &Envelope) -> bool { same32(s.au, o.au) && same32(s.bu, o.bu) && same32(s.ad, o.ad) && same32(s.bd, o.bd) }
/// Follows the magnitude of the input through the upper filter while above the envelope, the lower one otherwise.
pub fn stepped(o: St, s: &Envelope, x: f32, y: f32) -> bool {
    let v = if x.abs() > o.y { o.au * (x.abs() + o.x.abs()) + o.bu * o.y } else { o.ad * (x.abs() + o.x.abs()) + o.bd * o.y };
    same32(y, v) && params(o, s) && same32(s.x1.abs(), x.abs()) && same32(s.y1, y)
}
pub fn any(d: Dom) -> Envelope { Envelope { au: f32_in(d), bu: f32_in(d), ad: f32_in(d), bd: f32_in(d), x1: samp(d), y1: samp(d) } }
//# C16
#[kani::proof_for_contract(<Envelope as Modifier>::process)]
#[kani::solver(cvc5)]
#[kani::stub(f32::abs, abs32)]
pub fn c_env_process() { let mut s = any(Dom::All); s.process(kani::any()); kani::cover!(true, "reached"); }
/// Any, after any sample.
fn played(d: Dom) -> Envelope {
    let mut s = any(d);
    s.x1 = 0.0;
    s.process(samp(d));
    s.y1 = samp(d);
    s
}
fn env_process(d: Dom) {
    let mut s = played(d);
    let (o, x) = (snap(&s), samp(d));
    let y = s.process(x);
    assert!(stepped(o, &s, x, y), "envelope follower does not follow its difference equation");
}
//@TW+ c_env_process env_process
//# C16
#[kani::proof]
pub fn env_abs_is_abs() {
    let x: f32 = kani::any();
    assert!(same32(abs32(x), x.abs()), "abs32 is not the magnitude");
    kani::cover!(x < 0.0, "reached");
}
pub fn tan(x: f32) -> f32 { x * 1.5 + 0.25 }
//# C16
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f32::tan, tan)]
pub fn env_new() {
    let (lo, up): (f32, f32) = kani::any();
    let s = Envelope::new(lo, up);
    let u = tan(std::f32::consts::PI * up * INV_SAMPLE_RATE as f32);
    let d = tan(std::f32::consts::PI * lo * INV_SAMPLE_RATE as f32);
    assert!(same32(s.au, u / (1.0 + u)) && same32(s.bu, (1.0 - u) / (1.0 + u)), "envelope follower: upper filter");
    assert!(same32(s.ad, d / (1.0 + d)) && same32(s.bd, (1.0 - d) / (1.0 + d)), "envelope follower: lower filter");
    assert!(s.x1 == 0.0 && s.y1 == 0.0, "envelope follower does not start at rest");
    kani::cover!(true, "reached");
}
pub fn tan64(x: f64) -> f64 { x * 1.5 + 0.25 }
fn near(a: f32, e: f64) -> bool { within(a as f64, e, 1.0e-5) }
//# weak env_new
#[kani::proof]
#[kani::stub(f32::tan, tan)]
#[kani::stub(f64::tan, tan64)]
pub fn env_new_near() {
    const F: [f32; 4] = [20.0, 700.0, 20000.0, 0.0];
    let mut i = 0;
    while i < 16 {
        let (lo, up) = (F[i % 4], F[i / 4]);
        let s = Envelope::new(lo, up);
        let u = tan64(std::f64::consts::PI * up as f64 / 48000.0);
        let d = tan64(std::f64::consts::PI * lo as f64 / 48000.0);
        assert!(near(s.au, u / (1.0 + u)) && near(s.bu, (1.0 - u) / (1.0 + u)), "envelope follower: upper filter");
        assert!(near(s.ad, d / (1.0 + d)) && near(s.bd, (1.0 - d) / (1.0 + d)), "envelope follower: lower filter");
        assert!(s.x1 == 0.0 && s.y1 == 0.0, "envelope follower does not start at rest");
        i += 1;
    }
}
// With filters up to a quarter of the sampling rate (coefficients 0 <= b <= 1, a = (1-b)/2) an
// envelope that is not negative stays so.
//# C16
#[kani::proof]
pub fn env_sign() {
    let mut s = played(Dom::Fin);
    kani::assume(s.au >= 0.0 && s.bu >= 0.0 && s.ad >= 0.0 && s.bd >= 0.0 && s.y1 >= 0.0);
    let y = s.process(f32_in(Dom::Fin));
    assert!(!(y < 0.0) && !(s.y1 < 0.0), "envelope negative");
    kani::cover!(y > 1.0, "reached");
}
//# C10
#[kani::proof]
pub fn env_clone() {
    let s = any(Dom::All);
    let c = s.clone();
    assert!(params(snap(&s), &c) && c.x1 == 0.0 && c.y1 == 0.0, "clone of an envelope follower: other parameters or not at rest");
    kani::cover!(true, "reached");
}
