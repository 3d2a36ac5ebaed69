//@ in `impl Modifier for LowPass` fn process
//@   ensures(|y| vk::stepped(old(vk::snap(self)), self, x, *y))
//@   modifies(self)
use crate::vkp::*;

#[derive(Clone, Copy)]
pub struct St { c: [f32; 4], o: [f32; 3], fc: f64, r: f64 }
pub fn snap(s: &LowPass) -> St { St { c: s.coeff, o: s.outs, fc: s.fc, r: s.r } }
pub fn params(o: St, s: &LowPass) -> bool {
    same32(s.coeff[0], o.c[0]) && same32(s.coeff[1], o.c[1]) && same32(s.coeff[2], o.c[2]) && same32(s.coeff[3], o.c[3]) && same64(s.fc, o.fc) && same64(s.r, o.r)
}
pub fn hist(s: &LowPass, a: f32, b: f32, c: f32) -> bool { same32(s.outs[0], a) && same32(s.outs[1], b) && same32(s.outs[2], c) }
/// y = c0 x + c1 y1 + c2 y2 + c3 y3
pub fn stepped(o: St, s: &LowPass, x: f32, y: f32) -> bool {
    same32(y, o.c[0] * x + o.c[1] * o.o[0] + o.c[2] * o.o[1] + o.c[3] * o.o[2]) && params(o, s) && hist(s, y, o.o[0], o.o[1])
}
pub fn any(d: Dom) -> LowPass {
    LowPass { fc: f64_in(d), r: f64_in(d), coeff: [f32_in(d), f32_in(d), f32_in(d), f32_in(d)], outs: [samp(d), samp(d), samp(d)] }
}
//# C15
#[kani::proof_for_contract(<LowPass as Modifier>::process)]
#[kani::solver(cvc5)]
pub fn c_lp_process() { let mut s = any(Dom::All); s.process(kani::any()); kani::cover!(true, "reached"); }
fn lp_process(d: Dom) {
    let mut s = any(d);
    let (o, x) = (snap(&s), samp(d));
    let y = s.process(x);
    assert!(stepped(o, &s, x, y), "low pass does not follow its difference equation");
}
//@TW+ c_lp_process lp_process
// ---- coefficients --------------------------------------------------------------
fn coeffs(fc: f64, r: f64, cos: f64) -> [f64; 4] {
    let k = 1.0 - 2.0 * cos;
    let t = 2.0 * std::f64::consts::PI * fc * INV_SAMPLE_RATE;
    let g = t * t * t + k * (t * t) + k * t + 1.0;
    [t * t * t / g, (k * (t * t) + 2.0 * k * t + 3.0) / g, (-k * t - 3.0) / g, 1.0 / g]
}
fn is_at(s: &LowPass, fc: f64, r: f64, cos: f64) -> bool {
    let c = coeffs(fc, r, cos);
    same64(s.fc, fc) && same64(s.r, r) && same32(s.coeff[0], c[0] as f32) && same32(s.coeff[1], c[1] as f32) && same32(s.coeff[2], c[2] as f32) && same32(s.coeff[3], c[3] as f32)
}
static mut COS: f64 = 0.0;
static mut ARG: f64 = 0.0;
/// The cosine: one number, for the one angle asked for, which is noted.
pub fn cos(x: f64) -> f64 { unsafe { ARG = x; COS } }
/// Cubes and squares.
pub fn cube(x: f64, n: f64) -> f64 { if n == 3.0 { x * x * x } else if n == 2.0 { x * x } else { kani::any() } }
pub fn cubei(x: f64, n: i32) -> f64 { cube(x, n as f64) }
//# C15
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::cos, cos)]
#[kani::stub(f64::powf, cube)]
pub fn lp_coeff_new() {
    let (fc, r, c): (f64, f64, f64) = kani::any();
    unsafe { COS = c; }
    let s = LowPass::new(fc, r);
    assert!(is_at(&s, fc.min(24000.0), r.min(1.0).max(0.0), c), "low pass: coefficients");
    assert!(same64(unsafe { ARG }, (std::f64::consts::PI / 6.0) * (4.0 - s.r)), "low pass: angle of the resonance");
    kani::cover!(true, "reached");
}
//# C15
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::cos, cos)]
#[kani::stub(f64::powf, cube)]
pub fn lp_coeff_set() {
    let (fc, r, c): (f64, f64, f64) = kani::any();
    unsafe { COS = c; }
    let mut s = any(Dom::All);
    let o = snap(&s);
    s.set_central_frequency(fc);
    assert!(is_at(&s, fc.min(24000.0), o.r, c), "low pass: coefficients");
    assert!(same64(unsafe { ARG }, (std::f64::consts::PI / 6.0) * (4.0 - s.r)), "low pass: angle of the resonance");
    s.set_resonance(r);
    assert!(is_at(&s, fc.min(24000.0), r.min(1.0).max(0.0), c), "low pass: coefficients");
    assert!(same64(unsafe { ARG }, (std::f64::consts::PI / 6.0) * (4.0 - s.r)), "low pass: angle of the resonance");
    kani::cover!(true, "reached");
}
pub fn fresh(s: &LowPass) -> bool { hist(s, 0.0, 0.0, 0.0) }
fn near(a: f32, e: f64) -> bool { a as f64 == e || within(a as f64 / e, 1.0, 1.0e-5) }
fn is_near(s: &LowPass, fc: f64, r: f64, cos: f64) -> bool {
    let c = coeffs(fc, r, cos);
    within(unsafe { ARG }, std::f64::consts::PI / 6.0 * (4.0 - r), 1.0e-9) && s.fc == fc && s.r == r && near(s.coeff[0], c[0]) && near(s.coeff[1], c[1]) && near(s.coeff[2], c[2]) && near(s.coeff[3], c[3])
}
/// At some frequencies and resonances, however the coefficients are computed.
fn coeff_near(set: bool) {
    const F: [f64; 5] = [24000.0, 30.0, 1000.0, 7700.0, 48000.0];
    const R: [f64; 5] = [0.0, 0.3, 1.0, 1.5, -0.5];
    const C: [f64; 3] = [-0.5, 0.0, 0.4];
    let (mut i, mut j, mut s) = (0, 0, LowPass::new(1.0, 0.0));
    while i < 5 {
        j = 0;
        while j < 5 {
            unsafe { COS = C[(i + j) % 3]; }
            let (f, r) = (if F[i] > 24000.0 { 24000.0 } else { F[i] }, if R[j] > 1.0 { 1.0 } else if R[j] > 0.0 { R[j] } else { 0.0 });
            if !set { s = LowPass::new(F[i], R[j]); assert!(is_near(&s, f, r, C[(i + j) % 3]), "low pass: wrong coefficients when new"); }
            else {
                unsafe { COS = 0.7; }
                if (i + j) % 2 == 0 { s.set_resonance(R[j]); } else { s.set_central_frequency(F[i]); }
                unsafe { COS = C[(i + j) % 3]; }
                if (i + j) % 2 == 0 { s.set_central_frequency(F[i]); } else { s.set_resonance(R[j]); }
                assert!(is_near(&s, f, r, C[(i + j) % 3]), "low pass: wrong coefficients when set");
            }
            j += 1;
        }
        i += 1;
    }
}
//# weak lp_coeff_new
#[kani::proof]
#[kani::stub(f64::cos, cos)]
#[kani::stub(f64::powf, cube)]
#[kani::stub(f64::powi, cubei)]
pub fn lp_coeff_new_near() { coeff_near(false) }
//# weak lp_coeff_set
#[kani::proof]
#[kani::stub(f64::cos, cos)]
#[kani::stub(f64::powf, cube)]
#[kani::stub(f64::powi, cubei)]
pub fn lp_coeff_set_near() { coeff_near(true) }
//# C15 C29
#[kani::proof]
#[kani::stub(f64::cos, cos)]
#[kani::stub(f64::powf, cube)]
pub fn lp_limits() {
    let (fc, r, f2, r2): (f64, f64, f64, f64) = kani::any();
    kani::assume(!fc.is_nan() && !r.is_nan() && !f2.is_nan() && !r2.is_nan());
    let lf = |f: f64| if f > 24000.0 { 24000.0 } else { f };
    let lr = |r: f64| if r > 1.0 { 1.0 } else if r > 0.0 { r } else { 0.0 };
    let mut s = LowPass::new(fc, r);
    assert!(s.get_central_frequency() == lf(fc) && s.get_resonance() == lr(r), "low pass: parameters not those given, limited");
    s.process(kani::any());
    s.set_central_frequency(f2);
    assert!(s.get_central_frequency() == lf(f2) && s.get_resonance() == lr(r), "low pass: frequency not the one set, limited");
    s.set_resonance(r2);
    s.process(kani::any());
    assert!(s.get_central_frequency() == lf(f2) && s.get_resonance() == lr(r2), "low pass: resonance not the one set, limited");
    kani::cover!(fc > 24000.0, "reached");
}
//# C15
#[kani::proof]
pub fn lp_new_hist() {
    let s = LowPass::new(1000.0, 0.5);
    assert!(fresh(&s), "low pass: does not start at rest");
    kani::cover!(true, "reached");
}
//# C10
#[kani::proof]
pub fn lp_clone() {
    let s = any(Dom::All);
    let c = s.clone();
    assert!(params(snap(&s), &c) && fresh(&c), "clone of a low pass: other parameters or not at rest");
    kani::cover!(true, "reached");
}
