//@ in `impl Modifier for BandPass` fn process
//@   ensures(|y| vk::stepped(old(vk::snap(self)), self, x, *y))
//@   modifies(self)
use crate::vkp::*;

#[derive(Clone, Copy)]
pub struct St { f: f64, q: f64, a0: f64, b1: f64, b2: f64, x: [f32; 2], y: [f32; 2] }
pub fn snap(s: &BandPass) -> St { St { f: s.central_f, q: s.quality, a0: s.a0, b1: s.b1, b2: s.b2, x: [s.x1, s.x2], y: [s.y1, s.y2] } }
pub fn params(o: St, s: &BandPass) -> bool { same64(s.central_f, o.f) && same64(s.quality, o.q) && same64(s.a0, o.a0) && same64(s.b1, o.b1) && same64(s.b2, o.b2) }
pub fn fresh(s: &BandPass) -> bool { s.x1 == 0.0 && s.x2 == 0.0 && s.y1 == 0.0 && s.y2 == 0.0 }
/// y = a0 (x - x2) + b1 y1 - b2 y2
pub fn stepped(o: St, s: &BandPass, x: f32, y: f32) -> bool {
    same32(y, (o.a0 * (x - o.x[1]) as f64 + o.b1 * o.y[0] as f64 - o.b2 * o.y[1] as f64) as f32)
        && params(o, s) && same32(s.x1, x) && same32(s.x2, o.x[0]) && same32(s.y1, y) && same32(s.y2, o.y[0])
}
pub fn any(d: Dom) -> BandPass {
    BandPass { central_f: f64_in(d), quality: f64_in(d), a0: f64_in(d), b1: f64_in(d), b2: f64_in(d), x1: samp(d), x2: samp(d), y1: samp(d), y2: samp(d) }
}
//# C15
#[kani::proof_for_contract(<BandPass as Modifier>::process)]
#[kani::solver(cvc5)]
pub fn c_bp_process() { let mut s = any(Dom::All); s.process(kani::any()); kani::cover!(true, "reached"); }
fn bp_process(d: Dom) {
    let mut s = any(d);
    let (o, x) = (snap(&s), samp(d));
    let y = s.process(x);
    assert!(stepped(o, &s, x, y), "band pass does not follow its difference equation");
}
//@TW+ c_bp_process bp_process

// ---- coefficients: for one reading of tan and sqrt as functions of a number ------
pub fn tan(x: f64) -> f64 { x * 1.5 + 0.25 }
pub fn sqrt(x: f64) -> f64 { x * 0.5 + 3.0 }
/// From the pole frequencies: the upper one's low pass, the lower one's high pass.
fn coeffs(lo: f64, hi: f64) -> [f64; 3] {
    let (tl, th) = (tan(std::f64::consts::PI * hi * INV_SAMPLE_RATE), tan(std::f64::consts::PI * lo * INV_SAMPLE_RATE));
    let (al, ah) = (1.0 / (1.0 + tl), 1.0 / (1.0 + th));
    let (bl, bh) = ((1.0 - tl) / (1.0 + tl), (1.0 - th) / (1.0 + th));
    [(1.0 - al) * ah, bl + bh, bl * bh]
}
/// The corners around the central frequency: one quality-th of it apart, with it as their geometric mean.
fn corners(f: f64, q: f64) -> (f64, f64) {
    let b = -f / q;
    let r = sqrt(b * b - 4.0 * 1.0 * (-f * f));
    let (p, n) = ((-b + r) / (2.0 * 1.0), (-b - r) / (2.0 * 1.0));
    let l = if p > 0.0 { p } else { n };
    let h = l + b;
    if l < h { (l, h) } else { (h, l) }
}
fn coeff_of(s: &BandPass) -> bool {
    let (lo, hi) = corners(s.central_f, s.quality);
    let c = coeffs(lo, hi);
    same64(s.a0, c[0]) && same64(s.b1, c[1]) && same64(s.b2, c[2])
}
//# C15
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::tan, tan)]
#[kani::stub(f64::sqrt, sqrt)]
pub fn bp_new() {
    let (f, q): (f64, f64) = kani::any();
    let s = BandPass::new(f, q);
    assert!(fresh(&s), "band pass: not at rest when new");
    assert!(same64(s.central_f, f) && same64(s.quality, q), "band pass: not the frequency and quality given");
    assert!(coeff_of(&s), "band pass: wrong coefficients when new");
    kani::cover!(true, "reached");
}
//# C15
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::tan, tan)]
#[kani::stub(f64::sqrt, sqrt)]
pub fn bp_set() {
    let (f, q): (f64, f64) = kani::any();
    let mut s = any(Dom::All);
    let o = snap(&s);
    s.set_central_frequency(f);
    assert!(same64(s.central_f, f) && same64(s.quality, o.q), "band pass: not the frequency set");
    assert!(coeff_of(&s), "band pass: wrong coefficients when the frequency was set");
    s.set_quality(q);
    assert!(same64(s.central_f, f) && same64(s.quality, q), "band pass: not the quality set");
    assert!(coeff_of(&s), "band pass: wrong coefficients when the quality was set");
    assert!(same32(s.x1, o.x[0]) && same32(s.x2, o.x[1]) && same32(s.y1, o.y[0]) && same32(s.y2, o.y[1]), "band pass: setting a parameter disturbs the signal");
    kani::cover!(true, "reached");
}
//# C15
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::tan, tan)]
#[kani::stub(f64::sqrt, sqrt)]
#[kani::stub(f64::abs, abs64)]
pub fn bp_from_corners() {
    let (f, g): (f64, f64) = kani::any();
    let s = BandPass::from_corners((f, g));
    assert!(fresh(&s), "band pass: not at rest when made from corners");
    assert!(same64(s.central_f, sqrt((f * g).abs())), "band pass: not between the corners given");
    assert!(same64(s.quality, sqrt((f * g).abs()) / (g - f).abs()), "band pass: not as wide as the corners given");
    assert!(coeff_of(&s), "band pass: wrong coefficients when made from corners");
    kani::cover!(true, "reached");
}
//# C15
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::tan, tan)]
#[kani::stub(f64::sqrt, sqrt)]
#[kani::stub(f64::abs, abs64)]
pub fn bp_set_corners() {
    let (f, g): (f64, f64) = kani::any();
    let mut s = any(Dom::All);
    s.set_corner_frequencies((f, g));
    assert!(same64(s.central_f, sqrt(f * g)), "band pass: not between the corners set");
    assert!(same64(s.quality, sqrt(f * g) / (f - g).abs()), "band pass: not as wide as the corners set");
    assert!(coeff_of(&s), "band pass: wrong coefficients when the corners were set");
    kani::cover!(true, "reached");
}
//# C15
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::tan, tan)]
#[kani::stub(f64::sqrt, sqrt)]
pub fn bp_get_corners() {
    let s = any(Dom::All);
    let (l, h) = s.get_corner_frequencies();
    let (a, b) = corners(s.central_f, s.quality);
    assert!(same64(l, a), "band pass: lower corner");
    assert!(same64(h, b), "band pass: upper corner");
    kani::cover!(true, "reached");
}
//# C15
#[kani::proof]
pub fn bp_abs_is_abs() {
    let x: f64 = kani::any();
    assert!(same64(abs64(x), x.abs()), "abs64 is not the magnitude");
    kani::cover!(x < 0.0, "reached");
}
//# C29
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::tan, tan)]
#[kani::stub(f64::sqrt, sqrt)]
pub fn bp_params() {
    let (f, q, f2, q2): (f64, f64, f64, f64) = kani::any();
    let mut s = BandPass::new(f, q);
    assert!(same64(s.get_central_frequency(), f) && same64(s.get_quality(), q), "band pass: parameters not those given");
    s.process(kani::any());
    s.set_central_frequency(f2);
    assert!(same64(s.get_central_frequency(), f2) && same64(s.get_quality(), q), "band pass: frequency not the one set");
    s.set_quality(q2);
    s.process(kani::any());
    assert!(same64(s.get_central_frequency(), f2) && same64(s.get_quality(), q2), "band pass: quality not the one set");
    kani::cover!(true, "reached");
}
//# weak bp_params
#[kani::proof]
#[kani::stub(f64::tan, tan)]
#[kani::stub(f64::sqrt, sqrt)]
pub fn bp_params_w() { bp_params() }
// ---- the same at some frequencies, with real square roots and however computed ---
/// The square root, for the powers of two times numbers below the table's size.
pub fn root(x: f64) -> f64 {
    let mut r = if x > 1.0 { x } else { 1.0 };
    let mut i = 0;
    while i < 60 { let n = 0.5 * (r + x / r); if n == r || i > 50 { break; } r = n; i += 1; }
    r
}
fn near(a: f64, e: f64) -> bool { within(a, e, 1.0e-9 * (if e < 0.0 { -e } else { e }) + 1.0e-12) }
const C: [(f64, f64); 4] = [(900.0, 1600.0), (100.0, 400.0), (2500.0, 3600.0), (64.0, 10000.0)];
fn at(s: &BandPass, lo: f64, hi: f64) -> bool {
    let c = coeffs(lo, hi);
    let (l, h) = s.get_corner_frequencies();
    near(s.central_f, root(lo * hi)) && near(s.quality, root(lo * hi) / (hi - lo)) && near(s.a0, c[0]) && near(s.b1, c[1]) && near(s.b2, c[2]) && near(l, lo) && near(h, hi)
}
//# C15 weak bp_new bp_set bp_from_corners bp_set_corners bp_get_corners bounded="four pairs of corners"
#[kani::proof]
#[kani::unwind(62)]
#[kani::stub(f64::tan, tan)]
#[kani::stub(f64::sqrt, root)]
pub fn bp_at_corners() {
    let mut i = 0;
    while i < 4 {
        let ((lo, hi), (l2, h2)) = (C[i], C[(i + 1) % 4]);
        let (f, q) = (root(lo * hi), root(lo * hi) / (hi - lo));
        assert!(at(&BandPass::from_corners((lo, hi)), lo, hi) && at(&BandPass::from_corners((hi, lo)), lo, hi), "band pass: wrong when made from corners");
        let mut s = BandPass::new(f, q);
        assert!(at(&s, lo, hi) && fresh(&s), "band pass: wrong when new");
        s.set_corner_frequencies((l2, h2));
        assert!(at(&s, l2, h2), "band pass: wrong when the corners were set");
        s.set_corner_frequencies((hi, lo));
        assert!(at(&s, lo, hi), "band pass: wrong when the corners were set");
        let mut s = BandPass::new(1.0, 1.0);
        if i % 2 == 0 { s.set_central_frequency(f); s.set_quality(q); } else { s.set_quality(q); s.set_central_frequency(f); }
        assert!(at(&s, lo, hi), "band pass: wrong when frequency and quality were set");
        i += 1;
    }
    kani::cover!(true, "reached");
}
//# C10
#[kani::proof]
pub fn bp_clone() {
    let s = any(Dom::All);
    let c = s.clone();
    assert!(params(snap(&s), &c) && fresh(&c), "clone of a band pass: other parameters or not at rest");
    kani::cover!(true, "reached");
}
