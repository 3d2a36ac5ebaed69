// C05 panning, C06 interpolation, C28 decibels.
use crate::*;
use crate::utils::*;
use crate::vkp::*;

// ---- C06 ---------------------------------------------------------------------
fn line(x: f64, x1: f64, x2: f64, y1: f64, y2: f64) -> f64 { ((y2 - y1) / (x2 - x1)) * (x - x1) + y1 }
fn line32(x: f32, x1: f32, x2: f32, y1: f32, y2: f32) -> f32 { ((y2 - y1) / (x2 - x1)) * (x - x1) + y1 }
fn into(x: f64, a: f64, b: f64) -> f64 {
    let (lo, hi) = if a > b { (b, a) } else { (a, b) };
    if x > hi { hi } else if x < lo { lo } else { x }
}
//# C06
#[kani::proof]
#[kani::solver(cvc5)]
pub fn lerp_line() {
    let (x, x1, x2, y1, y2): (f64, f64, f64, f64, f64) = kani::any();
    assert!(same64(lerp(x, x1, x2, y1, y2), line(x, x1, x2, y1, y2)), "lerp is not the line through the two points");
    let (u, u1, u2, v1, v2): (f32, f32, f32, f32, f32) = kani::any();
    assert!(same32(lerp(u, u1, u2, v1, v2), line32(u, u1, u2, v1, v2)), "lerp is not the line through the two points (f32)");
    kani::cover!(true, "reached");
}
//# C06
#[kani::proof]
#[kani::solver(cvc5)]
pub fn clerp_clamps() {
    let (x, x1, x2, y1, y2): (f64, f64, f64, f64, f64) = kani::any();
    kani::assume(!x.is_nan() && x1.is_finite() && x2.is_finite());
    assert!(same64(clerp(x, x1, x2, y1, y2), line(into(x, x1, x2), x1, x2, y1, y2)), "clerp is not the line, held at its ends outside of them");
    kani::cover!(x > x1 && x1 > x2, "reached");
}
fn ends() -> (f64, f64) {
    // two different ends whose distance is a power of two
    let (a, k, s): (i8, u8, bool) = kani::any();
    kani::assume(a >= -8 && a < 8 && k < 4);
    let w = (1u8 << k) as f64;
    (a as f64, if s { a as f64 + w } else { a as f64 - w })
}
//# weak lerp_line
#[kani::proof]
pub fn lerp_line_grid() {
    let ((x1, x2), y1, y2) = (ends(), f64_in(Dom::Int), f64_in(Dom::Int));
    let x = f64_in(Dom::Int) / 2.0;
    assert!((lerp(x, x1, x2, y1, y2) - y1) * (x2 - x1) == (y2 - y1) * (x - x1), "lerp is not the line through the two points");
    assert!((lerp(x as f32, x1 as f32, x2 as f32, y1 as f32, y2 as f32) as f64 - y1) * (x2 - x1) == (y2 - y1) * (x - x1), "lerp is not the line through the two points (f32)");
}
//# weak clerp_clamps
#[kani::proof]
pub fn clerp_clamps_grid() {
    let ((x1, x2), y1, y2) = (ends(), f64_in(Dom::Int), f64_in(Dom::Int));
    let x: i8 = kani::any();
    let x = x as f64 / 4.0;
    assert!((clerp(x, x1, x2, y1, y2) - y1) * (x2 - x1) == (y2 - y1) * (into(x, x1, x2) - x1), "clerp is not the line, held at its ends outside of them");
}
//# C06
#[kani::proof]
#[kani::solver(cvc5)]
pub fn lerp_start() {
    let (x1, x2, y1, y2): (f64, f64, f64, f64) = kani::any();
    kani::assume(x1.abs() <= 65536.0 && x2.abs() <= 65536.0 && y1.abs() <= 65536.0 && y2.abs() <= 65536.0);
    kani::assume(x2 - x1 >= 1.0/65536.0 || x1 - x2 >= 1.0/65536.0);
    assert!(lerp(x1, x1, x2, y1, y2) == y1, "lerp does not start at its first point");
    kani::cover!(true, "reached");
}

// ---- C28 ---------------------------------------------------------------------
//# C28
#[kani::proof]
#[kani::stub(f64::powf, crate::vkp::powf_log)]
#[kani::stub(f64::exp, crate::vkp::exp_log)]
#[kani::stub(f64::exp2, crate::vkp::exp2_log)]
pub fn db_to_linear_law() {
    let k: i16 = kani::any();
    let db = k as f64 / 64.0;
    assert!(within(db_to_linear(db) * 20.0, db, 1.0e-9), "db_to_linear(d) is not 10^(d/20)");
    kani::cover!(true, "reached");
}
//# C28
#[kani::proof]
#[kani::stub(f64::log10, crate::vkp::log10_log)]
#[kani::stub(f64::ln, crate::vkp::ln_log)]
#[kani::stub(f64::log2, crate::vkp::log2_log)]
#[kani::stub(f64::log, crate::vkp::log_log)]
pub fn linear_to_db_law() {
    let k: i16 = kani::any();
    let g = k as f64 / 64.0;
    assert!(within(linear_to_db(g), 20.0 * g, 1.0e-9), "linear_to_db(g) is not 20 log10(g)");
    kani::cover!(true, "reached");
}
//# C28
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::powf, crate::vkp::powf_log)]
#[kani::stub(f64::log10, crate::vkp::log10_log)]
pub fn db_laws_all() {
    let x: f64 = kani::any();
    assert!(same64(db_to_linear(x), x / 20.0), "db_to_linear(d) is not 10^(d/20)");
    assert!(same64(linear_to_db(x), 20.0 * x), "linear_to_db(g) is not 20 log10(g)");
    kani::cover!(true, "reached");
}
//# weak db_laws_all
#[kani::proof]
#[kani::stub(f64::powf, crate::vkp::powf_log)]
#[kani::stub(f64::exp, crate::vkp::exp_log)]
#[kani::stub(f64::exp2, crate::vkp::exp2_log)]
#[kani::stub(f64::log10, crate::vkp::log10_log)]
#[kani::stub(f64::ln, crate::vkp::ln_log)]
#[kani::stub(f64::log2, crate::vkp::log2_log)]
#[kani::stub(f64::log, crate::vkp::log_log)]
pub fn db_laws_close() {
    let k: i16 = kani::any();
    let x = k as f64 / 64.0;
    assert!(within(linear_to_db(x), 20.0 * x, 1.0e-9) && within(db_to_linear(x) * 20.0, x, 1.0e-9), "decibel conversion");
}

// ---- C05 ---------------------------------------------------------------------
/// Gain of the side panned to at 1, in dB.
fn law(p: f64) -> f64 {
    let p = if p > 1.0 { 1.0 } else if p < -1.0 { -1.0 } else { p };
    if p >= 0.0 { 3.0 * p - 3.0 } else { 117.0 * p - 3.0 }
}
fn pan<G>(g: f64, s: f32, conv: fn(f64) -> G) where Stereo: Panner<G> {
    let x = <Stereo as Panner<G>>::to_sample_format(s, conv(g));
    assert!(within(x.left as f64 * 20.0, law(-g) * s as f64, 1.0e-4), "left side: not the gain the panning law gives it");
    assert!(within(x.right as f64 * 20.0, law(g) * s as f64, 1.0e-4), "right side: not the gain the panning law gives it");
    kani::cover!(g > 1.0, "past the right end");
    kani::cover!(g == 0.0, "centre");
}
//# C05
#[kani::proof]
#[kani::stub(f64::powf, crate::vkp::powf_log)]
#[kani::stub(f64::exp, crate::vkp::exp_log)]
pub fn pan_grid_f32() { pan::<f32>(grid(), f32_in(Dom::Int), |x| x as f32) }
//# C05
#[kani::proof]
#[kani::stub(f64::powf, crate::vkp::powf_log)]
#[kani::stub(f64::exp, crate::vkp::exp_log)]
pub fn pan_grid_f64() { pan::<f64>(grid(), f32_in(Dom::Int), |x| x as f64) }
/// The law as the documented clamp of g gives it, for every g and s.
fn gain_l(g: f64) -> f64 { if g <= 0.0 { clerp(g, -1.0, 0.0, 0.0, -3.0) } else { clerp(g, 0.0, 1.0, -3.0, -120.0) } }
fn gain_r(g: f64) -> f64 { if g >= 0.0 { clerp(g, 0.0, 1.0, -3.0, 0.0) } else { clerp(g, -1.0, 0.0, -120.0, -3.0) } }
//# C05
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f64::powf, crate::vkp::powf_log)]
pub fn pan_all() {
    let (g, h, s): (f64, f32, f32) = kani::any();
    kani::assume(!g.is_nan() && !h.is_nan());
    let x = <Stereo as Panner<f64>>::to_sample_format(s, g);
    assert!(same32(x.left, (gain_l(g) / 20.0 * s as f64) as f32) && same32(x.right, (gain_r(g) / 20.0 * s as f64) as f32), "panning by an f64");
    let x = <Stereo as Panner<f32>>::to_sample_format(s, h);
    assert!(same32(x.left, (gain_l(h as f64) / 20.0 * s as f64) as f32) && same32(x.right, (gain_r(h as f64) / 20.0 * s as f64) as f32), "panning by an f32");
    kani::cover!(true, "reached");
}
//# weak pan_all
#[kani::proof]
#[kani::stub(f64::powf, crate::vkp::powf_log)]
#[kani::stub(f64::exp, crate::vkp::exp_log)]
pub fn pan_close_f64() {
    let k: i8 = kani::any();
    kani::assume(k >= -8 && k <= 8);
    pan::<f64>(k as f64 / 4.0, 1.0, |x| x as f64)
}
//# C05
#[kani::proof]
#[kani::solver(cvc5)]
pub fn pan_mono() {
    let (s, g): (f32, f64) = kani::any();
    assert!(same32(<Mono as Panner<f64>>::to_sample_format(s, g).mono, s), "panning a Mono changed the sample");
    assert!(same32(<Mono as Panner<f32>>::to_sample_format(s, g as f32).mono, s), "panning a Mono changed the sample");
    kani::cover!(true, "reached");
}

// ---- run natively ------------------------------------------------------------
struct Rand(u64);
impl Rand {
    fn u(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    /// From -1 to 1; the ends, the middle and small numbers often.
    fn x(&mut self) -> f64 {
        let u = self.u();
        let v = ((u >> 8) % 2000001) as f64 / 1.0e6 - 1.0;
        match u % 8 { 0 => [0.0, 1.0, -1.0, 0.5, -0.5, -0.0, 0.25, -0.75][(u >> 8) as usize % 8], 1 => v * 1.0e-3, 2 => v * 1.0e-7, _ => v }
    }
    fn wide(&mut self) -> f64 { let k = self.u() % 9; self.x() * [1.0, 1.0, 10.0, 100.0, 24000.0, 1.0e6, 1.0e9, 1.0e-4, 4.0][k as usize] }
}
//# C06 native weak lerp_line clerp_clamps fallback lerp_line clerp_clamps lerp_start bounded='a million lines and positions of all magnitudes to 10^9'
pub fn lerp_plays() {
    let mut r = Rand(77);
    for i in 0..1_000_000u32 {
        let w = 2.0f64.powi((r.u() % 24) as i32 - 10);
        let (x1, d) = (r.wide(), r.x() * w);
        let x2 = x1 + d;
        let (y1, y2) = (r.wide(), if i % 5 == 0 { r.wide() } else { r.x() });
        let x = match i % 4 { 0 => x1 + r.x() * d, 1 => x1 + r.x() * 3.0 * d, 2 => x2, _ => if i % 8 < 4 { x1 } else { r.wide() } };
        if !((x2 - x1).abs() >= 1.0e-6 * (1.0 + x1.abs())) { continue; }
        let judge = |y: f64, x: f64, u: f64, name: &str| {
            let t = (x - x1) / (x2 - x1);
            let e = y1 + (y2 - y1) * t;
            let tol = u * ((y1.abs() + y2.abs()) * (1.0 + t.abs()) * (8.0 + 4.0 * (x.abs() + x1.abs() + x2.abs()) / (x2 - x1).abs())) + 1.0e-300;
            assert!((y - e).abs() <= tol, "{}({}, {}, {}, {}, {}) is {} instead of {}", name, x, x1, x2, y1, y2, y, e);
        };
        judge(lerp(x, x1, x2, y1, y2), x, f64::EPSILON, "lerp");
        judge(clerp(x, x1, x2, y1, y2), into(x, x1, x2), f64::EPSILON, "clerp");
        assert!(lerp(x1, x1, x2, y1, y2) == y1, "lerp({}, {}, {}, {}, {}) is not {}", x1, x1, x2, y1, y2, y1);
        let (a, a1, a2, b1, b2) = (x as f32, x1 as f32, x2 as f32, y1 as f32, y2 as f32);
        if a1 as f64 == x1 && a2 as f64 == x2 && a as f64 == x && b1 as f64 == y1 && b2 as f64 == y2 || (a2 - a1).abs() >= 1.0e-2 * a1.abs() {
            let (a, a1, a2, b1, b2) = (a as f64, a1 as f64, a2 as f64, b1 as f64, b2 as f64);
            let judge = |y: f64, x: f64, name: &str| {
                let t = (x - a1) / (a2 - a1);
                let e = b1 + (b2 - b1) * t;
                let tol = 1.2e-7 * ((b1.abs() + b2.abs()) * (1.0 + t.abs()) * (8.0 + 4.0 * (x.abs() + a1.abs() + a2.abs()) / (a2 - a1).abs())) + 1.0e-35;
                assert!((y - e).abs() <= tol, "{}({}, {}, {}, {}, {}) is {} instead of {} in single precision", name, x, a1, a2, b1, b2, y, e);
            };
            if a1 != a2 {
                judge(lerp(a as f32, a1 as f32, a2 as f32, b1 as f32, b2 as f32) as f64, a, "lerp");
                judge(clerp(a as f32, a1 as f32, a2 as f32, b1 as f32, b2 as f32) as f64, into(a, a1, a2), "clerp");
            }
        }
    }
}
//# C28 native weak db_laws_all fallback db_laws_all db_to_linear_law linear_to_db_law bounded='a hundred thousand levels from -6000 to 6000 dB and gains from 10^-300 to 10^300'
pub fn db_plays() {
    let mut r = Rand(5);
    for i in 0..100_000u32 {
        let d = match i % 5 { 0 => i as f64 / 100.0 - 500.0, 1 => r.x() * 6000.0, 2 => r.x() * 200.0, 3 => r.x() * 3.0, _ => (i as f64 / 5.0).round() % 300.0 - 200.0 };
        let (g, e) = (db_to_linear(d), (d * std::f64::consts::LN_10 / 20.0).exp());
        assert!((g - e).abs() <= 1.0e-11 * e, "{} dB is {} instead of {}", d, g, e);
        let g = match i % 3 { 0 => e, 1 => r.x().abs(), _ => r.wide().abs() };
        if g > 0.0 {
            let (d, e) = (linear_to_db(g), 20.0 * g.ln() / std::f64::consts::LN_10);
            assert!((d - e).abs() <= 1.0e-11 * (1.0 + e.abs()), "a gain of {} is {} dB instead of {}", g, d, e);
        }
    }
    assert!(linear_to_db(0.0) == f64::NEG_INFINITY && linear_to_db(1.0) == 0.0 && db_to_linear(0.0) == 1.0 && db_to_linear(f64::NEG_INFINITY) == 0.0, "decibels of silence and of 1");
}
//# C05 native weak pan_all fallback pan_all pan_grid_f32 pan_grid_f64 pan_mono bounded='a hundred thousand positions and samples'
pub fn pan_plays() {
    let mut r = Rand(9);
    for i in 0..100_000u32 {
        let g = match i % 8 { 0 => r.wide(), 1 => r.x() * 1.5, 2 => [f64::INFINITY, f64::NEG_INFINITY, 1.0e30, -1.0e30, 1.0, -1.0, 0.0, -0.0][i as usize / 8 % 8], _ => r.x() };
        let s = match i % 5 { 0 => 1.0, 1 => r.wide() as f32, 2 => -0.5, 3 => 0.0, _ => r.x() as f32 };
        let judge = |x: Stereo, g: f64| {
            let (l, e) = ((law(-g) * std::f64::consts::LN_10 / 20.0).exp() * s as f64, (law(g) * std::f64::consts::LN_10 / 20.0).exp() * s as f64);
            let close = |a: f32, b: f64| (a as f64 - b).abs() <= 3.0e-7 * b.abs() + 1.0e-40;
            assert!(close(x.left, l) && close(x.right, e), "{} panned to {}: ({}, {}) instead of ({}, {})", s, g, x.left, x.right, l, e);
        };
        judge(<Stereo as Panner<f64>>::to_sample_format(s, g), g);
        judge(<Stereo as Panner<f32>>::to_sample_format(s, g as f32), g as f32 as f64);
        assert!(<Mono as Panner<f64>>::to_sample_format(s, g).mono == s && <Mono as Panner<f32>>::to_sample_format(s, g as f32).mono == s, "{} panned to {} in mono", s, g);
    }
}
