// C03: arithmetic of Mono and Stereo acts on every channel by itself, and the
// assigning forms leave what the binary forms return.
use crate::*;
use crate::vkp::*;
use std::ops::*;

// Operands of the second opinion: a table of numbers that tell the operators,
// their precision and their operands apart (each is one IEEE operation, so that
// there is no other order of evaluation to allow for).
const T: [f64; 16] = [0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3.0, -2.7, 1.000000001, 7.0, -100.25, 1.0e-30, 3.0e38, -1.0e-42, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
fn pick() -> f64 { let i: u8 = kani::any(); kani::assume(i < 16); T[i as usize] }
fn f32_in(d: Dom) -> f32 { if d == Dom::Int { pick() as f32 } else { kani::any() } }
fn f64_in(d: Dom) -> f64 { if d == Dom::Int { pick() } else { kani::any() } }

fn mono(d: Dom) -> Mono { Mono { mono: f32_in(d) } }
fn stereo(d: Dom) -> Stereo { Stereo { left: f32_in(d), right: f32_in(d) } }
fn is_m(a: Mono, v: f32) -> bool { same32(a.mono, v) }
fn is_s(a: Stereo, l: f32, r: f32) -> bool { same32(a.left, l) && same32(a.right, r) }

fn mono_add_sub(d: Dom) {
    let (a, b) = (mono(d), mono(d));
    assert!(is_m(a + b, a.mono + b.mono), "Mono + Mono");
    assert!(is_m(a - b, a.mono - b.mono), "Mono - Mono");
    assert!(is_m(-a, -a.mono), "-Mono");
    let mut c = a; c += b;
    assert!(is_m(c, a.mono + b.mono), "Mono += Mono");
    let mut c = a; c -= b;
    assert!(is_m(c, a.mono - b.mono), "Mono -= Mono");
    kani::cover!(true, "reached");
}
fn mono_mul(d: Dom) {
    let (a, b) = (mono(d), mono(d));
    assert!(is_m(a * b, a.mono * b.mono), "Mono * Mono");
    let mut c = a; c *= b;
    assert!(is_m(c, a.mono * b.mono), "Mono *= Mono");
    kani::cover!(true, "reached");
}
fn mono_mul_s(d: Dom) {
    let (a, k) = (mono(d), f32_in(d));
    assert!(is_m(a * k, a.mono * k), "Mono * SampleT");
    let mut c = a; c *= k;
    assert!(is_m(c, a.mono * k), "Mono *= SampleT");
    kani::cover!(true, "reached");
}
fn mono_mul_m(d: Dom) {
    let (a, k) = (mono(d), f64_in(d));
    let v = (a.mono as f64 * k) as f32;
    assert!(is_m(a * k, v), "Mono * MathT");
    let mut c = a; c *= k;
    assert!(is_m(c, v), "Mono *= MathT");
    kani::cover!(true, "reached");
}
fn stereo_add_sub(d: Dom) {
    let (a, b) = (stereo(d), stereo(d));
    assert!(is_s(a + b, a.left + b.left, a.right + b.right), "Stereo + Stereo");
    assert!(is_s(a - b, a.left - b.left, a.right - b.right), "Stereo - Stereo");
    assert!(is_s(-a, -a.left, -a.right), "-Stereo");
    let mut c = a; c += b;
    assert!(is_s(c, a.left + b.left, a.right + b.right), "Stereo += Stereo");
    let mut c = a; c -= b;
    assert!(is_s(c, a.left - b.left, a.right - b.right), "Stereo -= Stereo");
    kani::cover!(true, "reached");
}
fn stereo_mul(d: Dom) {
    let (a, b) = (stereo(d), stereo(d));
    let (l, r) = (a.left * b.left, a.right * b.right);
    assert!(is_s(a * b, l, r), "Stereo * Stereo");
    let mut c = a; c *= b;
    assert!(is_s(c, l, r), "Stereo *= Stereo");
    kani::cover!(true, "reached");
}
fn stereo_mul_s(d: Dom) {
    let (a, k) = (stereo(d), f32_in(d));
    let (l, r) = (a.left * k, a.right * k);
    assert!(is_s(a * k, l, r), "Stereo * SampleT");
    let mut c = a; c *= k;
    assert!(is_s(c, l, r), "Stereo *= SampleT");
    kani::cover!(true, "reached");
}
fn stereo_mul_m(d: Dom) {
    let (a, k) = (stereo(d), f64_in(d));
    let (l, r) = ((a.left as f64 * k) as f32, (a.right as f64 * k) as f32);
    assert!(is_s(a * k, l, r), "Stereo * MathT");
    let mut c = a; c *= k;
    assert!(is_s(c, l, r), "Stereo *= MathT");
    kani::cover!(true, "reached");
}
fn defaults() {
    assert!(is_m(Mono::default(), 0.0) && is_m(Mono::new(), 0.0), "a new Mono is not silent");
    assert!(is_s(Stereo::default(), 0.0, 0.0) && is_s(Stereo::new(), 0.0, 0.0), "a new Stereo is not silent");
    kani::cover!(true, "reached");
}

//@GEN C03 mono_add_sub mono_mul mono_mul_s mono_mul_m stereo_add_sub stereo_mul stereo_mul_s stereo_mul_m solver=cvc5 timeout=60
//# C03
#[kani::proof]
pub fn p_defaults() { defaults() }
//# C03 native weak mono_add_sub mono_mul mono_mul_s mono_mul_m stereo_add_sub stereo_mul stereo_mul_s stereo_mul_m fallback mono_add_sub mono_mul mono_mul_s mono_mul_m stereo_add_sub stereo_mul stereo_mul_s stereo_mul_m bounded='pairs of a hundred thousand numbers of all magnitudes'
pub fn ops_play() {
    let mut r = 0x2545_f491_4f6c_dd1du64;
    let mut rand = move || { r ^= r << 13; r ^= r >> 7; r ^= r << 17; r };
    // two numbers related in some way: alike, opposite, far apart, special
    for i in 0..200_000u32 {
        let mut f = |k: u32| -> f64 {
            let u = rand();
            let x = match k {
                0 => T[(u % 16) as usize],
                1 => f32::from_bits(u as u32) as f64,
                2 => (u % 2001) as f64 / 1000.0 - 1.0,
                3 => (u % 41) as f64 / 2.0 - 10.0,
                4 => f64::from_bits(u),
                _ => (u % 2000001) as f64 - 1000000.0,
            };
            if u >> 60 == 3 { -x } else { x }
        };
        let (a, b, c, d) = (f(i % 6), f(i / 6 % 6), f(i / 36 % 6), f(i / 216 % 6));
        let (b, c) = (if i % 31 == 0 { -a } else if i % 37 == 0 { a } else { b }, if i % 29 == 0 { a } else if i % 23 == 0 { b } else { c });
        let (l, m, u, v) = (a as f32, b as f32, c as f32, d as f32);
        let is = |op: &str, x: Stereo, l2: f32, r2: f32| assert!(same32(x.left, l2) && same32(x.right, r2), "({}, {}) {} ({}, {}, {}) is ({}, {})", l, m, op, u, v, d, x.left, x.right);
        let im = |op: &str, x: Mono, e: f32| assert!(same32(x.mono, e), "{} {} ({}, {}) is {}", l, op, m, b, x.mono);
        let (s, t) = (Stereo { left: l, right: m }, Stereo { left: u, right: v });
        let (p, q) = (Mono { mono: l }, Mono { mono: m });
        is("+", s + t, l + u, m + v);
        is("-", s - t, l - u, m - v);
        is("*", s * t, l * u, m * v);
        is("* f32", s * v, l * v, m * v);
        is("* f64", s * d, (l as f64 * d) as f32, (m as f64 * d) as f32);
        is("neg", -s, -l, -m);
        im("+", p + q, l + m);
        im("-", p - q, l - m);
        im("*", p * q, l * m);
        im("* f32", p * m, l * m);
        im("* f64", p * b, (l as f64 * b) as f32);
        im("neg", -p, -l);
        let mut x = s; x += t; is("+=", x, l + u, m + v);
        let mut x = s; x -= t; is("-=", x, l - u, m - v);
        let mut x = s; x *= t; is("*=", x, l * u, m * v);
        let mut x = s; x *= v; is("*= f32", x, l * v, m * v);
        let mut x = s; x *= d; is("*= f64", x, (l as f64 * d) as f32, (m as f64 * d) as f32);
        let mut x = p; x += q; im("+=", x, l + m);
        let mut x = p; x -= q; im("-=", x, l - m);
        let mut x = p; x *= q; im("*=", x, l * m);
        let mut x = p; x *= m; im("*= f32", x, l * m);
        let mut x = p; x *= b; im("*= f64", x, (l as f64 * b) as f32);
    }
}
