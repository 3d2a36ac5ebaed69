// C04: conversions between samples, formats and integer vectors.
use crate::*;
use crate::vkp::*;
use std::convert::TryFrom;

/// A vector of any length whose first three elements are given; the contents
/// past them are arbitrary.
fn vec_of<T: Copy>(n: usize, a: [T; 3]) -> Vec<T> {
    let mut v: Vec<T> = Vec::with_capacity(n);
    unsafe { v.set_len(n); }
    if n > 0 { v[0] = a[0]; }
    if n > 1 { v[1] = a[1]; }
    if n > 2 { v[2] = a[2]; }
    v
}
fn any_len() -> usize { let n: usize = kani::any(); kani::assume(n <= 1 << 24); n }
pub fn no_fmt(_: std::fmt::Arguments<'_>) -> String { String::new() }

macro_rules! from_vec {
    ($m:ident, $s:ident, $t:ty, $dec:path) => {
        fn $m(_: Dom) {
            let (n, a): (usize, [$t; 3]) = (any_len(), kani::any());
            match Mono::try_from(vec_of(n, a)) {
                Ok(x) => assert!(n >= 1 && same32(x.mono, $dec(a[0])), "Mono from a vector: not its first element"),
                Err(_) => assert!(n < 1, "Mono from a vector: long enough but refused"),
            }
            kani::cover!(n > 1, "long");
            kani::cover!(n == 0, "short");
        }
        fn $s(_: Dom) {
            let (n, a): (usize, [$t; 3]) = (any_len(), kani::any());
            match Stereo::try_from(vec_of(n, a)) {
                Ok(x) => assert!(n >= 2 && same32(x.left, $dec(a[0])) && same32(x.right, $dec(a[1])), "Stereo from a vector: not its first two elements"),
                Err(_) => assert!(n < 2, "Stereo from a vector: long enough but refused"),
            }
            kani::cover!(n > 2, "long");
            kani::cover!(n == 1, "short");
        }
    };
}
from_vec!(mono_u8, stereo_u8, u8, sample_from_u8);
from_vec!(mono_i16, stereo_i16, i16, sample_from_i16);
from_vec!(mono_i24, stereo_i24, i32, sample_from_i24);
//@GEN C04 mono_u8 stereo_u8 mono_i16 stereo_i16 mono_i24 stereo_i24 stub=alloc::fmt::format,no_fmt weak=no

macro_rules! into_vec {
    ($m:ident, $t:ty, $enc:path) => {
        fn $m(d: Dom) {
            let (a, b) = (f32_in(d), f32_in(d));
            let v: Vec<$t> = Mono { mono: a }.into();
            assert!(v.len() == Mono::num_samples() && v[0] == $enc(a), "vector from Mono");
            let v: Vec<$t> = Stereo { left: a, right: b }.into();
            assert!(v.len() == Stereo::num_samples() && v[0] == $enc(a) && v[1] == $enc(b), "vector from Stereo");
            kani::cover!(true, "reached");
        }
    };
}
into_vec!(into_u8, u8, sample_to_u8);
into_vec!(into_i16, i16, sample_to_i16);
into_vec!(into_i24, i32, sample_to_i24);
//@GEN C04 into_u8 into_i16 into_i24 solver=cvc5

// One sample into a format and back.
fn mono_level(d: Dom) {
    let x = f32_in(d);
    assert!(same32(Mono::from_sample(x).mono, x) && same32(Mono::from(x).mono, x), "Mono of a sample");
    let m: Mono = <Mono as From<SampleT>>::from(x);
    assert!(same32(m.mono, x), "Mono from a sample");
    let y: SampleT = m.into();
    assert!(same32(y, x) && same32(m.into_sample(), x), "sample of a Mono");
    assert!(Mono::num_samples() == 1 && Stereo::num_samples() == 2, "number of samples of a format");
    kani::cover!(true, "reached");
}
//@GEN C04 mono_level solver=cvc5
const R: f64 = std::f64::consts::FRAC_1_SQRT_2;
fn close(y: f32, v: f64, s: f64) -> bool { (y as f64 - v) <= 4.0e-7 * s && (v - y as f64) <= 4.0e-7 * s }
fn stereo_level_all(d: Dom) {
    let (x, l, r) = (f32_in(d), f32_in(d), f32_in(d));
    let k: f32 = 0.70710678118654752440;
    let s = Stereo::from_sample(x);
    assert!(same32(s.left, x * k) && same32(s.right, x * k), "Stereo of a sample: not its level at equal power");
    let t: Stereo = <Stereo as From<SampleT>>::from(x);
    assert!(same32(t.left, s.left) && same32(t.right, s.right), "Stereo from a sample");
    let q = Stereo { left: l, right: r };
    assert!(same32(q.into_sample(), (l + r) * k), "sample of a Stereo: not the level of its sides at equal power");
    let y: SampleT = q.into();
    assert!(same32(y, q.into_sample()), "sample from a Stereo");
    let p = Stereo::from(l, r);
    assert!(same32(p.left, l) && same32(p.right, r), "Stereo from two samples");
    kani::cover!(true, "reached");
}
//# C04
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(f32::sqrt, crate::vkp::sqrt_half)]
pub fn stereo_level() { stereo_level_all(Dom::All) }
//# weak stereo_level
#[kani::proof]
pub fn stereo_level_close() {
    // whatever the order of evaluation: within a few units in the last place
    let (x, l, r) = (f32_in(Dom::Int), f32_in(Dom::Int), f32_in(Dom::Int));
    let s = Stereo::from_sample(x);
    let t: Stereo = <Stereo as From<SampleT>>::from(x);
    let a = (x as f64).abs();
    assert!(close(s.left, x as f64 * R, a) && close(s.right, x as f64 * R, a), "Stereo of a sample: not its level at equal power");
    assert!(close(t.left, x as f64 * R, a) && close(t.right, x as f64 * R, a), "Stereo from a sample");
    let q = Stereo { left: l, right: r };
    let b = (l as f64).abs() + (r as f64).abs();
    let y: SampleT = q.into();
    assert!(close(q.into_sample(), (l as f64 + r as f64) * R, b) && close(y, (l as f64 + r as f64) * R, b), "sample of a Stereo");
    let p = Stereo::from(l, r);
    assert!(same32(p.left, l) && same32(p.right, r), "Stereo from two samples");
}
//# C04
#[kani::proof]
pub fn stereo_roundtrip() {
    let x: i16 = kani::any();
    let y = Stereo::from_sample(x as f32).into_sample();
    assert!(close(y, x as f64, (x as f64).abs()), "a sample made Stereo and back changes its level");
    kani::cover!(true, "reached");
}
//# C04 native weak stereo_level fallback stereo_level mono_level bounded='a hundred thousand samples of all magnitudes'
pub fn levels_play() {
    let mut u = 0x9e37_79b9_7f4a_7c15u64;
    let mut x = |k: u32| -> f32 {
        u ^= u << 13; u ^= u >> 7; u ^= u << 17;
        match k % 5 { 0 => ((u >> 8) % 2001) as f32 / 1000.0 - 1.0, 1 => f32::from_bits(u as u32 & 0xbfff_ffff), 2 => [0.0, 1.0, -1.0, 2.0, -3.0, 1.0e-40, 1.0e20, -1.0e-20][(u >> 8) as usize % 8], 3 => ((u >> 8) % 2001) as f32 - 1000.0, _ => ((u >> 8) % 2001) as f32 * 1.0e-7 }
    };
    for i in 0..100_000u32 {
        let (a, l, r) = (x(i), x(i / 5), if i % 50 == 49 { 0.0 } else { x(i / 25) });
        let r = if i % 11 == 0 { l } else if i % 13 == 0 { -l } else { r };
        if !a.is_finite() || !l.is_finite() || !r.is_finite() { continue; }
        let e = a as f64 * R;
        let is = |y: f32, e: f64, b: f64, what: &str| assert!((y as f64 - e).abs() <= 4.0e-7 * b + 1.0e-44, "{} of {} and {}, {}: {} instead of {}", what, a, l, r, y, e);
        for s in [Stereo::from_sample(a), <Stereo as From<SampleT>>::from(a)].iter() {
            is(s.left, e, e.abs(), "left side");
            is(s.right, e, e.abs(), "right side");
        }
        let q = Stereo { left: l, right: r };
        let b = (l as f64).abs() + (r as f64).abs();
        if b < 1.0e38 {
            is(q.into_sample(), (l as f64 + r as f64) * R, b, "sample");
            let y: SampleT = q.into();
            is(y, (l as f64 + r as f64) * R, b, "sample");
        }
        let y: SampleT = <Mono as From<SampleT>>::from(a).into();
        assert!(y == a && Mono::from_sample(a).into_sample() == a && Mono::from_sample(a).mono == a, "mono of {}", a);
    }
}
