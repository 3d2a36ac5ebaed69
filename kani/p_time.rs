// C07: conversion between times and numbers of samples.
use crate::*;
use crate::utils::*;
use crate::vkp::*;
use std::time::Duration;

/// Notes the argument of Duration::from_secs_f64 (assumed: the duration nearest to it).
static mut SECS: Option<f64> = None;
pub fn note_secs(x: f64) -> Duration { unsafe { SECS = Some(x); } Duration::new(7, 7) }
//# C07
#[kani::proof]
#[kani::solver(cvc5)]
#[kani::stub(std::time::Duration::from_secs_f64, note_secs)]
pub fn to_seconds() {
    let n: usize = kani::any();
    let d = samples_to_seconds(n);
    assert!(d == Duration::new(7, 7) && unsafe { SECS } == Some(n as f64 / 48000.0), "n samples do not last n/48000 s");
    kani::cover!(true, "reached");
}
//# C07
#[kani::proof]
#[kani::solver(cvc5)]
pub fn to_samples() {
    let (s, n): (u64, u32) = kani::any();
    kani::assume(n < 1_000_000_000);
    let d = Duration::new(s, n);
    assert!(seconds_to_samples(d) == (d.as_secs_f64() * 48000.0).round() as usize, "not the number of samples nearest to the time");
    kani::cover!(true, "reached");
}
//# C07 bounded="up to 1023 samples"
#[kani::proof]
pub fn roundtrip_small() {
    let n: u16 = kani::any();
    kani::assume(n < 1024);
    let n = n as usize;
    let d = samples_to_seconds(n);
    let ns = n as u64 * 1_000_000_000 / 48000;
    let m = d.as_secs() * 1_000_000_000 + d.subsec_nanos() as u64;
    assert!(m == ns || m == ns + 1, "n samples do not last n/48000 s");
    assert!(seconds_to_samples(d) == n, "a number of samples does not come back from its time");
    kani::cover!(n > 1000, "reached");
}
//# weak to_seconds
#[kani::proof]
pub fn to_seconds_small() {
    let (n, far): (u16, bool) = kani::any();
    kani::assume(n < 1024);
    let n = if far { (n as u64) << 20 | 0x5a5a5 } else { n as u64 };
    let d = samples_to_seconds(n as usize);
    let ns = n as u64 * 1_000_000_000 / 48000;
    let m = d.as_secs() * 1_000_000_000 + d.subsec_nanos() as u64;
    assert!(m == ns || m == ns + 1, "n samples do not last n/48000 s");
}
//# weak to_samples
#[kani::proof]
pub fn to_samples_small() {
    // times away from the middle between two samples
    let (s, n): (u8, u16) = kani::any();
    kani::assume(s < 4 && n < 256);
    let ns = n as u64 * 15000; // .. < 1 s
    let s = s as u64 * 4999; // up to four hours
    let d = Duration::new(s, ns as u32);
    // 48000 * 15000e-9 = 0.72 samples
    let e = 72 * n as u64;
    kani::assume(e % 100 != 50);
    assert!(seconds_to_samples(d) as u64 == s * 48000 + (e + 50) / 100, "not the number of samples nearest to the time");
}
//# C07 native weak to_seconds to_samples fallback to_seconds to_samples roundtrip_small bounded='every number of samples to 2^22 and some of every size to 2^45, some times to 30000 years'
pub fn times_play() {
    let mut r = 0x9e37_79b9_7f4a_7c15u64;
    let mut rand = move || { r ^= r << 13; r ^= r >> 7; r ^= r << 17; r };
    let mut check = |n: u64| {
        let d = samples_to_seconds(n as usize);
        let (ns, e) = (d.as_nanos() as i128, n as i128 * 1_000_000_000);
        // as near as double precision is, at least to the nanosecond
        let t = 48000 + (e >> 50);
        assert!((ns * 48000 - e).abs() <= t, "{} samples last {:?}", n, d);
        assert!(seconds_to_samples(d) as u64 == n, "{} samples last {:?}, which come back as {}", n, d, seconds_to_samples(d));
    };
    for n in 0..1 << 22 { check(n); }
    for k in 22..45 {
        for i in 0..2000u64 { check((1 << k) + i); check((1 << k) - 1 - i); check((1 << k) + rand() % (1 << k)); check(((1u64 << k) / 48000 + i) * 48000); }
    }
    for k in 0..60 {
        for i in 0..4000 {
            let ns = (1u64 << k) as u128 * (1 + i % 17) as u128 + if i % 3 == 0 { 0 } else { (rand() % (1 << k)) as u128 };
            if ns > 1_000_000_000_000_000_000_000 { continue; }
            // the same time to the half of a sample: 48000 ns / 10^9
            let d = Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32);
            let (a, f) = (ns * 48000 / 1_000_000_000, ns * 48000 % 1_000_000_000);
            let m = seconds_to_samples(d) as u128;
            let t = 10 + (ns * 48000 >> 50);
            let e = if f < 500_000_000 { a } else { a + 1 };
            assert!(m == e || (f as i128 - 500_000_000).abs() as u128 <= t && (m == a || m == a + 1), "{:?} is {} samples instead of {}", d, m, e);
        }
    }
}
