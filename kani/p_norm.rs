//! Normalizing as a user sees it: a bounded stand-in, executed natively.
use crate::*;
use crate::vkp::*;
use crate::utils::*;

fn norm(t: &[f32], db: f64) {
    let mut u = t.to_vec();
    normalize(db, &mut u);
    assert!(u.len() == t.len(), "normalize: another length: {:?}", t);
    if t.is_empty() { return; }
    let m = t.iter().map(|x| *x as f64).sum::<f64>() / t.len() as f64;
    let p = t.iter().map(|x| (*x as f64 - m).abs()).fold(0.0, f64::max);
    let a = t.iter().map(|x| x.abs()).fold(0.0, f32::max) as f64;
    let g = 10f64.powf(db / 20.0);
    if p <= 1e-5 * a {
        // nothing but an offset, up to rounding
        if t.iter().all(|x| *x == t[0] && (x * 64.0).fract() == 0.0) { assert!(u.iter().all(|x| *x == 0.0), "normalize: silence not silent: {:?}", t); }
        return;
    }
    if p <= 1e-3 * a { return; }
    for i in 0..t.len() {
        assert!((u[i] as f64 - (t[i] as f64 - m) / p * g).abs() <= 2e-3 * g, "normalize: sample {} of {:?} to {} dB is {}", i, &t[..t.len().min(200)], db, u[i]);
    }
    let q = u.iter().map(|x| x.abs()).fold(0.0, f32::max) as f64;
    assert!((q - g).abs() <= 1e-4 * g, "normalize: largest of {:?} to {} dB is {}", &t[..t.len().min(200)], db, q);
}
//# C21 native weak norm_sum norm_peak norm_track fallback norm_sum norm_peak norm_track bounded='every track of one to four samples of seven values; 3000 others of up to 200 samples, some of up to 300000'
pub fn norm_plays() {
    let v = [0.0, 0.5, -0.5, 1.0, -0.25, 3.0, -2.0];
    for n in 0..5u32 {
        for k in 0..7usize.pow(n) {
            let t: Vec<f32> = (0..n).map(|i| v[k / 7usize.pow(i) % 7]).collect();
            for db in [0.0, -6.0, 12.0].iter() { norm(&t, *db); }
        }
    }
    let mut r = 12345u64;
    let mut any = || { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (r >> 40) as f32 / (1u64 << 24) as f32 };
    for i in 0..3000usize {
        let n = 1 + i % 200;
        let (s, o) = ([1.0, 1e-3, 1e-6, 30.0, 1000.0, 1e-9, 1e-20, 1e7, 0.1][i % 9], [0.0, 0.3, -1.0, 5.0][i / 9 % 4]);
        let t: Vec<f32> = (0..n).map(|_| ((any() - 0.5) * 2.0 + o) * s).collect();
        norm(&t, [0.0, -6.0, -96.0, 20.0][i % 4]);
    }
    // long ones, of sums that are exact; the largest sample anywhere
    for (n, at) in [(5000, 4999), (70_000, 0), (70_000, 69_999), (70_000, 66_000), (300_000, 250_000)].iter() {
        for o in [0.0, 0.25, -0.25].iter() { for top in [3.0, -2.5].iter() {
            let mut t: Vec<f32> = (0..*n).map(|_| ((any() - 0.5) * 64.0).round() / 64.0 * if *n > 100_000 { 0.5 } else { 1.0 } + if *n > 100_000 { 0.0 } else { *o }).collect();
            // another mean in some part of it
            if *o >= 0.0 { let h = if *o == 0.0 { *n * 2 / 3..*n } else { 0..*n / 9 }; for x in t[h].iter_mut() { *x += 0.5; } }
            t[*at] = *top;
            norm(&t, -3.0);
        } }
    }
}
