//! Sounds and channels as a user sees them, on the real graphs and maps: bounded
//! stand-ins, executed natively, for what is beyond the verifier's reach.
use crate::*;
use crate::vkp::*;
use crate::sounds::*;
use crate::channels::*;
use crate::sample_format::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Says twice its input plus its number, and how often it was processed times 100.
struct Node { x: f32, k: f32, n: f32 }
impl Block for Node {
    fn prime_input(&mut self, x: f32) { self.x += x; }
    fn process(&mut self) -> f32 { let y = 2.0 * self.x + self.k + 100.0 * self.n; self.x = 0.0; self.n += 1.0; y }
}
/// A sound of b blocks with some connections: nodes 0 and 1 are the gains.
fn graph(b: usize, edges: &[(usize, usize)], from: bool) -> (ComplexSound, Vec<GraphNode>) {
    let mut s = ComplexSound::new(2.0, 3.0);
    let mut v = vec![s.get_input_gain(), s.get_output_gain()];
    for i in 0..b { v.push(s.add_block(Arc::new(Node { x: 0.0, k: (i + 1) as f32, n: 0.0 }))); }
    if from { for e in edges { s.add_connection(v[e.0], v[e.1]); } }
    else { for e in edges.iter().rev() { s.add_connection(v[e.0], v[e.1]); s.add_connection(v[e.0], v[e.1]); } }
    (s, v)
}
fn check_order(s: &ComplexSound, v: &[GraphNode], edges: &[(usize, usize)]) -> Vec<usize> {
    let n = v.len();
    let o: Vec<usize> = s.get_nodes().iter().map(|x| v.iter().position(|y| y == x).unwrap()).collect();
    assert!(o.len() == n && (0..n).all(|i| o.contains(&i)), "order: not every block once: {:?} {:?}", edges, o);
    assert!(o[0] == 0 && o[n - 1] == 1, "order: not from input gain to output gain: {:?} {:?}", edges, o);
    let mut r = vec![vec![false; n]; n];
    for e in edges { r[e.0][e.1] = true; }
    for k in 0..n { for i in 0..n { for j in 0..n { r[i][j] = r[i][j] || r[i][k] && r[k][j]; } } }
    let at = |i: usize| o.iter().position(|x| *x == i).unwrap();
    for e in edges {
        if e.0 < 2 || e.1 < 2 || r[e.1][e.0] { continue; }
        assert!(at(e.0) < at(e.1), "order: a block before one connected to it: {:?} {:?}", edges, o);
    }
    o
}
fn check_sound(s: &mut ComplexSound, o: &[usize], edges: &[(usize, usize)]) {
    let mut x = vec![0.0; o.len()];
    for call in 0..3 {
        let (input, mut y) = ([3.0, -5.0, 1.0][call], 0.0);
        x[0] += input;
        for i in o {
            y = match i { 0 => 2.0 * x[0], 1 => 3.0 * x[1], _ => 2.0 * x[*i] + (*i - 1) as f32 + 100.0 * call as f32 };
            x[*i] = 0.0;
            for e in edges { if e.0 == *i { x[e.1] += y; } }
        }
        assert!(s.process(input) == y, "complex sound: not every block given the samples of those connected to it: {:?} {:?}", edges, o);
    }
}
/// Every set of these connections.
fn every(b: usize, pairs: &[(usize, usize)], always: &[(usize, usize)], f: &mut dyn FnMut(usize, &[(usize, usize)])) {
    for m in 0..1usize << pairs.len() {
        let mut e = always.to_vec();
        for (i, p) in pairs.iter().enumerate() { if m >> i & 1 == 1 { e.push(*p); } }
        f(b, &e);
    }
}
fn pairs(l: &[usize], own: bool) -> Vec<(usize, usize)> {
    l.iter().flat_map(|a| l.iter().map(move |b| (*a, *b))).filter(|p| own || p.0 != p.1).collect()
}
fn all(f: &mut dyn FnMut(usize, &[(usize, usize)])) {
    // two blocks, connected in every way
    every(2, &pairs(&[0, 1, 2, 3], true), &[], f);
    // three blocks, connected in every way from the input gain to the output gain
    let mut p = pairs(&[2, 3, 4], false);
    p.extend_from_slice(&[(0, 1), (0, 2), (0, 3), (0, 4), (2, 1), (3, 1), (4, 1)]);
    every(3, &p, &[], f);
    // four blocks behind the input and before the output gain
    every(4, &pairs(&[2, 3, 4, 5], false), &[(0, 2), (0, 5), (3, 1), (4, 1)], f);
}
//# C24 native weak complex_order_made complex_new complex_add fallback complex_order_made complex_new complex_add bounded='graphs of two blocks; acyclic at the gains of three; some of four (every set of connections)'
pub fn complex_order() {
    let mut i = 0;
    all(&mut |b, e| {
        i += 1;
        let (s, v) = graph(b, e, i % 3 != 0);
        check_order(&s, &v, e);
    });
}
//# C24 native weak complex_order_made complex_changes complex_add fallback complex_order_made complex_changes complex_add bounded='graphs of three blocks, one connection added and removed at a time'
pub fn complex_order_changes() {
    let p = pairs(&[2, 3, 4], false);
    let mut i = 0;
    every(3, &p, &[(0, 2), (4, 1)], &mut |b, e| {
        let (mut s, v) = graph(b, e, true);
        for q in &p {
            i += 1;
            let mut f: Vec<_> = e.iter().cloned().filter(|x| x != q).collect();
            if e.contains(q) { s.remove_connection(v[q.0], v[q.1]); check_order(&s, &v, &f); s.remove_connection(v[q.0], v[q.1]); check_order(&s, &v, &f); }
            f.push(*q);
            s.add_connection(v[q.0], v[q.1]);
            let o = check_order(&s, &v, &f);
            if i % 16 == 0 { check_sound(&mut s, &o, &f); }
            if !e.contains(q) { s.remove_connection(v[q.0], v[q.1]); check_order(&s, &v, e); }
        }
        let mut w = v.clone();
        w.push(s.add_block(Arc::new(Node { x: 0.0, k: 9.0, n: 0.0 })));
        check_order(&s, &w, e);
    });
}
//# C25 native weak complex_process complex_new complex_add fallback complex_process complex_new complex_add bounded='graphs of two blocks; acyclic at the gains of three; some of four (every set of connections); three samples each'
pub fn complex_samples() {
    let mut i = 0;
    all(&mut |b, e| {
        i += 1;
        let (mut s, v) = graph(b, e, i % 3 != 0);
        let o = check_order(&s, &v, e);
        check_sound(&mut s, &o, e);
    });
}
//# C23 native weak complex_process complex_pause fallback complex_process complex_pause complex_switches bounded='one graph of two blocks, every sequence of ten steps of pausing, muting and playing'
pub fn complex_paused() {
    for h in 0..1usize << 20 {
        if h >> 10 & h & 0x3ff != 0 { continue; }
        let e = [(0, 2), (2, 3), (3, 1)];
        let (mut s, mut t) = (graph(2, &e, true).0, graph(2, &e, true).0);
        let (mut pause, mut mute) = (false, false);
        for i in 0..10 {
            if h >> i & 1 == 1 { s.toggle_pause(); pause = !pause; }
            if h >> (10 + i) & 1 == 1 { s.toggle_mute(); mute = !mute; }
            assert!(s.is_paused() == pause && s.is_muted() == mute, "complex sound: not paused and muted as it was asked to");
            let y = s.process(i as f32);
            if pause { assert!(y == 0.0, "complex sound: paused but not silent"); continue; }
            let z = t.process(i as f32);
            assert!(y == if mute { 0.0 } else { z }, "complex sound: not silent when muted, or not as if never paused");
        }
    }
}
/// Plays its number, 16 more for every sample before; notes how many.
struct Tone { k: f32, n: usize, id: Option<usize>, log: Arc<Mutex<Vec<(usize, Option<usize>)>>>, at: usize }
impl Sound for Tone {
    fn toggle_pause(&mut self) {}
    fn is_paused(&self) -> bool { false }
    fn toggle_mute(&mut self) {}
    fn is_muted(&self) -> bool { false }
    fn process(&mut self, x: f32) -> f32 {
        assert!(x == 0.0, "channel: a sound has an input");
        self.n += 1;
        self.log.lock().unwrap()[self.at].0 = self.n;
        self.k + 16.0 * self.n as f32
    }
    fn register(&mut self, id: usize) { self.id = Some(id); self.log.lock().unwrap()[self.at].1 = Some(id); }
    fn unregister(&mut self) { self.id = None; }
    fn get_id(&self) -> Option<usize> { self.id }
}
fn channel<SF: SampleFormat>(sounds: usize, gone: usize, len: usize, gain: f32, close: &dyn Fn(&SF, f32) -> bool) {
    let mut c = StandardChannel::<SF>::new(0.5);
    if len != 480 { c.set_process_time(Duration::from_nanos((len as u64 * 1_000_000_000 + 47_999) / 48_000 + 1)); }
    let log = Arc::new(Mutex::new(vec![(0, None); sounds]));
    for i in 0..sounds {
        let mut s: Arc<dyn Sound> = Arc::new(Tone { k: (1 << i) as f32, n: 0, id: None, log: log.clone(), at: i });
        c.add_sound(&mut s);
    }
    let ids: Vec<_> = log.lock().unwrap().iter().map(|x| x.1).collect();
    for i in 0..sounds { for j in 0..i { assert!(ids[i].is_some() && ids[i] != ids[j], "channel: sounds of the same id"); } }
    let mut played = 0;
    for pass in 0..3 {
        if pass == 1 { for i in 0..sounds { if gone >> i & 1 == 1 { c.remove_sound(ids[i].unwrap()); } } }
        if pass == 2 { c.set_gain(gain as f64); }
        c.process();
        assert!(c.get_output().len() == len, "channel: not as many samples as in its time");
        for (j, y) in c.get_output().iter().enumerate() {
            let n = played + j + 1;
            let mut e = 0.0;
            for i in 0..sounds { if pass == 0 || gone >> i & 1 == 0 { e += (1 << i) as f32 + 16.0 * n as f32; } }
            assert!(close(y, e * if pass == 2 { gain } else { 0.5 }), "channel: not the sum of its sounds' samples with its gain");
        }
        played += len;
        for i in 0..sounds { assert!(log.lock().unwrap()[i].0 == if gone >> i & 1 == 1 && pass > 0 { len } else { played }, "channel: a sound is not processed once for each sample"); }
    }
}
//# C26 native weak channel_process channel_time channel_new channel_gain channel_add channel_remove fallback channel_process channel_time channel_new channel_gain channel_add channel_remove bounded='up to three sounds, any of them removed, some lengths and gains, three passes, mono and stereo'
pub fn channel_plays() {
    let r = 0.70710678f32;
    for sounds in 0..4 {
        for gone in 0..1 << sounds {
            for len in &[480, 1, 0, 7, 48000 / 100 + 1] {
                for gain in &[1.0, 0.0, -2.0] {
                    channel::<Mono>(sounds, gone, *len, *gain, &|y, e| y.mono == e);
                    channel::<Stereo>(sounds, gone, *len, *gain, &|y, e| within(y.left as f64, (e * r) as f64, 1e-2) && within(y.right as f64, (e * r) as f64, 1e-2));
                }
            }
        }
    }
}
//# C26 native weak channel_add channel_remove fallback channel_add channel_remove bounded='sounds added after others were removed'
pub fn channel_ids() {
    let log = Arc::new(Mutex::new(vec![(0, None); 6]));
    let mut c = StandardChannel::<Mono>::new(1.0);
    c.set_process_time(Duration::from_nanos(20_900));
    for i in 0..6 {
        let mut s: Arc<dyn Sound> = Arc::new(Tone { k: (1 << i) as f32, n: 0, id: None, log: log.clone(), at: i });
        c.add_sound(&mut s);
        drop(s);
        if i % 2 == 1 { let id = log.lock().unwrap()[i - 1].1.unwrap(); c.remove_sound(id); c.remove_sound(id); }
    }
    c.process();
    assert!(c.get_output().len() == 1 && c.get_output()[0].mono == (2 + 8 + 32) as f32 + 16.0 * 3.0, "channel: not the sounds that were not removed");
}

// ---- longer histories ---------------------------------------------------------------
struct Any(u64);
impl Any { fn n(&mut self, k: usize) -> usize { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.0 >> 33) as usize % k } }
/// Says a number that its input, its own number and how often it was processed decide.
struct Mix { x: f32, k: usize, n: usize }
fn mix(x: f32, k: usize, n: usize) -> f32 { (2.0 * x + (k * 31 + n * 7) as f32 + 1.0).rem_euclid(1009.0) }
impl Block for Mix {
    fn prime_input(&mut self, x: f32) { self.x += x; }
    fn process(&mut self) -> f32 { let y = mix(self.x, self.k, self.n); self.x = 0.0; self.n += 1; y }
}
/// Blocks and connections come and go; now and then the sound plays, is paused and muted.
fn history(seed: u64, blocks: usize, steps: usize, order: bool, switch: bool) {
    let mut a = Any(seed);
    // gains of all sizes
    let g = [2.0f32, -1000.0, 10.0, 1.0, -40.0, 0.0, 1e6, 3.0];
    let (ig, og) = if seed % 3 > 0 { (2.0, -3.0) } else { (g[a.n(8)], g[a.n(8)]) };
    let mut s = ComplexSound::new(ig as f64, og as f64);
    let mut v = vec![s.get_input_gain(), s.get_output_gain()];
    let mut e: Vec<(usize, usize)> = vec![];
    let (mut x, mut n) = (vec![0.0f32; 2], vec![0usize; 2]);
    let (mut paused, mut muted, mut id) = (false, false, None);
    for step in 0..steps {
        match a.n(if switch { 12 } else { 8 }) {
            0 | 1 if v.len() < blocks => { v.push(s.add_block(Arc::new(Mix { x: 0.0, k: v.len(), n: 0 }))); x.push(0.0); n.push(0); }
            0..=4 => {
                let c = (a.n(v.len()), a.n(v.len()));
                // now and then anywhere, mostly onwards
                let c = if a.n(4) > 0 && c.0 > c.1 && c.1 > 1 { (c.1, c.0) } else { c };
                s.add_connection(v[c.0], v[c.1]);
                if !e.contains(&c) { e.push(c); }
            }
            5 if e.len() > 0 => { let i = a.n(e.len()); let c = e.swap_remove(i); s.remove_connection(v[c.0], v[c.1]); }
            6 => { let c = (a.n(v.len()), a.n(v.len())); s.remove_connection(v[c.0], v[c.1]); e.retain(|q| *q != c); }
            8 => { s.toggle_pause(); paused = !paused; }
            9 => { s.toggle_mute(); muted = !muted; }
            10 => { id = Some([0, 1, 5, usize::MAX][a.n(4)]); s.register(id.unwrap()); }
            11 => { s.unregister(); id = None; }
            _ => {
                let o: Vec<usize> = s.get_nodes().iter().map(|q| v.iter().position(|r| q == r).unwrap()).collect();
                let input = a.n(2000) as f32 - 1000.0;
                let y = s.process(input);
                assert!(s.is_paused() == paused && s.is_muted() == muted, "complex sound: not paused and muted as it was asked to");
                if paused { assert!(y == 0.0, "complex sound: paused but not silent"); continue; }
                let mut z = 0.0;
                x[0] += input;
                for i in o {
                    z = match i { 0 => ig * x[0], 1 => og * x[1], _ => { let z = mix(x[i], i, n[i]); n[i] += 1; z } };
                    x[i] = 0.0;
                    for c in e.iter() { if c.0 == i { x[c.1] += z; } }
                }
                // numbers that are not exact any more say nothing
                if x.iter().any(|q| q.abs() > 1e6) { return; }
                assert!(y == if muted { 0.0 } else { z }, "complex sound: not every block given the samples of those connected to it");
            }
        }
        if switch { assert!(s.is_paused() == paused && s.is_muted() == muted && s.get_id() == id, "complex sound: not paused, muted and registered as it was asked to"); }
        if order && (blocks < 100 || step % 300 == 299) { check_order(&s, &v, &e); }
    }
}
//# C24 native weak complex_order_made complex_changes complex_new complex_add fallback complex_order_made complex_changes complex_new complex_add bounded='200 histories of up to 80 blocks and 250 changes'
pub fn complex_order_histories() { for i in 0..200 { history(i, [4, 6, 10, 20, 50][i as usize % 5], 150, true, false); } for i in 0..2 { history(i, 80, 250, true, false); } history(7, 300, 1200, true, false); }
//# C25 native weak complex_process complex_new complex_add fallback complex_process complex_new complex_add bounded='one block connected to up to 700 others, all of them to one'
pub fn complex_hub() {
    for m in &[1, 30, 63, 64, 65, 130, 256, 257, 700] {
        let m = *m;
        let mut s = ComplexSound::new(1.0, 1.0);
        let (i, o) = (s.get_input_gain(), s.get_output_gain());
        let h = s.add_block(Arc::new(Mix { x: 0.0, k: 0, n: 0 }));
        let t = s.add_block(Arc::new(Mix { x: 0.0, k: 1, n: 0 }));
        s.add_connection(i, h);
        s.add_connection(t, o);
        let v: Vec<GraphNode> = (0..m).map(|k| s.add_block(Arc::new(Mix { x: 0.0, k: k + 2, n: 0 }))).collect();
        for q in v.iter() { s.add_connection(h, *q); s.add_connection(*q, t); }
        for n in 0..3 {
            let x = mix(n as f32 + 5.0, 0, n);
            let e: f32 = (0..m).map(|k| mix(x, k + 2, n)).sum();
            assert!(s.process(n as f32 + 5.0) == mix(e, 1, n), "complex sound: not all of {} blocks connected to one are given its samples", m);
        }
    }
}
//# C25 native weak complex_process complex_new complex_add fallback complex_process complex_new complex_add bounded='3000 histories of up to 120 blocks and 300 changes and samples'
pub fn complex_sample_histories() { for i in 0..3000 { history(i, [3, 4, 6, 10, 20, 50][i as usize % 6], 200, false, false); } for i in 0..50 { history(i, 120, 300, false, false); } for i in 0..3 { history(i, 400, 1500, false, false); } }
//# C23 native weak complex_process complex_pause fallback complex_process complex_pause complex_switches bounded='2000 histories of up to 20 blocks, 200 changes, samples, pauses, mutes and registrations'
pub fn complex_switch_histories() { for i in 0..2000 { history(i, [2, 3, 5, 20][i as usize % 4], 200, false, true); } }
fn simple(seed: u64, switch: bool) {
    let mut a = Any(seed);
    let g = [1.0, -1.0, 0.5, 2.0, 0.0, -3.0, 0.25, 10.0, -17.0, 300.0, -1e5, 1e9, 0.0009765625];
    let (mut ig, mut og) = (g[a.n(13)], g[a.n(13)]);
    let mut s = SimpleSound::new(ig, og, Arc::new(Mix { x: 0.0, k: 0, n: 0 }));
    let mut n = vec![0usize];
    let (mut paused, mut muted, mut id) = (false, false, None);
    let (most, steps) = if seed % 100 == 0 { (300, 500) } else { (40, 120) };
    for _ in 0..steps {
        let made = |n: &mut Vec<usize>| -> BlockSP { n.push(0); Arc::new(Mix { x: 0.0, k: n.len() - 1, n: 0 }) };
        match a.n(if switch { 12 } else { 8 }) {
            0 if n.len() < most => s.add_modifier::<()>(made(&mut n)),
            1 if n.len() < most => { let m = a.n(if most > 40 { 20 } else { 5 }); let l = (0..m).map(|_| made(&mut n)).collect(); s.extend_modifiers(l); }
            2 => { ig = g[a.n(13)]; s.set_input_gain(ig); }
            3 => { og = g[a.n(13)]; s.set_output_gain(og); }
            8 => { s.toggle_pause(); paused = !paused; }
            9 => { s.toggle_mute(); muted = !muted; }
            10 => { id = Some([0, 1, 5, usize::MAX][a.n(4)]); s.register(id.unwrap()); }
            11 => { s.unregister(); id = None; }
            _ => {
                let input = a.n(2000) as f32 - 1000.0;
                let y = s.process(input);
                assert!(s.get_input_gain() == ig && s.get_output_gain() == og, "simple sound: other gains");
                assert!(s.is_paused() == paused && s.is_muted() == muted, "simple sound: not paused and muted as it was asked to");
                if paused { assert!(y == 0.0, "simple sound: paused but not silent"); continue; }
                let mut z = input * ig as f32;
                for i in 0..n.len() { z = mix(z, i, n[i]); n[i] += 1; }
                assert!(y == if muted { 0.0 } else { z * og as f32 }, "simple sound: not the chain of its {} blocks", n.len());
            }
        }
        if switch { assert!(s.is_paused() == paused && s.is_muted() == muted && s.get_id() == id, "simple sound: not paused, muted and registered as it was asked to"); }
    }
}
//# C22 native weak simple_chain fallback simple_chain simple_extended bounded='3000 histories of up to 45 blocks, 120 changes and samples'
pub fn simple_histories() { for i in 0..3000 { simple(i, false); } }
//# C23 native weak simple_chain simple_paused fallback simple_chain simple_paused simple_switches bounded='3000 histories of up to 45 blocks, 120 changes, samples, pauses, mutes and registrations'
pub fn simple_switch_histories() { for i in 0..3000 { simple(i, true); } }
//# C26 native weak channel_process channel_time channel_new channel_gain channel_add channel_remove fallback channel_process channel_time channel_new channel_gain channel_add channel_remove bounded='2000 histories of 60 additions, removals (also of ids removed before or unknown), changes and passes'
pub fn channel_histories() {
    for seed in 0..2000 {
        let mut a = Any(seed);
        let log = Arc::new(Mutex::new(vec![(0, None); 0]));
        let g = [1.0, 0.5, -2.0, 0.0, 20.0, -1000.0, 1e6, 0.01];
        let mut gain = g[a.n(8)];
        let mut c = StandardChannel::<Mono>::new(gain);
        let mut len = 480;
        if seed % 3 > 0 { len = 3; c.set_process_time(Duration::from_nanos(62_600)); }
        // which are there, and how many samples they made
        let mut there: Vec<(usize, usize)> = vec![];
        let mut ids: Vec<usize> = vec![];
        let (most, steps) = if seed % 400 == 0 { (400, 1000) } else { (30, 60) };
        for _ in 0..steps {
            match a.n(8) {
                0..=2 if ids.len() < most => {
                    let at = ids.len();
                    log.lock().unwrap().push((0, None));
                    let mut s: Arc<dyn Sound> = Arc::new(Tone { k: (at * 3 + 1) as f32, n: 0, id: None, log: log.clone(), at });
                    c.add_sound(&mut s);
                    drop(s);
                    let id = log.lock().unwrap()[at].1.expect("channel: sound without an id");
                    assert!(!ids.contains(&id), "channel: id {} given again", id);
                    ids.push(id);
                    there.push((at, 0));
                }
                3 | 4 if ids.len() > 0 => { let i = a.n(ids.len()); c.remove_sound(ids[i]); there.retain(|t| t.0 != i); }
                5 if a.n(3) == 0 => { let id = (0..).find(|i| !ids.contains(i)).unwrap() + 7; if !ids.contains(&id) { c.remove_sound(id); } }
                5 => { gain = g[a.n(8)]; c.set_gain(gain); }
                6 if a.n(3) == 0 => { len = if seed % 50 == 3 { a.n(100_000) } else { a.n(6) }; c.set_process_time(Duration::from_nanos((len as u64 * 1_000_000_000 + 47_999) / 48_000 + 1)); }
                6 if seed % 7 == 0 => { while let Some((at, _)) = there.pop() { c.remove_sound(ids[at]); } }
                _ => {
                    c.process();
                    assert!(c.get_output().len() == len, "channel: not as many samples as in its time");
                    for (j, y) in c.get_output().iter().enumerate() {
                        let e: f32 = there.iter().map(|t| (t.0 * 3 + 1) as f32 + 16.0 * (t.1 + j + 1) as f32).sum();
                        assert!(y.mono == e * gain as f32 || e > 8.0e6 && (y.mono - e * gain as f32).abs() < 1.0e-4 * e * gain.abs() as f32, "channel: not the sum of its sounds' samples with its gain");
                    }
                    for t in there.iter_mut() { t.1 += len; assert!(log.lock().unwrap()[t.0].0 == t.1, "channel: a sound is not processed once for each sample"); }
                }
            }
        }
    }
}
