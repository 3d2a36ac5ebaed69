From 9fd6e77f2d33506f2017398f0e5696ecaa1f396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 01/19] fix: samples_to_seconds multiplied by the sampling rate
 instead of dividing

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6b6ea99..6ce7fa5 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -43,7 +43,7 @@ pub fn clerp<T>(x:T, x1:T, x2:T, y1:T, y2:T) -> T
 
 /// Converts a given sample count to seconds.
 pub fn samples_to_seconds(s: usize) -> std::time::Duration {
-    std::time::Duration::from_secs_f64(s as f64 * SAMPLE_RATE as f64)
+    std::time::Duration::from_secs_f64(s as f64 / SAMPLE_RATE as f64)
 }
 
 /// Converts the given duration to samples, rounded to the nearest sample.
-- 
2.43.0


From 209aac0b72595a8338568ae36473c1112437646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 02/19] fix: cloned Delay and Echo multiplied their length by
 the sampling rate

---
 src/modifiers/delay.rs | 2 +-
 src/modifiers/echo.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/delay.rs b/src/modifiers/delay.rs
index 70ff81d..8078dda 100644
--- a/src/modifiers/delay.rs
+++ b/src/modifiers/delay.rs
@@ -45,7 +45,7 @@ impl Clone for Delay {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index cfba8e0..6c77e6a 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -43,7 +43,7 @@ impl Clone for Echo {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From 4d7e04d99b30556c261dc6d3b64abdee88ea1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 03/19] fix: 24-bit samples lost their sign when decoded from
 three bytes

---
 src/sample_format/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index abd2375..55d4894 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -136,11 +136,12 @@ pub fn sample_to_i16_bytes(s: SampleT) -> [u8; 2] {
 
 /// Converts an i32 24-bit sample to a `SampleT`.
 pub fn sample_from_i24(v: i32) -> SampleT {
-    v as SampleT / ((1 << 23) as SampleT - 1.0)
+    // The upper byte is ignored, bit 23 is the sign.
+    ((v << 8) >> 8) as SampleT / ((1 << 23) as SampleT - 1.0)
 }
 /// Converts raw bytes to a `SampleT`.
 pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
-    (i32::from_le_bytes([v[0],v[1],v[2],0]) as SampleT) / ((1 << 23) as SampleT - 1.0)
+    sample_from_i24(i32::from_le_bytes([v[0],v[1],v[2],0]))
 }
 
 /// Converts a `SampleT` to an `i24`.
-- 
2.43.0


From fed07a144dc0699f06305e267e0762e40b9c023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 04/19] fix: sample_to_i24 left the 24-bit range, wrapping
 around when written as 3 bytes

---
 src/sample_format/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index 55d4894..0c4594c 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -146,7 +146,7 @@ pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
 
 /// Converts a `SampleT` to an `i24`.
 pub fn sample_to_i24(s: SampleT) -> i32 {
-    (s * ((1<<23) as SampleT - 1.0)).round() as i32
+    ((s * ((1<<23) as SampleT - 1.0)).round() as i32).max(-(1<<23)).min((1<<23) - 1)
 }
 /// Converts a `SampleT` to raw little-endian bytes.
 pub fn sample_to_i24_bytes(s: SampleT) -> [u8; 3] {
-- 
2.43.0


From 241ff17477476b172e48dfb0cf890fd7ea5332de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 05/19] fix: Stereo::into_sample doubled the level of a sample
 made with from_sample

---
 src/sample_format/stereo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index 65eb571..a0478a3 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -50,7 +50,7 @@ impl SampleFormat for Stereo
     }
 
     fn into_sample(self) -> SampleT {
-        (self.left + self.right)/SampleT::sqrt(0.5)
+        (self.left + self.right) * SampleT::sqrt(0.5)
     }
 
     fn num_samples() -> usize {
-- 
2.43.0


From 253302a137e8953657e2c246e1be6a18c4c073c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 06/19] fix: Stereo *= MathT rounded the factor to SampleT,
 unlike Stereo * MathT and Mono

---
 src/sample_format/stereo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index a0478a3..d1bee10 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -192,8 +192,8 @@ impl std::ops::Mul<MathT> for Stereo {
 }
 impl std::ops::MulAssign<MathT> for Stereo {
     fn mul_assign(&mut self, rhs: MathT) {
-        self.left *= rhs as SampleT;
-        self.right *= rhs as SampleT;
+        self.left = (self.left as MathT * rhs) as SampleT;
+        self.right = (self.right as MathT * rhs) as SampleT;
     }
 }
 
-- 
2.43.0


From b08b32166bccf613d68464ee275378af34630734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 07/19] fix: Stereo panning attenuated the side panned to and
 silenced the centre

---
 src/sample_format/stereo.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index d1bee10..e54e7e8 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -65,14 +65,14 @@ impl SampleFormat for Stereo
 impl Panner<f32> for Stereo {
     fn to_sample_format(s: SampleT, g: f32) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
@@ -84,14 +84,14 @@ impl Panner<f32> for Stereo {
 impl Panner<f64> for Stereo {
     fn to_sample_format(s: SampleT, g: f64) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
-- 
2.43.0


From 409e049abd8b3be4c89114a308dc65734ae4aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 08/19] fix: Sine left its wavetable one sample early and held
 a zero there

---
 src/generators/sine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generators/sine.rs b/src/generators/sine.rs
index 06121c7..542dbcf 100644
--- a/src/generators/sine.rs
+++ b/src/generators/sine.rs
@@ -59,7 +59,7 @@ impl Generator for Sine {
 
         self.ind += self.inc;
 
-        if self.ind >= (WAVETABLE_SIZE as MathT)-1.0 {
+        if self.ind >= WAVETABLE_SIZE as MathT {
             self.ind -= WAVETABLE_SIZE as MathT;
         }
 
-- 
2.43.0


From 07e084762958c1201288445dc96f64c51d0ff72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 09/19] fix: Triangle lost its frequency, and its clone its
 polarity, on the falling edge

---
 src/generators/triangle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/generators/triangle.rs b/src/generators/triangle.rs
index ecc58d4..11728cd 100644
--- a/src/generators/triangle.rs
+++ b/src/generators/triangle.rs
@@ -8,6 +8,7 @@ use super::*;
 pub struct Triangle {
     irate: MathT,
     inc: MathT,
+    dir: MathT,
 }
 
 impl FreqMod for Triangle {
@@ -15,6 +16,7 @@ impl FreqMod for Triangle {
         Triangle {
             irate: 4.0 * f * INV_SAMPLE_RATE,
             inc: 0.0,
+            dir: 1.0,
         }
     }
 
@@ -31,10 +33,10 @@ impl Generator for Triangle {
     fn process(&mut self) -> SampleT {
         let y = self.inc;
 
-        self.inc += self.irate;
+        self.inc += self.dir * self.irate;
 
         if self.inc >= 1.0 || self.inc <= -1.0 {
-            self.irate = -self.irate;
+            self.dir = -self.dir;
 
             self.inc = if self.inc >= 1.0 {
                 2.0 - self.inc
@@ -51,7 +53,8 @@ impl Clone for Triangle {
     fn clone(&self) -> Self {
         Triangle {
             irate: self.irate,
-            inc: 0.0
+            inc: 0.0,
+            dir: 1.0,
         }
     }
 }
-- 
2.43.0


From ceb2328de5cd8d6eb6fdb17b35e0019518f28da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 10/19] fix: ADSR output NaN when a zero-length decay or
 release had nothing to do

---
 src/modifiers/adsr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index a94f6dd..da9249b 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -69,7 +69,7 @@ impl Modifier for ADSR {
             },
             ADSRState::Decay => {
                 self.g += self.d;
-                if self.g <= self.s {
+                if !(self.g > self.s) {
                     self.state = ADSRState::Sustain;
                     self.g = self.s;
                 }
@@ -78,7 +78,7 @@ impl Modifier for ADSR {
             },
             ADSRState::Release => {
                 self.g += self.r;
-                if self.g <= 0.0 {
+                if !(self.g > 0.0) {
                     self.state = ADSRState::Stopped;
                     self.g = 0.0;
                 }
-- 
2.43.0


From c9a95cc3d50d9136762f4b898d49728122e60143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 11/19] fix: normalize turned a silent or constant track into
 NaN

---
 src/utils/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6ce7fa5..1b0b994 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -81,7 +81,11 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
         }
     }
 
-    let factor = db_to_linear(db) as SampleT / max;
+    let factor = if max > 0.0 {
+        db_to_linear(db) as SampleT / max
+    } else {
+        1.0
+    };
 
     for s in t {
         *s = (*s - dc) * factor;
-- 
2.43.0


From 3863015a3395e3c5971b9bd8f8a591441a413b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 12/19] fix: Echo with a delay of less than one sample panicked
 when processed

---
 src/modifiers/echo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index 6c77e6a..de8ff4b 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -17,7 +17,7 @@ impl Echo {
     /// [`Echo`]: struct.Echo.html
     pub fn new(d: Duration, g: MathT) -> Self{
         let mut v = VecDeque::new();
-        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize) {
+        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize).max(1) {
             v.push_back(SampleT::default());
         }
 
-- 
2.43.0


From a06fc017558553623b0ba0c4bf94724e6879c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 13/19] fix: Generic indexed past its history when zeros or
 poles were not given in order

---
 src/modifiers/generic.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/modifiers/generic.rs b/src/modifiers/generic.rs
index 87d4e8d..4acadc8 100644
--- a/src/modifiers/generic.rs
+++ b/src/modifiers/generic.rs
@@ -29,16 +29,8 @@ pub struct Generic {
 impl Generic {
     /// Creates a new Generic filter from the given pole and zero parameters.
     pub fn new(zeros: Zeros, poles: Poles) -> Generic {
-        let z_back = if let Some(z) = zeros.back() {
-            z.0 + 1
-        } else {
-            0
-        };
-        let p_back = if let Some(p) = poles.back() {
-            p.0 + 1
-        } else {
-            0
-        };
+        let z_back = zeros.iter().map(|z| z.0 + 1).max().unwrap_or(0);
+        let p_back = poles.iter().map(|p| p.0 + 1).max().unwrap_or(0);
         Generic {
             zeros,
             poles,
-- 
2.43.0


From 978fc7e0d8ea3a56d223599d0abe6ffccc82cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:02 +0000
Subject: [PATCH 14/19] fix: read_wav panicked on a file that declares no
 channels

---
 src/utils/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1b0b994..945d6da 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -113,6 +113,10 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
 pub fn read_wav(s: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<SampleTrackT>)> {
     let (h, bd) = wav::read_wav(s)?;
 
+    if h.channel_count == 0 {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "No channels declared, aborting."));
+    }
+
     let mut tracks = Vec::new();
     for _ in 0..h.channel_count {
         tracks.push(SampleTrackT::new());
-- 
2.43.0


From 94d353b2b99511b39dd7c08a3286e34f1b2d9bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:23 +0000
Subject: [PATCH 15/19] fix: StandardChannel never produced any samples

---
 src/channels/standard_channel.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 0b0a1dd..e30f221 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -29,12 +29,15 @@ impl<SF> StandardChannel<SF>
     /// 
     /// [`set_process_time`]: ../trait.Channel.html#tymethod.set_process_time
     pub fn new(gain: MathT) -> Self {
-        StandardChannel {
-            output: Vec::with_capacity((0.01 * SAMPLE_RATE as MathT) as usize),
+        let mut channel = StandardChannel {
+            output: Vec::new(),
             sounds: HashMap::new(),
             gain: gain as SampleT,
             id_counter: 0
-        }
+        };
+        channel.output.resize_with((0.01 * SAMPLE_RATE as MathT) as usize, SF::default);
+
+        channel
     }
 
     fn get_id(&mut self) -> usize {
@@ -50,7 +53,8 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     where SF: SampleFormat
 {
     fn set_process_time(&mut self, d: Duration) {
-        self.output = Vec::with_capacity((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize);
+        self.output = Vec::new();
+        self.output.resize_with((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize, SF::default);
     }
 
     fn get_output(&self) -> &Vec<SF> {
@@ -62,9 +66,9 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn process(&mut self) {
-        self.output.resize_with(self.output.len(), SF::default);
-
         for sample in &mut self.output {
+            *sample = SF::default();
+
             for mut sound in &mut self.sounds {
                 *sample += SF::from_sample(Arc::get_mut(&mut sound.1).unwrap().process(Default::default()));
             }
-- 
2.43.0


From a0f525017cbe237458eb1bdf7eea8b02938afa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:23 +0000
Subject: [PATCH 16/19] fix: MonoResampler read past its data and off its loop

---
 src/utils/mono_resampler.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 39b9759..adf3d27 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -36,6 +36,13 @@ impl MonoResampler {
             std::mem::swap(&mut loop_start, &mut loop_end);
         }
 
+        // A loop can only contain existing samples, an empty loop is no loop.
+        loop_end = loop_end.min(data.len());
+        if loop_start >= loop_end {
+            loop_start = 0;
+            loop_end = 0;
+        }
+
         MonoResampler {
             data,
             ind: 0.0,
@@ -62,12 +69,12 @@ impl MonoResampler {
             return SampleT::default();
         }
 
-        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.data.len() && self.loop_end != 0 {
-            self.data[(self.ind - (self.loop_end - self.loop_start) as IndexT) as usize].into_sample()
+        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.loop_end && self.loop_end != 0 {
+            self.data[self.ind.trunc() as usize + 1 - (self.loop_end - self.loop_start)].into_sample()
         } else if self.ind.trunc() as usize + 1 >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
-            self.data[(self.ind + 1.0).trunc() as usize].into_sample()
+            self.data[self.ind.trunc() as usize + 1].into_sample()
         };
 
         let x1: SampleT = self.data[self.ind.trunc() as usize].into_sample();
@@ -78,7 +85,9 @@ impl MonoResampler {
         self.ind += self.inc * self.speed as SampleT;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
-            self.ind -= (self.loop_end - self.loop_start) as IndexT;
+            let offset = (self.ind.trunc() as usize - self.loop_start) % (self.loop_end - self.loop_start);
+
+            self.ind = (self.loop_start + offset) as IndexT + self.ind.fract();
         }
 
         y
-- 
2.43.0


From 52e2e66710678ecaf75e76224614ef022cc005ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 17/19] fix: MonoResampler stopped advancing in tracks longer
 than 2^24 samples

---
 src/utils/mono_resampler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index adf3d27..4d5fffc 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -7,7 +7,7 @@ use super::*;
 use sample_format::{SampleFormat, MonoTrackT};
 
 /// Type used for fractional indexing.
-type IndexT = SampleT;
+type IndexT = MathT;
 
 /// Struct tracking all of the data required for resampling, with some extra
 /// features like playback speed and looping.
@@ -82,7 +82,7 @@ impl MonoResampler {
 
         let y = x1 + self.ind.fract() as SampleT * (x2 - x1);
 
-        self.ind += self.inc * self.speed as SampleT;
+        self.ind += (self.inc * self.speed as SampleT) as IndexT;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
             let offset = (self.ind.trunc() as usize - self.loop_start) % (self.loop_end - self.loop_start);
-- 
2.43.0


From e577cbb0560c5aa56e3f09e7c5009312e635a286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 18/19] fix: ComplexSound processed blocks before their inputs,
 or not at all

---
 src/sounds/complex_sound.rs | 47 ++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 312cd87..da1856d 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -66,7 +66,7 @@ impl ComplexSound {
             )
         );
 
-        ComplexSound {
+        let mut sound = ComplexSound {
             graph,
             process_order: ProcessOrder::new(),
             input_gain,
@@ -74,7 +74,11 @@ impl ComplexSound {
             id: None,
             is_muted: false,
             is_paused: false
-        }
+        };
+
+        sound.process_order();
+
+        sound
     }
 
     /// Returns the ['GraphNode'] containing the input gain [`Modifier`].
@@ -102,7 +106,11 @@ impl ComplexSound {
     /// [`add_connection]: struct.ComplexSound.html#method.add_connection
     /// [`remove_connection]: struct.ComplexSound.html#method.remove_connection
     pub fn add_block(&mut self, block: BlockSP) -> GraphNode {
-        self.graph.add_node(block)
+        let node = self.graph.add_node(block);
+
+        self.process_order();
+
+        node
     }
 
     /// Adds a new connection (edge) between the two given [`GraphNode`]s.
@@ -138,19 +146,15 @@ impl ComplexSound {
     fn process_order(&mut self) {
         self.process_order.clear();
 
-        self.process_order.extend(self.graph.externals(petgraph::Direction::Incoming));
-        let mut i = 0;
-        while i < self.process_order.len() {
-            let neighbors = self.graph.neighbors(self.process_order[i]);
-            self.process_order.extend(neighbors);
+        // In reverse post-order every node occurs once and, unless it is part of
+        // a cycle, after all of the nodes connected to it.
+        let mut dfs = petgraph::visit::DfsPostOrder::empty(&self.graph);
+        for root in std::iter::once(self.input_gain).chain(self.graph.node_indices()) {
+            dfs.move_to(root);
 
-            let mut j = 0;
-            while j < i {
-                Self::remove_dups(&mut self.process_order, j);
-                j += 1;
+            while let Some(n) = dfs.next(&self.graph) {
+                self.process_order.push_front(n);
             }
-
-            i += 1;
         }
 
         let ig = self.input_gain;
@@ -161,21 +165,6 @@ impl ComplexSound {
         self.process_order.push_front(self.input_gain);
         self.process_order.push_back(self.output_gain);
     }
-
-    /// Removes duplicate [`GraphNode`]s from the process order to prevent parsing cycles
-    /// 
-    /// [`GraphNode`]: type.GraphNode.html
-    fn remove_dups(v: &mut ProcessOrder, whitelist: usize) {
-        let mut i = whitelist + 1;
-
-        while i < v.len() {
-            if v[i] == v[whitelist] {
-                v.remove(i);
-            } else {
-                i += 1;
-            }
-        }
-    }
 }
 
 impl Sound for ComplexSound {
-- 
2.43.0


From 8a82fd2d3820acd578c355ac3f27492710848a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:58 +0000
Subject: [PATCH 19/19] fix: Mono - Mono added its operands

---
 src/sample_format/mono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mono.rs b/src/sample_format/mono.rs
index a473592..83a0903 100644
--- a/src/sample_format/mono.rs
+++ b/src/sample_format/mono.rs
@@ -86,7 +86,7 @@ impl Sub<Mono> for Mono {
 
     fn sub(self, rhs: Mono) -> Self {
         Mono {
-            mono: self.mono + rhs.mono
+            mono: self.mono - rhs.mono
         }
     }
 }
-- 
2.43.0

