# Edits of /repo that change no behaviour, on which the checks named have to stay quiet (bin/runrefs.py).
REFS = [
 dict(id='saw-helper', props='C08 C09 C29', edits=[('src/generators/sawtooth.rs', '''        self.inc += self.irate;

        if self.inc >= 1.0 {
            self.inc -= 2.0;
        }

        y as SampleT
    }
}
''', '''        self.advance();

        y as SampleT
    }
}

impl Sawtooth {
    fn advance(&mut self) {
        let next = self.inc + self.irate;

        self.inc = if next >= 1.0 { next - 2.0 } else { next };
    }
}
''')]),
 dict(id='saw-rename', props='C08 C09 C10 C29', edits=[('src/generators/sawtooth.rs', 'self.inc', 'self.phase'), ('src/generators/sawtooth.rs', ' inc: ', ' phase: ')]),
 dict(id='sine-index', props='C08 C09 C29', edits=[('src/generators/sine.rs', '''        let k1 = if k+1.0 >= WAVETABLE_SIZE as MathT {
            0.0
        } else {
            k+1.0
        } as usize;
        let k = k as usize;
''', '''        let k = k as usize;
        let k1 = if k + 1 >= WAVETABLE_SIZE as usize { 0 } else { k + 1 };
''')]),
 dict(id='square-match', props='C08 C29', edits=[('src/generators/square.rs', '''        let y = if self.ind >= self.inv && self.ind < 2.0 * self.inv {
            -1.0
        } else {
            1.0
        };

        if self.ind >= 2.0 * self.inv {
            self.ind -= 2.0 * self.inv;
        }
''', '''        let period = 2.0 * self.inv;
        let low = self.ind >= self.inv && self.ind < period;
        let y = if low { -1.0 } else { 1.0 };

        if self.ind >= period {
            self.ind -= period;
        }
''')]),
 dict(id='triangle-branch', props='C08 C09 C29', edits=[('src/generators/triangle.rs', '''        if self.inc >= 1.0 || self.inc <= -1.0 {
            self.dir = -self.dir;

            self.inc = if self.inc >= 1.0 {
                2.0 - self.inc
            } else {
                -2.0 - self.inc
            };
        }
''', '''        if self.inc >= 1.0 {
            self.inc = 2.0 - self.inc;
            self.dir = -self.dir;
        } else if self.inc <= -1.0 {
            self.inc = -2.0 - self.inc;
            self.dir = -self.dir;
        }
''')]),
 dict(id='triangle-new', props='C08 C09 C10 C29', edits=[('src/generators/triangle.rs', '''        Triangle {
            irate: 4.0 * f * INV_SAMPLE_RATE,
            inc: 0.0,
            dir: 1.0,
        }
    }

    fn set_frequency(&mut self, f: MathT) {
        self.irate = 4.0 * f * INV_SAMPLE_RATE;
    }''', '''        let mut t = Triangle {
            irate: 0.0,
            inc: 0.0,
            dir: 1.0,
        };

        t.set_frequency(f);

        t
    }

    fn set_frequency(&mut self, f: MathT) {
        self.irate = INV_SAMPLE_RATE * (4.0 * f);
    }''')]),
 dict(id='u8-bytes', props='C01 C02 C04', edits=[('src/sample_format/mod.rs', "    (v[0] as SampleT - 128.0) / 128.0\n", "    sample_from_u8(v[0])\n"), ('src/sample_format/mod.rs', "    (i16::from_le_bytes(v) as SampleT) / ((1 << 15) as SampleT - 1.0)\n", "    sample_from_i16(i16::from_le_bytes(v))\n")]),
 dict(id='i24-clamp', props='C01 C02 C04 C19', edits=[('src/sample_format/mod.rs', "    ((s * ((1<<23) as SampleT - 1.0)).round() as i32).max(-(1<<23)).min((1<<23) - 1)\n", "    const MAX: i32 = (1 << 23) - 1;\n    let level = (s * MAX as SampleT).round() as i32;\n\n    if level > MAX {\n        MAX\n    } else if level < -MAX - 1 {\n        -MAX - 1\n    } else {\n        level\n    }\n")]),
 dict(id='pan-helper', props='C05', edits=[('src/sample_format/stereo.rs', '''        let l_lerp = if g <= 0.0 {
            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
        } else {
            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
        };
        let r_lerp = if g >= 0.0 {
            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
        } else {
            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
        };

        Stereo {
            left:  (db_to_linear(l_lerp) * s as MathT) as SampleT,
            right: (db_to_linear(r_lerp) * s as MathT) as SampleT
        }
    }
}
impl Panner<f64>''', '''        Self::to_sample_format(s, g as f64)
    }
}
impl Panner<f64>''')]),
 dict(id='clamp-minmax', props='C05 C06', edits=[('src/utils/mod.rs', '''    if x1 > x2 {
        std::mem::swap(&mut x1, &mut x2);
    }

    if x > x2 {
        x2
    } else if x < x1 {
        x1
    } else {
        x
    }''', '''    if x2 < x1 {
        let t = x1;
        x1 = x2;
        x2 = t;
    }

    if x < x1 {
        return x1;
    }
    if x > x2 {
        return x2;
    }

    x''')]),
 dict(id='db-consts', props='C05 C28 C11', edits=[('src/utils/mod.rs', "    10.0_f64.powf(db/20.0)\n", "    let exponent = db / 20.0;\n    MathT::powf(10.0, exponent)\n")]),
 dict(id='norm-iter', props='C21', edits=[('src/utils/mod.rs', '''    let y = t.clone();
    let mut dc = 0.0;

    for s in &y {
        dc += s;
    }

    dc /= y.len() as SampleT;

    let mut max = 0.0;

    for s in y {
        if (s - dc).abs() > max {
            max = (s - dc).abs();
        }
    }
''', '''    let dc = t.iter().sum::<SampleT>() / t.len() as SampleT;
    let max = t.iter().map(|s| (s - dc).abs()).fold(0.0, SampleT::max);
''')]),
 dict(id='write-helper', props='C19', edits=[('src/utils/mod.rs', '''            let mut v = Vec::new();

            for i in 0..len {
                for t in &tracks {
                    v.push(sample_to_i16(t[i]));
                }
            }
''', '''            let mut v = Vec::with_capacity(len * tracks.len());

            for i in 0..len {
                v.extend(tracks.iter().map(|t| sample_to_i16(t[i])));
            }
''')]),
 dict(id='write-clip', props='C19', edits=[('src/utils/mod.rs', '''            for s in t {
                if *s > 1.0 {
                    *s = 1.0;
                } else if *s < -1.0 {
                    *s = -1.0;
                }
            }
''', '''            for s in t.iter_mut() {
                *s = s.max(-1.0).min(1.0);
            }
''')]),
 dict(id='read-enumerate', props='C20', edits=[('src/utils/mod.rs', '''            for i in 0..d.len() {
                tracks[i % h.channel_count as usize].push(sample_from_i16(d[i]));
            }
''', '''            for (i, s) in d.iter().enumerate() {
                tracks[i % h.channel_count as usize].push(sample_from_i16(*s));
            }
''')]),
 dict(id='read-chunks', props='C20', edits=[('src/utils/mod.rs', '''            for i in 0..d.len() {
                tracks[i % h.channel_count as usize].push(sample_from_i24(d[i]));
            }
''', '''            for frame in d.chunks(tracks.len()) {
                for (t, s) in tracks.iter_mut().zip(frame) {
                    t.push(sample_from_i24(*s));
                }
            }
'''), ('src/utils/mod.rs', '''    let mut tracks = Vec::new();
    for _ in 0..h.channel_count {
        tracks.push(SampleTrackT::new());
    }
''', '''    let mut tracks = vec![SampleTrackT::new(); h.channel_count as usize];
''')]),
 dict(id='adsr-enter', props='C10 C11', edits=[('src/modifiers/adsr.rs', '''                if self.g >= 1.0 {
                    self.state = ADSRState::Decay;
                    self.g = 1.0;
                }''', '''                if self.g >= 1.0 {
                    self.enter(ADSRState::Decay, 1.0);
                }'''), ('src/modifiers/adsr.rs', '''    pub fn release(&mut self) {''', '''    fn enter(&mut self, state: ADSRState, g: SampleT) {
        self.g = g;
        self.state = state;
    }

    pub fn release(&mut self) {'''), ('src/modifiers/adsr.rs', '''                    self.state = ADSRState::Sustain;
                    self.g = self.s;''', '''                    self.enter(ADSRState::Sustain, self.s);''')]),
 dict(id='adsr-new', props='C10 C11', edits=[('src/modifiers/adsr.rs', '''        ADSR {
            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
            d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
            s: db_to_linear(s) as SampleT,
            r: ((-db_to_linear(s))/(r.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,''', '''        let level = db_to_linear(s);
        let samples = |t: Duration| t.as_secs_f64() * SAMPLE_RATE as MathT;

        ADSR {
            a: 1.0 / samples(a) as SampleT,
            d: ((level - 1.0) / samples(d)) as SampleT,
            s: level as SampleT,
            r: (-level / samples(r)) as SampleT,''')]),
 dict(id='delay-extend', props='C10 C12 C29', edits=[('src/modifiers/delay.rs', '''        let mut v = VecDeque::new();

        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT).round() as usize) {
            v.push_back(SampleT::default());
        }
''', '''        let n = (d.as_secs_f64() * SAMPLE_RATE as MathT).round() as usize;
        let mut v = VecDeque::with_capacity(n + 1);

        v.resize(n, SampleT::default());
''')]),
 dict(id='delay-pop-first', props='C12', edits=[('src/modifiers/delay.rs', '''        self.delay.push_back(x);

        self.delay.pop_front().unwrap()''', '''        let d = &mut self.delay;
        d.push_back(x);

        match d.pop_front() {
            Some(y) => y,
            None => unreachable!(),
        }''')]),
 dict(id='delay-clone', props='C10 C12', edits=[('src/modifiers/delay.rs', '''            delay: {
                let mut v = VecDeque::new();

                for _ in 0..self.delay.len() {
                    v.push_back(SampleT::default());
                }

                v
            }
        }
''', '''            delay: std::iter::repeat(SampleT::default()).take(self.delay.len()).collect(),
        }
''')]),
 dict(id='echo-order', props='C10 C13', edits=[('src/modifiers/echo.rs', '''        let wet = self.delay.pop_front().unwrap() * self.gain + x;
''', '''        let past = self.delay.pop_front().unwrap();
        let wet = x + self.gain * past;
''')]),
 dict(id='envelope-pick', props='C10 C16', edits=[('src/modifiers/envelope.rs', '''        let y = if x.abs() > self.y1 {
            self.au * (x.abs() + self.x1.abs()) + self.bu * self.y1
        } else {
            self.ad * (x.abs() + self.x1.abs()) + self.bd * self.y1
        };

        self.y1 = y;
        self.x1 = x;
''', '''        let m = x.abs();
        let (a, b) = if m > self.y1 { (self.au, self.bu) } else { (self.ad, self.bd) };
        let y = a * (m + self.x1.abs()) + b * self.y1;

        self.x1 = x;
        self.y1 = y;
''')]),
 dict(id='envelope-store-abs', props='C10 C16', edits=[('src/modifiers/envelope.rs', 'self.x1.abs()', 'self.x1'), ('src/modifiers/envelope.rs', 'self.x1 = x;', 'self.x1 = x.abs();')]),
 dict(id='envelope-coeffs', props='C16', edits=[('src/modifiers/envelope.rs', '''        let theta_u = (std::f32::consts::PI * upper * INV_SAMPLE_RATE as SampleT).tan();
        let theta_d = (std::f32::consts::PI * lower * INV_SAMPLE_RATE as SampleT).tan();
''', '''        let theta = |f: SampleT| (std::f32::consts::PI * f * INV_SAMPLE_RATE as SampleT).tan();
        let (theta_d, theta_u) = (theta(lower), theta(upper));
''')]),
 dict(id='generic-fold', props='C10 C14', edits=[('src/modifiers/generic.rs', '''        for z in &self.zeros {
            y += self.inputs[z.0] * z.1;
        }
        for p in &self.poles {
            y += self.outputs[p.0] * p.1;
        }
''', '''        y = self.zeros.iter().fold(y, |s, z| s + self.inputs[z.0] * z.1);
        y = self.poles.iter().fold(y, |s, p| s + self.outputs[p.0] * p.1);
''')]),
 dict(id='generic-shift', props='C10 C14', edits=[('src/modifiers/generic.rs', '''        self.outputs.push_front(y);
        self.outputs.pop_back();
''', '''        Self::remember(&mut self.outputs, y);
'''), ('src/modifiers/generic.rs', '''        self.inputs.push_front(x);
        self.inputs.pop_back();
''', '''        Self::remember(&mut self.inputs, x);
'''), ('src/modifiers/generic.rs', '''impl Modifier for Generic {''', '''impl Generic {
    fn remember(v: &mut Samples, s: SampleT) {
        v.push_front(s);
        v.pop_back();
    }
}

impl Modifier for Generic {''')]),
 dict(id='lowpass-zip', props='C10 C15 C29', edits=[('src/modifiers/lowpass.rs', '''        self.outs[2] = self.outs[1];
        self.outs[1] = self.outs[0];
        self.outs[0] = y;
''', '''        self.outs = [y, self.outs[0], self.outs[1]];
''')]),
 dict(id='lowpass-coeffs', props='C15 C29', edits=[('src/modifiers/lowpass.rs', '''        let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;

        self.coeff[0] = (t.powf(3.0) / g) as SampleT;
        self.coeff[1] = ((k*t.powf(2.0) + 2.0*k*t + 3.0) / g) as SampleT;''', '''        let (t2, t3) = (t.powf(2.0), t.powf(3.0));
        let g = t3 + k*t2 + k*t + 1.0;

        self.coeff[0] = (t3 / g) as SampleT;
        self.coeff[1] = ((k*t2 + 2.0*k*t + 3.0) / g) as SampleT;''')]),
 dict(id='lowpass-powi', props='C15 C29', edits=[('src/modifiers/lowpass.rs', '''        let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;

        self.coeff[0] = (t.powf(3.0) / g) as SampleT;
        self.coeff[1] = ((k*t.powf(2.0) + 2.0*k*t + 3.0) / g) as SampleT;''', '''        let g = t*t*t + k*t*t + k*t + 1.0;

        self.coeff[0] = (t*t*t / g) as SampleT;
        self.coeff[1] = ((k*t*t + 2.0*k*t + 3.0) / g) as SampleT;''')]),
 dict(id='lowpass-limit', props='C15 C29', edits=[('src/modifiers/lowpass.rs', '''        let fc = fc.min(SAMPLE_RATE as MathT / 2.0);
        let r = r.min(1.0).max(0.0);

        let mut lp''', '''        let fc = Self::limit(fc);
        let r = r.max(0.0).min(1.0);

        let mut lp'''), ('src/modifiers/lowpass.rs', '''    fn reset(&mut self) {''', '''    fn limit(fc: MathT) -> MathT {
        let nyquist = SAMPLE_RATE as MathT / 2.0;
        if fc > nyquist { nyquist } else { fc }
    }

    fn reset(&mut self) {''')]),
 dict(id='highpass-split', props='C10 C15 C29', edits=[('src/modifiers/highpass.rs', '''        let y = self.a0*x + self.a1*self.x1 + self.a2*self.x2 + self.a3*self.x3 +
            self.b1*self.y1 + self.b2*self.y2 + self.b3*self.y3;

        self.x3 = self.x2;
        self.x2 = self.x1;
        self.x1 = x;
        self.y3 = self.y2;
        self.y2 = self.y1;
        self.y1 = y;
''', '''        let ff = self.a0*x + self.a1*self.x1 + self.a2*self.x2 + self.a3*self.x3;
        let fb = self.b1*self.y1 + self.b2*self.y2 + self.b3*self.y3;
        let y = ff + fb;

        self.y3 = self.y2;
        self.x3 = self.x2;
        self.y2 = self.y1;
        self.x2 = self.x1;
        self.y1 = y;
        self.x1 = x;
''')]),
 dict(id='bandpass-corners', props='C15 C29', edits=[('src/modifiers/bandpass.rs', '''        let mut bp = BandPass {
            central_f: (f.0*f.1).abs().sqrt(),
            quality: (f.0*f.1).abs().sqrt()/(f.1-f.0).abs(),''', '''        let centre = (f.0*f.1).abs().sqrt();
        let mut bp = BandPass {
            central_f: centre,
            quality: centre/(f.1-f.0).abs(),''')]),
 dict(id='bandpass-process', props='C10 C15', edits=[('src/modifiers/bandpass.rs', '''        let y = (self.a0 * (x - self.x2) as MathT +
            self.b1 * self.y1 as MathT - 
            self.b2 * self.y2 as MathT) as SampleT;
''', '''        let (y1, y2) = (self.y1 as MathT, self.y2 as MathT);
        let y = ((x - self.x2) as MathT * self.a0 + y1 * self.b1 - y2 * self.b2) as SampleT;
''')]),
 dict(id='resampler-index', props='C10 C18 C29', edits=[('src/utils/mono_resampler.rs', '''        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.loop_end && self.loop_end != 0 {
            self.data[self.ind.trunc() as usize + 1 - (self.loop_end - self.loop_start)].into_sample()
        } else if self.ind.trunc() as usize + 1 >= self.data.len() {
            self.data[self.ind.trunc() as usize].into_sample()
        } else {
            self.data[self.ind.trunc() as usize + 1].into_sample()
        };

        let x1: SampleT = self.data[self.ind.trunc() as usize].into_sample();
        let x2: SampleT = p1;
''', '''        let i = self.ind.trunc() as usize;
        let next = if self.loop_end != 0 && i + 1 >= self.loop_end {
            i + 1 - (self.loop_end - self.loop_start)
        } else {
            (i + 1).min(self.data.len() - 1)
        };

        let x1: SampleT = self.data[i].into_sample();
        let x2: SampleT = self.data[next].into_sample();
''')]),
 dict(id='resampler-looped', props='C18', edits=[('src/utils/mono_resampler.rs', '''        if self.ind as usize >= self.data.len() && self.loop_end == 0 {''', '''        if !self.looped() && self.ind as usize >= self.data.len() {'''), ('src/utils/mono_resampler.rs', '''    /// Sets the playback speed''', '''    fn looped(&self) -> bool {
        self.loop_end != 0
    }

    /// Sets the playback speed''')]),
 dict(id='block-take', props='C22', edits=[('src/sounds/standard_block.rs', '''        let y = Inter::get_mut(&mut self.i).unwrap()(
            GeneratorSP::get_mut(&mut self.g).unwrap().process(),
            ModifierSP::get_mut(&mut self.m).unwrap().process(self.input)
        );

        self.input = SampleT::default();

        y''', '''        let x = std::mem::replace(&mut self.input, SampleT::default());
        let g = GeneratorSP::get_mut(&mut self.g).unwrap().process();
        let m = ModifierSP::get_mut(&mut self.m).unwrap().process(x);

        Inter::get_mut(&mut self.i).unwrap()(g, m)''')]),
 dict(id='block-new', props='C22 C25', edits=[('src/sounds/standard_block.rs', '''        StandardBlock {
            g: Arc::new(g),
            m: Arc::new(
                modifiers::Passthrough::new()
            ),
            i: Self::generator_passthrough(),
            input: SampleT::default()
        }''', '''        Self::new(g, modifiers::Passthrough::new(), Self::generator_passthrough())'''), ('src/sounds/standard_block.rs', '''        StandardBlock {
            g: Arc::new(
                generators::Zero::new()
            ),
            m: Arc::new(m),
            i: Self::modifier_passthrough(),
            input: SampleT::default()
        }''', '''        Self::new(generators::Zero::new(), m, Self::modifier_passthrough())''')]),
 dict(id='simple-fold', props='C22 C23', edits=[('src/sounds/simple_sound.rs', '''        for m in &mut self.modifier_list {
            if let Some(m) = BlockSP::get_mut(m) {
                m.prime_input(out);
                out = m.process();
            }
        }
''', '''        for m in self.modifier_list.iter_mut().filter_map(BlockSP::get_mut) {
            m.prime_input(out);
            out = m.process();
        }
''')]),
 dict(id='simple-index', props='C22 C23', edits=[('src/sounds/simple_sound.rs', '''        for m in &mut self.modifier_list {
            if let Some(m) = BlockSP::get_mut(m) {
''', '''        for i in 0..self.modifier_list.len() {
            if let Some(m) = BlockSP::get_mut(&mut self.modifier_list[i]) {
''')]),
 dict(id='complex-helper', props='C23 C24 C25', edits=[('src/sounds/complex_sound.rs', '''        for b in &self.process_order {
            let block = BlockSP::get_mut(self.graph.node_weight_mut(*b).unwrap()).unwrap();
            out = block.process();
''', '''        for b in &self.process_order {
            out = Self::block(&mut self.graph, *b).process();
'''), ('src/sounds/complex_sound.rs', '''                BlockSP::get_mut(self.graph.node_weight_mut(t.1).unwrap()).unwrap().
                prime_input(out);
''', '''                Self::block(&mut self.graph, t.1).prime_input(out);
'''), ('src/sounds/complex_sound.rs', '''    fn process_order(&mut self) {''', '''    fn block(graph: &mut Graph, n: GraphNode) -> &mut (dyn Block + 'static) {
        BlockSP::get_mut(graph.node_weight_mut(n).unwrap()).unwrap()
    }

    fn process_order(&mut self) {''')]),
 dict(id='complex-collect', props='C23 C25', edits=[('src/sounds/complex_sound.rs', '''            let mut neighbors = self.graph.neighbors(*b).detach();

            while let Some(t) = neighbors.next(&self.graph) {
                BlockSP::get_mut(self.graph.node_weight_mut(t.1).unwrap()).unwrap().
                prime_input(out);
            }
''', '''            let targets: Vec<GraphNode> = self.graph.neighbors(*b).collect();

            for t in targets {
                BlockSP::get_mut(&mut self.graph[t]).unwrap().prime_input(out);
            }
''')]),
 dict(id='complex-order-index', props='C24 C25', edits=[('src/sounds/complex_sound.rs', '''        let ig = self.input_gain;
        let og = self.output_gain;

        self.process_order.retain(|e| *e != ig && *e != og);
''', '''        let gains = [self.input_gain, self.output_gain];

        self.process_order = self.process_order.iter().cloned().filter(|e| !gains.contains(e)).collect();
''')]),
 dict(id='complex-remove', props='C24', edits=[('src/sounds/complex_sound.rs', '''        if let Some(e) = self.graph.find_edge(from, to) {
            self.graph.remove_edge(e);
        }

        self.process_order();''', '''        if let Some(e) = self.graph.find_edge(from, to) {
            self.graph.remove_edge(e);
            self.process_order();
        }''')]),
 dict(id='channel-values', props='C26', edits=[('src/channels/standard_channel.rs', '''            *sample = SF::default();

            for mut sound in &mut self.sounds {
                *sample += SF::from_sample(Arc::get_mut(&mut sound.1).unwrap().process(Default::default()));
            }

            *sample *= self.gain;
''', '''            let mut sum = SF::default();

            for sound in self.sounds.values_mut() {
                let sound = Arc::get_mut(sound).unwrap();
                sum += SF::from_sample(sound.process(Default::default()));
            }

            sum *= self.gain;
            *sample = sum;
''')]),
 dict(id='channel-id', props='C26', edits=[('src/channels/standard_channel.rs', '''        let old = self.id_counter;

        self.id_counter += 1;

        old''', '''        self.id_counter += 1;

        self.id_counter - 1'''), ('src/channels/standard_channel.rs', '''        self.output = Vec::new();
        self.output.resize_with((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize, SF::default);''', '''        let n = (d.as_secs_f64() * SAMPLE_RATE as MathT) as usize;
        self.output.clear();
        self.output.resize_with(n, SF::default);''')]),
 dict(id='gain-assign', props='C17 C22', edits=[('src/modifiers/gain.rs', "        x * self.a\n", "        let mut y = x;\n        y *= self.a;\n        y\n")]),
 dict(id='stereo-map', props='C03 C04', edits=[('src/sample_format/stereo.rs', '''        Stereo {
            left:  -self.left,
            right: -self.right,
        }
''', '''        let Stereo { left, right } = self;
        Stereo::from(-left, -right)
''')]),
 dict(id='wav-collect', props='C27 C18', edits=[('src/generators/mono_wav.rs', '''        let mut mt = MonoTrackT::new();

        for s in t.first().expect("No audio data read") {
            mt.push(Mono::from_sample(*s));
        }
''', '''        let mt: MonoTrackT = t.first().expect("No audio data read").iter().map(|s| Mono::from_sample(*s)).collect();
''')]),
 dict(id='wav-index', props='C27', edits=[('src/generators/mono_wav.rs', '''        for s in t.first().expect("No audio data read") {
            mt.push(Mono::from_sample(*s));
        }
''', '''        let first = t.first().expect("No audio data read");
        mt.reserve(first.len());
        for i in 0..first.len() {
            mt.push(Mono::from_sample(first[i]));
        }
''')]),
 dict(id='reader-copy', props='C30', edits=[('src/debug.rs', '''        let mut n = 0;
        while n < buf.len() && self.pos < self.vec.len() {
            buf[n] = self.vec[self.pos];
            n += 1;
            self.pos += 1;
        }
        Ok(n)
''', '''        let n = std::cmp::min(buf.len(), self.vec.len() - self.pos);
        buf[..n].copy_from_slice(&self.vec[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
''')]),
 dict(id='reader-swap', props='C30', edits=[('src/debug.rs', '''            buf[n] = self.vec[self.pos];
            n += 1;
            self.pos += 1;
''', '''            let b = self.vec[self.pos];
            self.pos += 1;
            buf[n] = b;
            n += 1;
''')]),
 dict(id='noise-sum', props='C08', edits=[('src/generators/noise.rs', '''        self.engine.gen::<SampleT>()*2.0-1.0
''', '''        let x: SampleT = self.engine.gen();

        x + x - 1.0
''')]),
]
