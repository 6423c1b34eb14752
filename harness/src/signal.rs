//! Test signals.
use crate::util::Rng;

pub const NF: f32 = 1.0 / i16::MAX as f32;

/// the sample value of a 16-bit code
pub fn of_code(c: i32) -> f32 {
    c as f32 * NF
}

pub const KINDS: usize = 18;

/// One channel of `n` samples.  Magnitudes may exceed 1 only with `hot`.
pub fn channel(r: &mut Rng, n: usize, hot: bool) -> Vec<f32> {
    let kind = r.below(KINDS);
    channel_of_kind(r, kind, n, hot)
}

pub fn channel_of_kind(r: &mut Rng, kind: usize, n: usize, hot: bool) -> Vec<f32> {
    let amp = r.pick(&[1.0f32, 1.0, 0.99, 0.7, 0.25, 0.01, 0.0005]);
    let mut v: Vec<f32> = match kind {
        // silence, constants
        0 => vec![0.0; n],
        1 => {
            let c = r.unit() * amp;
            vec![c; n]
        }
        // tones
        2 | 3 => {
            let w = r.unit().abs() * r.pick(&[0.01f32, 0.1, 1.0, 3.1415]);
            let p = r.unit() * 3.0;
            (0..n).map(|i| (i as f32 * w + p).sin() * amp).collect()
        }
        // full scale alternation and square waves
        4 => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        5 => {
            let p = 1 + r.below(20);
            let a = r.pick(&[1.0f32, 1.0, 0.9, 0.5]);
            (0..n).map(|i| if (i / p) % 2 == 0 { a } else { -a }).collect()
        }
        // noise
        6 | 7 => (0..n).map(|_| r.unit() * amp).collect(),
        8 => (0..n).map(|_| of_code(r.range(-32767, 32767) as i32)).collect(),
        9 => {
            let m = r.pick(&[1i64, 2, 3, 8, 40, 300]);
            (0..n).map(|_| of_code(r.range(-m, m) as i32)).collect()
        }
        // silence with spikes whose residuals have quotients around multiples of 128
        10 | 11 => {
            let base = r.range(-20, 20) as i32;
            let mut v = vec![of_code(base); n];
            let gap = 8 + r.below(60);
            let mut i = r.below(gap + 1);
            while i < n {
                let q = r.pick(&[64i32, 127, 128, 129, 130, 255, 256, 257, 384, 512, 1024, 4096, 16383, 1, 2]);
                let s = (q * 2 + r.range(-3, 3) as i32) / r.pick(&[1, 1, 3]);
                let s = if r.chance(50) { s } else { -s };
                v[i] = of_code((base + s).clamp(-32767, 32767));
                i += gap + r.below(9);
            }
            v
        }
        // random walk
        12 => {
            let step = r.pick(&[1i64, 10, 100, 3000]);
            let mut c = r.range(-30000, 30000);
            (0..n)
                .map(|_| {
                    c = (c + r.range(-step, step)).clamp(-32767, 32767);
                    of_code(c as i32)
                })
                .collect()
        }
        // steps: long constant stretches with jumps between extremes
        13 => {
            let mut c = 0.9f32;
            (0..n)
                .map(|_| {
                    if r.chance(7) {
                        c = r.pick(&[1.0f32, -1.0, 0.0, 0.9, -0.9, 0.5, r.clone().unit()]);
                    }
                    c
                })
                .collect()
        }
        // parabolas (predicted exactly) with kinks
        14 => {
            let mut v = Vec::with_capacity(n);
            let (mut x, mut d, mut dd) = (0i64, r.range(-50, 50), r.range(-3, 3));
            for _ in 0..n {
                x += d;
                d += dd;
                if x.abs() > 32000 || r.chance(2) {
                    x = r.range(-1000, 1000);
                    d = r.range(-50, 50);
                    dd = r.range(-3, 3);
                }
                v.push(of_code(x.clamp(-32767, 32767) as i32));
            }
            v
        }
        // a mix of loud and quiet stretches
        15 => {
            let mut v = vec![];
            while v.len() < n {
                let a = r.pick(&[1.0f32, 0.1, 0.001, 0.0]);
                for _ in 0..5 + r.below(40) {
                    v.push(r.unit() * a);
                }
            }
            v.truncate(n);
            v
        }
        // values around the ends of the range
        16 => (0..n)
            .map(|_| {
                r.pick(&[
                    1.0f32,
                    -1.0,
                    of_code(32767),
                    of_code(-32767),
                    of_code(32766),
                    of_code(-32766),
                    0.0,
                    -0.0,
                    of_code(1),
                    of_code(-1),
                    0.00003,
                    1e-30,
                    1e-42,
                    0.99999994,
                    -0.99999994,
                ])
            })
            .collect(),
        // anything
        _ => (0..n)
            .map(|_| match r.below(4) {
                0 => r.unit(),
                1 => r.pick(&[1.0f32, -1.0, 0.5, -0.5]),
                2 => of_code(r.range(-300, 300) as i32),
                _ => r.unit() * 0.1,
            })
            .collect(),
    };
    if hot && r.chance(15) {
        for x in v.iter_mut() {
            if r.chance(10) {
                *x = r.pick(&[1.5f32, -1.5, 100.0, -100.0, 1.0000001, -1.0000001, f32::MAX, f32::MIN, 1e-40]);
            }
        }
    }
    v
}

/// a few samples that aren't numbers, or aren't finite
pub fn spoil(r: &mut Rng, x: &mut [f32]) {
    if x.len() > 0 && r.chance(12) {
        for _ in 0..1 + r.below(3) {
            let i = r.below(x.len());
            x[i] = r.pick(&[f32::NAN, f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
        }
    }
}

/// `frames` interleaved frames of `ch` channels with independent contents
pub fn interleaved(r: &mut Rng, frames: usize, ch: usize, hot: bool) -> Vec<f32> {
    let chans: Vec<Vec<f32>> = (0..ch).map(|_| channel(r, frames, hot)).collect();
    let mut v = Vec::with_capacity(frames * ch);
    for i in 0..frames {
        for c in chans.iter() {
            v.push(c[i]);
        }
    }
    v
}
