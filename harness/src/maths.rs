//! The noise generator and the signal helpers (C27, C28).
use crate::util::*;
use adhoc_audio::verif::noise::{NoiseDistribution, PseudoRandom};
use adhoc_audio::verif::compute_mse;
use adhoc_audio::verif::parabola::FixedParabola;
use adhoc_audio::verif::signal::{convolve_1d, convolve_1d_branchless, gaussian_filter, scale_signal};

/// in units of 2^-20, away from 0
fn units(x: f32) -> i64 {
    if x.is_nan() {
        return 1 << 30;
    }
    let v = (x as f64 * 1048576.0).clamp(-1e9, 1e9);
    (if v < 0.0 { v.floor() } else { v.ceil() }) as i64
}

fn draw(p: &mut PseudoRandom, dist: &str, n: usize) -> Vec<i64> {
    if dist == "triangle" {
        p.triangle().take(n).map(units).collect()
    } else {
        p.uniform().take(n).map(units).collect()
    }
}

pub fn noise(id: usize, r: &mut Rng) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "noise").arr("cfg", [0]));
    let seeds: Vec<u64> = (0..6)
        .map(|i| match i {
            0..=2 => r.pick(&[0u64, 1, 123, 314, 507960, 507961, 507962, 1 << 20, (1 << 40) - 1]),
            _ => r.next() >> (24 + r.below(40)),
        })
        .collect();
    for _ in 0..6 {
        let seed = r.pick(&seeds);
        let mut hist = String::from("-");
        let mut p = PseudoRandom::new(seed);
        for _ in 0..1 + r.below(4) {
            let dist = r.pick(&["triangle", "triangle", "uniform"]);
            // few lengths, so that histories repeat
            let n = r.pick(&[1usize, 7, 40]);
            let ev = Obj::new().s("op", "vals").s("seed", &seed.to_string()).s("hist", &hist).s("dist", dist);
            t.run(ev, || draw(&mut p, dist, n), |o, v| o.arr("v", v.iter().copied()));
            hist = format!("{}{}{} ", hist, &dist[..1], n);
        }
    }
    if r.chance(30) {
        // the tables that are made of it, with 1000 values of the generator for seed 123
        table::<1000>(&mut t, "triangle");
        table::<1000>(&mut t, "uniform");
    }
    t
}

/// tables of all sizes
pub fn tables(id: usize, _: &mut Rng) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "noise").arr("cfg", [0]));
    for dist in ["triangle", "uniform"] {
        let t = &mut t;
        match id % 16 {
            0 => table::<1>(t, dist),
            1 => table::<2>(t, dist),
            2 => table::<19>(t, dist),
            3 => table::<255>(t, dist),
            4 => table::<300>(t, dist),
            5 => table::<301>(t, dist),
            6 => table::<1024>(t, dist),
            7 => table::<4099>(t, dist),
            8 => table::<20_000>(t, dist),
            9 => table::<32_769>(t, dist),
            10 => table::<65_535>(t, dist),
            11 => table::<65_536>(t, dist),
            12 => table::<70_001>(t, dist),
            13 => table::<100_000>(t, dist),
            14 => table::<131_073>(t, dist),
            _ => table::<200_000>(t, dist),
        }
    }
    t
}

fn table<const N: usize>(t: &mut Trace, dist: &str) {
    let ev = Obj::new().s("op", "table").s("dist", dist);
    t.run(
        ev,
        || {
            let mut p = PseudoRandom::new(123);
            let d = if dist == "triangle" { NoiseDistribution::<f32, N>::triangle() } else { NoiseDistribution::<f32, N>::uniform() };
            (draw(&mut p, dist, N), stars(d))
        },
        |o, (v, s)| o.arr("v", v.iter().copied()).arr("stars", s.iter().copied()),
    );
}

/// the values of a table are private, but its histogram is of all of them
fn stars<const N: usize>(d: NoiseDistribution<f32, N>) -> Vec<i64> {
    format!("{}", d).lines().map(|l| l.chars().filter(|&c| c == '*').count() as i64).collect()
}

/// the whole period of a generator, longer than which none with a 64-bit state of that size is
pub fn period(id: usize, r: &mut Rng) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "noise").arr("cfg", [0]));
    let seed = match id {
        0 => 314,
        1 => 123,
        _ => r.next() >> 44,
    };
    let mut p = PseudoRandom::new(seed);
    // two draws per value
    const N: usize = 507_960;
    const STEP: usize = 2540;
    for _ in 0..N / STEP {
        t.run(
            Obj::new().s("op", "sum").i("n", STEP as i64),
            || draw(&mut p, "triangle", STEP),
            |o, v| {
                let s: i64 = v.iter().sum();
                o.i("min", *v.iter().min().unwrap())
                    .i("max", *v.iter().max().unwrap())
                    .i("hi", s.div_euclid(1024))
                    .i("lo", s.rem_euclid(1024))
            },
        );
    }
    t.note(Obj::new().s("op", "period"));
    t
}

fn ints(r: &mut Rng, n: usize, m: i64) -> Vec<i64> {
    let style = r.below(4);
    (0..n)
        .map(|i| match style {
            0 => r.range(-m, m),
            1 => {
                if i == 0 || i + 1 == n {
                    m
                } else {
                    0
                }
            }
            2 => i as i64 % m,
            _ => r.pick(&[-m, m, 0, 1]),
        })
        .collect()
}
/// an infinite sample; one less isn't a number
const WILD: i64 = 9_999_999;
fn floats(v: &[i64]) -> Vec<f32> {
    v.iter()
        .map(|&x| match x {
            WILD => f32::INFINITY,
            x if x == WILD - 1 => f32::NAN,
            x if x == -WILD => f32::NEG_INFINITY,
            x => x as f32,
        })
        .collect()
}
fn whole(x: f32) -> i64 {
    if x.is_nan() {
        WILD - 1
    } else if x.is_infinite() {
        if x > 0.0 { WILD } else { -WILD }
    } else if x.fract() == 0.0 && x.abs() < 1e9 {
        x as i64
    } else {
        1 << 30
    }
}

pub fn signals(id: usize, r: &mut Rng) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "signal").arr("cfg", [0]));
    for _ in 0..4 {
        // every pair of small lengths comes up
        let n = if r.chance(70) { r.below(8) } else { r.below(40) };
        let m = if r.chance(70) { r.below(8) } else { r.below(50) };
        let mut x = ints(r, n, 100);
        let k = ints(r, m, 50);
        if n > 0 && r.chance(20) {
            // at an end, most of the time
            let i = r.pick(&[0, n - 1, r.clone().below(n)]);
            x[i] = r.pick(&[WILD, -WILD, WILD - 1]);
        }
        let more = r.below(3);
        for branchless in [false, true] {
            let (xf, kf) = (floats(&x), floats(&k));
            let ev = Obj::new().s("op", "conv").b("branchless", branchless).arr("x", x.iter().copied()).arr("k", k.iter().copied());
            t.run(
                ev,
                || {
                    let mut out = vec![0.5f32; n + more];
                    if branchless {
                        convolve_1d_branchless(&xf, &kf, &mut out)
                    } else {
                        convolve_1d(&xf, &kf, &mut out)
                    }
                    out
                },
                |o, out| {
                    let rest = out[n..].iter().filter(|&&v| v != 0.5).count() as i64;
                    o.arr("out", out[..n].iter().map(|&v| whole(v))).i("rest", rest)
                },
            );
        }
        let n = 1 + if r.chance(50) { r.below(6) } else { r.below(120) };
        let len = 2 + if r.chance(50) { r.below(6) } else { r.below(120) };
        let x = ints(r, n, 100);
        let xf = floats(&x);
        let ev = Obj::new().s("op", "scale").arr("x", x.iter().copied()).i("n", len as i64);
        t.run(
            ev,
            || {
                let mut out = vec![0.5f32; len + more];
                scale_signal(&xf, len, &mut out).to_vec()
            },
            |o, out| {
                o.arr("out", out.iter().map(|&v| if v.is_finite() { (v * 1024.0).round().clamp(-1e6, 1e6) as i64 } else { 1 << 20 }))
            },
        );
    }
    // mean squared error of the common part
    let (n, m) = (1 + r.below(20), 1 + r.below(20));
    let m = if r.chance(50) { n } else { m };
    let x = ints(r, n, 100);
    let y = ints(r, m, 100);
    let (xf, yf) = (floats(&x), floats(&y));
    t.run(
        Obj::new().s("op", "mse").arr("x", x).arr("y", y),
        || compute_mse(&xf, &yf),
        |o, v| o.i("out", if v.is_finite() { (v * 1024.0).round().clamp(-1e6, 1e9) as i64 } else { -1 }),
    );
    // the parabola through three points at 0, 1, 2, at the places -2..=5
    let f = ints(r, 3, 1000);
    let ff = floats(&f);
    t.run(
        Obj::new().s("op", "parabola").arr("f", f),
        || {
            let mut p = if ff[0] > 0.0 {
                FixedParabola::from_samples([ff[0], ff[1], ff[2]])
            } else {
                let mut p = FixedParabola::new();
                p.f = [ff[0], ff[1], ff[2]];
                p
            };
            p.compute_coefs();
            (-2..=5).map(|x| p.eval(x as f32)).collect::<Vec<_>>()
        },
        |o, v| o.arr("out", v.iter().map(|&v| whole(v))),
    );
    // a bell with sigma = m places
    let sigma = r.pick(&[0.25f32, 0.5, 1.0, 1.5, 3.0]);
    let which = r.below(6);
    let (m, w) = [(1usize, 1usize), (1, 4), (2, 2), (4, 1), (4, 2), (4, 4)][which];
    t.run(
        Obj::new().s("op", "bell").i("m", m as i64).i("w", w as i64),
        || {
            let r = sigma * w as f32;
            match m * w {
                1 => gaussian_filter::<3>(sigma, r).to_vec(),
                4 => gaussian_filter::<9>(sigma, r).to_vec(),
                8 => gaussian_filter::<17>(sigma, r).to_vec(),
                _ => gaussian_filter::<33>(sigma, r).to_vec(),
            }
        },
        |o, v| {
            let top = v[v.len() / 2];
            o.i("top", units(top * sigma)).arr("out", v.iter().map(|&x| ((x / top * 32768.0).round()).clamp(-1e6, 1e6) as i64))
        },
    );
    t
}
