//! Adhoc files, written by the library and by an encoder of our own.
use crate::adhoc::{channels, pieces, rate};
use crate::signal;
use crate::util::*;
use adhoc_audio::{AdhocCodec, StreamInfo, Streamable};
use std::io::Cursor;

/// loads a file and decodes it completely
fn read(bytes: &[u8]) -> Option<(StreamInfo, Vec<f32>)> {
    let mut k = AdhocCodec::load(Cursor::new(bytes))?;
    let i = k.info();
    let mut out = vec![];
    let mut buf = vec![0.0; 1024.max(i.channels())];
    while let Some(n) = Streamable::decode(&mut k, &mut buf) {
        out.extend_from_slice(&buf[..n]);
        if out.len() > 1 << 20 {
            break;
        }
    }
    Some((i, out))
}

fn log(t: &mut Trace, bytes: Vec<u8>, lvl: u32, decode: bool) {
    let ev = Obj::new().s("op", "file").i("lvl", lvl as i64).bytes("b", &bytes);
    if decode {
        t.run(ev, || read(&bytes), |o, r| match r {
            Some((i, x)) => {
                o.b("ok", true).i("rate", i.frequency() as i64).i("ch", i.channels() as i64).bits("out", x)
            }
            None => o.b("ok", false).i("rate", 0).i("ch", 0).arr("out", []),
        });
    } else {
        t.note(ev);
    }
}

/// frames of thousands of samples, whose character changes somewhere
pub fn written_long(id: usize, r: &mut Rng, mode: i64) -> Trace {
    let ch = r.pick(&[1usize, 1, 2]);
    let total = match r.below(10) {
        0 => r.pick(&[65534usize, 65535, 65536, 66000]),
        1 | 2 => r.range(20000, 40000) as usize,
        _ => r.range(3000, 18000) as usize,
    } / ch;
    let mut chans: Vec<Vec<f32>> = vec![];
    for _ in 0..ch {
        let mut v = vec![];
        while v.len() < total {
            let n = match r.below(3) {
                0 => total,
                1 => r.range(1, 300) as usize,
                _ => r.range(100, 12000) as usize,
            }
            .min(total - v.len());
            let mut part = signal::channel(r, n, mode == 1);
            let gain = r.pick(&[1.0f32, 1.0, 0.3, 0.01, 0.0005]);
            part.iter_mut().for_each(|x| *x *= gain);
            v.extend(part);
        }
        chans.push(v);
    }
    let mut x = vec![];
    for i in 0..total {
        for c in &chans {
            x.push(c[i]);
        }
    }
    // a small call in front, so that the long one isn't the first
    let first = if r.chance(50) { r.range(1, 40) as usize } else { 0 };
    let p = if first > 0 { vec![first * ch, x.len() - first * ch] } else { vec![x.len()] };
    write(id, r, mode, ch, x, p, false)
}

/// what the library writes
pub fn written(id: usize, r: &mut Rng, mode: i64) -> Trace {
    let ch = channels(r);
    let frames = match r.below(8) {
        0 => r.below(7),
        _ => r.below(400 / ch) + 1,
    };
    let many = r.chance(8);
    let x = if many {
        signal::interleaved(r, 140 + r.clone().below(100), ch.min(3), mode == 1)
    } else {
        signal::interleaved(r, frames, ch, mode == 1)
    };
    let ch = if many { ch.min(3) } else { ch };
    let p = if many { vec![ch; x.len() / ch] } else { pieces(r, frames, ch) };
    let reuse = r.chance(20);
    write(id, r, mode, ch, x, p, reuse)
}

fn write(id: usize, r: &mut Rng, mode: i64, ch: usize, x: Vec<f32>, p: Vec<usize>, reuse: bool) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "format").arr("cfg", [mode, 1]));
    let lvl = r.pick(&[0u32, 0, 1, 2, 3, 5, 8, 10]);
    let rate = rate(r);
    let state = r.below(5);
    // what was in the codec before: calls, frames per call, channels, level
    let old = (r.pick(&[1usize, 2, 40, 200]), r.pick(&[1usize, 40, 300]), if r.chance(40) { channels(r) } else { ch }, r.pick(&[0u32, lvl, 7]));
    let b = t.run(
        Obj::new().s("op", "write"),
        || {
            let mut k = AdhocCodec::new().with_compression_level(lvl).with_info(StreamInfo::new(rate, ch as u32));
            if reuse {
                let (calls, frames, och, olvl) = old;
                k = k.with_compression_level(olvl);
                k.set_info(StreamInfo::new(rate, och as u32));
                let len = frames.min(2000 / och + 1) * och;
                for i in 0..calls.min(20_000 / len + 1) {
                    Streamable::encode(&mut k, &vec![0.5 - i as f32 / 200.0; len]);
                }
                k.init();
                k.set_info(StreamInfo::new(rate, ch as u32));
                k = k.with_compression_level(lvl);
            }
            let mut at = 0;
            for n in p {
                Streamable::encode(&mut k, &x[at..at + n]);
                at += n;
            }
            let mut v: Vec<u8> = vec![];
            // the moment of saving leaves traces in the file
            match state {
                0 => k.init(),
                1 => {
                    k.init();
                    Streamable::decode(&mut k, &mut vec![0.0; 10 * ch]);
                }
                _ => {}
            }
            k.save_to(&mut v)?;
            Some(v)
        },
        |o, _| o,
    );
    match b {
        Some(Some(b)) => {
            t.ev.clear();
            log(&mut t, b, lvl, mode == 1);
        }
        Some(None) => {
            t.ev.clear();
            t.note(Obj::new().s("op", "not saved"));
        }
        None => {}
    }
    t
}

// ---------------------------------------------------------------- our own encoder
struct Bits(Vec<bool>);
impl Bits {
    fn field(&mut self, v: u32, n: usize) {
        for i in 0..n {
            self.0.push((v >> i) & 1 == 1);
        }
    }
    fn rice(&mut self, k: usize, v: i32) {
        let m = v.unsigned_abs();
        self.0.push(v < 0);
        for _ in 0..m >> k {
            self.0.push(true);
        }
        self.0.push(false);
        self.field(m & ((1 << k) - 1), k);
    }
}

fn norm(c: i16) -> f32 {
    c as f32 * (1.0 / 32767.0)
}
fn predict(h: &[i16; 3]) -> i16 {
    let (a, b, c) = (norm(h[0]), norm(h[1]), norm(h[2]));
    let d = b - a;
    let e = c - a;
    let c1 = (4.0 * d - e) * 0.5;
    let c2 = (e - 2.0 * d) * 0.5;
    let v = a + (c1 + c2 * 3.0) * 3.0;
    (v.clamp(-1.0, 1.0) * 32767.0) as i16
}

pub struct FrameOf {
    pub size: usize,
    pub exps: Vec<usize>,
}

/// a file with given codes (per channel), frames and exponents
pub fn build(lvl: u32, rate: u32, codes: &[Vec<i16>], frames: &[FrameOf], pad: usize, cursors: (u32, u64)) -> Vec<u8> {
    let ch = codes.len();
    let mut bits = Bits(vec![]);
    let (mut exps, mut init, mut sizes, mut starts, mut hist) = (vec![], vec![], vec![], vec![], vec![]);
    let mut h = vec![[0i16; 3]; ch];
    let mut fresh = vec![true; ch];
    let mut at = 0;
    for f in frames {
        for c in 0..ch {
            starts.push(bits.0.len() as u64);
            let x = &codes[c][at..at + f.size];
            exps.push(f.exps[c] as u8);
            init.push(fresh[c]);
            sizes.push(f.size as u16);
            let raw = if fresh[c] { f.size.min(3) } else { 0 };
            let before = h[c];
            for (i, &s) in x.iter().enumerate() {
                if i < raw {
                    bits.field(s as u16 as u32, 16);
                } else {
                    bits.rice(f.exps[c], s.wrapping_sub(predict(&h[c])) as i32);
                }
                h[c] = [h[c][1], h[c][2], s];
                if raw > 0 && i + 1 == raw {
                    hist.push(h[c]);
                }
            }
            if raw == 0 {
                hist.push(before);
            }
            if f.size >= 3 {
                fresh[c] = false;
            }
        }
        at += f.size;
    }
    let mut v: Vec<u8> = vec![];
    v.extend_from_slice(&lvl.to_le_bytes());
    let n = exps.len();
    let mut nib = vec![0u8; (n + 1) / 2 + pad];
    for (i, e) in exps.iter().enumerate() {
        nib[i / 2] |= e << (4 * (i % 2));
    }
    v.extend_from_slice(&(nib.len() as u64).to_le_bytes());
    v.extend_from_slice(&nib);
    v.extend_from_slice(&(n as u32).to_le_bytes());
    let mut words = vec![0u64; (n + 63) / 64 + pad];
    for (i, b) in init.iter().enumerate() {
        words[i / 64] |= (*b as u64) << (i % 64);
    }
    v.extend_from_slice(&(words.len() as u64).to_le_bytes());
    for w in words {
        v.extend_from_slice(&w.to_le_bytes());
    }
    v.extend_from_slice(&(n as u128).to_le_bytes());
    v.extend_from_slice(&(n as u64).to_le_bytes());
    for s in sizes {
        v.extend_from_slice(&s.to_le_bytes());
    }
    v.extend_from_slice(&(n as u64).to_le_bytes());
    for s in starts {
        v.extend_from_slice(&s.to_le_bytes());
    }
    v.extend_from_slice(&(n as u64).to_le_bytes());
    for h in hist {
        for x in h {
            v.extend_from_slice(&x.to_le_bytes());
        }
    }
    v.extend_from_slice(&cursors.0.to_le_bytes());
    v.push(1);
    v.extend_from_slice(&rate.to_le_bytes());
    v.extend_from_slice(&(ch as u32).to_le_bytes());
    let mut words = vec![0u128; (bits.0.len() + 127) / 128 + pad];
    for (i, b) in bits.0.iter().enumerate() {
        words[i / 128] |= (*b as u128) << (i % 128);
    }
    v.extend_from_slice(&(words.len() as u64).to_le_bytes());
    for w in words {
        v.extend_from_slice(&w.to_le_bytes());
    }
    v.extend_from_slice(&(cursors.1 as u128).to_le_bytes());
    v.extend_from_slice(&(bits.0.len() as u128).to_le_bytes());
    v
}

/// files of other writers
pub fn foreign(id: usize, r: &mut Rng) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "format").arr("cfg", [1, 0]));
    let lvl = r.below(11) as u32;
    let ch = channels(r);
    let many = r.chance(10);
    let blocks = if many { 100 + r.below(60) } else { 1 + r.below(8) };
    let mut frames = vec![];
    for _ in 0..blocks {
        let size = if many { 1 + r.below(3) } else { 1 + r.below(120 / ch + 3) };
        frames.push(FrameOf { size, exps: (0..ch).map(|_| 1 + r.below(14)).collect() });
    }
    if r.chance(10) {
        frames.clear()
    }
    if r.chance(20) {
        // empty frames, which earlier versions wrote when nothing was encoded
        let n = r.pick(&[1usize, 2, 9, 10, 11, 30]);
        let at = r.below(frames.len() + 1);
        if at > 0 && frames[..at].iter().any(|f: &FrameOf| f.size >= 3) {
            for _ in 0..n {
                frames.insert(at, FrameOf { size: 0, exps: vec![1; ch] });
            }
        }
    }
    let total: usize = frames.iter().map(|f| f.size).sum();
    let codes: Vec<Vec<i16>> = (0..ch)
        .map(|_| {
            let kind = r.below(signal::KINDS);
            // full scale residuals with small exponents take thousands of bits
            let c = signal::channel_of_kind(r, kind, total, false);
            c.iter().map(|x| (x.clamp(-1.0, 1.0) * 32767.0) as i16).collect()
        })
        .collect();
    // no exponents that need hundreds of bits for each code, except for a few
    let limit = if r.chance(3) { 4000 } else { 40 };
    let mut h = vec![[0i16; 3]; ch];
    let mut at = 0;
    for f in frames.iter_mut() {
        for c in 0..ch {
            let mut res = vec![];
            for &s in codes[c][at..at + f.size].iter() {
                res.push(s.wrapping_sub(predict(&h[c])).unsigned_abs() as usize);
                h[c] = [h[c][1], h[c][2], s];
            }
            while f.exps[c] < 14 && res.iter().map(|m| m >> f.exps[c]).sum::<usize>() > limit * f.size {
                f.exps[c] += 1;
            }
        }
        at += f.size;
    }
    let pad = if r.chance(20) { r.below(3) } else { 0 };
    let cursors = if r.chance(50) { (r.below(5) as u32, r.below(100) as u64) } else { (0, 0) };
    let b = build(lvl, rate(r), &codes, &frames, pad, cursors);
    log(&mut t, b, lvl, true);
    t
}
