//! Wav codecs: calls recorded for WavTrace.
use crate::adhoc::{channels, pieces, FILL};
use crate::signal;
use crate::util::*;
use adhoc_audio::codec::wav::WavCodec;
use adhoc_audio::{SeekFrom, StreamInfo, Streamable};
use std::collections::BTreeMap;
use std::io::Cursor;

fn halves(o: Obj, k: &str, v: u32) -> Obj {
    o.arr(k, [(v >> 16) as i64, (v & 0xffff) as i64])
}

pub struct Sess {
    pub t: Trace,
    pub w: BTreeMap<i64, WavCodec>,
    pub f: BTreeMap<i64, Vec<u8>>,
}

impl Sess {
    pub fn new(id: usize) -> Self {
        Sess { t: Trace::new(id, Obj::new().s("kind", "wav").arr("cfg", [0])), w: BTreeMap::new(), f: BTreeMap::new() }
    }
    pub fn alive(&self) -> bool {
        !self.t.dead
    }
    pub fn make(&mut self, w: i64, rate: u32, ch: u32) {
        let ev = halves(Obj::new().s("op", "wnew").i("w", w).i("ch", ch as i64), "rate", rate);
        if let Some(x) = self.t.run(ev, || WavCodec::new(StreamInfo::new(rate, ch)), |o, _| o) {
            self.w.insert(w, x);
        }
    }
    pub fn enc(&mut self, w: i64, x: &[f32]) {
        if self.t.dead {
            return;
        }
        let k = self.w.get_mut(&w).unwrap();
        self.t.run(
            Obj::new().s("op", "wenc").i("w", w),
            || Streamable::encode(k, x),
            |o, r| o.bits("x", x).i("ret", r.map_or(-1, |n| n as i64)),
        );
    }
    pub fn dec(&mut self, w: i64, cap: usize) -> usize {
        if self.t.dead {
            return 0;
        }
        let mut buf = vec![FILL; cap];
        let k = self.w.get_mut(&w).unwrap();
        let r = {
            let b = &mut buf;
            self.t.run(
                Obj::new().s("op", "wdec").i("w", w).i("cap", cap as i64),
                move || (Streamable::decode(k, b), b),
                |o, (r, b)| {
                    o.i("ret", match r {
                        None => 0,
                        Some(0) => -1,
                        Some(n) => *n as i64,
                    })
                    .i("fill", FILL.to_bits() as i64)
                    .bits("out", b)
                },
            )
        };
        r.and_then(|(n, _)| n).unwrap_or(0)
    }
    pub fn seek(&mut self, w: i64, to: SeekFrom) {
        if self.t.dead {
            return;
        }
        let (whence, neg, ms) = match to {
            SeekFrom::Start(t) => (0, false, t),
            SeekFrom::Current(t) => (1, t < 0, t.unsigned_abs()),
            SeekFrom::End(t) => (2, t < 0, t.unsigned_abs()),
        };
        let k = self.w.get_mut(&w).unwrap();
        let ev = Obj::new()
            .s("op", "wseek")
            .i("w", w)
            .i("whence", whence)
            .b("neg", neg)
            .i("hi", (ms / 1000).min(2_000_000_000) as i64)
            .i("lo", (ms % 1000) as i64);
        self.t.run(ev, || Streamable::seek(k, to), |o, _| o);
    }
    pub fn info(&mut self, w: i64) {
        if self.t.dead {
            return;
        }
        let k = &self.w[&w];
        self.t.run(Obj::new().s("op", "winfo").i("w", w), || Streamable::info(k), |o, i| {
            halves(o, "rate", i.frequency() as u32).i("ch", i.channels() as i64)
        });
    }
    pub fn size(&mut self, w: i64) {
        if self.t.dead {
            return;
        }
        let k = &self.w[&w];
        self.t.run(
            Obj::new().s("op", "wsize").i("w", w),
            || {
                let mut v: Vec<u8> = vec![];
                k.save_to(&mut v).unwrap();
                (Streamable::filesize_upperbound(k), v.len())
            },
            |o, (n, b)| o.i("ret", (*n).min(i32::MAX as u64) as i64).i("bytes", *b as i64),
        );
    }
    pub fn save(&mut self, w: i64, f: i64) {
        if self.t.dead {
            return;
        }
        let k = &self.w[&w];
        let r = self.t.run(
            Obj::new().s("op", "wsave").i("w", w),
            || {
                let mut v: Vec<u8> = vec![];
                let r = k.save_to(&mut v);
                (r.is_ok(), v)
            },
            |o, (ok, v)| o.b("ok", *ok).bytes("b", v),
        );
        if let Some((_, v)) = r {
            self.f.insert(f, v);
        }
    }
    pub fn load(&mut self, w: i64, b: &[u8]) -> bool {
        if self.t.dead {
            return false;
        }
        let r = self.t.run(
            Obj::new().s("op", "wload").i("w", w),
            || WavCodec::load(Cursor::new(b)).map(|k| (Streamable::info(&k), k)),
            |o, r| match r {
                Ok((i, _)) => {
                    halves(o.b("ok", true), "rate", i.frequency() as u32).i("ch", i.channels().min(70000) as i64).bytes("b", b)
                }
                Err(_) => o.b("ok", false).arr("rate", [0, 0]).i("ch", 0).bytes("b", b),
            },
        );
        match r {
            Some(Ok((_, k))) => {
                self.w.insert(w, k);
                true
            }
            _ => false,
        }
    }
    pub fn load_file(&mut self, w: i64, f: i64) -> bool {
        if self.t.dead {
            return false;
        }
        let b = self.f[&f].clone();
        self.load(w, &b)
    }
    pub fn drain(&mut self, w: i64, cap: usize) {
        let mut n = 0;
        while self.alive() && self.dec(w, cap) > 0 && n < 10_000 {
            n += 1;
        }
    }
}

fn rate(r: &mut Rng) -> u32 {
    if r.chance(10) {
        return crate::adhoc::rate(r);
    }
    r.pick(&[8000u32, 11025, 22050, 44100, 48000, 96000, 192000, 1, 100, 999, 1000, 1001, 12345])
}

/// all kinds of samples
fn samples(r: &mut Rng, n: usize) -> Vec<f32> {
    let mut x = signal::channel(r, n, true);
    if r.chance(10) {
        for v in x.iter_mut() {
            if r.chance(5) {
                *v = r.pick(&[f32::INFINITY, f32::NEG_INFINITY, 2.0, -2.0, 1e30, f32::NAN, -f32::NAN]);
            }
        }
    }
    x
}

/// C12
pub fn saving(id: usize, r: &mut Rng) -> Trace {
    let mut s = Sess::new(id);
    let big = r.chance(10);
    let ch = if r.chance(1) {
        r.pick(&[2048usize, 4095, 8192, 16383, 16384, 32766, 32767])
    } else if big {
        r.pick(&[16usize, 64, 255, 256, 300, 2047])
    } else {
        channels(r)
    };
    // any rate, or one whose bytes per second just fit the header
    let most = (u32::MAX as u64 / (ch as u64 * 2)) as u32;
    let rate = if r.chance(20) { most - r.below(2) as u32 } else { crate::adhoc::any_rate(r) };
    let frames = match r.below(5) {
        _ if ch > 2047 => r.below(2),
        0 => r.below(4),
        1 => crate::adhoc::length(r, ch, 500),
        _ => r.below(500 / ch + 2),
    };
    s.make(0, rate, ch as u32);
    if r.chance(20) {
        s.save(0, 0);
    }
    let x = samples(r, frames * ch);
    let mut at = 0;
    for n in pieces(r, frames, ch) {
        s.enc(0, &x[at..at + n]);
        at += n;
    }
    match r.below(4) {
        0 => s.seek(0, SeekFrom::Start(0)),
        1 => {
            s.seek(0, SeekFrom::Start(0));
            s.dec(0, ch * 3);
        }
        _ => {}
    }
    s.save(0, 1);
    s.info(0);
    if s.load_file(1, 1) {
        s.info(1);
        if r.chance(50) {
            s.save(1, 2);
        }
        s.drain(1, r.pick(&[700usize, 64 * ch]).max(ch));
        s.save(1, 2);
        // going on with the loaded one
        if r.chance(50) {
            let n = r.below(20) * ch;
            let x = samples(r, n);
            if r.chance(50) {
                s.seek(1, SeekFrom::Start(0));
            }
            s.enc(1, &x);
            s.save(1, 3);
            if s.load_file(2, 3) {
                s.drain(2, 1000.max(ch));
            }
        }
        s.dec(0, 5 * ch);
    }
    s.t
}

/// C13
pub fn array(id: usize, r: &mut Rng) -> Trace {
    let mut s = Sess::new(id);
    let ch = channels(r);
    s.make(0, rate(r), ch as u32);
    let style = if ch > 20 { r.below(2) } else { r.below(4) };
    let long = r.chance(4) && ch < 10;
    for _ in 0..6 + r.below(30) {
        let n = match style {
            0 => r.below(4 * ch + 2),
            1 => r.pick(&[0usize, 1, ch - 1, ch, ch + 1, 2 * ch, 3 * ch - 1]),
            2 => r.pick(&[16usize, 32, 64, 128, 256]) + r.below(3) - 1,
            _ => r.below(40 * ch),
        };
        let n = if long && r.chance(25) { 500 + r.below(6000) } else { n };
        match r.below(10) {
            0..=3 => {
                let x = samples(r, n);
                s.enc(0, &x);
            }
            4..=7 => {
                s.dec(0, n);
            }
            8 => s.seek(0, SeekFrom::Start(0)),
            _ => {
                if r.chance(30) {
                    s.save(0, 0);
                    s.load_file(0, 0);
                }
            }
        }
    }
    s.seek(0, SeekFrom::Start(0));
    s.drain(0, r.pick(&[ch, 512, 2000]).max(ch));
    s.t
}

/// C12 to C14: more samples than 16 bits count
pub fn deep(id: usize, r: &mut Rng, index: usize, what: &str) -> Trace {
    let mut s = Sess::new(id);
    let ch = r.pick(&[1usize, 1, 2, 3, 7]);
    let rate = r.pick(&[1000u32, 44100, 500, 8000]);
    s.make(0, rate, ch as u32);
    let n = r.pick(&[65535usize, 65536, 65540, 70_000, 131_072, 140_000]);
    let n = n / ch * ch + 3 * ch;
    let x: Vec<f32> = (0..n).map(|_| signal::of_code(r.range(-32767, 32767) as i32)).collect();
    if r.chance(50) {
        s.enc(0, &x);
    } else {
        let some = r.pick(&[1000usize, 20_000, 65_536]) * ch;
        for p in x.chunks(some) {
            s.enc(0, p);
        }
    }
    s.info(0);
    if what == "save" && index % 2 == 0 {
        s.save(0, 0);
        if r.chance(50) {
            s.load_file(0, 0);
        }
    }
    if what == "size" {
        s.size(0);
    }
    let frames = n / ch;
    let mut left = 2;
    for _ in 0..6 {
        if what != "seek" {
            s.seek(0, SeekFrom::Start(0));
            for _ in 0..r.below(3) {
                let n = ch * r.pick(&[1, 1000, 30_000, 66_000]);
                s.dec(0, n.min(200_000));
            }
            if r.chance(50) && left > 0 {
                left -= 1;
                let n = r.pick(&[1usize, 100, 30_000]).min(frames) * ch;
                s.enc(0, &x[..n]);
            }
            continue;
        }
        let f = match r.below(4) {
            0 => r.below(frames),
            1 => 65536usize.min(frames) - r.below(20),
            2 => (65530 + r.below(40)) / ch,
            _ => frames - r.below(30),
        };
        let ms = f as i64 * 1000 / rate as i64;
        s.seek(0, match r.below(4) {
            0 => SeekFrom::End(ms - (frames as i64 * 1000 / rate as i64)),
            1 => SeekFrom::Current(r.pick(&[ms, -ms])),
            _ => SeekFrom::Start(ms as u64),
        });
        if r.chance(25) && left > 0 {
            left -= 1;
            s.enc(0, &x[..ch * (1 + r.below(100))]);
        }
        s.dec(0, ch * (1 + r.below(100)));
    }
    if what == "size" {
        s.size(0);
    }
    s.seek(0, SeekFrom::Start(0));
    s.drain(0, r.pick(&[200_000usize, 70_000, 30_000]));
    if what == "save" {
        s.save(0, 0);
        if s.load_file(1, 0) {
            s.drain(1, 100_000);
        }
    }
    s.t
}

fn time(r: &mut Rng, rate: u32, frames: usize) -> u64 {
    crate::adhoc::time(r, rate, frames)
}

/// C14
pub fn seeking(id: usize, r: &mut Rng) -> Trace {
    let mut s = Sess::new(id);
    let ch = channels(r);
    let rate = rate(r);
    s.make(0, rate, ch as u32);
    let frames = crate::adhoc::length(r, ch, 500).min(2000);
    // every position is recognised by its sample
    let x: Vec<f32> = (0..frames * ch).map(|i| signal::of_code((i as i32 * 37) % 65000 - 32000)).collect();
    if r.chance(20) {
        // a file that ends inside of a frame
        let mut b = header(rate, ch as u16, 16, 1, x.len() as u32 * 2);
        let n = r.below(ch);
        for i in 0..frames * ch - n.min(frames * ch) {
            b.extend_from_slice(&((i * 11) as i16).to_le_bytes());
        }
        let len = b.len() as u32 - 44;
        b[40..44].copy_from_slice(&len.to_le_bytes());
        if !s.load(0, &b) {
            return s.t;
        }
    } else {
        s.enc(0, &x);
    }
    for _ in 0..10 + r.below(25) {
        let t = time(r, rate, frames);
        // near the ends as well as far
        let t = if r.chance(30) { r.below(frames * 1000 / rate as usize / 2 + 3) as u64 } else { t };
        let signed = (t.min(i64::MAX as u64) as i64) * if r.chance(50) { 1 } else { -1 };
        let signed = if r.chance(3) { i64::MIN } else { signed };
        s.seek(0, match r.below(4) {
            0 => SeekFrom::Start(t),
            1 => SeekFrom::End(signed),
            _ => SeekFrom::Current(signed),
        });
        match r.below(4) {
            0 => {}
            1 => {
                let cap = r.below(frames * ch / 2 + 2 * ch) + ch;
                s.dec(0, cap);
            }
            _ => {
                s.dec(0, ch);
            }
        }
        if r.chance(5) {
            let x = samples(r, ch);
            s.enc(0, &x);
        }
    }
    s.seek(0, SeekFrom::Start(0));
    s.drain(0, 1000.max(ch));
    s.t
}

/// C08
pub fn sizes(id: usize, r: &mut Rng) -> Trace {
    let mut s = Sess::new(id);
    let ch = channels(r);
    s.make(0, rate(r), ch as u32);
    s.size(0);
    for _ in 0..1 + r.below(8) {
        let n = r.below(60 * ch);
        let x = samples(r, n);
        s.enc(0, &x);
        s.size(0);
        match r.below(4) {
            0 => s.seek(0, SeekFrom::Start(0)),
            1 => s.seek(0, SeekFrom::End(-1)),
            2 => {
                s.save(0, 0);
                s.load_file(0, 0);
            }
            _ => {}
        }
        s.size(0);
    }
    s.t
}

fn header(rate: u32, ch: u16, depth: u16, format: u16, n: u32) -> Vec<u8> {
    let mut b = b"RIFF".to_vec();
    b.extend_from_slice(&(36 + n).to_le_bytes());
    b.extend_from_slice(b"WAVEfmt ");
    b.extend_from_slice(&16u32.to_le_bytes());
    fmt_body(&mut b, rate, ch, depth, format);
    b.extend_from_slice(b"data");
    b.extend_from_slice(&n.to_le_bytes());
    b
}
fn fmt_body(b: &mut Vec<u8>, rate: u32, ch: u16, depth: u16, format: u16) {
    b.extend_from_slice(&format.to_le_bytes());
    b.extend_from_slice(&ch.to_le_bytes());
    b.extend_from_slice(&rate.to_le_bytes());
    let block = (ch as u32 * depth as u32 + 7) / 8;
    b.extend_from_slice(&rate.wrapping_mul(block).to_le_bytes());
    b.extend_from_slice(&(block as u16).to_le_bytes());
    b.extend_from_slice(&depth.to_le_bytes());
}
fn chunk(b: &mut Vec<u8>, tag: &[u8], body: &[u8]) {
    b.extend_from_slice(tag);
    b.extend_from_slice(&(body.len() as u32).to_le_bytes());
    b.extend_from_slice(body);
    if body.len() % 2 == 1 {
        b.push(0);
    }
}

fn some_chunk(r: &mut Rng, b: &mut Vec<u8>) {
    let tag: &[u8] = r.pick(&[&b"LIST"[..], b"fact", b"JUNK", b"cue ", b"bext", b"PAD ", b"id3 "]);
    let n = r.below(24);
    let mut body: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    if n > 12 && r.chance(30) {
        let t: &[u8] = r.pick(&[&b"data"[..], b"fmt ", b"RIFF", b"WAVE"]);
        let i = r.below(n - 7);
        body[i..i + 4].copy_from_slice(t);
    }
    chunk(b, tag, &body);
}

/// a file that another program may have written
fn other_file(r: &mut Rng) -> Vec<u8> {
    some_file(r, false)
}
fn some_file(r: &mut Rng, far: bool) -> Vec<u8> {
    let depth = r.pick(&[8u16, 8, 8, 16, 16, 16, 16, 24, 32, 4, 12, 0, 64]);
    let format = if r.chance(85) { 1 } else { r.pick(&[0u16, 2, 3, 6, 7, 17, 65534, 257, 32769]) };
    let ch = if r.chance(6) { 0 } else { r.pick(&[1u16, 1, 2, 2, 3, 6, 8, 255, 256, 2000]) };
    let rate = r.pick(&[8000u32, 11025, 44100, 48000, 192000, 1, 65536, 2_000_000_000, u32::MAX, 0]);
    let frames = r.below(if ch > 100 { 3 } else { 40 });
    let (depth, format, ch) = if far { (r.pick(&[8u16, 16]), 1, r.pick(&[1u16, 2, 3])) } else { (depth, format, ch) };
    let frames = if far { 65530 + r.below(66_000) } else { frames };
    let mut n = frames * ch.max(1) as usize * (depth as usize / 8);
    if !far && r.chance(10) {
        n = r.below(n + 5);
    }
    let style = r.below(4);
    let audio: Vec<u8> = (0..n)
        .map(|i| match style {
            0 => r.next() as u8,
            1 => r.pick(&[0u8, 255, 127, 128, 1, 254, 129]),
            2 => (i * 7) as u8,
            _ => [0x00, 0x80, 0xff, 0x7f, 0xff, 0xff][i % 6],
        })
        .collect();
    let mut body = vec![];
    fmt_body(&mut body, rate, ch, depth, format);
    if r.chance(20) {
        // the longer forms of the chunk
        let more = r.pick(&[2usize, 24, 4]);
        body.extend_from_slice(&((more - 2) as u16).to_le_bytes());
        for _ in 0..more - 2 {
            body.push(r.next() as u8 & 0x0f);
        }
    }
    let mut b = b"RIFF\0\0\0\0WAVE".to_vec();
    let before = if r.chance(60) { 0 } else { r.below(3) };
    for _ in 0..before {
        some_chunk(r, &mut b);
    }
    chunk(&mut b, b"fmt ", &body);
    if r.chance(40) {
        for _ in 0..1 + r.below(3) {
            some_chunk(r, &mut b);
        }
    }
    if r.chance(93) {
        chunk(&mut b, b"data", &audio);
        if n % 2 == 1 && r.chance(20) {
            // without padding at the end of the file
            b.pop();
        }
    }
    if n > 0 && r.chance(40) {
        for _ in 0..1 + r.below(2) {
            some_chunk(r, &mut b);
        }
    }
    let len = (b.len() - 8) as u32;
    b[4..8].copy_from_slice(&if r.chance(90) { len } else { 0 }.to_le_bytes());
    b
}

/// C15
pub fn foreign(id: usize, r: &mut Rng) -> Trace {
    let mut s = Sess::new(id);
    for k in 0..3 {
        let b = other_file(r);
        if s.load(k, &b) {
            s.info(k);
            let ch = s.w[&k].info().channels();
            if r.chance(15) {
                s.drain(k, ch * (1 + r.below(4)));
            } else {
                s.drain(k, r.pick(&[600usize, 1024]).max(ch));
            }
        }
    }
    s.t
}

/// C15: a file of more than 65535 frames
pub fn far(id: usize, r: &mut Rng) -> Trace {
    let mut s = Sess::new(id);
    let b = some_file(r, true);
    if s.load(0, &b) {
        s.info(0);
        s.drain(0, r.pick(&[1_000_000usize, 65_536, 66_000]));
    }
    s.t
}

/// C15: broken files
pub fn broken(id: usize, r: &mut Rng) -> Trace {
    let mut s = Sess::new(id);
    for k in 0..6 {
        let mut b = other_file(r);
        match r.below(6) {
            0 | 1 => {
                let n = r.below(b.len() + 1);
                b.truncate(n)
            }
            2 => {
                for _ in 0..1 + r.below(3) {
                    let i = r.below(b.len().min(80));
                    b[i] = r.pick(&[0u8, 255, 1, 127, 128, 16, 8]);
                }
            }
            3 => {
                let i = r.below(b.len());
                let n = r.below(9).min(b.len() - i);
                b.drain(i..i + n);
            }
            4 => {
                let n = r.below(300);
                b = (0..n).map(|_| r.pick(&[0u8, 1, 255, b'd', b'a', b't', b'f', b'm', b' '])).collect();
            }
            _ => {
                // sizes out of this world
                let at: Vec<usize> =
                    (0..b.len().saturating_sub(8)).filter(|&i| &b[i..i + 4] == b"data" || &b[i..i + 4] == b"fmt ").collect();
                if !at.is_empty() {
                    let i = r.pick(&at);
                    let v = r.pick(&[0u32, 1, 2, 7, 15, 17, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff7, 240, 256]);
                    b[i + 4..i + 8].copy_from_slice(&v.to_le_bytes());
                }
            }
        }
        if s.load(k, &b) {
            s.info(k);
            let ch = s.w[&k].info().channels();
            s.dec(k, ch.min(70000) + r.below(9));
            s.drain(k, 1024.max(ch));
            s.seek(k, SeekFrom::Current(-3));
            s.seek(k, SeekFrom::End(-1));
            s.dec(k, ch.min(70000));
            s.seek(k, SeekFrom::Start(5));
        }
        if !s.alive() {
            break;
        }
    }
    s.t
}

/// a script of WavGen: "channels op..", e<samples>, d<samples>, s<whence>,<ms> and l<bytes> to load
/// the codec's own file without that many bytes
pub fn scripted(id: usize, kind: &str, line: &str) -> Trace {
    let mut r = Rng::new(id as u64, hash31(line.as_bytes()) as u64, 1);
    let r = &mut r;
    let mut words = line.split_whitespace();
    let ch: usize = words.next().unwrap().parse().unwrap();
    let mut s = Sess::new(id);
    s.make(0, 1000, ch as u32);
    for w in words {
        match &w[..1] {
            "e" => {
                let n: usize = w[1..].parse().unwrap();
                let x: Vec<f32> = (0..n).map(|_| signal::of_code(r.range(-32767, 32767) as i32)).collect();
                s.enc(0, &x);
            }
            "d" => {
                s.dec(0, w[1..].parse().unwrap());
            }
            "s" => {
                let (whence, t) = w[1..].split_once(',').unwrap();
                let t: i64 = t.parse().unwrap();
                s.seek(0, match whence {
                    "0" => SeekFrom::Start(t as u64),
                    "1" => SeekFrom::Current(t),
                    _ => SeekFrom::End(t),
                });
            }
            "l" => {
                let cut: usize = w[1..].parse().unwrap();
                if !s.alive() {
                    break;
                }
                // (saving is C12's business)
                let k = &s.w[&0];
                let saved = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut b: Vec<u8> = vec![];
                    k.save_to(&mut b).ok().map(|_| b)
                }));
                let mut b = match saved {
                    Ok(Some(b)) if b.len() >= 44 + cut => b,
                    _ => break,
                };
                b.truncate(b.len() - cut);
                let n = b.len() as u32;
                b[4..8].copy_from_slice(&(n - 8).to_le_bytes());
                b[40..44].copy_from_slice(&(n - 44).to_le_bytes());
                s.load(0, &b);
            }
            _ => panic!("{}", w),
        }
    }
    // the position, then everything
    s.dec(0, ch);
    if kind == "seek" {
        s.seek(0, SeekFrom::Current(-(r.below(3) as i64)));
        s.dec(0, 2 * ch);
    } else {
        let x: Vec<f32> = (0..ch).map(|_| signal::of_code(r.range(-32767, 32767) as i32)).collect();
        s.enc(0, &x);
    }
    s.seek(0, SeekFrom::Start(0));
    s.drain(0, 4 * ch);
    s.t
}
