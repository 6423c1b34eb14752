//! Adhoc codecs: calls recorded for AdhocTrace.
use crate::signal;
use crate::util::*;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable};
use std::collections::BTreeMap;
use std::io::Cursor;

pub const FILL: f32 = 0.12345;

pub struct Sess {
    pub t: Trace,
    pub c: BTreeMap<i64, AdhocCodec>,
    pub f: BTreeMap<i64, Vec<u8>>,
}

impl Sess {
    pub fn new(id: usize, kind: &str, cfg: &[i64]) -> Self {
        Sess {
            t: Trace::new(id, Obj::new().s("kind", kind).arr("cfg", cfg.iter().copied())),
            c: BTreeMap::new(),
            f: BTreeMap::new(),
        }
    }
    pub fn line(self) -> Trace {
        self.t
    }
    pub fn alive(&self) -> bool {
        !self.t.dead
    }
    pub fn new_codec(&mut self, c: i64, lvl: u32, rate: u32, ch: u32) {
        let ev = Obj::new().s("op", "new").i("c", c).i("lvl", lvl as i64).i("rate", rate as i32 as i64).i("ch", ch as i64);
        let x = self.t.run(
            ev,
            || AdhocCodec::new().with_compression_level(lvl).with_info(StreamInfo::new(rate, ch)),
            |o, _| o,
        );
        if let Some(x) = x {
            self.c.insert(c, x);
        }
    }
    /// a codec whose info is set afterwards
    pub fn new_codec_late(&mut self, c: i64, lvl: u32, rate: u32, ch: u32) {
        let ev = Obj::new().s("op", "new").i("c", c).i("lvl", lvl as i64).i("rate", rate as i32 as i64).i("ch", ch as i64);
        let x = self.t.run(
            ev,
            || {
                let mut x = AdhocCodec::new();
                x.set_info(StreamInfo::new(rate, ch));
                x.with_compression_level(lvl)
            },
            |o, _| o,
        );
        if let Some(x) = x {
            self.c.insert(c, x);
        }
    }
    pub fn bare(&mut self, c: i64) {
        if let Some(x) = self.t.run(Obj::new().s("op", "bare").i("c", c), AdhocCodec::new, |o, _| o) {
            self.c.insert(c, x);
        }
    }
    /// with with_info or set_info
    pub fn set_info(&mut self, c: i64, rate: u32, ch: u32, with: bool) {
        self.give_info("setinfo", c, rate, ch, with)
    }

    /// the same channels as before
    pub fn set_rate(&mut self, c: i64, rate: u32, ch: u32, with: bool) {
        self.give_info("setrate", c, rate, ch, with)
    }

    fn give_info(&mut self, op: &str, c: i64, rate: u32, ch: u32, with: bool) {
        if self.t.dead {
            return;
        }
        let mut k = self.c.remove(&c).unwrap();
        let ev = Obj::new().s("op", op).i("c", c).i("rate", rate as i32 as i64).i("ch", ch as i64).b("with", with);
        let i = StreamInfo::new(rate, ch);
        let k = self.t.run(
            ev,
            move || {
                if with {
                    k.with_info(i)
                } else {
                    k.set_info(i);
                    k
                }
            },
            |o, _| o,
        );
        if let Some(k) = k {
            self.c.insert(c, k);
        }
    }
    pub fn set_level(&mut self, c: i64, lvl: u32) {
        if self.t.dead {
            return;
        }
        let k = self.c.remove(&c).unwrap();
        let ev = Obj::new().s("op", "setlvl").i("c", c).i("lvl", lvl.min(i32::MAX as u32) as i64);
        if let Some(k) = self.t.run(ev, move || k.with_compression_level(lvl), |o, _| o) {
            self.c.insert(c, k);
        }
    }
    pub fn enc(&mut self, c: i64, x: &[f32]) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap();
        let ev = Obj::new().s("op", "enc").i("c", c).i("n", x.len() as i64);
        self.t.run(ev, || Streamable::encode(k, x), |o, r| o.bits("x", x).i("ret", r.map_or(-1, |n| n as i64)));
    }
    /// many calls with n samples each, recorded as one event
    pub fn encs(&mut self, c: i64, x: &[f32], n: usize) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap();
        let ev = Obj::new().s("op", "enc").i("c", c).i("n", x.len() as i64).i("by", n as i64);
        self.t.run(
            ev,
            || x.chunks(n).map(|y| Streamable::encode(k, y).map_or(-1, |m| if m == y.len() { m as i64 } else { -1 })).collect::<Vec<_>>(),
            |o, r| o.bits("x", x).i("ret", if r.contains(&-1) { -1 } else { r.iter().sum() }),
        );
    }
    /// returns the number of samples decoded
    pub fn dec(&mut self, c: i64, cap: usize) -> usize {
        if self.t.dead {
            return 0;
        }
        let mut buf = vec![FILL; cap];
        let k = self.c.get_mut(&c).unwrap();
        let ev = Obj::new().s("op", "dec").i("c", c).i("cap", cap as i64);
        let r = {
            let b = &mut buf;
            self.t.run(
                ev,
                move || (Streamable::decode(k, b), b),
                // None is written as 0, Some(0) must not happen
                |o, (r, b)| {
                    o.i("ret", match r {
                        None => 0,
                        Some(0) => -1,
                        Some(n) => *n as i64,
                    })
                    .i("fill", FILL.to_bits() as i64)
                    .bits("out", b)
                },
            )
        };
        r.and_then(|(n, _)| n).unwrap_or(0)
    }
    pub fn init(&mut self, c: i64) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap();
        self.t.run(Obj::new().s("op", "init").i("c", c), || k.init(), |o, _| o);
    }
    pub fn seek(&mut self, c: i64, ms: u64) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap();
        let ev = Obj::new()
            .s("op", "seek")
            .i("c", c)
            .i("hi", (ms / 1000).min(2_000_000_000) as i64)
            .i("lo", (ms % 1000) as i64);
        self.t.run(ev, || Streamable::seek(k, SeekFrom::Start(ms)), |o, _| o);
    }
    pub fn cnt(&mut self, c: i64) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap();
        self.t.run(
            Obj::new().s("op", "cnt").i("c", c),
            || k.calculate_sample_count_per_channel(),
            |o, r| o.i("ret", (*r).min(i32::MAX as u64) as i64),
        );
    }
    pub fn info(&mut self, c: i64) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap();
        self.t.run(
            Obj::new().s("op", "info").i("c", c),
            || Streamable::info(k),
            |o, r| o.i("rate", r.frequency() as u32 as i32 as i64).i("ch", r.channels() as i64),
        );
    }
    pub fn save(&mut self, c: i64, f: i64) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap();
        let r = self.t.run(
            Obj::new().s("op", "save").i("c", c).i("f", f),
            || {
                // behind what is there already
                let before = vec![7u8; f as usize % 3];
                let mut v = before.clone();
                let r = k.save_to(&mut v);
                let kept = v.starts_with(&before);
                (r.is_some() && kept, v.split_off(before.len().min(v.len())))
            },
            |o, r| o.b("ok", r.0),
        );
        if let Some((_, v)) = r {
            self.f.insert(f, v);
        }
    }
    pub fn load(&mut self, c: i64, f: i64) -> bool {
        self.load_joined(&[(c, f)], &[])
    }
    /// from one reader, in which the files follow each other
    pub fn load_joined(&mut self, l: &[(i64, i64)], rest: &[u8]) -> bool {
        let mut b: Vec<u8> = l.iter().flat_map(|(_, f)| self.f[f].iter().copied()).collect();
        b.extend_from_slice(rest);
        let mut reader = Cursor::new(&b[..]);
        l.iter().all(|&(c, f)| self.load_next(c, f, &mut reader))
    }
    fn load_next(&mut self, c: i64, f: i64, reader: &mut Cursor<&[u8]>) -> bool {
        if self.t.dead {
            return false;
        }
        let r = self.t.run(
            Obj::new().s("op", "load").i("c", c).i("f", f),
            || AdhocCodec::load(reader).map(|k| (k.info(), k)),
            |o, r| match r {
                Some((i, _)) => o.b("ok", true).i("rate", i.frequency() as u32 as i32 as i64).i("ch", i.channels() as i64),
                None => o.b("ok", false).i("rate", 0).i("ch", 0),
            },
        );
        match r {
            Some(Some((_, k))) => {
                self.c.insert(c, k);
                true
            }
            _ => {
                self.t.dead = true;
                false
            }
        }
    }
    pub fn size(&mut self, c: i64) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap();
        self.t.run(
            Obj::new().s("op", "size").i("c", c),
            || {
                let n = Streamable::filesize_upperbound(k);
                let mut v: Vec<u8> = vec![];
                k.save_to(&mut v).unwrap();
                (n, v.len())
            },
            |o, (n, b)| o.i("ret", (*n).min(i32::MAX as u64) as i64).i("bytes", *b as i64),
        );
    }
    pub fn same(&mut self, a: i64, b: i64) {
        self.t.note(Obj::new().s("op", "same").i("a", a).i("b", b));
    }
    /// both hold the same audio at the same level: a isn't worse than b
    pub fn like(&mut self, a: i64, b: i64) {
        self.t.note(Obj::new().s("op", "like").i("a", a).i("b", b));
    }
    /// a's file is as small as that of b, which got the same audio in the same calls at the same level; whether it's the same
    pub fn as_small(&mut self, a: i64, b: i64, both_new: bool) {
        if self.t.dead {
            return;
        }
        let (x, y) = (&self.c[&a], &self.c[&b]);
        self.t.run(
            Obj::new().s("op", "assmall").i("a", a).i("b", b).b("new", both_new),
            || {
                let (mut v, mut w) = (vec![], vec![]);
                x.save_to(&mut v).unwrap();
                y.save_to(&mut w).unwrap();
                (v, w)
            },
            |o, (v, w)| o.i("x", v.len() as i64).i("y", w.len() as i64).b("equal", v == w),
        );
    }
    /// reads everything that's left
    pub fn drain(&mut self, c: i64, cap: usize) {
        let mut n = 0;
        while self.alive() && self.dec(c, cap) > 0 && n < 100_000 {
            n += 1;
        }
    }
    /// encodes in pieces
    pub fn enc_pieces(&mut self, c: i64, x: &[f32], pieces: &[usize]) {
        let mut at = 0;
        for &p in pieces {
            let e = (at + p).min(x.len());
            self.enc(c, &x[at..e]);
            at = e;
        }
    }
}

/// cuts `frames` frames of ch samples into pieces (in samples); all but a ragged end of the
/// last piece are used
pub fn pieces(r: &mut Rng, frames: usize, ch: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = frames;
    let style = r.below(7);
    while left > 0 {
        let n = match style {
            0 => frames,
            1 => 1 + r.below(4),
            2 => 1,
            3 => 3 + r.below(20),
            4 => 16 + r.below(200),
            5 => r.pick(&[1usize, 2, 3, 4, 5, 100, 64, 128]),
            _ => r.below(50),
        };
        let n = n.min(left);
        v.push(n * ch);
        left -= n;
        if v.len() > 400 {
            v.push(left * ch);
            break;
        }
    }
    v
}

pub fn channels(r: &mut Rng) -> usize {
    if r.chance(4) {
        return r.pick(&[9usize, 10, 12, 13, 15, 16, 17, 18, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
    }
    r.pick(&[1usize, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 11])
}
pub fn rate(r: &mut Rng) -> u32 {
    match r.below(8) {
        // up to the specification's arithmetic
        0 => 1 + r.below(2_147_000) as u32,
        1 => 1 + r.below(200_000) as u32,
        _ => r.pick(&[8000u32, 11025, 22050, 44100, 48000, 96000, 192000, 1, 7, 100, 999, 1000, 1001, 12345]),
    }
}
/// where seeks don't matter (a stream of less than 2147 frames is then shorter than a ms)
pub fn any_rate(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => r.next() as u32,
        1 => r.pick(&[0u32, u32::MAX, 1 << 31, (1 << 31) - 1, 65535, 65536, 65537, (1 << 24) + 1, 2_147_484, 4_000_000_000, 255, 256]),
        _ => rate(r),
    }
}
/// a number of frames: usually few, sometimes around powers of 2, sometimes thousands of samples
pub fn length(r: &mut Rng, ch: usize, typical: usize) -> usize {
    match r.below(16) {
        0 | 1 => r.below(6),
        2 => (1000 + r.below(3000)) / ch,
        3 => (r.pick(&[16usize, 32, 64, 128, 256, 512, 1024, 2048]) + r.below(3)).saturating_sub(1).min(3000 / ch),
        _ => r.below(typical / ch + 1) + 1,
    }
}
pub fn level(r: &mut Rng) -> u32 {
    if r.chance(40) { 0 } else { r.below(12) as u32 }
}

/// C01, C02: everything that goes in comes out
pub fn fidelity(id: usize, r: &mut Rng, level0: bool) -> Trace {
    let lvl = if level0 { 0 } else { r.range(1, 12) as u32 };
    let ch = channels(r);
    let mut s = Sess::new(id, "adhoc", &[1]);
    let frames = length(r, ch, 700);
    if r.chance(50) {
        s.new_codec(0, lvl, any_rate(r), ch as u32);
    } else {
        s.new_codec_late(0, lvl, any_rate(r), ch as u32);
    }
    let hot = level0 || r.chance(10);
    let mut x = signal::interleaved(r, frames, ch, hot);
    if hot {
        signal::spoil(r, &mut x);
    }
    let p = pieces(r, frames, ch);
    s.enc_pieces(0, &x, &p);
    if r.chance(50) {
        s.init(0)
    } else {
        s.seek(0, 0)
    }
    let cap = r.pick(&[4096usize, 1024, 64 * ch, 100 + ch]);
    s.drain(0, cap.max(ch));
    s.line()
}

/// many short frames, more than fit a word of the header's lists
pub fn many_frames(id: usize, r: &mut Rng, level0: bool) -> Trace {
    let lvl = if level0 { 0 } else { r.range(1, 10) as u32 };
    let ch = r.pick(&[1usize, 1, 2, 3, 5]);
    let mut s = Sess::new(id, "adhoc", &[1]);
    s.new_codec(0, lvl, 44100, ch as u32);
    let n = 130 + r.below(300);
    let len = r.pick(&[1usize, 2, 3, 4]);
    let mut x = signal::interleaved(r, n * len, ch, level0);
    if level0 {
        signal::spoil(r, &mut x);
    }
    for p in x.chunks(len * ch) {
        s.enc(0, p);
    }
    s.init(0);
    s.drain(0, 2000);
    s.line()
}

/// C03: the same stream read with different buffers
pub fn reading(id: usize, r: &mut Rng) -> Trace {
    let lvl = level(r);
    let ch = channels(r);
    let mut s = Sess::new(id, "adhoc", &[0]);
    let frames = length(r, ch, 500);
    s.new_codec(0, lvl, any_rate(r), ch as u32);
    let x = signal::interleaved(r, frames, ch, false);
    let p = pieces(r, frames, ch);
    s.enc_pieces(0, &x, &p);
    if r.chance(20) {
        // at the end, nothing is left
        s.dec(0, 3 * ch);
    }
    let mut order: Vec<usize> = (0..4).collect();
    for i in (1..4).rev() {
        order.swap(i, r.below(i + 1));
    }
    for k in order {
        if r.chance(70) {
            s.init(0)
        } else {
            s.seek(0, 0)
        }
        match k {
            // in one
            0 => {
                s.dec(0, frames * ch + r.below(20));
                s.dec(0, ch);
            }
            // random sizes, also ragged and too small ones
            1 | 2 => {
                let style = r.below(4);
                let mut n = 0;
                while s.alive() && n < 300 {
                    let cap = match style {
                        0 => r.below(3 * ch + 2),
                        1 => ch * (1 + r.below(5)),
                        2 => r.below(200),
                        _ => r.pick(&[0usize, 1, ch, ch - 1, ch + 1, 2 * ch, 50, 333, 3 * ch, 1]),
                    };
                    if s.dec(0, cap) == 0 && cap >= ch {
                        break;
                    }
                    n += 1;
                }
                for _ in 0..r.below(3) {
                    let cap = r.below(50);
                    s.dec(0, cap);
                }
            }
            // partially
            _ => {
                let cap = r.below(frames * ch + 1);
                s.dec(0, cap);
            }
        }
    }
    s.line()
}

/// C04: what the calls report
pub fn counting(id: usize, r: &mut Rng) -> Trace {
    let lvl = level(r);
    let ch = channels(r);
    let mut s = Sess::new(id, "adhoc", &[0]);
    s.new_codec(0, lvl, any_rate(r), ch as u32);
    s.cnt(0);
    let calls = if r.chance(15) { 20 + r.below(50) } else { 1 + r.below(12) };
    let mut whole: Vec<f32> = vec![];
    let style = if ch > 20 || calls > 12 { r.below(2) } else { r.below(3) };
    for _ in 0..calls {
        let n = match style {
            0 => r.below(4 * ch + 2),
            1 => r.pick(&[0usize, 1, ch - 1, ch, ch + 1, 2 * ch, 2 * ch + 1, 3 * ch - 1, 3 * ch, 4 * ch]),
            _ => r.below(60 * ch),
        };
        let frames = (n + ch - 1) / ch;
        let mut x = signal::interleaved(r, frames, ch, false);
        x.truncate(n);
        s.enc(0, &x);
        whole.extend_from_slice(&x[..n / ch * ch]);
        if r.chance(40) {
            s.cnt(0);
        }
    }
    s.cnt(0);
    s.init(0);
    s.cnt(0);
    s.drain(0, r.pick(&[ch, 2 * ch, 512, 2048]).max(ch));
    s.cnt(0);
    if calls < 13 && r.chance(40) {
        // another stream in its place, in about as many calls, of about as much audio
        s.init(0);
        whole.clear();
        let again = if r.chance(70) { calls } else { 1 + r.below(calls) };
        for _ in 0..again {
            let frames = if style == 2 { r.below(60) } else { 1 + r.below(4) };
            let mut x = signal::interleaved(r, frames + 1, ch, false);
            x.truncate(frames * ch + r.below(ch));
            s.enc(0, &x);
            whole.extend_from_slice(&x[..x.len() / ch * ch]);
            if r.chance(40) {
                s.cnt(0);
            }
        }
        s.cnt(0);
        if whole.is_empty() {
            return s.line();
        }
        s.init(0);
        s.drain(0, r.pick(&[ch, 2 * ch, 512, 2048]).max(ch));
        s.cnt(0);
    }
    if lvl == 0 {
        // the same audio in one call, and divided otherwise
        s.new_codec(1, 0, 44100, ch as u32);
        s.enc(1, &whole);
        s.init(1);
        s.same(0, 1);
        s.drain(1, 1000.max(ch));
        s.cnt(1);
        s.new_codec(2, 0, 44100, ch as u32);
        let p = pieces(r, whole.len() / ch, ch);
        s.enc_pieces(2, &whole, &p);
        s.init(2);
        s.same(0, 2);
        s.drain(2, 1000.max(ch));
    }
    s.line()
}

/// C04 (and C01): calls with more samples than a frame header can count
pub fn long_calls(id: usize, r: &mut Rng, index: usize, strict: bool) -> Trace {
    let mut s = Sess::new(id, "adhoc", &[strict as i64]);
    let ch = if index % 5 == 4 { 2 } else { 1 };
    let n = [65535usize, 65536, 65537, 131070, 131071, 65538, 131072, 65534, 200000, 65536 + 1000][index % 10];
    let frames = n / if ch == 2 && n > 100000 { 2 } else { 1 };
    s.new_codec(0, 0, 44100, ch as u32);
    let quiet = r.pick(&[3i64, 40, 2000]);
    let x = vast(r, frames * ch, quiet, index % 2 == 1);
    if r.chance(50) {
        s.enc(0, &x[..5 * ch]);
        s.enc(0, &x[5 * ch..]);
    } else {
        s.enc(0, &x);
    }
    if !strict {
        s.cnt(0);
    }
    s.init(0);
    s.drain(0, 30000);
    s.line()
}

/// long: noise below a limit, or silence with a few spikes, which are coded as if it stayed silent
fn vast(r: &mut Rng, n: usize, quiet: i64, spikes: bool) -> Vec<f32> {
    if !spikes {
        return (0..n).map(|_| signal::of_code(r.range(-quiet, quiet) as i32)).collect();
    }
    let rare = r.pick(&[0usize, 1, 5]);
    let mut x: Vec<f32> = (0..n).map(|_| if r.chance(rare) { signal::of_code(r.range(-1, 1) as i32) } else { 0.0 }).collect();
    for _ in 0..1 + r.below(2) {
        let i = if r.chance(50) { r.below(n) } else { n - 1 - r.below(300) };
        x[i] = signal::of_code(r.pick(&[32767, -32767, 30000, -20000]));
        if r.chance(50) && i + 1 < n {
            x[i + 1] = signal::of_code(r.pick(&[32767, -32767, 16000]));
        }
    }
    x
}

/// C01 to C08: streams of more than 65535 samples or encode calls; `what` is looked at besides
/// what's decoded
pub fn deep(id: usize, r: &mut Rng, index: usize, what: &str) -> Trace {
    let strict = what == "lossless" || what == "lossy";
    let mut s = Sess::new(id, "adhoc", &[strict as i64]);
    let lvl = match what {
        "lossless" => 0,
        "lossy" => 1 + r.below(11) as u32,
        _ => r.below(11).saturating_sub(r.below(12)) as u32,
    };
    let ch = if index % 4 == 3 { 2 } else { 1 };
    let rate = r.pick(&[1000u32, 44100, 500, 8000]);
    s.new_codec(0, lvl, rate, ch as u32);
    let quiet = r.pick(&[3i64, 40, 2000, 32767]);
    let many = index % 3 == 0;
    let frames = if many { r.pick(&[65535usize, 65536, 65537, 65600, 66000]) } else { r.pick(&[65535usize, 65536, 66000, 131071, 140000]) } / ch + 3;
    let spikes = r.chance(30);
    let x = vast(r, frames * ch, quiet, spikes);
    if many {
        s.enc(0, &x[..3 * ch]);
        s.encs(0, &x[3 * ch..], ch * if r.chance(50) { 1 } else { r.pick(&[1, 2, 3]) });
    } else if r.chance(50) {
        s.encs(0, &x, ch * r.pick(&[700usize, 20_000, 50_000]));
    } else {
        s.enc(0, &x);
    }
    let look = |s: &mut Sess, c: i64| match what {
        "count" => s.cnt(c),
        "size" => s.size(c),
        _ => {}
    };
    look(&mut s, 0);
    let mut c = 0;
    if what == "save" || (r.chance(30) && (what == "count" || what == "size")) {
        s.save(0, 0);
        if s.load(1, 0) {
            c = 1;
            look(&mut s, c);
        }
    }
    if r.chance(50) {
        s.init(c);
        s.dec(c, 70_001 * ch);
        look(&mut s, c);
    }
    if what == "seek" {
        let ms_of = |f: usize| (f as u64 * 1000) / rate as u64;
        for _ in 0..8 {
            if !s.alive() {
                return s.line();
            }
            let f = match r.below(4) {
                0 => r.below(frames),
                1 => 65536usize.min(frames) - r.below(20),
                2 => (65530 + r.below(40)) / ch,
                _ => frames - r.below(30),
            };
            s.seek(c, ms_of(f) + r.below(2) as u64);
            s.dec(c, ch * (1 + r.below(100)));
        }
    }
    s.init(c);
    s.drain(c, 30_000);
    look(&mut s, c);
    if what == "lossless" || what == "lossy" {
        return s.line();
    }
    // short after long, and long again
    s.init(c);
    s.enc(c, &x[..10 * ch]);
    look(&mut s, c);
    s.init(c);
    s.drain(c, 500);
    if what == "seek" {
        s.seek(c, 3);
        s.drain(c, 500);
    }
    if what == "reuse" {
        s.init(c);
        s.enc(c, &x);
        s.init(c);
        s.drain(c, 50_000);
    }
    if what == "save" {
        s.save(c, 1);
        if s.load(2, 1) {
            s.drain(2, 100);
        }
    }
    s.line()
}

/// C01 to C08: streams of hundreds to tens of thousands of channels
pub fn broad(id: usize, r: &mut Rng, index: usize, what: &str) -> Trace {
    let strict = what == "lossless" || what == "lossy";
    let mut s = Sess::new(id, "adhoc", &[strict as i64]);
    let lvl = match what {
        "lossless" => 0,
        "lossy" => 1 + r.below(11) as u32,
        _ => r.below(11).saturating_sub(r.below(12)) as u32,
    };
    // more of them can't be loaded (or converted)
    let load = what == "save" || index % 2 == 1;
    let ch = if load { r.pick(&[511usize, 1024, 4097, 32767, 32767]) } else { r.pick(&[32768usize, 65536, 65537, 66000, 70000]) };
    let frames = if ch > 5000 { 1 + r.below(5 * 32768 / ch) } else { 2 + r.below(40_000 / ch) };
    if index % 4 < 2 {
        s.new_codec(0, lvl, 1000, ch as u32);
    } else {
        s.new_codec_late(0, lvl, 1000, ch as u32);
    }
    let spikes = r.chance(30);
    let x = vast(r, frames * ch, 2000, spikes);
    s.encs(0, &x, ch * (1 + r.below(4)));
    let look = |s: &mut Sess, c: i64| match what {
        "count" => s.cnt(c),
        "size" => s.size(c),
        _ => {}
    };
    look(&mut s, 0);
    let mut c = 0;
    if load && strict == false {
        s.save(0, 0);
        if s.load(1, 0) {
            c = 1;
            look(&mut s, c);
        }
    }
    s.init(c);
    let cap = ch * (1 + r.below(3)) + r.below(2) * (ch - 1);
    s.drain(c, cap);
    look(&mut s, c);
    if what == "seek" {
        for _ in 0..4 {
            s.seek(c, 1 + r.below(frames + 1) as u64);
            s.dec(c, ch * (1 + r.below(2)));
        }
    }
    if what == "reuse" && s.alive() {
        s.init(c);
        s.enc(c, &x[..ch]);
        s.init(c);
        s.drain(c, 2 * ch);
    }
    s.line()
}

/// C05: saved at various moments
pub fn saving(id: usize, r: &mut Rng) -> Trace {
    let lvl = level(r);
    let ch = channels(r);
    let mut s = Sess::new(id, "adhoc", &[0]);
    let rate = any_rate(r).max(1);
    let frames = length(r, ch, 300).min(if rate < 2_147_484 { 3000 } else { 2000 });
    s.new_codec(0, lvl, rate, ch as u32);
    let x = signal::interleaved(r, frames, ch, false);
    let cut = r.below(frames + 1);
    let p = pieces(r, cut, ch);
    s.enc_pieces(0, &x[..cut * ch], &p);
    let mut files = vec![];
    let mut next = 0;
    let mut codecs = vec![0];
    if r.chance(50) {
        // in the middle of encoding
        s.save(0, next);
        files.push(next);
        next += 1;
    }
    let p = pieces(r, frames - cut, ch);
    s.enc_pieces(0, &x[cut * ch..], &p);
    if r.chance(70) {
        s.save(0, next);
        files.push(next);
        next += 1;
    }
    let mut rewound = false;
    for _ in 0..6 + r.below(10) {
        if !s.alive() {
            break;
        }
        let c = r.pick(&codecs);
        match r.below(9) {
            0 => {
                s.init(c);
                rewound |= c == 0;
            }
            1 | 2 if c != 0 || rewound => {
                let cap = r.below(100) + ch;
                s.dec(c, cap);
            }
            3 => {
                let t = r.below(frames * 1100 / rate as usize + 3) as u64;
                s.seek(c, t);
                rewound |= c == 0;
            }
            4 | 5 => {
                s.save(c, next);
                files.push(next);
                next += 1;
            }
            6 => s.cnt(c),
            7 => s.info(c),
            _ => {
                if !files.is_empty() && codecs.len() < 6 {
                    let f = r.pick(&files);
                    let n = codecs.len() as i64;
                    if s.load(n, f) {
                        codecs.push(n);
                    }
                }
            }
        }
    }
    for f in files.iter().rev().take(4) {
        if !s.alive() {
            break;
        }
        let n = codecs.len() as i64;
        if s.load(n, *f) {
            codecs.push(n);
            s.info(n);
            s.cnt(n);
            if r.chance(30) {
                let t = r.below(frames * 1000 / rate as usize + 3) as u64;
                s.seek(n, t);
                s.dec(n, 2 * ch);
                s.init(n);
            }
        }
    }
    if s.alive() && !files.is_empty() && r.chance(60) {
        // one behind the other, and something else
        let n = codecs.len() as i64;
        let l: Vec<(i64, i64)> = (0..2 + r.below(2) as i64).map(|i| (n + i, r.pick(&files))).collect();
        let rest = vec![r.below(256) as u8; r.pick(&[0usize, 1, 100, 9000])];
        if s.load_joined(&l, &rest) {
            codecs.extend(l.iter().map(|p| p.0));
        }
    }
    for &c in codecs.iter() {
        if !s.alive() {
            break;
        }
        s.init(c);
        s.drain(c, 700.max(ch));
        s.cnt(c);
    }
    s.line()
}

/// the shortest time in ms that is a whole number of frames
fn exact_ms(rate: u32) -> u64 {
    let (mut a, mut b) = (rate as u64, 1000u64);
    while b > 0 {
        (a, b) = (b, a % b);
    }
    1000 / a
}

/// a time in ms; around frame boundaries, ends, and extremes
pub fn time(r: &mut Rng, rate: u32, frames: usize) -> u64 {
    let ms_of = |f: usize| (f as u64 * 1000) / rate as u64;
    match r.below(15) {
        // exactly at a frame
        12..=14 => {
            let step = exact_ms(rate);
            let most = ms_of(frames) / step;
            step * r.below(most as usize + 2) as u64
        }
        0 => 0,
        1 => r.pick(&[1u64, 2, 3, 999, 1000, 1001]),
        2 => r.pick(&[u64::MAX, u64::MAX / 2, u64::MAX / rate as u64, (u64::MAX / rate as u64).saturating_add(1), i64::MAX as u64, 1 << 40]),
        3 => ms_of(frames) + r.below(4) as u64,
        4 => ms_of(frames).saturating_sub(r.below(4) as u64),
        5 => ms_of(frames * 2) + 1,
        _ => ms_of(r.below(frames + 1)) + r.below(3) as u64,
    }
}

/// C06
pub fn seeking(id: usize, r: &mut Rng) -> Trace {
    let lvl = level(r);
    let ch = channels(r);
    let mut s = Sess::new(id, "adhoc", &[0]);
    let frames = length(r, ch, 500);
    // so that a ms is a few frames, or a frame some ms
    let rate = if r.chance(12) {
        rate(r)
    } else {
        match r.below(10) {
            0 => 1 + r.below(60000) as u32,
            1 => 5 * (1 + r.below(10000)) as u32,
            2 => 100 * (1 + r.below(1000)) as u32,
            3 | 4 => r.pick(&[11025, 22050, 44100, 88200, 37800, 5512, 32768, 12345]),
            _ => r.pick(&[8000u32, 44100, 48000, 192000, 100, 999, 1000, 1001, 2000, 3, 1, 12345, 500, 250]),
        }
    };
    s.new_codec(0, lvl, rate, ch as u32);
    let x = signal::interleaved(r, frames, ch, false);
    let p = pieces(r, frames, ch);
    s.enc_pieces(0, &x, &p);
    let mut c = 0;
    if r.chance(30) {
        s.save(0, 0);
        s.load(1, 0);
        c = 1;
    }
    if r.chance(50) {
        s.init(c);
        s.drain(c, 800.max(ch));
    }
    for _ in 0..5 + r.below(15) {
        if !s.alive() {
            break;
        }
        let t = time(r, rate, frames);
        s.seek(c, t);
        match r.below(6) {
            0 => s.drain(c, 400.max(ch)),
            1 => {}
            2 => {
                s.dec(c, frames * ch + ch);
            }
            _ => {
                for _ in 0..1 + r.below(3) {
                    let cap = r.below(6 * ch) + 1;
                    s.dec(c, cap);
                }
            }
        }
        if r.chance(10) {
            s.init(c);
        }
    }
    if r.chance(25) {
        // all the times at which a frame starts
        let step = exact_ms(rate);
        let mut t = step * (1 + r.below(3) as u64);
        for _ in 0..60 {
            if !s.alive() || t * rate as u64 / 1000 > frames as u64 {
                break;
            }
            s.seek(c, t);
            s.dec(c, ch);
            t += step * (1 + r.below(2) as u64);
        }
    }
    s.init(c);
    s.drain(c, 800.max(ch));
    s.line()
}

/// C07
pub fn reuse(id: usize, r: &mut Rng) -> Trace {
    let lvl = level(r);
    let ch = channels(r);
    let rate = if r.chance(12) { rate(r) } else { r.pick(&[1000u32, 8000, 44100, 100]) };
    let mut s = Sess::new(id, "adhoc", &[0]);
    s.new_codec(0, lvl, rate, ch as u32);
    let rounds = 2 + r.below(3);
    let mut next = 10;
    for k in 0..rounds {
        let frames = length(r, ch, 180).max(1);
        let x = signal::interleaved(r, frames, ch, false);
        let p = pieces(r, frames, ch);
        s.enc_pieces(0, &x, &p);
        s.cnt(0);
        if r.chance(40) && lvl == 0 {
            s.save(0, 0);
        }
        if r.chance(50) {
            s.init(0)
        } else {
            s.seek(0, 0)
        }
        // a codec that was never used before
        if k > 0 {
            let c = next;
            next += 1;
            s.new_codec(c, lvl, rate, ch as u32);
            s.enc_pieces(c, &x, &p);
            s.init(c);
            s.drain(c, 1500.max(ch));
            if lvl == 0 {
                s.same(0, c);
            } else {
                s.drain(0, 1500.max(ch));
                s.like(0, c);
                s.init(0);
            }
        }
        if r.chance(30) {
            // rewinding without encoding keeps the stream
            s.enc(0, &[]);
            s.cnt(0);
            s.init(0);
        }
        if r.chance(70) {
            s.drain(0, r.pick(&[ch, 3 * ch + 1, 1500]).max(ch));
            s.cnt(0);
        }
        if r.chance(50) {
            let t = time(r, rate, frames);
            s.seek(0, t);
            s.drain(0, 1500.max(ch));
        }
        if r.chance(60) {
            s.save(0, 1);
            let c = next;
            next += 1;
            s.load(c, 1);
            if !s.alive() {
                break;
            }
            s.cnt(c);
            s.drain(c, 1500.max(ch));
            let t = time(r, rate, frames);
            s.seek(c, t);
            s.drain(c, 1500.max(ch));
            if r.chance(30) {
                // go on with the loaded one
                let k = s.c.remove(&c).unwrap();
                s.c.insert(0, k);
                s.t.note(Obj::new().s("op", "move").i("c", c).i("d", 0));
            }
        }
        if !s.alive() {
            break;
        }
        if r.chance(50) {
            s.init(0)
        } else {
            s.seek(0, 0)
        }
    }
    s.drain(0, 1500.max(ch));
    s.line()
}

/// C08
pub fn sizes(id: usize, r: &mut Rng) -> Trace {
    let lvl = level(r);
    let mut ch = channels(r);
    let mut s = Sess::new(id, "adhoc", &[0]);
    s.new_codec(0, lvl, any_rate(r), ch as u32);
    s.size(0);
    let rounds = 1 + r.below(3);
    for _ in 0..rounds {
        let calls = r.pick(&[1usize, 2, 5, 20, 70, 140]);
        for i in 0..calls {
            let frames = if r.chance(20) { r.below(200) } else { r.below(6) };
            let frames = if r.chance(1) { 1000 + r.below(20_000) } else { frames };
            // another stream starts, so that nothing of the old one is used with other settings
            let frames = frames.min(20_000 / ch).max((i == 0) as usize);
            let x = signal::interleaved(r, frames, ch, false);
            s.enc(0, &x);
            if r.chance(20) {
                s.size(0);
            }
        }
        s.size(0);
        if r.chance(30) {
            s.save(0, 0);
            s.load(1, 0);
            s.size(1);
        }
        s.init(0);
        s.size(0);
        if r.chance(50) {
            s.dec(0, 5 * ch);
            s.size(0);
            s.init(0);
        }
        if r.chance(20) {
            ch = channels(r);
            s.set_info(0, any_rate(r), ch as u32, r.chance(50));
            s.set_level(0, level(r));
        }
    }
    s.line()
}

/// what a codec that was configured somehow has to do
fn used(s: &mut Sess, r: &mut Rng, held: &[Vec<f32>], lvl: u32, rate: &mut u32, ch: usize) {
    s.info(0);
    s.init(0);
    s.cnt(0);
    if r.chance(30) {
        // in the middle of reading
        s.dec(0, ch * (1 + r.below(5)));
        *rate = any_rate(r).min(2_147_000);
        s.set_rate(0, *rate, ch as u32, r.chance(50));
        s.info(0);
    }
    s.drain(0, ch * (1 + r.below(300 / ch + 1)));
    s.size(0);
    s.save(0, 0);
    if s.load(1, 0) {
        s.info(1);
        s.cnt(1);
        s.drain(1, 1000.max(ch));
        s.seek(1, 1);
        if r.chance(30) {
            // the file and the codec that was saved keep theirs
            s.set_rate(1, any_rate(r).min(2_147_000), ch as u32, r.chance(50));
            s.info(0);
        }
        s.drain(1, 1000.max(ch));
    }
    // as if it had been created so
    s.new_codec(2, lvl, *rate, ch as u32);
    for x in held {
        s.enc(2, x);
    }
    s.init(2);
    s.drain(2, 1000.max(ch));
    s.like(0, 2);
    s.as_small(0, 2, false);
    if lvl > 10 {
        // level 10 for a codec that gets the same calls
        s.new_codec(3, 10, *rate, ch as u32);
        for x in held {
            s.enc(3, x);
        }
        s.init(3);
        s.drain(3, 1000.max(ch));
        s.as_small(3, 2, true);
    }
    s.init(0);
}

/// a level, beyond the last one now and then; those that would be other ones in 8 or 16 bits too
fn any_level(r: &mut Rng) -> u32 {
    match r.below(10) {
        0..=6 => r.pick(&[0u32, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]),
        7 => r.pick(&[11u32, 12, 31, 32, 100, 127, 128, 255, 1000, u32::MAX, 1 << 31, (1 << 31) - 1]),
        8 => (1 + r.below(5) as u32) * 256 + r.below(10) as u32,
        _ => (r.pick(&[1u32, 2, 16, 1 << 8, 1 << 14, (1 << 16) - 1]) << 16) + r.below(10) as u32,
    }
}

/// C29: infos and levels in any order, with streams between
pub fn setup(id: usize, r: &mut Rng) -> Trace {
    let mut s = Sess::new(id, "adhoc", &[1]);
    s.bare(0);
    let (mut lvl, mut rate, mut ch) = (0u32, 0u32, 0usize);
    for round in 0..1 + r.below(4) {
        for _ in 0..r.below(4) + (round == 0) as usize {
            if r.chance(60) {
                rate = any_rate(r).min(2_147_000);
                ch = channels(r);
                s.set_info(0, rate, ch as u32, r.chance(50));
            } else {
                lvl = any_level(r);
                s.set_level(0, lvl);
            }
            if ch > 0 && r.chance(40) {
                s.info(0);
            }
            if r.chance(20) {
                s.init(0);
            }
        }
        if ch == 0 {
            rate = any_rate(r).min(2_147_000);
            ch = channels(r);
            s.set_info(0, rate, ch as u32, r.chance(50));
        }
        let frames = 1 + r.below(120 / ch + 8);
        let x = signal::interleaved(r, frames, ch, false);
        let (mut at, mut held) = (0, vec![]);
        for n in pieces(r, frames, ch) {
            held.push(x[at..at + n].to_vec());
            s.enc(0, &x[at..at + n]);
            at += n;
            if r.chance(15) {
                rate = any_rate(r).min(2_147_000);
                s.set_rate(0, rate, ch as u32, r.chance(50));
            }
        }
        if r.chance(30) {
            s.info(0);
            s.size(0);
        }
        used(&mut s, r, &held, lvl, &mut rate, ch);
        if !s.alive() {
            break;
        }
    }
    s.line()
}

/// a script of AdhocSetupGen
pub fn setup_script(id: usize, line: &str) -> Trace {
    let mut r = Rng::new(id as u64, hash31(line.as_bytes()) as u64, 1);
    let r = &mut r;
    let mut s = Sess::new(id, "adhoc", &[1]);
    s.bare(0);
    let infos = [(0, 0), (8000u32, 1usize), (44100, 3), (1000, 2)];
    let infos = if r.chance(20) { [infos[0], (96000, 5), (48000, 2), (500, 9)] } else { infos };
    let levels = [0, 0u32, if r.chance(75) { 4 + r.below(8) as u32 } else { any_level(r).max(4) }];
    let (mut lvl, mut info, mut started, mut held) = (0u32, (0u32, 0usize), true, vec![]);
    for w in line.split_whitespace() {
        let n: usize = w[1..].parse().unwrap();
        match &w[..1] {
            "i" | "s" => {
                info = infos[n];
                started = true;
                s.set_info(0, info.0, info.1 as u32, &w[..1] == "i");
            }
            "l" => {
                lvl = levels[n];
                started = true;
                s.set_level(0, lvl);
            }
            "e" => {
                if started {
                    held.clear();
                }
                started = false;
                let frames = 1 + r.below(9);
                held.push(signal::interleaved(r, frames, info.1, false));
                s.enc(0, held.last().unwrap());
                if r.chance(15) {
                    info.0 = any_rate(r).min(2_147_000);
                    s.set_rate(0, info.0, info.1 as u32, r.chance(50));
                }
            }
            "r" => {
                started = true;
                s.init(0);
            }
            _ => s.drain(0, info.1 * (1 + r.below(4))),
        }
    }
    // the history may end with settings for a stream that isn't encoded any more
    if started && line.split_whitespace().rev().take_while(|w| !w.starts_with('r')).any(|w| "isl".contains(&w[..1])) {
        held = vec![signal::interleaved(r, 7, info.1, false)];
        s.enc(0, &held[0]);
    }
    used(&mut s, r, &held, lvl, &mut info.0, info.1);
    s.line()
}

/// a script of AdhocGen: "channels op..", e<n>+<m> and d<n>+<m> with n frames and m samples more,
/// s<frame>, i(nit), c(ount), w(rite the file), l(oad it)
pub fn scripted(id: usize, kind: &str, line: &str) -> Trace {
    let mut r = Rng::new(id as u64, hash31(line.as_bytes()) as u64, 0);
    let r = &mut r;
    let mut words = line.split_whitespace();
    let ch: usize = words.next().unwrap().parse().unwrap();
    let (lvl, strict) = match kind {
        "0" => (0, 1),
        "n" => (1 + r.below(10) as u32, 1),
        _ => (r.pick(&[0u32, 0, 1, 5, 10]), 0),
    };
    let mut s = Sess::new(id, "adhoc", &[strict]);
    // a frame takes one ms
    s.new_codec(0, lvl, 1000, ch as u32);
    let number = |w: &str| {
        let (n, m) = w[1..].split_once('+').unwrap_or((&w[1..], "0"));
        n.parse::<usize>().unwrap() * ch + m.parse::<usize>().unwrap()
    };
    let loud = r.chance(60);
    let observing = matches!(kind, "counting" | "saving" | "reuse" | "seeking") && r.chance(50);
    // what the codec and the file have to hold
    let (mut at_start, mut held, mut filed) = (true, vec![], vec![]);
    for w in words {
        match &w[..1] {
            "e" => {}
            "i" | "l" => at_start = true,
            "s" => at_start = w == "s0",
            "d" => at_start = false,
            _ => {}
        }
        match &w[..1] {
            "e" => {
                let n = number(w);
                let mut x = if loud {
                    (0..n).map(|_| signal::of_code(r.range(-32767, 32767) as i32)).collect()
                } else {
                    signal::interleaved(r, n / ch + 1, ch, false)
                };
                x.truncate(n);
                s.enc(0, &x);
                if n >= ch {
                    if at_start {
                        held.clear();
                    }
                    at_start = false;
                    held.push(x);
                }
            }
            "d" => {
                s.dec(0, number(w));
            }
            "s" => s.seek(0, w[1..].parse().unwrap()),
            "i" => s.init(0),
            "c" => s.cnt(0),
            "w" => {
                filed = held.clone();
                s.save(0, 0);
            }
            "l" => {
                held = filed.clone();
                s.load(0, 0);
            }
            _ => panic!("{}", w),
        }
        // counting doesn't change anything
        if observing && r.chance(50) {
            s.cnt(0);
        }
    }
    // what a wrong state would do shows later
    let cap = ch * (1 + r.below(5));
    if matches!(kind, "counting" | "saving" | "reuse") {
        s.cnt(0);
    }
    s.drain(0, cap);
    if matches!(kind, "saving" | "reuse") {
        s.save(0, 1);
        if s.load(1, 1) {
            s.drain(1, 64);
        }
    }
    if kind == "seeking" {
        s.seek(0, r.below(5) as u64);
        s.drain(0, cap);
    }
    s.init(0);
    s.drain(0, cap);
    if kind == "reuse" {
        s.new_codec(9, lvl, 1000, ch as u32);
        for x in &held {
            s.enc(9, x);
        }
        s.init(9);
        s.drain(9, cap);
        s.like(0, 9);
    }
    s.line()
}
