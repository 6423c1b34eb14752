//! Streams of more than 2^24 samples, as runs of equal frames, for GiantTrace.
use crate::signal::of_code;
use crate::util::*;
use adhoc_audio::codec::wav::WavCodec;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable};
use std::collections::BTreeMap;
use std::io::Cursor;

type Runs = Vec<(usize, Vec<f32>)>;

enum Codec {
    Adhoc(AdhocCodec),
    Wav(WavCodec),
}
impl Codec {
    fn get(&mut self) -> &mut dyn Streamable {
        match self {
            Codec::Adhoc(k) => k,
            Codec::Wav(k) => k,
        }
    }
}

fn note_runs(o: Obj, runs: &Runs) -> Obj {
    let s: Vec<String> = runs
        .iter()
        .map(|(n, v)| {
            let v: Vec<String> = v.iter().map(|x| (x.to_bits() as i32).to_string()).collect();
            format!("[{},[{}]]", n, v.join(","))
        })
        .collect();
    o.raw("runs", &format!("[{}]", s.join(",")))
}

struct Sess {
    t: Trace,
    c: BTreeMap<i64, Codec>,
    f: BTreeMap<i64, Vec<u8>>,
    /// frames of two channels in the trace are two frames of one
    pairs: bool,
}
impl Sess {
    fn new(id: usize) -> Sess {
        let t = Trace::new(id, Obj::new().s("kind", "giant").arr("cfg", [0]));
        Sess { t, c: BTreeMap::new(), f: BTreeMap::new(), pairs: false }
    }
    fn unit(&self) -> u32 {
        1 + self.pairs as u32
    }
    fn new_codec(&mut self, c: i64, wav: bool, rate: u32, ch: usize) {
        let ev = Obj::new().s("op", "gnew").i("c", c).s("kind", if wav { "wav" } else { "adhoc" }).i("rate", rate as i64).i("ch", ch as i64);
        let i = StreamInfo::new(rate * self.unit(), ch as u32 / self.unit());
        let k = self.t.run(
            ev,
            || if wav { Codec::Wav(WavCodec::new(i)) } else { Codec::Adhoc(AdhocCodec::new().with_info(i)) },
            |o, _| o,
        );
        if let Some(k) = k {
            self.c.insert(c, k);
        }
    }
    /// in calls of `per` frames
    fn enc(&mut self, c: i64, x: &Runs, per: usize) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap().get();
        self.t.run(
            Obj::new().s("op", "genc").i("c", c),
            || {
                let mut ret = 0;
                let mut buf: Vec<f32> = vec![];
                let ch = x[0].1.len();
                for (n, v) in x {
                    let mut n = *n;
                    while n > 0 {
                        let m = n.min(per - buf.len() / ch);
                        for _ in 0..m {
                            buf.extend_from_slice(v);
                        }
                        n -= m;
                        if buf.len() == per * ch {
                            beat();
                            ret += k.encode(&buf).unwrap_or(1 << 30);
                            buf.clear();
                        }
                    }
                }
                if buf.len() > 0 {
                    ret += k.encode(&buf).unwrap_or(1 << 30);
                }
                ret
            },
            |o, r| note_runs(o, x).i("ret", (*r).min(i32::MAX as usize) as i64),
        );
    }
    /// up to `calls` calls with buffers of `cap` samples
    fn read(&mut self, c: i64, ch: usize, calls: usize, cap: usize) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap().get();
        let r = self.t.run(
            Obj::new().s("op", "gread").i("c", c).i("calls", calls as i64).i("cap", cap as i64),
            || {
                let mut buf = vec![0.25f32; cap];
                let mut runs: Runs = vec![];
                let mut ret = 0;
                for _ in 0..calls {
                    beat();
                    let Some(n) = k.decode(&mut buf) else { break };
                    ret += n;
                    for f in buf[..n].chunks(ch) {
                        let many = runs.len() > 200;
                        match runs.last_mut() {
                            Some((m, v)) if v.len() == f.len() && v.iter().zip(f).all(|(a, b)| a.to_bits() == b.to_bits()) => *m += 1,
                            // what's wrong is wrong after some more
                            _ if many => {}
                            _ => runs.push((1, f.to_vec())),
                        }
                    }
                }
                (ret, runs)
            },
            |o, (ret, runs)| note_runs(o, runs).i("ret", (*ret).min(i32::MAX as usize) as i64),
        );
        let _ = r;
    }
    fn drain(&mut self, c: i64, ch: usize, frames: usize, cap: usize) {
        self.read(c, ch, frames / (cap / ch) + 2, cap);
    }
    fn cnt(&mut self, c: i64) {
        if let (false, Some(Codec::Adhoc(k))) = (self.t.dead, self.c.get(&c)) {
            let unit = 1 + self.pairs as u64;
            self.t.run(Obj::new().s("op", "gcnt").i("c", c), || k.calculate_sample_count_per_channel(), |o, n| {
                o.i("ret", (*n / unit + *n % unit * 1_000_000_000).min(i32::MAX as u64) as i64)
            });
        }
    }
    fn init(&mut self, c: i64) {
        if let (false, Some(Codec::Adhoc(k))) = (self.t.dead, self.c.get_mut(&c)) {
            self.t.run(Obj::new().s("op", "ginit").i("c", c), || k.init(), |o, _| o);
        }
    }
    fn seek(&mut self, c: i64, to: SeekFrom) {
        if self.t.dead {
            return;
        }
        let (whence, neg, ms) = match to {
            SeekFrom::Start(t) => (0, false, t),
            SeekFrom::Current(t) => (1, t < 0, t.unsigned_abs()),
            SeekFrom::End(t) => (2, t < 0, t.unsigned_abs()),
        };
        let k = self.c.get_mut(&c).unwrap().get();
        let ev = Obj::new()
            .s("op", "gseek")
            .i("c", c)
            .i("whence", whence)
            .b("neg", neg)
            .i("hi", (ms / 1000).min(2_000_000_000) as i64)
            .i("lo", (ms % 1000) as i64);
        self.t.run(ev, || k.seek(to), |o, _| o);
    }
    fn save(&mut self, c: i64, f: i64) {
        if self.t.dead {
            return;
        }
        let k = &self.c[&c];
        let r = self.t.run(
            Obj::new().s("op", "gsave").i("c", c).i("f", f),
            || {
                let mut v: Vec<u8> = vec![];
                let ok = match k {
                    Codec::Adhoc(k) => k.save_to(&mut v).is_some(),
                    Codec::Wav(k) => k.save_to(&mut v).is_ok(),
                };
                (ok, v)
            },
            |o, (ok, v)| o.b("ok", *ok).i("len", v.len() as i64).bytes("head", &v[..v.len().min(44)]),
        );
        if let Some((_, v)) = r {
            self.f.insert(f, v);
        }
    }
    fn load(&mut self, c: i64, f: i64, wav: bool) -> bool {
        if self.t.dead {
            return false;
        }
        let b = &self.f[&f];
        let unit = self.unit() as i64;
        let r = self.t.run(
            Obj::new().s("op", "gload").i("c", c).i("f", f),
            || {
                let k = if wav { WavCodec::load(Cursor::new(b)).ok().map(Codec::Wav) } else { AdhocCodec::load(&b[..]).map(Codec::Adhoc) };
                k.map(|mut k| (k.get().info(), k))
            },
            |o, k| match k {
                None => o.b("ok", false).i("rate", 0).i("ch", 0),
                Some((i, _)) => o.b("ok", true).i("rate", i.frequency() as i64 / unit).i("ch", i.channels() as i64 * unit),
            },
        );
        match r {
            Some(Some((_, k))) => {
                self.c.insert(c, k);
                true
            }
            _ => false,
        }
    }
    fn size(&mut self, c: i64) {
        if self.t.dead {
            return;
        }
        let k = self.c.get_mut(&c).unwrap();
        self.t.run(
            Obj::new().s("op", "gsize").i("c", c),
            || {
                let mut v: Vec<u8> = vec![];
                match k {
                    Codec::Adhoc(k) => k.save_to(&mut v).is_some(),
                    Codec::Wav(k) => k.save_to(&mut v).is_ok(),
                };
                (k.get().filesize_upperbound(), v.len())
            },
            |o, (n, b)| o.i("ret", (*n / 8).min(i32::MAX as u64) as i64).i("bits", (*n % 8) as i64).i("bytes", *b as i64),
        );
    }
}

fn value(r: &mut Rng, ch: usize) -> Vec<f32> {
    let c = r.pick(&[0i32, 0, 0, 1, -1, 5, 32767, -32767, 1000, -12345]);
    (0..ch).map(|k| of_code(if k % 2 == 1 { -c / 2 } else { c })).collect()
}

/// More than 2^32 bits: pairs of samples that are far from what is predicted, each of which takes 17 bits.
/// A pair is a frame of two channels in the trace, and two frames of the codec.
pub fn bits(id: usize, r: &mut Rng, whole: bool) -> Trace {
    let mut s = Sess::new(id);
    let rate = r.pick(&[1000u32, 2000, 24_000, 96_000]);
    s.pairs = true;
    s.new_codec(0, false, rate, 2);
    let loud = |c: i32| vec![of_code(c), of_code(-c)];
    let frames = 126_400_000 + r.below(100_000);
    let near = frames - 30_000 - r.below(30_000);
    let x: Runs = vec![
        (near, loud(16_384)),
        (1, value(r, 2)),
        (9_000 + r.below(100), loud(16_200)),
        (1, value(r, 2)),
        (frames - near, loud(16_400)),
        (1, value(r, 2)),
    ];
    let frames: usize = x.iter().map(|p| p.0).sum();
    s.enc(0, &x, r.pick(&[1 << 20, 30_000, 65_534]));
    s.cnt(0);
    let c = if whole {
        s.save(0, 0);
        s.load(1, 0, false);
        1
    } else {
        0
    };
    for f in [near, frames - 1, near + 9_000, frames - 20_000, frames - r.below(1_000_000), r.below(frames)] {
        let ms = (f as u64 * 1000).div_ceil(rate as u64);
        s.seek(c, SeekFrom::Start(ms));
        s.read(c, 2, 1 + r.below(3), 2 * (1 + r.below(40_000)));
    }
    if whole {
        s.init(c);
        s.drain(c, 2, frames, 1 << 20);
    }
    s.t
}

pub fn random(id: usize, r: &mut Rng, index: usize, what: &str) -> Trace {
    let wav = what.starts_with('w');
    let what = what.trim_start_matches('w');
    let mut s = Sess::new(id);
    // frames or only samples beyond 2^24
    let ch = if index % 4 == 3 { 2 } else { 1 };
    let frames = match index % 3 {
        0 => (1usize << 24) + 1 + r.below(2000),
        _ => (1usize << 24) / ch + 70_000 + r.below(100_000),
    };
    let rate = r.pick(&[44100u32, 8000, 1000, 48000, 96000, 500, 192_000]);
    s.new_codec(0, wav, rate, ch);
    // a few long runs, and single frames between
    let mut left = frames;
    let mut x: Runs = vec![];
    let parts = 3 + r.below(5);
    for i in 0..parts {
        let n = if i + 1 == parts { left } else { left / 2 + r.below(left / 4) };
        x.push((n, value(r, ch)));
        left -= n;
        for _ in 0..r.below(4) {
            let n = r.pick(&[1usize, 1, 2, 100, 65535]).min(left);
            if n > 0 && i + 1 < parts {
                x.push((n, value(r, ch)));
                left -= n;
            }
        }
    }
    // special places
    let at = |f: usize, x: &mut Runs, v: Vec<f32>| {
        let mut sum = 0;
        for i in 0..x.len() {
            let n = x[i].0;
            if f < sum + n {
                let old = x[i].1.clone();
                x.splice(i..i + 1, [(f - sum, old.clone()), (1, v), (sum + n - f - 1, old)]);
                break;
            }
            sum += n;
        }
    };
    for f in [frames - 1, 1 << 24, (1 << 24) - 1, 1 << 23, frames / 2, frames - 2 - r.below(300)] {
        if f < frames && r.chance(60) {
            at(f, &mut x, value(r, ch));
        }
    }
    x.retain(|p| p.0 > 0);
    let per = r.pick(&[65_535usize, 65_536, 10_000, 1_000_000, 1 << 24, frames]);
    s.enc(0, &x, per);
    if r.chance(50) {
        // a few more frames
        s.enc(0, &vec![(3, value(r, ch)), (1, value(r, ch))], 2);
    }
    s.cnt(0);
    if what == "size" {
        s.size(0);
    }
    let mut c = 0;
    if what == "save" || r.chance(20) {
        s.save(0, 0);
        if s.load(1, 0, wav) {
            c = 1;
        }
    }
    s.cnt(c);
    let spots: Vec<usize> = vec![0, 1 << 23, 1 << 24, frames - 1, frames - 2, frames, frames / 2, (1 << 24) / ch, (1 << 24) - 3];
    let rounds = if what == "seek" { 8 } else { 1 };
    for _ in 0..rounds {
        let mut f = r.pick(&spots).min(frames);
        if r.chance(50) {
            f = f.saturating_sub(r.below(70_000));
        }
        let ms = ((f as u64) * 1000).div_ceil(rate as u64);
        if wav && r.chance(50) {
            let back = ((frames - f) as u64 * 1000 / rate as u64) as i64;
            s.seek(c, if r.chance(50) { SeekFrom::End(-back) } else { SeekFrom::Current(r.pick(&[-back, back, ms as i64])) });
        } else {
            s.seek(c, SeekFrom::Start(ms));
        }
        let cap = ch * (1 + r.below(1000));
        s.read(c, ch, 1 + r.below(5), cap);
        if wav && what == "array" {
            s.enc(c, &vec![(r.pick(&[1usize, 100, 70_000]), value(r, ch))], 10_000);
        }
    }
    if wav || r.chance(50) {
        s.seek(c, SeekFrom::Start(0));
    } else {
        s.init(c);
    }
    let cap = r.pick(&[4096usize, 65_536, 1_000_000, 1 << 24, frames * ch, frames * ch + 10 * ch, 777 * ch]);
    if what == "read" || what == "save" || what == "array" || r.chance(25) {
        s.drain(c, ch, frames + 100, cap / ch * ch);
        s.read(c, ch, 1, ch);
    }
    if what == "size" {
        s.size(c);
    }
    if what == "count" {
        // a shorter one in its place
        s.init(c);
        s.enc(c, &vec![(r.pick(&[5usize, 70_000]), value(r, ch))], 65_535);
        s.cnt(c);
        s.init(c);
        s.drain(c, ch, 70_000, 5000 * ch);
    }
    s.t
}
