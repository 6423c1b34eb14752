//! Conversions between the formats, recorded for TranscodeTrace.
use crate::adhoc::{channels, FILL};
use crate::signal;
use crate::util::*;
use adhoc_audio::codec::wav::WavCodec;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable};
use std::io::Cursor;

enum Any {
    Adhoc(AdhocCodec),
    Wav(WavCodec),
}
impl Any {
    fn it(&mut self) -> &mut dyn Streamable {
        match self {
            Any::Adhoc(k) => k,
            Any::Wav(k) => k,
        }
    }
    fn through_file(&self) -> Option<Any> {
        let mut v = vec![];
        Some(match self {
            Any::Adhoc(k) => {
                k.save_to(&mut v)?;
                Any::Adhoc(AdhocCodec::load(Cursor::new(v))?)
            }
            Any::Wav(k) => {
                k.save_to(&mut v).ok()?;
                Any::Wav(WavCodec::load(Cursor::new(v)).ok()?)
            }
        })
    }
}

fn all(k: &mut dyn Streamable, cap: usize) -> Vec<f32> {
    let mut v = vec![];
    let mut b = vec![FILL; cap];
    while let Some(n) = k.decode(&mut b) {
        if n == 0 {
            break;
        }
        v.extend_from_slice(&b[..n]);
    }
    v
}

/// a canonical wav file
fn wav_file(rate: u32, ch: usize, codes: &[i16]) -> Vec<u8> {
    let mut v = b"RIFF".to_vec();
    v.extend_from_slice(&(36 + 2 * codes.len() as u32).to_le_bytes());
    v.extend_from_slice(b"WAVEfmt ");
    v.extend_from_slice(&16u32.to_le_bytes());
    v.extend_from_slice(&1u16.to_le_bytes());
    v.extend_from_slice(&(ch as u16).to_le_bytes());
    v.extend_from_slice(&rate.to_le_bytes());
    v.extend_from_slice(&(rate * ch as u32 * 2).to_le_bytes());
    v.extend_from_slice(&(ch as u16 * 2).to_le_bytes());
    v.extend_from_slice(&16u16.to_le_bytes());
    v.extend_from_slice(b"data");
    v.extend_from_slice(&(2 * codes.len() as u32).to_le_bytes());
    for c in codes {
        v.extend_from_slice(&c.to_le_bytes());
    }
    v
}

pub fn chain(id: usize, r: &mut Rng, index: usize) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "transcode").arr("cfg", [0]));
    let ch = if index < 64 { 1 + index % 2 } else { channels(r) };
    let rate = r.pick(&[8000u32, 44100, 48000, 1, 96000, 11025]);
    let head = |op: &str| Obj::new().s("op", op).arr("rate", [(rate >> 16) as i64, (rate & 0xffff) as i64]).i("ch", ch as i64);
    // every code there is, in order or mixed, or any signal
    let codes: Option<Vec<i16>> = if index < 64 {
        let lo = -32768 + 1024 * index as i32;
        let mut v: Vec<i16> = (lo..lo + 1024).map(|c| c as i16).collect();
        if index % 3 == 0 {
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i + 1));
            }
        }
        Some(v)
    } else if r.chance(40) {
        let n = r.below(600 / ch + 2) * ch;
        Some((0..n).map(|_| r.pick(&[r.clone().next() as i16, -32768, 32767, -1, 0, 1])).collect())
    } else {
        None
    };
    let mut src = match codes {
        Some(c) => {
            let file = wav_file(rate, ch, &c);
            match t.run(
                head("raw").arr("x", c.iter().map(|&c| c as i64)),
                || WavCodec::load(Cursor::new(file)).ok(),
                |o, r| o.b("ok", r.is_some()),
            ) {
                Some(Some(k)) => Any::Wav(k),
                _ => {
                    t.note(Obj::new().s("op", "not loaded"));
                    return t;
                }
            }
        }
        None => {
            let frames = r.below(500 / ch + 2);
            let x = signal::interleaved(r, frames, ch, false);
            let wav = r.chance(50);
            let i = StreamInfo::new(rate, ch as u32);
            // the first stream isn't a conversion yet: what it gives is recorded as one
            let lvl = 0;
            t.note(head("start").bits("x", &x));
            let k = t.run(
                head("conv").i("lvl", lvl).s("to", if wav { "wav" } else { "adhoc" }),
                || {
                    let mut k = if wav { Any::Wav(WavCodec::new(i)) } else { Any::Adhoc(AdhocCodec::new().with_info(i)) };
                    let n = k.it().encode(&x).map_or(0, |n| n);
                    k.it().seek(SeekFrom::Start(0));
                    let out = all(k.it(), 700.max(ch));
                    k.it().seek(SeekFrom::Start(0));
                    (k, n, out)
                },
                |o, (_, n, out)| o.i("ret", *n as i64).bits("out", out),
            );
            match k {
                Some((k, _, _)) => k,
                None => return t,
            }
        }
    };
    for _ in 0..1 + r.below(5) {
        let wav = r.chance(50);
        let lvl = if wav || r.chance(80) { 0 } else { r.range(1, 10) };
        let cap = if r.chance(50) { ch * (1 + r.below(40)) + r.below(ch) } else { 1024.max(ch) };
        let (file, late) = (r.chance(50), r.chance(30));
        let k = t.run(
            head("conv").i("lvl", lvl).s("to", if wav { "wav" } else { "adhoc" }).b("file", file).i("cap", cap as i64),
            || {
                let i = src.it().info();
                let mut k = if wav {
                    Any::Wav(WavCodec::new(i))
                } else {
                    Any::Adhoc(AdhocCodec::new().with_compression_level(lvl as u32).with_info(i))
                };
                let mut total = 0;
                let mut b = vec![FILL; cap];
                while let Some(n) = src.it().decode(&mut b) {
                    if n == 0 {
                        return None;
                    }
                    total += k.it().encode(&b[..n]).unwrap_or(0);
                }
                if late {
                    k.it().seek(SeekFrom::Start(0));
                }
                let mut k = if file { k.through_file()? } else { k };
                k.it().seek(SeekFrom::Start(0));
                let out = all(k.it(), 700.max(ch));
                k.it().seek(SeekFrom::Start(0));
                let i = k.it().info();
                Some((k, total, out, i))
            },
            |o, r| match r {
                Some((_, n, out, i)) if i.frequency() == rate as usize && i.channels() == ch => o.i("ret", *n as i64).bits("out", out),
                _ => o.i("ret", -1).arr("out", []),
            },
        );
        match k {
            Some(Some((k, ..))) => src = k,
            _ => break,
        }
    }
    t
}
