//! Damaged adhoc files.
use crate::signal;
use crate::util::*;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable};
use std::io::Cursor;

/// (channels, level, frames of the stream)
const SHAPES: [(usize, u32, &[usize]); 6] = [
    (1, 0, &[20]),
    (2, 3, &[5, 4, 9]),
    (1, 10, &[]),
    (3, 0, &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
    (8, 5, &[2, 30]),
    (1, 0, &[2, 1, 3, 70]),
];

fn make(ch: usize, lvl: u32, frames: &[usize], r: &mut Rng) -> Vec<u8> {
    let mut k = AdhocCodec::new().with_compression_level(lvl).with_info(StreamInfo::new(8000, ch as u32));
    for &n in frames {
        let x = signal::interleaved(r, n, ch, false);
        Streamable::encode(&mut k, &x);
    }
    let mut v = vec![];
    k.save_to(&mut v).unwrap();
    v
}

/// offsets and widths of the fields in Damage.tla, 26 entries; fields of empty lists are where
/// they would be
fn fields(b: &[u8]) -> Vec<(usize, usize)> {
    let u64_at = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize;
    let en = u64_at(4);
    let fo = 12 + en;
    let n_i = u64_at(fo + 4);
    let ic = fo + 12 + 8 * n_i;
    let so = ic + 16;
    let sn = u64_at(so);
    let co = so + 8 + 2 * sn;
    let cn = u64_at(co);
    let ho = co + 8 + 8 * cn;
    let hn = u64_at(ho);
    let uo = ho + 8 + 6 * hn;
    let d = uo + 4 + 9;
    let dn = u64_at(d);
    let e = d + 8 + 16 * dn;
    let last = |n: usize| n.max(1) - 1;
    vec![
        (0, 4),
        (4, 8),
        (fo, 4),
        (fo + 4, 8),
        (ic, 8),
        (ic + 8, 8),
        (so, 8),
        (so + 8, 2),
        (so + 8 + 2 * last(sn), 2),
        (co, 8),
        (co + 8, 4),
        (co + 8 + 8 * last(cn), 4),
        (co + 8 + 8 * last(cn) + 4, 4),
        (ho, 8),
        (ho + 8, 6),
        (uo, 4),
        (uo + 4, 1),
        (uo + 5, 4),
        (uo + 9, 4),
        (d, 8),
        (e, 8),
        (e + 16, 8),
        (e + 24, 8),
        (fo, 4),
        (12, 1),
        (d + 8, 1),
    ]
}

/// `bits` is how many there are in the stream
fn set(b: &mut [u8], at: (usize, usize), v: i64, ch: u64, bits: u64) {
    let (o, w) = at;
    if o + w > b.len() {
        return;
    }
    let mut x = [0u8; 8];
    x[..w].copy_from_slice(&b[o..o + w]);
    let old = u64::from_le_bytes(x);
    let new = match v {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => old.wrapping_add(1),
        4 => old.wrapping_sub(1),
        5 => old.wrapping_mul(2),
        6 => 1 << 31,
        7 => 11,
        8 => 1 << 16,
        9 => old.wrapping_add(ch),
        11 => bits,
        _ => old.wrapping_sub(ch),
    };
    b[o..o + w].copy_from_slice(&new.to_le_bytes()[..w]);
}

/// makes one of the lists longer or shorter, elements and length: the exponents, flags, sizes,
/// starts, histories or bits
fn resize(b: &mut Vec<u8>, list: usize, how: i64) {
    let f = fields(b);
    // the length, the first element, the size of an element, elements for each count
    let (len, first, size) = match list {
        0 => (f[1].0, f[1].0 + 8, 1),
        1 => (f[3].0, f[3].0 + 8, 8),
        2 => (f[6].0, f[7].0, 2),
        3 => (f[9].0, f[10].0, 8),
        4 => (f[13].0, f[14].0, 6),
        _ => (f[19].0, f[19].0 + 8, 16),
    };
    let n = u64::from_le_bytes(b[len..len + 8].try_into().unwrap()) as usize;
    let end = first + n * size;
    let to = match how {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n + 1,
        3 => 2 * n,
        _ => 1,
    };
    if to <= n {
        b.drain(first + to * size..end);
    } else {
        // more of the same, or zeros
        let more: Vec<u8> = (0..(to - n) * size).map(|i| if n > 0 { b[end - size + i % size] } else { 0 }).collect();
        b.splice(end..end, more);
    }
    b[len..len + 8].copy_from_slice(&(to as u64).to_le_bytes());
}

/// loads, and uses what was loaded
fn exercise(t: &mut Trace, what: &str, b: &[u8], r: &mut Rng) {
    t.note(Obj::new().s("op", "bytes").s("what", what).i("len", b.len() as i64));
    let k = t.run(
        Obj::new().s("op", "load"),
        || {
            AdhocCodec::load(Cursor::new(b)).map(|k| {
                let mut v: Vec<u8> = vec![];
                k.save_to(&mut v).unwrap();
                let lvl = u32::from_le_bytes(v[..4].try_into().unwrap());
                let ch = k.info().channels();
                (k, ch, lvl)
            })
        },
        |o, k| match k {
            Some((_, ch, lvl)) => o.b("ok", true).i("ch", *ch as i64 % (1 << 31)).i("lvl", *lvl as i64 % (1 << 31)),
            None => o.b("ok", false).i("ch", 0).i("lvl", 0),
        },
    );
    let (mut k, ch) = match k {
        Some(Some((k, ch, _))) => (k, ch),
        _ => return,
    };
    let plan = r.below(4);
    for step in 0..5 {
        match (step + plan) % 5 {
            0 => {
                t.run(
                    Obj::new().s("op", "drain"),
                    || {
                        let mut buf = vec![0.0; (2048 / ch + 1) * ch];
                        let mut n = 0;
                        while let Some(_) = Streamable::decode(&mut k, &mut buf) {
                            n += 1;
                            if n > 3000 {
                                break;
                            }
                        }
                    },
                    |o, _| o,
                );
            }
            1 => {
                for ms in [r.below(30) as u64, 1, 1000, u64::MAX, 5] {
                    t.run(Obj::new().s("op", "seek"), || Streamable::seek(&mut k, SeekFrom::Start(ms)), |o, _| o);
                    let cap = ch * (1 + r.below(10)) + r.below(3);
                    t.run(
                        Obj::new().s("op", "dec").i("cap", cap as i64),
                        || Streamable::decode(&mut k, &mut vec![0.0; cap]).unwrap_or(0),
                        |o, n| o.i("ret", *n as i64),
                    );
                }
            }
            2 => {
                t.run(Obj::new().s("op", "cnt"), || k.calculate_sample_count_per_channel(), |o, _| o);
            }
            3 => {
                t.run(
                    Obj::new().s("op", "save"),
                    || {
                        let mut v: Vec<u8> = vec![];
                        k.save_to(&mut v).is_some()
                    },
                    |o, ok| o.b("ok", *ok),
                );
            }
            _ => {
                t.run(Obj::new().s("op", "init"), || k.init(), |o, _| o);
            }
        }
        if t.dead {
            return;
        }
    }
}

/// scripts of Damage.tla
pub fn scripted(id: usize, line: &str) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "damage").s("script", line).arr("cfg", [0]));
    let mut parts = line.split(';');
    let shape: usize = parts.next().unwrap().trim().parse().unwrap();
    let (ch, lvl, frames) = SHAPES[shape % SHAPES.len()];
    let mut r = Rng::new(shape as u64, 5, 5);
    let whole = match call(id, "make", || make(ch, lvl, frames, &mut r)) {
        End::Ok(b) => b,
        End::Panic => return t,
    };
    // with another layout, the fields are just some places in the file
    let at = match call(id, "fields", || fields(&whole)) {
        End::Ok(at) => at,
        End::Panic => (0..26).map(|i| (i * whole.len() / 26, 4)).collect(),
    };
    let bits = at.get(19).map_or(0, |&(o, w)| {
        let n = whole.get(o..o + w).map_or(0, |x| x.iter().rev().fold(0u64, |n, &x| n << 8 | x as u64));
        n.wrapping_mul(128)
    });
    let mut b = whole.clone();
    for p in parts {
        let a: Vec<i64> = p.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
        if p.starts_with("set") {
            if a[0] == 23 {
                // consistently
                for f in [2, 4, 6, 9, 13] {
                    set(&mut b, at[f], a[1], ch as u64, bits);
                }
            } else {
                set(&mut b, at[a[0] as usize], a[1], ch as u64, bits);
            }
        } else if p.starts_with("list") {
            let _ = call(id, "resize", || resize(&mut b, a[0] as usize, a[1]));
        } else {
            let (o, w) = at[(a[0] / 2) as usize];
            let n = if a[0] % 2 == 0 { o + w } else { o + w / 2 };
            b.truncate(n.min(b.len()));
        }
    }
    let what = if b == whole {
        "whole"
    } else if b.len() < whole.len() && whole[..b.len()] == b[..] {
        "prefix"
    } else {
        "other"
    };
    let mut r = Rng::new(hash31(line.as_bytes()) as u64, 5, 6);
    exercise(&mut t, what, &b, &mut r);
    t
}

/// random damage
pub fn random(id: usize, r: &mut Rng) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "damage").arr("cfg", [0]));
    let ch = r.pick(&[1usize, 1, 2, 3, 6]);
    let lvl = r.below(11) as u32;
    let frames: Vec<usize> = (0..r.below(5)).map(|_| 1 + r.below(40)).collect();
    let whole = match call(id, "make", || make(ch, lvl, &frames, r)) {
        End::Ok(b) => b,
        End::Panic => return t,
    };
    for _ in 0..6 {
        let mut b = whole.clone();
        match r.below(8) {
            7 => {
                for _ in 0..1 + r.below(2) {
                    let (list, how) = (r.below(6), r.below(5) as i64);
                    let _ = call(id, "resize", || resize(&mut b, list, how));
                }
            }
            // every cut makes a prefix
            0 | 1 => {
                let n = r.below(whole.len());
                b.truncate(n);
            }
            2 => {
                for _ in 0..1 + r.below(4) {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
            }
            3 => {
                for _ in 0..1 + r.below(3) {
                    let i = r.below(b.len());
                    b[i] = r.pick(&[0u8, 255, 1, 128, 127]);
                }
            }
            4 => {
                let i = r.below(b.len());
                let n = r.below(20).min(b.len() - i);
                b.drain(i..i + n);
            }
            5 => {
                let i = r.below(b.len());
                for _ in 0..r.below(20) {
                    b.insert(i, r.next() as u8);
                }
            }
            _ => {
                let n = r.below(200);
                b = (0..n).map(|_| r.next() as u8 & r.pick(&[0xff, 0x0f, 0x01])).collect();
            }
        }
        let what = if b == whole {
            "whole"
        } else if b.len() < whole.len() && whole[..b.len()] == b[..] {
            "prefix"
        } else {
            "other"
        };
        exercise(&mut t, what, &b, r);
        if t.dead {
            break;
        }
    }
    t
}
