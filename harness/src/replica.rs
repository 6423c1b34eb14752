//! Codecs that get the same calls (C26).
use crate::adhoc::{channels, pieces, rate, time};
use crate::signal;
use crate::util::*;
use adhoc_audio::{AdhocCodec, SeekFrom, StreamInfo, Streamable};
use std::io::Cursor;
use std::process::{Command, Stdio};

#[derive(Clone)]
enum Op {
    Enc(Vec<f32>),
    Init,
    Seek(u64),
    Dec(usize),
    Reload,
}
#[derive(Clone, Copy)]
enum Peek {
    Info,
    Size,
    Count,
    Save,
}

#[derive(Clone)]
struct Plan {
    lvl: u32,
    rate: u32,
    ch: usize,
    ops: Vec<Op>,
}

fn plan(r: &mut Rng) -> Plan {
    let lvl = r.pick(&[0u32, 1, 1, 2, 3, 5, 7, 10]);
    let ch = channels(r);
    let rate = rate(r);
    let mut ops = vec![];
    for _ in 0..1 + r.below(3) {
        let frames = r.below(120 / ch + 3);
        let x = signal::interleaved(r, frames, ch, true);
        let mut at = 0;
        for n in pieces(r, frames, ch) {
            ops.push(Op::Enc(x[at..at + n].to_vec()));
            at += n;
        }
        ops.push(if r.chance(50) { Op::Init } else { Op::Seek(0) });
        for _ in 0..r.below(6) {
            ops.push(match r.below(5) {
                0 => Op::Seek(time(r, rate, frames)),
                1 => Op::Init,
                2 if r.chance(30) => Op::Reload,
                _ => Op::Dec(r.below(60 * ch)),
            });
        }
        ops.push(Op::Init);
    }
    ops.push(Op::Dec(300 * ch));
    Plan { lvl, rate, ch, ops }
}

fn make(p: &Plan) -> AdhocCodec {
    AdhocCodec::new().with_compression_level(p.lvl).with_info(StreamInfo::new(p.rate, p.ch as u32))
}
fn bytes(k: &AdhocCodec) -> Vec<u8> {
    let mut v = vec![];
    k.save_to(&mut v).expect("saving into memory");
    v
}
fn digest(x: &[f32]) -> i64 {
    let b: Vec<u8> = x.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect();
    hash31(&b)
}

/// what a call gives, as two numbers
fn apply(k: &mut AdhocCodec, op: &Op) -> (i64, i64) {
    match op {
        Op::Enc(x) => (Streamable::encode(k, x).map_or(-1, |n| n as i64), 0),
        Op::Init => {
            k.init();
            (0, 0)
        }
        Op::Seek(t) => {
            Streamable::seek(k, SeekFrom::Start(*t));
            (0, 0)
        }
        Op::Dec(n) => {
            let mut b = vec![0.5; *n];
            let n = Streamable::decode(k, &mut b).unwrap_or(0);
            (n as i64, digest(&b))
        }
        Op::Reload => {
            let v = bytes(k);
            *k = AdhocCodec::load(Cursor::new(&v[..])).expect("loading what was saved");
            (v.len() as i64, hash31(&v))
        }
    }
}
fn peek(k: &AdhocCodec, what: Peek) -> (i64, i64) {
    match what {
        Peek::Info => {
            let i = k.info();
            (i.frequency() as i64, i.channels() as i64)
        }
        Peek::Size => (Streamable::filesize_upperbound(k) as i64 & 0x7fffffff, 0),
        Peek::Count => (k.calculate_sample_count_per_channel() as i64 & 0x7fffffff, 0),
        Peek::Save => {
            let v = bytes(k);
            (v.len() as i64, hash31(&v))
        }
    }
}
fn name(p: Peek) -> &'static str {
    match p {
        Peek::Info => "info",
        Peek::Size => "size",
        Peek::Count => "count",
        Peek::Save => "save",
    }
}
fn start(r: i64) -> Obj {
    Obj::new().s("op", "start").i("r", r)
}
fn res(o: Obj, x: &(i64, i64)) -> Obj {
    o.arr("res", [x.0, x.1])
}
fn call_ev(r: i64, k: usize) -> Obj {
    Obj::new().s("op", "call").i("r", r).i("k", k as i64)
}
fn look_ev(r: i64, p: Peek) -> Obj {
    Obj::new().s("op", "look").i("r", r).s("what", name(p))
}

fn do_call(t: &mut Trace, c: &mut AdhocCodec, r: i64, k: usize, op: &Op) {
    t.run(call_ev(r, k), || apply(c, op), |o, x| res(o, x));
}
fn do_look(t: &mut Trace, c: &AdhocCodec, r: i64, p: Peek) {
    t.run(look_ev(r, p), || peek(c, p), |o, x| res(o, x));
}

const PEEKS: [Peek; 4] = [Peek::Info, Peek::Size, Peek::Count, Peek::Save];

/// the calls of a plan in this process, all results printed for another one
pub fn digests(seed: u64, index: usize) {
    let mut r = Rng::new(seed, 77, index as u64);
    let p = plan(&mut r);
    let mut k = make(&p);
    for op in p.ops.iter() {
        let x = apply(&mut k, op);
        println!("{} {}", x.0, x.1);
    }
    let x = peek(&k, Peek::Save);
    println!("{} {}", x.0, x.1);
}

/// the same but for a few samples
fn alike(r: &mut Rng, x: &[f32]) -> Vec<f32> {
    let mut y = x.to_vec();
    if !y.is_empty() {
        let n = r.pick(&[1, 1, 2, 4, 1 + y.len() / 8]);
        for _ in 0..n {
            let i = r.below(y.len());
            y[i] = match r.below(3) {
                0 => -y[i],
                1 => 0.0,
                _ => signal::of_code(r.range(-32767, 32767) as i32),
            };
        }
    }
    y
}

pub fn replicas(id: usize, r: &mut Rng, seed: u64) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "replica").arr("cfg", [0]));
    let p = plan(&mut Rng::new(seed, 77, id as u64));
    let made = match call(id, "new", || [make(&p), make(&p), make(&p)]) {
        End::Ok(x) => x,
        End::Panic => return t,
    };
    let [mut a, mut b, mut c] = made;
    // one on its own
    t.note(start(0));
    for (k, op) in p.ops.iter().enumerate() {
        do_call(&mut t, &mut a, 0, k + 1, op);
    }
    do_look(&mut t, &a, 0, Peek::Save);
    // two next to each other, one of them observed all the time, between others
    let other = plan(r);
    let mut others: Vec<AdhocCodec> = match call(id, "new", || (0..2).map(|_| make(&other)).collect()) {
        End::Ok(x) => x,
        End::Panic => return t,
    };
    let mut next = [0usize; 2];
    t.note(start(1));
    t.note(start(2));
    let mut at = [0usize; 2];
    while t.dead == false && (at[0] < p.ops.len() || at[1] < p.ops.len()) {
        match r.below(5) {
            0 | 1 if at[0] < p.ops.len() => {
                for _ in 0..r.below(3) {
                    let q = r.pick(&PEEKS);
                    do_look(&mut t, &b, 1, q);
                }
                at[0] += 1;
                do_call(&mut t, &mut b, 1, at[0], &p.ops[at[0] - 1]);
            }
            2 | 3 if at[1] < p.ops.len() => {
                at[1] += 1;
                do_call(&mut t, &mut c, 2, at[1], &p.ops[at[1] - 1]);
            }
            _ => {
                // a codec that has the same plan, or another one
                let i = r.below(2);
                let ops = if i == 0 { &other.ops } else { &p.ops };
                if i == 1 && other.ch != p.ch {
                    continue;
                }
                let k = &mut others[i];
                if next[i] < ops.len() {
                    let op = &ops[next[i]];
                    next[i] += 1;
                    t.run(Obj::new().s("op", "other"), || apply(k, op), |o, _| o);
                }
            }
        }
    }
    for q in PEEKS {
        do_look(&mut t, &b, 1, q);
        do_look(&mut t, &c, 2, q);
        do_look(&mut t, &a, 0, q);
    }
    if t.dead {
        return t;
    }
    // right after calls that are almost the same, of codecs that had the same calls before
    t.note(start(3));
    let Some(mut d) = t.run(Obj::new().s("op", "other"), || make(&p), |o, _| o) else { return t };
    let mut left = 5;
    for (k, op) in p.ops.iter().enumerate() {
        if let (Op::Enc(x), true) = (op, left > 0 && r.chance(70)) {
            left -= 1;
            let y = Op::Enc(alike(r, x));
            t.run(
                Obj::new().s("op", "other"),
                || {
                    let mut k2 = make(&p);
                    for op in &p.ops[..k] {
                        apply(&mut k2, op);
                    }
                    apply(&mut k2, &y)
                },
                |o, _| o,
            );
        }
        do_call(&mut t, &mut d, 3, k + 1, op);
        if t.dead {
            return t;
        }
    }
    do_look(&mut t, &d, 3, Peek::Save);
    // in threads of their own, at the same time
    let n = 2 + r.below(3);
    let results = call(id, "threads", || {
        let handles: Vec<_> = (0..n)
            .map(|_| {
                let p = p.clone();
                std::thread::spawn(move || {
                    let mut k = make(&p);
                    let v: Vec<(i64, i64)> = p.ops.iter().map(|op| apply(&mut k, op)).collect();
                    let s = peek(&k, Peek::Save);
                    (v, s)
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    });
    match results {
        End::Ok(all) => {
            for (i, (v, s)) in all.iter().enumerate() {
                let rep = 10 + i as i64;
                t.note(start(rep));
                for (k, x) in v.iter().enumerate() {
                    t.note(res(call_ev(rep, k + 1), x));
                }
                t.note(res(look_ev(rep, Peek::Save), s));
            }
        }
        End::Panic => {
            t.run(Obj::new().s("op", "threads"), || panic!(), |o, _: &()| o);
        }
    }
    // in another process
    if id % 10 == 0 && t.dead == false {
        let out = Command::new(std::env::current_exe().unwrap())
            .args(["digests", &seed.to_string(), &id.to_string()])
            .stdin(Stdio::null())
            .output()
            .unwrap();
        t.note(start(20));
        let text = String::from_utf8_lossy(&out.stdout);
        let v: Vec<(i64, i64)> = text
            .lines()
            .map(|s| {
                let (a, b) = s.split_once(' ').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .collect();
        for k in 0..p.ops.len() + 1 {
            let x = v.get(k).copied().unwrap_or((-2, -2));
            if k < p.ops.len() {
                t.note(res(call_ev(20, k + 1), &x));
            } else {
                t.note(res(look_ev(20, Peek::Save), &x));
            }
        }
    }
    t
}
