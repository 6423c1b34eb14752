//! Writers and readers that answer by a script.
use crate::signal;
use crate::util::*;
use adhoc_audio::codec::wav::WavCodec;
use adhoc_audio::{AdhocCodec, StreamInfo, Streamable};
use std::cell::RefCell;
use std::io::{self, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Answer {
    All,
    Some(usize),
    Interrupted,
    Failed,
    Nothing,
}

type Log = Rc<RefCell<Vec<Obj>>>;

struct Scripted {
    answers: Vec<Answer>,
    again: bool,
    skip: usize,
    calls: usize,
    log: Log,
    /// fails when so many bytes are through
    limit: usize,
    through: usize,
    kind: ErrorKind,
}
impl Scripted {
    fn next(&mut self) -> Answer {
        let k = self.calls;
        self.calls += 1;
        assert!(self.calls < 1_000_000);
        if self.through >= self.limit {
            return Answer::Failed;
        }
        if k < self.skip {
            return Answer::All;
        }
        let k = k - self.skip;
        if k < self.answers.len() {
            self.answers[k]
        } else if self.again && !self.answers.is_empty() {
            self.answers[k % self.answers.len()]
        } else {
            Answer::All
        }
    }
}
impl Write for Scripted {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = match self.next() {
            Answer::All => b.len(),
            Answer::Some(n) => n.min(b.len()),
            Answer::Nothing => 0,
            Answer::Interrupted => {
                self.log.borrow_mut().push(Obj::new().s("op", "interrupted"));
                return Err(ErrorKind::Interrupted.into());
            }
            Answer::Failed => {
                self.log.borrow_mut().push(Obj::new().s("op", "failed"));
                return Err(self.kind.into());
            }
        };
        let n = n.min(self.limit - self.through);
        self.through += n;
        self.log.borrow_mut().push(Obj::new().s("op", "took").i("n", b.len() as i64).bytes("b", &b[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Source<'a> {
    s: Scripted,
    c: Cursor<&'a [u8]>,
    seek_fails: bool,
}
impl<'a> Read for Source<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = match self.s.next() {
            Answer::Some(n) => n.min(b.len()),
            Answer::Failed => {
                self.s.log.borrow_mut().push(Obj::new().s("op", "failed"));
                return Err(self.s.kind.into());
            }
            _ => b.len(),
        };
        let n = n.min(self.s.limit - self.s.through);
        let n = self.c.read(&mut b[..n])?;
        self.s.through += n;
        self.s.log.borrow_mut().push(Obj::new().s("op", "gave").i("n", n as i64));
        Ok(n)
    }
}
impl<'a> Seek for Source<'a> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        if self.seek_fails {
            self.s.log.borrow_mut().push(Obj::new().s("op", "failed"));
            return Err(ErrorKind::Other.into());
        }
        self.c.seek(to)
    }
}

enum Codec {
    A(AdhocCodec),
    W(WavCodec),
}
impl Codec {
    fn make(r: &mut Rng, wav: bool) -> Codec {
        let ch = r.pick(&[1usize, 1, 2, 3]);
        let frames = r.pick(&[0usize, 1, 5, 20, 60]) / ch;
        let info = StreamInfo::new(44100, ch as u32);
        if wav {
            let mut w = WavCodec::new(info);
            let x = signal::interleaved(r, frames, ch, false);
            Streamable::encode(&mut w, &x);
            Codec::W(w)
        } else {
            let mut a = AdhocCodec::new().with_compression_level(r.below(11) as u32).with_info(info);
            for _ in 0..1 + r.below(3) {
                let x = signal::interleaved(r, frames, ch, false);
                Streamable::encode(&mut a, &x);
            }
            Codec::A(a)
        }
    }
    fn save<T: Write>(&self, w: T) -> bool {
        match self {
            Codec::A(a) => a.save_to(w).is_some(),
            Codec::W(a) => a.save_to(w).is_ok(),
        }
    }
    fn load<T: Read + Seek>(wav: bool, r: T) -> Option<Codec> {
        if wav {
            WavCodec::load(r).ok().map(Codec::W)
        } else {
            AdhocCodec::load(r).map(Codec::A)
        }
    }
    fn contents(&mut self) -> (StreamInfo, Vec<f32>) {
        let s: &mut dyn Streamable = match self {
            Codec::A(a) => a,
            Codec::W(a) => a,
        };
        let i = s.info();
        let mut out = vec![];
        let mut b = vec![0.0; 4096];
        while let Some(n) = s.decode(&mut b) {
            out.extend_from_slice(&b[..n]);
            if out.len() > 10_000 {
                break;
            }
        }
        (i, out)
    }
}

fn once(t: &mut Trace, r: &mut Rng, wav: bool, save: bool, make: impl Fn(usize, Log) -> Scripted, seek_fails: bool) {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let prepared = match call(t.id, "prepare", || {
        let k = Codec::make(r, wav);
        let mut whole = vec![];
        k.save(&mut whole);
        (k, whole)
    }) {
        End::Ok(x) => x,
        // other checks tell what is wrong with that
        End::Panic => return,
    };
    let (k, whole) = prepared;
    t.note(Obj::new().s("op", "begin"));
    let mut s = make(whole.len(), log.clone());
    if save {
        let how = call(t.id, "saved", || k.save(&mut s));
        for e in log.borrow_mut().drain(..) {
            t.note(e);
        }
        match how {
            End::Ok(ok) => t.note(Obj::new().s("op", "saved").b("ok", ok).bytes("whole", &whole)),
            End::Panic => {
                t.run(Obj::new().s("op", "saved"), || panic!(), |o, _: &()| o);
            }
        }
    } else {
        let reference = match call(t.id, "reference", || Codec::load(wav, Cursor::new(&whole[..])).map(|mut k| k.contents())) {
            End::Ok(Some(x)) => x,
            _ => return,
        };
        let src = Source { s, c: Cursor::new(&whole[..]), seek_fails };
        let how = call(t.id, "loaded", || Codec::load(wav, src).map(|mut k| k.contents()));
        for e in log.borrow_mut().drain(..) {
            t.note(e);
        }
        let info = |o: Obj, i: &StreamInfo, x: &[f32], s: &str| {
            o.i(&format!("rate{}", s), i.frequency() as i64).i(&format!("ch{}", s), i.channels() as i64).bits(&format!("out{}", s), x)
        };
        let ev = info(Obj::new().s("op", "loaded"), &reference.0, &reference.1, "0");
        match how {
            End::Ok(Some((i, x))) => t.note(info(ev.b("ok", true), &i, &x, "")),
            End::Ok(None) => t.note(info(ev.b("ok", false), &reference.0, &[], "")),
            End::Panic => {
                t.run(Obj::new().s("op", "loaded"), || panic!(), |o, _: &()| o);
            }
        }
    }
}

/// scripts of TransferGen
pub fn scripted(id: usize, line: &str) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "transfer").s("script", line).arr("cfg", [0]));
    let mut p = line.split_whitespace();
    let what = p.next().unwrap();
    let skip: usize = p.next().unwrap().parse().unwrap();
    let again = p.next().unwrap() == "again";
    let answers: Vec<Answer> = p
        .map(|a| match a {
            "a" => Answer::All,
            "1" => Answer::Some(1),
            "3" => Answer::Some(3),
            "i" => Answer::Interrupted,
            "f" => Answer::Failed,
            _ => Answer::Nothing,
        })
        .collect();
    let mut r = Rng::new(hash31(line.as_bytes()) as u64, 8, 8);
    let make = |_: usize, log| Scripted {
        answers: answers.clone(),
        again,
        skip,
        calls: 0,
        log,
        limit: usize::MAX,
        through: 0,
        kind: ErrorKind::Other,
    };
    once(&mut t, &mut r, what.starts_with('w'), what.ends_with("save"), make, false);
    t
}

pub fn random(id: usize, r: &mut Rng) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "transfer").arr("cfg", [0]));
    for _ in 0..3 {
        let save = r.chance(60);
        let wav = r.chance(50);
        let seek_fails = !save && wav && r.chance(10);
        let n = 1 + r.below(30);
        let kind = r.below(4);
        let answers: Vec<Answer> = (0..n)
            .map(|_| match r.below(if save { 7 } else { 4 }) {
                0 | 1 => Answer::All,
                2 => Answer::Some(1 + r.below(50)),
                3 => Answer::Some(1),
                4 | 5 => Answer::Interrupted,
                _ => {
                    if kind == 0 {
                        r.pick(&[Answer::Nothing, Answer::Failed])
                    } else {
                        Answer::Some(1)
                    }
                }
            })
            .collect();
        let again = answers.iter().any(|a| *a != Answer::Interrupted);
        let skip = r.below(30);
        let at = r.next() as usize;
        // the place where it fails: anywhere in the file, also just before its end
        let style = r.below(4);
        let error = r.pick(&[
            ErrorKind::Other,
            ErrorKind::UnexpectedEof,
            ErrorKind::WriteZero,
            ErrorKind::BrokenPipe,
            ErrorKind::WouldBlock,
            ErrorKind::PermissionDenied,
        ]);
        let make = move |len: usize, log| Scripted {
            answers: answers.clone(),
            again,
            skip,
            calls: 0,
            log,
            limit: match style {
                0 => at % len.max(1),
                1 => len.saturating_sub(1 + at % 4),
                _ => usize::MAX,
            },
            through: 0,
            kind: error,
        };
        once(&mut t, r, wav, save, make, seek_fails);
        if t.dead {
            break;
        }
    }
    t
}
