//! Runs of the command line tool, in directories of their own.
use crate::signal;
use crate::util::*;
use adhoc_audio::codec::wav::WavCodec;
use adhoc_audio::{AdhocCodec, StreamInfo, Streamable};
use std::collections::BTreeMap;
use std::fs;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;

struct Input {
    path: PathBuf,
    stem: String,
    ext: String,
    what: &'static str,
    info: StreamInfo,
    audio: Vec<f32>,
}

fn wav_bytes(r: &mut Rng, rate: u32, ch: usize, n: usize, depth: u16) -> Vec<u8> {
    let size = n * depth as usize / 8;
    let mut b = b"RIFF".to_vec();
    b.extend_from_slice(&(36 + size as u32).to_le_bytes());
    b.extend_from_slice(b"WAVEfmt ");
    b.extend_from_slice(&16u32.to_le_bytes());
    b.extend_from_slice(&1u16.to_le_bytes());
    b.extend_from_slice(&(ch as u16).to_le_bytes());
    b.extend_from_slice(&rate.to_le_bytes());
    let block = ch as u32 * depth as u32 / 8;
    b.extend_from_slice(&(rate * block).to_le_bytes());
    b.extend_from_slice(&(block as u16).to_le_bytes());
    b.extend_from_slice(&depth.to_le_bytes());
    b.extend_from_slice(b"data");
    b.extend_from_slice(&(size as u32).to_le_bytes());
    let x = signal::interleaved(r, n, 1, false);
    for v in x {
        if depth == 16 {
            let c = (v.clamp(-1.0, 1.0) * 32767.0) as i16;
            b.extend_from_slice(&c.to_le_bytes());
        } else {
            b.push(((v.clamp(-1.0, 1.0) + 1.0) * 127.5) as u8);
        }
    }
    b
}

fn contents<S: Streamable>(k: &mut S) -> (StreamInfo, Vec<f32>) {
    let i = k.info();
    let mut out = vec![];
    let mut b = vec![0.0; 4096.max(i.channels())];
    while let Some(n) = k.decode(&mut b) {
        out.extend_from_slice(&b[..n]);
        if out.len() > 1_000_000 {
            break;
        }
    }
    (i, out)
}
fn wav_contents(b: &[u8]) -> Option<(StreamInfo, Vec<f32>)> {
    WavCodec::load(Cursor::new(b)).ok().map(|mut k| contents(&mut k))
}
fn adhoc_contents(b: &[u8]) -> Option<(StreamInfo, Vec<f32>)> {
    AdhocCodec::load(Cursor::new(b)).map(|mut k| contents(&mut k))
}

/// everything below a directory
fn snapshot(at: &Path, below: &Path, into: &mut BTreeMap<String, Vec<u8>>) {
    for e in fs::read_dir(at).unwrap() {
        let p = e.unwrap().path();
        let name = p.strip_prefix(below).unwrap().to_str().unwrap().to_string();
        if p.is_dir() {
            into.insert(name + "/", vec![]);
            snapshot(&p, below, into);
        } else {
            into.insert(name, fs::read(&p).unwrap());
        }
    }
}

fn relative(p: &Path, from: &Path) -> PathBuf {
    let mut up = PathBuf::new();
    let mut from = from;
    loop {
        if let Ok(rest) = p.strip_prefix(from) {
            up.push(rest);
            return if up.as_os_str().is_empty() { PathBuf::from(".") } else { up };
        }
        up.push("..");
        from = from.parent().unwrap();
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// makes the input file; None if the library can't (which other checks report)
fn input(r: &mut Rng, id: usize, dir: &Path, kind: &str, stem: &str, big: bool) -> Option<Input> {
    let ext = match kind {
        "adhoc" | "wideadhoc" | "badadhoc" => "adhoc",
        "text" => "txt",
        _ => "wav",
    };
    let at = dir.join(format!("{}.{}", stem, ext));
    let mut out = Input {
        path: at.clone(),
        stem: stem.to_string(),
        ext: ext.to_string(),
        what: "bad",
        info: StreamInfo::new(0, 1),
        audio: vec![],
    };
    let rate = r.pick(&[8000u32, 44100, 11025]);
    let most = if big { 5000 } else { 60 };
    let n = r.below(most) + if big { 600 } else { 0 };
    match kind {
        "missing" => {}
        "dir" => fs::create_dir(&at).unwrap(),
        "text" => fs::write(&at, "some text").unwrap(),
        "badwav" | "badadhoc" => {
            let mut b: Vec<u8> = (0..r.below(200)).map(|_| r.next() as u8).collect();
            if kind == "badwav" && r.chance(50) {
                // 24 bits aren't supported
                b = wav_bytes(r, rate, 1, 30, 16);
                b[34] = 24;
            }
            fs::write(&at, b).unwrap()
        }
        "adhoc" | "wideadhoc" => {
            let wide = kind == "wideadhoc";
            let ch = if wide { r.pick(&[1000usize, 1025, 2000]) } else { r.pick(&[1usize, 2, 3]) };
            let n = if wide { ch * (1 + n % 7) } else { n };
            let lvl = r.pick(&[0u32, 0, 5, 10]);
            let x = signal::interleaved(r, n / ch, ch, false);
            let calls = 1 + r.below(4);
            let made = call(id, "prepare", || {
                let mut k = AdhocCodec::new().with_compression_level(lvl).with_info(StreamInfo::new(rate, ch as u32));
                for p in x.chunks((n / ch / calls + 1) * ch) {
                    Streamable::encode(&mut k, p);
                }
                let mut v = vec![];
                k.save_to(&mut v)?;
                let c = adhoc_contents(&v)?;
                Some((v, c))
            });
            match made {
                End::Ok(Some((v, (i, x)))) => {
                    fs::write(&at, v).unwrap();
                    out.what = "adhoc";
                    out.info = i;
                    out.audio = x;
                }
                _ => return None,
            }
        }
        _ => {
            let ch = match kind {
                "stereo" => r.pick(&[2usize, 2, 3, 5, 7]),
                "wide" => r.pick(&[1000usize, 1025, 2000]),
                _ => 1,
            };
            let n = match kind {
                "empty" => 0,
                "wide" => 2 * ch,
                _ => n / ch * ch,
            };
            let b = wav_bytes(r, rate, ch, n, if kind == "wav8" { 8 } else { 16 });
            match call(id, "prepare", || wav_contents(&b)) {
                End::Ok(Some((i, x))) => {
                    out.what = "wav";
                    out.info = i;
                    out.audio = x;
                }
                _ => return None,
            }
            fs::write(&at, b).unwrap();
        }
    }
    Some(out)
}

/// one run of the tool
fn run(t: &mut Trace, r: &mut Rng, threads: usize, level: &str, kinds: &[&str], big: bool) {
    let tool = std::env::var("VH_CLI").expect("VH_CLI");
    let root = std::env::var("VH_SCRATCH").expect("VH_SCRATCH");
    let scratch = Scratch(Path::new(&root).join(format!("cli-{}-{}", std::process::id(), t.id)));
    let _ = fs::remove_dir_all(&scratch.0);
    let ind = scratch.0.join("in");
    fs::create_dir_all(&ind).unwrap();
    // the inputs are in one directory, or in several
    let mut dirs = vec![ind.clone()];
    if r.chance(40) {
        dirs.push(ind.join("sub"));
        dirs.push(ind.join("sub").join("deep.er one"));
        fs::create_dir_all(&dirs[2]).unwrap();
    }
    // into a directory of its own, or among the inputs
    let same = r.chance(25);
    let outd = if same { r.pick(&dirs) } else { scratch.0.join("out.d") };
    fs::create_dir_all(&outd).unwrap();
    let cwd = match r.below(4) {
        0 => scratch.0.clone(),
        1 => outd.clone(),
        _ => ind.clone(),
    };
    let mut inputs = vec![];
    for (k, kind) in kinds.iter().enumerate() {
        let stem = match *kind {
            "dots" => format!("in.{}.2", k),
            _ => match r.below(9) {
                0 => format!("track {}", k),
                1 => format!("x{}", k),
                2 => format!("same.{}", k),
                3 => format!("wav.adhoc.{}", k),
                // names of files that were converted back and forth
                4 => format!("{}.wav", k),
                5 => format!("{}.adhoc", k),
                6 => format!("{}.adhoc.wav", k),
                7 => format!("{}.WAV", k),
                _ => format!("ünï-{}", k),
            },
        };
        let at = r.pick(&dirs);
        match input(r, t.id, &at, kind, &stem, big) {
            Some(i) => {
                let valid = matches!(i.what, "wav" | "adhoc") && i.what == i.ext;
                if *kind == "old" || valid && r.chance(15) {
                    // an older output is there: longer, shorter, empty or a good one
                    let wav = i.ext == "adhoc";
                    let b = match r.below(6) {
                        0 => vec![],
                        1 => vec![0x5a; 3],
                        2 if wav => wav_bytes(r, 8000, 1, 9000, 16),
                        3 if wav => wav_bytes(r, 8000, 1, 1, 16),
                        _ => vec![0xa5; 20_000],
                    };
                    fs::write(outd.join(format!("{}.{}", stem, if wav { "wav" } else { "adhoc" })), b).unwrap();
                }
                inputs.push(i)
            }
            None => return,
        }
    }
    fs::write(outd.join("bystander.adhoc"), b"keep me").unwrap();
    fs::write(ind.join("bystander.wav"), b"keep me too").unwrap();
    let mut before = BTreeMap::new();
    snapshot(&scratch.0, &scratch.0, &mut before);

    let mut cmd = Command::new(tool);
    cmd.current_dir(&cwd).env("RAYON_NUM_THREADS", threads.to_string()).stdin(Stdio::null());
    cmd.stdout(Stdio::null()).stderr(Stdio::null());
    let flags_first = r.chance(50);
    let absolute = r.chance(50);
    if !flags_first {
        for i in inputs.iter() {
            cmd.arg(if absolute { i.path.clone() } else { relative(&i.path, &cwd) });
        }
    }
    // no such directory, or something else of that name
    let wrong = big == false && r.chance(4);
    if wrong {
        let o = if r.chance(50) { scratch.0.join("nowhere") } else { ind.join("bystander.wav") };
        cmd.arg("-o").arg(o);
    } else if outd != cwd || r.chance(50) {
        let o = if r.chance(50) { outd.clone() } else { relative(&outd, &cwd) };
        let o = o.to_str().unwrap().to_string() + r.pick(&["", "", "/"]);
        match r.below(3) {
            0 => cmd.arg("-o").arg(o),
            1 => cmd.arg("--outdir").arg(o),
            _ => cmd.arg(format!("--outdir={}", o)),
        };
    }
    if level != "-" {
        match r.below(3) {
            0 => cmd.arg("-c").arg(level),
            1 => cmd.arg("--comp-level").arg(level),
            _ => cmd.arg(format!("--comp-level={}", level)),
        };
    }
    if flags_first {
        // the last option would take the inputs for its values
        cmd.arg("--");
        for i in inputs.iter() {
            cmd.arg(if absolute { i.path.clone() } else { relative(&i.path, &cwd) });
        }
    }
    let c = level.parse().unwrap_or(-1i64).min(i32::MAX as i64);
    let list: Vec<String> = inputs
        .iter()
        .map(|i| {
            Obj::new()
                .s("stem", &i.stem)
                .s("ext", &i.ext)
                .s("what", i.what)
                .i("rate", i.info.frequency() as i64)
                .i("ch", i.info.channels() as i64)
                .bits("audio", &i.audio)
                .done()
        })
        .collect();
    let ev = Obj::new().s("op", "run").b("dir", !wrong).i("c", c).i("threads", threads as i64).raw("inputs", &format!("[{}]", list.join(",")));
    let how = call(t.id, "run", || {
        let mut child = cmd.spawn().expect("the tool can't be started");
        for _ in 0..6000 {
            if child.try_wait().unwrap().is_some() {
                return true;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        let _ = child.kill();
        let _ = child.wait();
        false
    });
    match how {
        End::Ok(true) => t.note(ev),
        End::Ok(false) => {
            t.ev.push(ev.s("st", "hang").done());
            t.dead = true;
        }
        End::Panic => panic!("the tool can't be started"),
    }
    let mut after = BTreeMap::new();
    snapshot(&scratch.0, &scratch.0, &mut after);
    let mut others = 0;
    let prefix = outd.strip_prefix(&scratch.0).unwrap().to_str().unwrap().to_string() + "/";
    for (name, b) in after.iter() {
        if before.get(name) == Some(b) {
            continue;
        }
        match name.strip_prefix(&prefix) {
            Some(n) if !n.ends_with('/') => {
                // an output, or what is taken for one
                let found = match call(t.id, "out", || {
                    if n.ends_with(".adhoc") {
                        adhoc_contents(b).map(|c| ("adhoc", c))
                    } else {
                        wav_contents(b).map(|c| ("wav", c))
                    }
                }) {
                    End::Ok(Some(x)) => x,
                    _ => ("unreadable", (StreamInfo::new(0, 1), vec![])),
                };
                let (what, (i, x)) = found;
                // there is nothing behind the audio
                let tight = match what {
                    "adhoc" => matches!(call(t.id, "tight", || adhoc_contents(&b[..b.len() - 1]).is_none()), End::Ok(true)),
                    _ => b.len() == 44 + 2 * x.len(),
                };
                let lvl = if b.len() >= 4 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) } else { 0 };
                t.note(
                    Obj::new()
                        .s("op", "out")
                        .s("name", n)
                        .s("what", what)
                        .b("tight", tight)
                        .i("lvl", (lvl & 0xffff) as i64)
                        .i("rate", i.frequency() as i64 & 0x7fffffff)
                        .i("ch", i.channels() as i64)
                        .bits("audio", &x),
                );
            }
            _ => others += 1,
        }
    }
    for name in before.keys() {
        if !after.contains_key(name) {
            others += 1;
        }
    }
    t.note(Obj::new().s("op", "end").i("others", others));
}

/// scripts of CliGen
pub fn scripted(id: usize, line: &str) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "cli").s("script", line).arr("cfg", [0]));
    let p: Vec<&str> = line.split_whitespace().collect();
    let mut r = Rng::new(hash31(line.as_bytes()) as u64, 9, 9);
    run(&mut t, &mut r, p[0].parse().unwrap(), p[1], &p[2..], false);
    t
}

pub fn random(id: usize, r: &mut Rng) -> Trace {
    let mut t = Trace::new(id, Obj::new().s("kind", "cli").arr("cfg", [0]));
    let all = ["wav", "wav8", "stereo", "empty", "adhoc", "dots", "badwav", "badadhoc", "missing", "dir", "text", "old"];
    let big = r.chance(60);
    let n = if big { 1 + r.below(3) } else { 1 + r.below(16) };
    let mut kinds: Vec<&str> = (0..n).map(|_| r.pick(&all)).collect();
    if r.chance(7) {
        kinds = vec![r.pick(&["wide", "wideadhoc"]), "wav"];
    }
    let level = r.pick(&["-", "-", "0", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "255", "256", "261", "65536", "65541", "4294967295", "none"]);
    let threads = r.pick(&[1usize, 2, 3, 4, 8, 16]);
    run(&mut t, r, threads, level, &kinds, big);
    t
}
