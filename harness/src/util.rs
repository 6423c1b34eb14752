//! Random numbers, JSON, crash and hang reporting.
use std::fmt::Write as _;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64, index: u64) -> Self {
        let mut r = Rng(seed
            .wrapping_mul(0x9E3779B97F4A7C15)
            .wrapping_add(stream.wrapping_mul(0xBF58476D1CE4E5B9))
            .wrapping_add(index.wrapping_mul(0x94D049BB133111EB)));
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// -1..1
    pub fn unit(&mut self) -> f32 {
        ((self.next() >> 40) as f32 / (1u64 << 23) as f32) - 1.0
    }
}

/// A JSON object under construction.
#[derive(Clone, Default)]
pub struct Obj(pub String);
impl Obj {
    pub fn new() -> Self {
        Obj(String::new())
    }
    fn key(&mut self, k: &str) {
        if !self.0.is_empty() {
            self.0.push(',');
        }
        write!(self.0, "\"{}\":", k).unwrap();
    }
    pub fn s(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        write!(self.0, "\"{}\"", v).unwrap();
        self
    }
    pub fn i(mut self, k: &str, v: i64) -> Self {
        // TLC's integers have 32 bits; what doesn't fit isn't what the specification expects
        let v = v.clamp(-i32::MAX as i64, i32::MAX as i64);
        self.key(k);
        write!(self.0, "{}", v).unwrap();
        self
    }
    pub fn b(self, k: &str, v: bool) -> Self {
        self.i(k, v as i64)
    }
    pub fn arr<I: IntoIterator<Item = i64>>(mut self, k: &str, v: I) -> Self {
        self.key(k);
        self.0.push('[');
        let mut first = true;
        for x in v {
            if !first {
                self.0.push(',');
            }
            first = false;
            write!(self.0, "{}", x).unwrap();
        }
        self.0.push(']');
        self
    }
    /// raw JSON
    pub fn raw(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn bits(self, k: &str, v: &[f32]) -> Self {
        self.arr(k, v.iter().map(|x| x.to_bits() as i32 as i64))
    }
    pub fn bytes(self, k: &str, v: &[u8]) -> Self {
        self.arr(k, v.iter().map(|&x| x as i64))
    }
    pub fn done(&self) -> String {
        format!("{{{}}}", self.0)
    }
}

/// an i32 for TLC out of arbitrary bytes
pub fn hash31(bytes: &[u8]) -> i64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    ((h ^ (h >> 32)) & 0x7fffffff) as i64
}

/// How a call into the code under test ended.
pub enum End<T> {
    Ok(T),
    Panic,
}

static OP_START: AtomicU64 = AtomicU64::new(0);
static PARTIAL: Mutex<Option<File>> = Mutex::new(None);
const LIMIT_S: u64 = 60;

fn now() -> u64 {
    use std::time::{SystemTime, UNIX_EPOCH};
    SystemTime::now()
        .duration_since(UNIX_EPOCH)
        .unwrap()
        .as_secs()
}

pub fn install(partial: Option<&str>) {
    if std::env::var("VH_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if let Some(p) = partial {
        *PARTIAL.lock().unwrap() = Some(File::create(p).expect("partial file"));
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let s = OP_START.load(Ordering::SeqCst);
        if s != 0 && now() > s + LIMIT_S {
            eprintln!("vh: call into the code under test doesn't return");
            std::process::exit(88);
        }
    });
}

/// within a call that is a sequence of calls: another one begins
pub fn beat() {
    OP_START.store(now(), Ordering::SeqCst);
}

/// Runs one call into the code under test.  What is about to be called is noted in the
/// partial file first, for the case that the process doesn't survive it.
pub fn call<T>(scenario: usize, what: &str, f: impl FnOnce() -> T) -> End<T> {
    if let Some(file) = PARTIAL.lock().unwrap().as_mut() {
        let line = format!("{} {}\n", scenario, what);
        file.set_len(0).unwrap();
        file.seek(SeekFrom::Start(0)).unwrap();
        file.write_all(line.as_bytes()).unwrap();
    }
    OP_START.store(now(), Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    OP_START.store(0, Ordering::SeqCst);
    match r {
        Ok(v) => End::Ok(v),
        Err(_) => End::Panic,
    }
}

/// A trace being recorded.
pub struct Trace {
    pub id: usize,
    pub head: Obj,
    pub ev: Vec<String>,
    pub dead: bool,
}
impl Trace {
    pub fn new(id: usize, head: Obj) -> Self {
        Trace {
            id,
            head,
            ev: vec![],
            dead: false,
        }
    }
    /// performs a call and records the event `ev` with what `log` adds to it
    pub fn run<T>(
        &mut self,
        ev: Obj,
        f: impl FnOnce() -> T,
        log: impl FnOnce(Obj, &T) -> Obj,
    ) -> Option<T> {
        if self.dead {
            return None;
        }
        match call(self.id, &ev.0, f) {
            End::Ok(v) => {
                self.ev.push(log(ev, &v).s("st", "ok").done());
                Some(v)
            }
            End::Panic => {
                self.ev.push(ev.s("st", "panic").done());
                self.dead = true;
                None
            }
        }
    }
    pub fn note(&mut self, ev: Obj) {
        if !self.dead {
            self.ev.push(ev.s("st", "ok").done());
        }
    }
    pub fn line(&self) -> String {
        self.head
            .clone()
            .i("id", self.id as i64)
            .raw("ev", &format!("[{}]", self.ev.join(",")))
            .done()
    }
}
