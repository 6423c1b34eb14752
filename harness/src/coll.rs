//! The collections: executes scripts of operations and observes everything after each.
//!
//! A script is `config;op;op;...`, an op is `name arg arg ...` with integer arguments.
//! Positions are reduced modulo the current length, so that any script makes sense.
use crate::util::*;
use adhoc_audio::verif::*;

pub fn fit(n: usize) -> i64 {
    n.min(i32::MAX as usize) as i64
}
fn ptr(p: Ptr) -> i64 {
    if p == NULL {
        -1
    } else {
        p.as_usize() as i64
    }
}
fn opt(v: Option<i64>) -> Vec<i64> {
    v.into_iter().collect()
}

pub trait Machine {
    /// performs an operation, returns its result
    fn op(&mut self, name: &str, a: &[i64]) -> Obj;
    /// the operation with its arguments resolved
    fn resolve(&self, name: &str, a: &[i64]) -> Obj {
        Obj::new().s("op", name).arr("a", a.iter().copied())
    }
    /// everything that can be observed without changing anything
    fn obs(&mut self, o: Obj) -> Obj;
    fn reload(&mut self);
    /// a deserialised copy
    fn copy(&self) -> Box<dyn Machine>;
}

thread_local! {
    static FORMAT: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
/// serialised and deserialised, in one format after the other
fn again<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    match FORMAT.with(|f| f.replace(f.get() + 1)) % 4 {
        0 => bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap(),
        1 => {
            let mut v = vec![];
            bincode::serialize_into(&mut v, x).unwrap();
            bincode::deserialize_from(&v[..]).unwrap()
        }
        n => crate::value::again(x, n == 3).unwrap(),
    }
}

// ---------------------------------------------------------------- linked list
pub struct List(LinkedList<i32>);
impl List {
    fn handles(&self) -> Vec<Ptr> {
        LinkedListIterator::new(&self.0).collect()
    }
    fn at(&self, i: i64) -> Ptr {
        let h = self.handles();
        if h.is_empty() {
            NULL
        } else {
            h[(i as usize) % h.len()]
        }
    }
}
impl Machine for List {
    fn resolve(&self, name: &str, a: &[i64]) -> Obj {
        let o = Obj::new().s("op", name);
        match name {
            "rem" => o.i("h", ptr(self.at(a[0]))),
            "ins" => o.i("h", ptr(self.at(a[0]))).i("dir", a[1]).i("v", a[2]),
            "set" => o.i("h", ptr(self.at(a[0]))).i("v", a[1]),
            "pushf" | "pushr" | "addall" => o.i("v", a[0]),
            _ => o,
        }
    }
    fn op(&mut self, name: &str, a: &[i64]) -> Obj {
        let mut ret = vec![];
        match name {
            "pushf" => self.0.push_front(a[0] as i32),
            "pushr" => self.0.push_rear(a[0] as i32),
            "popf" => ret = opt(self.0.pop_front().map(|v| v as i64)),
            "popr" => ret = opt(self.0.pop_rear().map(|v| v as i64)),
            "rem" => {
                let h = self.at(a[0]);
                ret = opt(self.0.remove_at(h).map(|v| v as i64));
            }
            "ins" => {
                let h = self.at(a[0]);
                let d = if a[1] == 0 { InsertDirection::Left } else { InsertDirection::Right };
                self.0.insert_at(h, d, a[2] as i32)
            }
            "set" => {
                let h = self.at(a[0]);
                if let Some(n) = self.0.get_mut(h) {
                    n.set_data(a[1] as i32)
                }
            }
            "addall" => self.0.iter_mut().for_each(|x| *x += a[0] as i32),
            "new" => {}
            _ => panic!("unknown op {}", name),
        }
        Obj::new().arr("ret", ret)
    }
    fn obs(&mut self, o: Obj) -> Obj {
        let hs = self.handles();
        let byget: Vec<i64> = hs
            .iter()
            .map(|&h| self.0.get(h).and_then(|n| n.data()).map(|&v| v as i64).unwrap_or(-77777))
            .collect();
        let it: Vec<i64> = self.0.iter().map(|&v| v as i64).collect();
        let itm: Vec<i64> = self.0.iter_mut().map(|v| *v as i64).collect();
        o.arr("hs", hs.iter().map(|&h| ptr(h)))
            .arr("vs", it)
            .arr("gs", byget)
            .arr("ms", itm)
            .i("len", fit(self.0.len()))
            .i("front", ptr(self.0.front()))
            .i("rear", ptr(self.0.rear()))
    }
    fn reload(&mut self) {
        self.0 = again(&self.0)
    }
    fn copy(&self) -> Box<dyn Machine> {
        Box::new(List(again(&self.0)))
    }
}

// ------------------------------------------------------------------ LRU cache
pub struct Lru(LruCache<i64, i64>, i64);
impl Machine for Lru {
    fn op(&mut self, name: &str, a: &[i64]) -> Obj {
        let mut ret = vec![];
        match name {
            "put" => self.0.put(a[0], a[1]),
            "get" => ret = opt(self.0.get(&a[0]).copied()),
            "getm" => {
                ret = opt(self.0.get_mut(&a[0]).map(|v| {
                    let old = *v;
                    *v = a[1];
                    old
                }))
            }
            "look" => ret = opt(self.0.lookup(&a[0]).copied()),
            "rem" => ret = opt(self.0.remove(&a[0])),
            "new" => {}
            _ => panic!("unknown op {}", name),
        }
        Obj::new().arr("ret", ret)
    }
    fn obs(&mut self, o: Obj) -> Obj {
        // value of each key, -1 if absent
        let c = &self.0;
        o.i("len", fit(c.len()))
            .arr("look", (0..self.1).map(|k| c.lookup(&k).copied().unwrap_or(-1)))
    }
    fn reload(&mut self) {
        self.0 = again(&self.0)
    }
    fn copy(&self) -> Box<dyn Machine> {
        Box::new(Lru(again(&self.0), self.1))
    }
}

// ---------------------------------------------------------------- ring buffer
/// a[0] * 65536 + a[1] times, with the low 16 bits of a counter
fn eon(a: &[i64], mut f: impl FnMut(i64)) {
    for k in 0..a[0] * 65536 + a[1] {
        f(k & 0xffff);
        if k & 0xff_ffff == 0 {
            beat();
        }
    }
}

pub struct Ring(FixedRingBuffer<Vec<i64>>);
impl Machine for Ring {
    fn op(&mut self, name: &str, a: &[i64]) -> Obj {
        let mut ret = vec![];
        match name {
            "pushf" => self.0.push_front(a[0]),
            "pushr" => self.0.push_rear(a[0]),
            "popf" => ret = opt(self.0.pop_front().copied()),
            "popr" => ret = opt(self.0.pop_rear().copied()),
            "clear" => self.0.clear(),
            "many" => eon(a, |v| {
                self.0.push_rear(v);
                self.0.pop_front();
            }),
            "manyb" => eon(a, |v| {
                self.0.push_front(v);
                self.0.pop_rear();
            }),
            "new" => {}
            _ => panic!("unknown op {}", name),
        }
        Obj::new().arr("ret", ret)
    }
    fn obs(&mut self, o: Obj) -> Obj {
        o.arr("vs", self.0.iter().copied())
            .i("len", fit(self.0.len()))
            .b("full", self.0.is_full())
            .b("empty", self.0.is_empty())
    }
    fn reload(&mut self) {
        self.0 = again(&self.0)
    }
    fn copy(&self) -> Box<dyn Machine> {
        Box::new(Ring(again(&self.0)))
    }
}

// -------------------------------------------------------------- history stack
pub struct Stack(CircularStack<i64>);
impl Machine for Stack {
    fn op(&mut self, name: &str, a: &[i64]) -> Obj {
        let mut ret = vec![];
        match name {
            "push" => self.0.push(a[0]),
            "pop" => ret = vec![self.0.pop()],
            "clone" => self.0 = self.0.clone(),
            "many" => eon(a, |v| self.0.push(v)),
            "new" => {}
            _ => panic!("unknown op {}", name),
        }
        Obj::new().arr("ret", ret)
    }
    fn obs(&mut self, o: Obj) -> Obj {
        let n = self.0.len().min(64);
        o.i("len", fit(self.0.len()))
            .b("empty", self.0.is_empty())
            .arr("prev", (1..=n as u32).map(|k| self.0.prev(k)))
            // further back than anything it remembers
            .arr("back", [n as u32 + 1, 4, 5, u32::MAX].iter().filter(|&&k| n > 0 && k as usize > n).map(|&k| self.0.prev(k)))
    }
    fn reload(&mut self) {
        self.0 = again(&self.0)
    }
    fn copy(&self) -> Box<dyn Machine> {
        Box::new(Stack(again(&self.0)))
    }
}

// ------------------------------------------------------------ packed lists
const FAR: [usize; 9] = [0, 1, 2, 5, 15, 31, 63, 64, 1000];
/// positions that are tried, a few of them behind the end
fn beyond(len: usize) -> usize {
    len + 3
}
pub struct Bits(BitVec);
impl Machine for Bits {
    fn resolve(&self, name: &str, a: &[i64]) -> Obj {
        let o = Obj::new().s("op", name);
        match name {
            "set" => o.i("i", a[0] % beyond(self.0.len()) as i64).i("v", a[1]),
            "push" => o.i("v", a[0]),
            "pushn" => o.arr("v", pattern(a)),
            "trunc" => o.i("n", a[0]),
            "need" => o.arr("n", a.iter().copied()),
            _ => o,
        }
    }
    fn op(&mut self, name: &str, a: &[i64]) -> Obj {
        match name {
            "push" => self.0.push(a[0] as u64),
            "pushn" => pattern(a).iter().for_each(|&b| self.0.push(b as u64)),
            "set" => {
                let n = beyond(self.0.len());
                self.0.set(a[0] as usize % n, a[1] as u64)
            }
            "clear" => self.0.clear(),
            "trunc" => self.0.truncate(a[0] as usize),
            "new" => {}
            "need" => {
                let n = a.iter().fold(0u64, |n, &limb| n << 16 | limb as u64);
                let ret = BitVec::compute_bits_required(n) as u64;
                return Obj::new().arr("ret", (0..4).rev().map(|k| (ret >> (16 * k) & 0xffff) as i64));
            }
            _ => panic!("unknown op {}", name),
        }
        Obj::new()
    }
    fn obs(&mut self, o: Obj) -> Obj {
        let n = self.0.len().min(1 << 16);
        o.i("len", fit(self.0.len()))
            .i("cap", fit(self.0.capacity()))
            .arr("it", self.0.iter().take(1 << 16).map(|b| b as i64))
            .arr("ge", (0..n).map(|i| self.0.get(i) as i64))
            .arr("far", FAR.iter().map(|i| self.0.get(n + i) as i64))
    }
    fn reload(&mut self) {
        self.0 = again(&self.0)
    }
    fn copy(&self) -> Box<dyn Machine> {
        Box::new(Bits(again(&self.0)))
    }
}
/// n values below m, from a seed
fn pattern(a: &[i64]) -> Vec<i64> {
    let mut r = Rng::new(a[2] as u64, 77, 0);
    (0..a[0]).map(|_| r.below(a[1] as usize) as i64).collect()
}

pub struct Nibbles(NibbleList);
impl Machine for Nibbles {
    fn resolve(&self, name: &str, a: &[i64]) -> Obj {
        let o = Obj::new().s("op", name);
        match name {
            "set" => o.i("i", a[0] % beyond(self.0.len()) as i64).i("v", a[1]),
            "push" => o.i("v", a[0]),
            "pushn" => o.arr("v", pattern(a)),
            "trunc" => o.i("n", a[0]),
            _ => o,
        }
    }
    fn op(&mut self, name: &str, a: &[i64]) -> Obj {
        match name {
            "push" => self.0.push(a[0] as u8),
            "pushn" => pattern(a).iter().for_each(|&b| self.0.push(b as u8)),
            "set" => {
                let n = beyond(self.0.len());
                self.0.set(a[0] as usize % n, a[1] as u8)
            }
            "clear" => self.0.clear(),
            "trunc" => self.0.truncate(a[0] as usize),
            "new" => {}
            _ => panic!("unknown op {}", name),
        }
        Obj::new()
    }
    fn obs(&mut self, o: Obj) -> Obj {
        let n = self.0.len().min(1 << 16);
        o.i("len", fit(self.0.len()))
            .i("cap", fit(self.0.capacity() / 4))
            .b("empty", self.0.is_empty())
            .arr("it", self.0.iter().take(1 << 16).map(|b| b as i64))
            .arr("ge", (0..n).map(|i| self.0.get(i) as i64))
            .arr("far", FAR.iter().map(|i| self.0.get(n + i) as i64))
    }
    fn reload(&mut self) {
        self.0 = again(&self.0)
    }
    fn copy(&self) -> Box<dyn Machine> {
        Box::new(Nibbles(again(&self.0)))
    }
}

// ----------------------------------------------------------------- bit stream
pub struct Stream(BitStream);
/// low n bits of the 128-bit value made from a seed: 0 zeros, 1 ones, else random
fn value(n: i64, seed: i64) -> u128 {
    let v = match seed {
        0 => 0,
        1 => !0u128,
        _ => {
            let mut r = Rng::new(seed as u64, 78, n as u64);
            ((r.next() as u128) << 64) | r.next() as u128
        }
    };
    if n >= 128 {
        v
    } else {
        v & ((1u128 << n) - 1)
    }
}
pub fn bits_of(v: u128, n: i64) -> Vec<i64> {
    (0..n).map(|i| ((v >> i) & 1) as i64).collect()
}
/// the value read, as its lowest n bits; a higher bit that is set makes it one longer
fn got(v: u128, n: i64) -> Vec<i64> {
    let mut b = bits_of(v, n);
    if n < 128 && v >> n != 0 {
        b.push(9)
    }
    b
}
impl Machine for Stream {
    fn resolve(&self, name: &str, a: &[i64]) -> Obj {
        let o = Obj::new().s("op", name);
        match name {
            "w" | "wt" => o.i("n", a[0]).arr("v", bits_of(value(a[0], a[1]), a[0])),
            "w1" => o.i("n", 1).arr("v", [a[0]]),
            "r" | "p" | "rt" | "pt" => o.i("n", a[0]),
            "seek" | "off" => o.i("n", a[0]),
            "wc" | "rc" | "wcap" | "rcap" => o.arr("a", a.iter().copied()),
            _ => o,
        }
    }
    fn op(&mut self, name: &str, a: &[i64]) -> Obj {
        let s = &mut self.0;
        let o = Obj::new();
        match name {
            "w" => {
                let v = value(a[0], a[1]);
                if a[0] <= 32 && a[1] % 2 == 0 {
                    s.write_bits(v as u32, a[0] as usize)
                } else {
                    s.write_bits(v, a[0] as usize)
                }
                o
            }
            "wt" => {
                let v = value(a[0], a[1]);
                match a[0] {
                    8 => s.write::<u8>(v as u8),
                    16 => s.write::<u16>(v as u16),
                    32 => s.write::<u32>(v as u32),
                    64 => s.write::<u64>(v as u64),
                    _ => s.write::<u128>(v),
                }
                o
            }
            "w1" => {
                s.write_bit(a[0] as u8);
                o
            }
            "r" => o.arr("ret", got(s.read_bits(a[0] as usize), a[0])),
            "p" => o.arr("ret", got(s.peek_bits(a[0] as usize), a[0])),
            "r1" => o.arr("ret", got(s.read_bit(), 1)),
            "rt" | "pt" => {
                let rd = name == "rt";
                let v = match a[0] {
                    8 => if rd { s.read::<u8>() } else { s.peek::<u8>() },
                    16 => if rd { s.read::<u16>() } else { s.peek::<u16>() },
                    32 => if rd { s.read::<u32>() } else { s.peek::<u32>() },
                    64 => if rd { s.read::<u64>() } else { s.peek::<u64>() },
                    _ => if rd { s.read::<u128>() } else { s.peek::<u128>() },
                };
                o.arr("ret", got(v, a[0]))
            }
            "seek" => {
                s.set_bit_cursor(a[0] as u128);
                o
            }
            "off" => {
                s.offset_bit_cursor(a[0] as i128);
                o
            }
            "start" => {
                s.seek_start();
                o
            }
            "zero" => {
                s.zero();
                o
            }
            // Rice codes: exponent, value
            "wc" => {
                s.write_compressed(a[0] as i16, a[1] as i16);
                o
            }
            "rc" => o.i("ret", s.read_compressed(a[0] as i16) as i64),
            "wcap" => {
                let v = a[1] as i16;
                match a[0] {
                    0 => s.write_compressed_capped::<1>(v),
                    1 => s.write_compressed_capped::<2>(v),
                    2 => s.write_compressed_capped::<4>(v),
                    3 => s.write_compressed_capped::<8>(v),
                    4 => s.write_compressed_capped::<16>(v),
                    5 => s.write_compressed_capped::<32>(v),
                    6 => s.write_compressed_capped::<64>(v),
                    7 => s.write_compressed_capped::<128>(v),
                    8 => s.write_compressed_capped::<256>(v),
                    9 => s.write_compressed_capped::<512>(v),
                    10 => s.write_compressed_capped::<1024>(v),
                    _ => s.write_compressed_capped::<2048>(v),
                };
                o
            }
            "rcap" => o.i("ret", s.read_compressed_capped(1i16 << a[0]) as i64),
            "new" => o,
            _ => panic!("unknown op {}", name),
        }
    }
    fn obs(&mut self, o: Obj) -> Obj {
        o.i("cur", (self.0.bit_cursor().min(i32::MAX as u128)) as i64)
            .i("len", fit(self.0.len()))
            .i("cap", fit(self.0.capacity()))
    }
    fn reload(&mut self) {
        self.0 = again(&self.0)
    }
    fn copy(&self) -> Box<dyn Machine> {
        Box::new(Stream(again(&self.0)))
    }
}

pub fn make(kind: &str, cfg: &[i64]) -> Box<dyn Machine> {
    match kind {
        "list" => Box::new(List(LinkedList::new())),
        "lru" => Box::new(Lru(LruCache::new(cfg[0] as usize), cfg[1])),
        "ring" => Box::new(Ring(FixedRingBuffer::new(vec![-9; cfg[0] as usize], cfg[0] as u32))),
        "stack" => Box::new(Stack(CircularStack::new())),
        "bitvec" => Box::new(Bits(BitVec::new())),
        "nibble" => Box::new(Nibbles(NibbleList::new())),
        "bits" => Box::new(Stream(if cfg.get(0) == Some(&1) {
            BitStream::with_capacity_in_megabytes(1)
        } else {
            BitStream::new()
        })),
        _ => panic!("unknown kind {}", kind),
    }
}

pub struct Script {
    pub cfg: Vec<i64>,
    pub ops: Vec<(String, Vec<i64>)>,
}
impl Script {
    pub fn parse(s: &str) -> Script {
        let mut parts = s.trim().split(';').map(|p| p.trim());
        let cfg = parts
            .next()
            .unwrap_or("")
            .split_whitespace()
            .filter_map(|x| x.parse().ok())
            .collect();
        let ops = parts
            .filter(|p| !p.is_empty())
            .map(|p| {
                let mut w = p.split_whitespace();
                let name = w.next().unwrap().to_string();
                (name, w.map(|x| x.parse().unwrap()).collect())
            })
            .collect();
        Script { cfg, ops }
    }
}

fn joined(o: &Obj, p: &Obj) -> Obj {
    let mut o = o.clone();
    if !p.0.is_empty() {
        if !o.0.is_empty() {
            o.0.push(',');
        }
        o.0.push_str(&p.0);
    }
    o
}

pub fn run(id: usize, kind: &str, sc: &Script) -> Trace {
    FORMAT.with(|f| f.set(id / 7));
    let mut t = Trace::new(id, Obj::new().s("kind", kind).arr("cfg", sc.cfg.iter().copied()));
    let mut m = match t.run(Obj::new().s("op", "make"), || make(kind, &sc.cfg), |o, _| o) {
        Some(m) => m,
        None => return t,
    };
    for (name, a) in sc.ops.iter() {
        if name == "reload" {
            t.run(
                Obj::new().s("op", "reload"),
                || {
                    m.reload();
                    m.obs(Obj::new())
                },
                |o, r| joined(&o, r),
            );
        } else {
            // resolving needs calls into the code as well
            let ev = match call(id, name, || m.resolve(name, a)) {
                End::Ok(ev) => ev,
                End::Panic => Obj::new().s("op", name),
            };
            t.run(
                ev,
                || {
                    let r = m.op(name, a);
                    m.obs(r)
                },
                |o, r| joined(&o, r),
            );
        }
        if t.dead {
            break;
        }
    }
    t
}

/// An original and a copy of it, made by serialisation at every `reload`, get the same
/// operations; what they show is recorded side by side.
pub fn run_twin(id: usize, kind: &str, sc: &Script) -> Trace {
    FORMAT.with(|f| f.set(id / 7));
    let mut t = Trace::new(id, Obj::new().s("kind", kind).arr("cfg", sc.cfg.iter().copied()));
    let mut m = match call(id, "make", || make(kind, &sc.cfg)) {
        End::Ok(m) => m,
        End::Panic => return t,
    };
    // the first operations up to the first reload are no concern here
    let mut copy: Option<Box<dyn Machine>> = None;
    fn shot(id: usize, m: &mut Box<dyn Machine>, name: &str, a: &[i64]) -> String {
        match call(id, name, || {
            let r = m.op(name, a);
            m.obs(r).done()
        }) {
            End::Ok(s) => s.replace('"', "'"),
            End::Panic => "panic".to_string(),
        }
    }
    for (name, a) in sc.ops.iter() {
        if name == "reload" {
            let c = t.run(Obj::new().s("op", "reload"), || m.copy(), |o, _| o.s("x", "").s("y", ""));
            copy = c;
            if copy.is_none() {
                break;
            }
            let x = shot(id, &mut m, "new", &[]);
            let y = shot(id, copy.as_mut().unwrap(), "new", &[]);
            t.note(Obj::new().s("op", "show").s("x", &x).s("y", &y));
        } else {
            let x = shot(id, &mut m, name, a);
            if let Some(c) = copy.as_mut() {
                let y = shot(id, c, name, a);
                t.note(Obj::new().s("op", name).s("x", &x).s("y", &y));
                if y == "panic" {
                    break;
                }
            }
            if x == "panic" {
                break;
            }
        }
    }
    t
}

// ------------------------------------------------------------ random scripts
fn push(ops: &mut Vec<(String, Vec<i64>)>, name: &str, a: &[i64]) {
    ops.push((name.to_string(), a.to_vec()))
}

/// more than 2^32 operations
pub fn eons(kind: &str, r: &mut Rng) -> Script {
    let mut sc = random(kind, r, false, false);
    let mut ops = vec![];
    let many = [(65535, 65530 + r.below(6) as i64), (0, r.below(12) as i64), (65536, r.below(9) as i64), (1, 3)];
    for (hi, lo) in many {
        let name = if kind == "ring" && r.chance(50) { "manyb" } else { "many" };
        for o in sc.ops.drain(..sc.ops.len().min(5 + r.below(4))) {
            ops.push(o);
        }
        if hi != 65536 || r.chance(20) {
            push(&mut ops, name, &[hi, lo]);
        }
    }
    ops.append(&mut sc.ops);
    Script { cfg: sc.cfg, ops }
}

pub fn random(kind: &str, r: &mut Rng, reloads: bool, long: bool) -> Script {
    let mut cfg = vec![];
    let mut ops = vec![];
    let n = match (kind, long) {
        ("bits", _) => 30 + r.below(60),
        (_, false) => 10 + r.below(60),
        (_, true) => 100 + r.below(300),
    };
    // shape of the bit stream: known content length and cursor
    let (mut known, mut cur) = (0i64, 0i64);
    let mut size = 0i64;
    match kind {
        "lru" => {
            let cap = r.pick(&[1i64, 1, 2, 2, 3, 3, 4, 5, 7]);
            cfg = vec![cap, cap + 1 + r.below(3) as i64];
        }
        "ring" => cfg = vec![r.pick(&[1i64, 2, 4, 4, 8, 16])],
        "bits" => cfg = vec![r.below(2) as i64],
        _ => {}
    }
    let grow = r.range(25, 75) as usize;
    for step in 0..n {
        if reloads && r.chance(7) {
            push(&mut ops, "reload", &[]);
        }
        let v = 1 + step as i64;
        match kind {
            "list" => {
                // keeps the list below a dozen elements or so
                size += 1;
                if size < 14 && r.chance(grow) {
                    match r.below(4) {
                        0 => push(&mut ops, "pushf", &[v]),
                        1 => push(&mut ops, "pushr", &[v]),
                        _ => push(&mut ops, "ins", &[r.below(64) as i64, r.below(2) as i64, v]),
                    }
                } else {
                    size = (size - 2).max(0);
                    match r.below(8) {
                        0 => push(&mut ops, "popf", &[]),
                        1 => push(&mut ops, "popr", &[]),
                        2 => push(&mut ops, "set", &[r.below(64) as i64, v]),
                        3 if r.chance(30) => push(&mut ops, "addall", &[1000]),
                        _ => push(&mut ops, "rem", &[r.below(64) as i64]),
                    }
                }
            }
            "lru" => {
                let k = r.below(cfg[1] as usize) as i64;
                match r.below(10) {
                    0..=4 => push(&mut ops, "put", &[k, v]),
                    5 => push(&mut ops, "get", &[k]),
                    6 => push(&mut ops, "getm", &[k, v]),
                    7 | 8 => push(&mut ops, "look", &[k]),
                    _ => push(&mut ops, "rem", &[k]),
                }
            }
            "ring" => match r.below(100) {
                x if x < grow / 2 => push(&mut ops, "pushf", &[v]),
                x if x < grow => push(&mut ops, "pushr", &[v]),
                99 => push(&mut ops, "clear", &[]),
                x if x % 2 == 0 => push(&mut ops, "popf", &[]),
                _ => push(&mut ops, "popr", &[]),
            },
            "stack" => match r.below(100) {
                x if x < grow => push(&mut ops, "push", &[v]),
                99 => push(&mut ops, "clone", &[]),
                _ => push(&mut ops, "pop", &[]),
            },
            "bitvec" | "nibble" => {
                let m = if kind == "bitvec" { 2 } else { 16 };
                match r.below(20) {
                    0..=5 => push(&mut ops, "push", &[r.below(m) as i64]),
                    6..=9 => {
                        let k = r.pick(&[1i64, 2, 3, 7, 31, 62, 63, 64, 65, 127, 128, 129]);
                        push(&mut ops, "pushn", &[k, m as i64, r.below(1000) as i64])
                    }
                    10 if kind == "bitvec" && r.chance(40) => {
                        // 16 bits each
                        let limb = |r: &mut Rng| r.pick(&[0i64, 0, 0, 1, 32767, 32768, 65535, 4660]);
                        let low = r.pick(&[0i64, 1, 63, 64, 65, 65472, 128, 191]);
                        let top = limb(r).min(65534);
                        let a = [top, limb(r), limb(r), low];
                        push(&mut ops, "need", &a)
                    }
                    10 => push(&mut ops, "clear", &[]),
                    11 => push(&mut ops, "trunc", &[r.pick(&[0i64, 1, 2, 5, 30, 63, 64, 65, 100, 128, 129, 200, 100_000])]),
                    _ => push(&mut ops, "set", &[r.below(100_000) as i64, r.below(m) as i64]),
                }
            }
            "bits" => {
                let size = |r: &mut Rng| -> i64 {
                    match r.below(6) {
                        0 => r.pick(&[0i64, 1, 2, 127, 128, 128]),
                        1 => r.pick(&[8i64, 16, 32, 64, 63, 65]),
                        2 => r.range(100, 128),
                        _ => r.range(0, 40),
                    }
                };
                let left = known - cur;
                match r.below(20) {
                    0..=5 => {
                        let k = size(r);
                        push(&mut ops, "w", &[k, r.below(200) as i64]);
                        cur += k;
                        known = cur;
                    }
                    6 => {
                        let k = r.pick(&[8i64, 16, 32, 64, 128]);
                        push(&mut ops, "wt", &[k, r.below(200) as i64]);
                        cur += k;
                        known = cur;
                    }
                    7 => {
                        push(&mut ops, "w1", &[r.below(2) as i64]);
                        cur += 1;
                        known = cur;
                    }
                    8 => {
                        // to a chunk boundary, or near it
                        let k = (128 - cur % 128) - r.range(0, 2);
                        let k = k.clamp(0, 128);
                        push(&mut ops, "w", &[k, r.below(200) as i64]);
                        cur += k;
                        known = cur;
                    }
                    9..=12 => {
                        let k = size(r).min(left);
                        push(&mut ops, "r", &[k]);
                        cur += k;
                    }
                    13 => {
                        let k = size(r).min(left);
                        push(&mut ops, "p", &[k]);
                    }
                    14 => {
                        let k = r.pick(&[8i64, 16, 32, 64, 128]);
                        if k <= left {
                            let rd = r.chance(70);
                            push(&mut ops, if rd { "rt" } else { "pt" }, &[k]);
                            if rd {
                                cur += k;
                            }
                        }
                    }
                    15 => {
                        if left > 0 {
                            push(&mut ops, "r1", &[]);
                            cur += 1;
                        }
                    }
                    16 | 17 => {
                        cur = r.range(0, known);
                        if r.chance(30) {
                            cur = (cur / 128) * 128;
                        }
                        push(&mut ops, "seek", &[cur]);
                    }
                    18 => {
                        let to = r.range(0, known);
                        push(&mut ops, "off", &[to - cur]);
                        cur = to;
                    }
                    _ => {
                        if r.chance(85) {
                            push(&mut ops, "start", &[]);
                            cur = 0;
                        } else {
                            push(&mut ops, "zero", &[]);
                        }
                    }
                }
            }
            _ => panic!("unknown kind {}", kind),
        }
    }
    // read everything back
    if kind == "bits" {
        push(&mut ops, "start", &[]);
        let mut c = 0;
        while c < known {
            let k = r.range(1, 128).min(known - c);
            push(&mut ops, "r", &[k]);
            c += k;
        }
    }
    Script { cfg, ops }
}

/// Rice codes between other fields, read back and partly overwritten.
pub fn random_rice(r: &mut Rng) -> Script {
    let mut ops = vec![];
    // tokens: (name, args, start) as written
    let n = 8 + r.below(14);
    let mut toks: Vec<(String, Vec<i64>)> = vec![];
    let style = r.below(4);
    for _ in 0..n {
        match r.below(10) {
            0 => {
                let k = r.range(1, 128);
                toks.push(("w".into(), vec![k, r.below(100) as i64]));
            }
            1 => {
                let d = r.range(0, 11);
                let lim = 8191i64;
                let v = match r.below(3) {
                    0 => r.pick(&[lim, -lim - 1, 0, 15 << d, 16 << d, (16 << d) - 1, -(16i64 << d)]),
                    1 => r.range(-40 << d, 40 << d),
                    _ => r.range(-lim - 1, lim),
                };
                toks.push(("wcap".into(), vec![d, v.clamp(-lim - 1, lim)]));
            }
            _ => {
                let k = match style {
                    0 => r.range(1, 15),
                    1 => r.range(1, 4),
                    2 => r.range(8, 15),
                    _ => r.range(1, 15),
                };
                let v = match r.below(6) {
                    0 => r.pick(&[0i64, 1, -1, 32767, -32767, -32768, 16384, -16384]),
                    1 | 2 => {
                        // quotients around multiples of the 128-bit field
                        let q = r.pick(&[63i64, 64, 127, 128, 129, 255, 256, 257, 383, 384, 512]);
                        let v = (q << k) + r.range(-1, 1 << k);
                        if r.chance(50) { v } else { -v }
                    }
                    3 => r.range(-32768, 32767),
                    _ => r.range(-20, 20) << r.range(0, k),
                };
                toks.push(("wc".into(), vec![k, v.clamp(-32768, 32767)]));
            }
        }
    }
    let read = |ops: &mut Vec<(String, Vec<i64>)>, t: &(String, Vec<i64>)| match t.0.as_str() {
        "w" => push(ops, "r", &[t.1[0]]),
        "wcap" => push(ops, "rcap", &t.1),
        _ => push(ops, "rc", &t.1),
    };
    for t in toks.iter() {
        ops.push(t.clone());
    }
    push(&mut ops, "start", &[]);
    for t in toks.iter() {
        read(&mut ops, t);
    }
    if r.chance(50) {
        // overwrite from some token on
        push(&mut ops, "start", &[]);
        let keep = r.below(toks.len());
        for t in toks.iter().take(keep) {
            read(&mut ops, t);
        }
        let mut new: Vec<_> = toks[keep..].to_vec();
        for t in new.iter_mut() {
            if t.0 == "wc" {
                t.1[1] = (t.1[1] + r.range(-300, 300)).clamp(-32768, 32767);
                t.1[0] = r.range(1, 15);
            }
        }
        for t in new.iter() {
            ops.push(t.clone());
        }
        push(&mut ops, "start", &[]);
        for t in toks[..keep].iter().chain(new.iter()) {
            read(&mut ops, t);
        }
    }
    Script { cfg: vec![0], ops }
}

/// All values of one exponent in a range, written back to back and read back.
/// Scenario i covers exponent 1 + i % 15 and values from -32768 + (i / 15) * 2048.
pub fn sweep(id: usize, index: usize) -> Trace {
    let e = 1 + (index % 15) as i16;
    let lo = -32768 + ((index / 15) as i32 % 32) * 2048;
    let mut t = Trace::new(id, Obj::new().s("kind", "sweep").arr("cfg", [e as i64, lo as i64]));
    let mut s = BitStream::new();
    t.run(Obj::new().s("op", "make"), || {
        for _ in 0..index % 131 {
            s.write_bit(1u8)
        }
    }, |o, _| o);
    for k in 0..8 {
        let lo = lo + k * 256;
        t.run(
            Obj::new().s("op", "sweep").i("e", e as i64).i("lo", lo as i64).i("n", 256),
            || {
                let at = s.bit_cursor();
                let (mut dw, mut rv, mut dr) = (vec![], vec![], vec![]);
                for v in lo..lo + 256 {
                    let b = s.bit_cursor();
                    s.write_compressed(e, v as i16);
                    dw.push((s.bit_cursor() - b) as i64);
                }
                s.set_bit_cursor(at);
                for _ in lo..lo + 256 {
                    let b = s.bit_cursor();
                    rv.push(s.read_compressed(e) as i64);
                    dr.push((s.bit_cursor() - b) as i64);
                }
                (dw, rv, dr)
            },
            |o, (dw, rv, dr)| {
                o.arr("dw", dw.iter().copied()).arr("rv", rv.iter().copied()).arr("dr", dr.iter().copied())
            },
        );
    }
    t
}
