//! Collections of more elements than 16 bits count.
use crate::util::*;
use adhoc_audio::verif::*;
use std::collections::HashMap;

fn again<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap()
}

fn many(r: &mut Rng) -> usize {
    r.pick(&[65534usize, 65535, 65536, 65537, 65540, 66000, 70001])
}

/// kinds: list, ring, bitvec, nibble, lru, bits; a copy takes over now and then with `reloads`
pub fn random(id: usize, kind: &str, r: &mut Rng, reloads: bool) -> Trace {
    let kinds = ["list", "ring", "bitvec", "nibble", "lru", "bits"];
    let kind = if kind == "all" { kinds[id % 6] } else { kind };
    match kind {
        "list" => list(id, r, reloads),
        "ring" => ring(id, r, reloads),
        "lru" => lru(id, r, reloads),
        "bits" => bits(id, r, reloads),
        _ => packed(id, r, reloads, kind == "bitvec"),
    }
}

fn trace(id: usize, kind: i64, a: i64, b: i64) -> Trace {
    Trace::new(id, Obj::new().s("kind", "huge").arr("cfg", [kind, a, b]))
}
fn op(name: &str) -> Obj {
    Obj::new().s("op", name)
}

fn list(id: usize, r: &mut Rng, reloads: bool) -> Trace {
    let mut t = trace(id, 1, 0, 0);
    let mut l: LinkedList<i64> = LinkedList::new();
    let mut handle: HashMap<i64, Ptr> = HashMap::new();
    let mut next = 1i64;
    let mut first = true;
    for _ in 0..4 + r.below(4) {
        let len = l.len();
        match if first { 0 } else { r.below(7) } {
            0 | 1 => {
                let (end, n, from) = (r.below(2) as i64, if first { many(r) } else { r.pick(&[1, 20, 40_000]) }, next);
                t.run(
                    op("pushes").i("end", end).i("from", from).i("n", n as i64),
                    || {
                        for v in from..from + n as i64 {
                            let h = if end == 0 {
                                l.push_front(v);
                                l.front()
                            } else {
                                l.push_rear(v);
                                l.rear()
                            };
                            handle.insert(v, h);
                        }
                    },
                    |o, _| o,
                );
                next += n as i64;
                first = false;
            }
            2 => {
                let (end, n) = (r.below(2) as i64, r.pick(&[1, 50, 30_000, 200_000]));
                t.run(
                    op("pops").i("end", end).i("n", n),
                    || {
                        let mut v = vec![];
                        for _ in 0..n {
                            match if end == 0 { l.pop_front() } else { l.pop_rear() } {
                                Some(x) => v.push(x),
                                None => break,
                            }
                        }
                        v
                    },
                    |o, v| o.arr("ret", v.iter().copied()),
                );
            }
            3 | 4 => {
                let k = r.pick(&[2usize, 3, 7, 1000]);
                t.run(
                    op("thin").i("k", k as i64),
                    || {
                        let vs: Vec<i64> = l.iter().copied().collect();
                        let mut v = vec![];
                        for x in vs.iter().skip(k - 1).step_by(k) {
                            v.push(l.remove_at(handle[x]).unwrap_or(-1));
                        }
                        v
                    },
                    |o, v| o.arr("ret", v.iter().copied()),
                );
            }
            5 if len > 1 => {
                let (k, n, from) = (1 + r.below(len), r.pick(&[1i64, 30, 30_000]), next);
                t.run(
                    op("middle").i("k", k as i64).i("from", from).i("n", n),
                    || {
                        let x = *l.iter().nth(k - 1).unwrap();
                        let at = handle[&x];
                        for v in from..from + n {
                            l.insert_at(at, InsertDirection::Right, v);
                        }
                        let new: Vec<Ptr> = LinkedListIterator::new(&l).skip(k).take(n as usize).collect();
                        for h in new {
                            if let Some(&v) = l.get(h).and_then(|n| n.data()) {
                                handle.insert(v, h);
                            }
                        }
                    },
                    |o, _| o,
                );
                next += n;
            }
            _ if reloads => {
                t.run(op("reload"), || l = again(&l), |o, _| o);
            }
            _ => {}
        }
        if t.dead {
            return t;
        }
        if r.chance(60) {
            show_list(&mut t, &l, &handle);
        }
    }
    show_list(&mut t, &l, &handle);
    t
}

fn show_list(t: &mut Trace, l: &LinkedList<i64>, handle: &HashMap<i64, Ptr>) {
    t.run(
        op("show"),
        || {
            let it: Vec<i64> = l.iter().copied().take(400_000).collect();
            let at: Vec<i64> = it
                .iter()
                .map(|v| handle.get(v).and_then(|&h| l.get(h)).and_then(|n| n.data()).copied().unwrap_or(-1))
                .collect();
            (l.len(), it, at)
        },
        |o, (n, it, at)| o.i("len", *n as i64).arr("it", it.iter().copied()).arr("at", at.iter().copied()),
    );
}

fn ring(id: usize, r: &mut Rng, reloads: bool) -> Trace {
    let cap = r.pick(&[65536u32, 131072, 131072]);
    let mut t = trace(id, 2, cap as i64, 0);
    let mut b = FixedRingBuffer::new(vec![0i64; cap as usize], cap);
    let mut next = 1i64;
    for step in 0..7 + r.below(4) {
        match if step == 0 { 0 } else { r.below(7) } {
            0..=2 => {
                let (end, n, from) = (r.below(2) as i64, r.pick(&[1, 20, 40_000, 70_000]), next);
                t.run(
                    op("pushes").i("end", end).i("from", from).i("n", n),
                    || {
                        for v in from..from + n {
                            if end == 0 {
                                b.push_front(v)
                            } else {
                                b.push_rear(v)
                            }
                        }
                    },
                    |o, _| o,
                );
                next += n;
            }
            3 | 4 => {
                let (end, n) = (r.below(2) as i64, r.pick(&[1, 50, 30_000, 66_000]));
                t.run(
                    op("pops").i("end", end).i("n", n),
                    || {
                        let mut v = vec![];
                        for _ in 0..n {
                            match if end == 0 { b.pop_front() } else { b.pop_rear() } {
                                Some(&x) => v.push(x),
                                None => break,
                            }
                        }
                        v
                    },
                    |o, v| o.arr("ret", v.iter().copied()),
                );
            }
            5 if r.chance(20) => {
                t.run(op("clear"), || b.clear(), |o, _| o);
            }
            _ if reloads => {
                t.run(op("reload"), || b = again(&b), |o, _| o);
            }
            _ => {}
        }
        if t.dead {
            return t;
        }
        if r.chance(30) || step > 5 {
            t.run(
                op("show"),
                || (b.len(), b.iter().copied().collect::<Vec<i64>>()),
                |o, (n, v)| o.i("len", *n as i64).arr("it", v.iter().copied()).arr("at", v.iter().copied()),
            );
        }
    }
    t
}

fn packed(id: usize, r: &mut Rng, reloads: bool, bit: bool) -> Trace {
    let mut t = trace(id, 3, 0, 0);
    let (mut b, mut l) = (BitVec::new(), NibbleList::new());
    for step in 0..4 + r.below(4) {
        let max = if bit { 2 } else { 16 };
        match if step == 0 { 0 } else { r.below(6) } {
            0 | 1 => {
                let n = if step == 0 { many(r) } else { r.pick(&[1, 70, 35_000]) };
                let v: Vec<i64> = (0..n).map(|_| r.below(max) as i64).collect();
                t.run(
                    op("appends").arr("v", v.iter().copied()),
                    || {
                        for &v in v.iter() {
                            if bit {
                                b.push(v as u64)
                            } else {
                                l.push(v as u8)
                            }
                        }
                    },
                    |o, _| o,
                );
            }
            2 | 3 => {
                let (from, step, n, v) = (r.pick(&[0i64, 1, 65_000, 65_530]), r.pick(&[1i64, 3, 64, 65]), r.pick(&[1i64, 300, 40_000]), r.below(max) as i64);
                t.run(
                    op("sets").i("from", from).i("step", step).i("n", n).i("v", v),
                    || {
                        for i in 0..n {
                            let at = (from + i * step) as usize;
                            if bit {
                                b.set(at, v as u64)
                            } else {
                                l.set(at, v as u8)
                            }
                        }
                    },
                    |o, _| o,
                );
            }
            4 => {
                let n = r.pick(&[0usize, 63, 64, 65, 65_535, 65_536, 65_537, 40_000]);
                t.run(
                    op("trunc").i("n", n as i64),
                    || {
                        if bit {
                            b.truncate(n)
                        } else {
                            l.truncate(n)
                        }
                    },
                    |o, _| o,
                );
            }
            _ if reloads => {
                t.run(
                    op("reload"),
                    || {
                        if bit {
                            b = again(&b)
                        } else {
                            l = again(&l)
                        }
                    },
                    |o, _| o,
                );
            }
            _ => {}
        }
        if t.dead {
            return t;
        }
        t.run(
            op("show"),
            || {
                if bit {
                    (b.len(), b.iter().map(|v| v as i64).collect::<Vec<_>>(), (0..b.len()).map(|i| b.get(i) as i64).collect::<Vec<_>>())
                } else {
                    (l.len(), l.iter().map(|v| v as i64).collect::<Vec<_>>(), (0..l.len()).map(|i| l.get(i) as i64).collect::<Vec<_>>())
                }
            },
            |o, (n, it, at)| o.i("len", *n as i64).arr("it", it.iter().copied()).arr("at", at.iter().copied()),
        );
    }
    t
}

fn lru(id: usize, r: &mut Rng, reloads: bool) -> Trace {
    let cap = r.pick(&[65535usize, 65536, 65537, 65540, 68000]);
    let keys = cap as i64 + r.pick(&[1i64, 10, 3000]);
    let mut t = trace(id, 4, cap as i64, keys);
    let mut c: LruCache<i64, i64> = LruCache::new(cap);
    for step in 0..5 + r.below(4) {
        let (from, stride) = (r.pick(&[0i64, 0, 1, 500]), r.pick(&[1i64, 1, 2, 3, 700]));
        let most = (keys - from + stride - 1) / stride;
        let n = if step == 0 { most } else { r.pick(&[1, 10, 5000, most]).min(most) };
        let ev = |name: &str| op(name).i("from", from).i("step", stride).i("n", n);
        let add = step as i64 * 100_000;
        match if step == 0 { 0 } else { r.below(7) } {
            0..=2 => {
                t.run(
                    ev("puts").i("add", add),
                    || {
                        for i in 0..n {
                            let k = from + i * stride;
                            c.put(k, k + add)
                        }
                    },
                    |o, _| o,
                );
            }
            3 | 4 => {
                t.run(
                    ev("gets"),
                    || (0..n).map(|i| c.get(&(from + i * stride)).copied().unwrap_or(-1)).collect::<Vec<_>>(),
                    |o, v| o.arr("ret", v.iter().copied()),
                );
            }
            5 => {
                t.run(
                    ev("removes"),
                    || (0..n).map(|i| c.remove(&(from + i * stride)).unwrap_or(-1)).collect::<Vec<_>>(),
                    |o, v| o.arr("ret", v.iter().copied()),
                );
            }
            _ if reloads => {
                t.run(op("reload"), || c = again(&c), |o, _| o);
            }
            _ => {}
        }
        if t.dead {
            return t;
        }
        if r.chance(50) || step > 3 {
            t.run(
                op("looks"),
                || (c.len(), (0..keys).map(|k| c.lookup(&k).copied().unwrap_or(-1)).collect::<Vec<_>>()),
                |o, (n, v)| o.i("len", *n as i64).arr("look", v.iter().copied()),
            );
        }
    }
    t
}

fn bits(id: usize, r: &mut Rng, reloads: bool) -> Trace {
    let w = r.pick(&[128usize, 128, 127, 100, 33]);
    let mut t = trace(id, 5, w as i64, 0);
    let mut s = BitStream::new();
    let (mut pos, mut len) = (0usize, 0usize);
    let mask = if w == 128 { !0u128 } else { (1 << w) - 1 };
    let print = |v: u128| hash31(&v.to_le_bytes()) as i64;
    for step in 0..6 + r.below(5) {
        match if step == 0 { 0 } else { r.below(6) } {
            0 | 1 => {
                let n = if step == 0 { many(r) } else { r.pick(&[1, 100, 20_000]) };
                let v: Vec<u128> = (0..n).map(|_| ((r.next() as u128) << 64 | r.next() as u128) & mask).collect();
                t.run(
                    op("writes").arr("v", v.iter().map(|&v| print(v))),
                    || {
                        for &v in v.iter() {
                            s.write_bits(v, w)
                        }
                        (s.bit_cursor() as i64, s.capacity() as i64)
                    },
                    |o, (cur, cap)| o.i("cur", *cur).i("cap", *cap),
                );
                pos += n;
                len = pos;
            }
            2 => {
                let n = r.pick(&[1, 300, 70_000]).min(len - pos);
                t.run(
                    op("reads").i("n", n as i64),
                    || {
                        let v = (0..n).map(|_| print(s.read_bits(w))).collect::<Vec<_>>();
                        (v, s.bit_cursor() as i64, s.capacity() as i64)
                    },
                    |o, (v, cur, cap)| o.arr("ret", v.iter().copied()).i("cur", *cur).i("cap", *cap),
                );
                pos += n;
            }
            3 | 4 => {
                let any = r.below(len + 1);
                let p = r.pick(&[0usize, 1, 65_535, 65_536, 65_530, 30_000, any]).min(len);
                t.run(
                    op("seek").i("n", p as i64),
                    || {
                        s.set_bit_cursor((p * w) as u128);
                        s.bit_cursor() as i64
                    },
                    |o, cur| o.i("cur", *cur),
                );
                pos = p;
            }
            _ if reloads => {
                t.run(op("reload"), || s = again(&s), |o, _| o);
            }
            _ => {}
        }
        if t.dead {
            return t;
        }
    }
    // everything that's there
    t.run(op("seek").i("n", 0), || s.seek_start(), |o, _| o.i("cur", 0));
    t.run(
        op("reads").i("n", len as i64),
        || {
            let v = (0..len).map(|_| print(s.read_bits(w))).collect::<Vec<_>>();
            (v, s.bit_cursor() as i64, s.capacity() as i64)
        },
        |o, (v, cur, cap)| o.arr("ret", v.iter().copied()).i("cur", *cur).i("cap", *cap),
    );
    t
}
