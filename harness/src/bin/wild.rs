//! Ordered arenas whose keys do not agree on an order.

use harness::{ptrs::*, *};
use serde_json::json;
use std::{cell::RefCell, cmp::Ordering, collections::BTreeMap};
use triple_arena::{OrdArena, Recast};

/// Comparisons of the key `probe` with others are answered by `mood`, always
/// the same during a call.
#[derive(Default)]
struct Oracle {
    probe: i64,
    mood: usize,
    seed: u64,
    said: Vec<(i64, Ordering)>,
}

thread_local! {
    static ORACLE: RefCell<Oracle> = RefCell::new(Oracle::default());
}

fn ask(probe: i64, mood: usize, seed: u64) {
    ORACLE.with(|o| *o.borrow_mut() = Oracle { probe, mood, seed, said: vec![] })
}

fn said() -> Vec<(i64, Ordering)> {
    ORACLE.with(|o| std::mem::take(&mut o.borrow_mut().said))
}

/// whether the probe is less than, equal to or greater than the key `other`
fn answer(other: i64) -> Ordering {
    ORACLE.with(|o| {
        let mut o = o.borrow_mut();
        if let Some(x) = o.said.iter().find(|x| x.0 == other) {
            return x.1
        }
        let x = Rng(o.seed ^ (other as u64) << 20).next();
        let two = if x & 1 == 0 { Ordering::Less } else { Ordering::Greater };
        let res = match o.mood {
            0 => Ordering::Less,
            1 => Ordering::Greater,
            2 => two,
            // mostly by age, with exceptions
            3 => {
                if x % 4 == 0 {
                    two
                } else {
                    o.probe.cmp(&other)
                }
            }
            4 => {
                if o.said.len() % 2 == 0 {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            }
            _ => {
                if x % 5 == 0 {
                    Ordering::Equal
                } else {
                    two
                }
            }
        };
        o.said.push((other, res));
        res
    })
}

struct Key(Tok);

impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        let probe = ORACLE.with(|o| o.borrow().probe);
        if self.0.id == probe {
            answer(o.0.id)
        } else {
            answer(self.0.id).reverse()
        }
    }
}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Key {}
impl Clone for Key {
    fn clone(&self) -> Key {
        Key(self.0.clone())
    }
}

fn num(o: Ordering) -> i64 {
    o as i64
}

type A<P> = OrdArena<P, Key, Tok>;

struct Wild<P: PX> {
    a: A<P>,
    /// every pointer that was issued, the handle is its position plus one
    ptrs: Vec<P>,
    handles: BTreeMap<(usize, u64), i64>,
    tokens: i64,
}

impl<P: PX + Recast<P>> Wild<P> {
    fn h(&mut self, p: P) -> i64 {
        self.handles.get(&p.raw()).copied().unwrap_or(-9)
    }

    fn issue(&mut self, p: P) -> i64 {
        self.ptrs.push(p);
        self.handles.insert(p.raw(), self.ptrs.len() as i64);
        self.ptrs.len() as i64
    }

    fn token(&mut self) -> i64 {
        self.tokens += 1;
        self.tokens
    }

    fn rows(&mut self) -> Vec<Vec<i64>> {
        let n = self.a.len() + 3;
        let v: Vec<(P, i64, i64)> = self.a.iter().take(n).map(|(p, k, v)| (p, k.0.id, v.id)).collect();
        v.into_iter().map(|(p, k, v)| vec![self.h(p), k, v]).collect()
    }

    /// handles of the entries with the given keys, as they were before the call
    fn said(&self, before: &[Vec<i64>]) -> Vec<Vec<i64>> {
        said()
            .into_iter()
            .map(|(k, o)| vec![before.iter().find(|x| x[1] == k).map(|x| x[0]).unwrap_or(-9), num(o)])
            .collect()
    }

    fn event(&mut self, rec: &mut Recorder, o: &str, a: Vec<i64>, r: Vec<i64>, ans: Vec<Vec<i64>>, lin: usize, y: Vec<Vec<i64>>) {
        let tok = reg_alive_count();
        let dbl = !reg_errors().is_empty();
        let it = self.rows();
        let mut bk = vec![];
        let mut p = self.a.last();
        while let Some(q) = p {
            bk.push(self.h(q));
            if bk.len() > self.a.len() {
                break
            }
            p = self.a.get_link(q).and_then(|l| l.prev());
        }
        let (f, l) = (self.a.first(), self.a.last());
        let fl = [f.map_or(0, |p| self.h(p)), l.map_or(0, |p| self.h(p))];
        // what the arena accepts
        let mut ok = true;
        for (p, h) in self.ptrs.clone().into_iter().zip(1i64..) {
            if self.handles.get(&p.raw()) != Some(&h) {
                // issued again, without generations
                continue
            }
            let row = it.iter().find(|x| x[0] == h);
            ok &= self.a.contains(p) == row.is_some();
            ok &= self.a.get(p).map(|(k, v)| vec![h, k.0.id, v.id]).as_ref() == row;
        }
        // paths of searches to both ends and to a few other places
        let mut d = 0;
        for s in 0..12u64 {
            let mut c = 0;
            self.a.find_similar_with(|p, _, _| {
                c += 1;
                if c > 100 {
                    return Ordering::Equal
                }
                match s {
                    0 => Ordering::Less,
                    1 => Ordering::Greater,
                    _ if Rng(s * 977 + p.raw().0 as u64).next() & 1 == 0 => Ordering::Less,
                    _ => Ordering::Greater,
                }
            });
            d = d.max(c);
        }
        rec.push(json!({"o": o, "a": a, "r": r, "ans": ans, "lin": lin, "it": it, "bk": bk, "fl": fl,
            "len": self.a.len(), "ok": ok, "tok": tok, "dbl": dbl, "d": d, "y": y}));
    }

    fn step(&mut self, rec: &mut Recorder, r: &mut Rng, target: usize) -> bool {
        let len = self.a.len();
        let before = self.rows();
        let live = |r: &mut Rng| before[r.below(before.len())][0];
        let w = if len < target { [12, 3, 2, 2, 4, 1, 1, 1] } else { [5, 1, 2, 2, 9, 1, 1, 1] };
        let k = if len == 0 { 0 } else { r.weighted(&w) };
        let (mood, seed) = (r.below(6), r.next());
        let lin = r.pick(&[0usize, 1, 3, 1000, usize::MAX]);
        let some = self.ptrs.get(r.below(self.ptrs.len().max(1))).copied().unwrap_or_else(P::invalid);
        let some = if r.chance(1, 2) && len > 0 { self.ptrs[live(r) as usize - 1] } else { some };
        let mut a: Vec<i64> = vec![];
        let mut lin_used = 0;
        let mut y = vec![];
        let o;
        // the call, and the handles it gives
        let res = match k {
            0 => {
                let v = r.below(4);
                let (k, t) = (self.token(), self.token());
                (o, a) = ("ins", vec![(v % 2 == 0) as i64, k, t]);
                lin_used = if v >= 2 { lin.min(len) } else { 0 };
                ask(k, mood, seed);
                let (key, val) = (Key(Tok::new(k, 0)), Tok::new(t, 0));
                guard(|| match v {
                    0 => self.a.insert(key, val),
                    1 => (self.a.insert_nonhereditary(key, val), None),
                    2 => self.a.insert_linear(some, lin, key, val),
                    _ => (self.a.insert_nonhereditary_linear(some, lin, key, val), None),
                })
                .map(|(p, old)| match old {
                    None => vec![self.issue(p)],
                    Some((k, v)) => vec![self.h(p), k.0.id, v.id],
                })
            }
            1 => {
                let (h, d) = (live(r), r.below(3) as i64 - 1);
                let (k, t) = (self.token(), self.token());
                (o, a) = ("man", vec![h, d, k, t]);
                let p = self.ptrs[h as usize - 1].inx();
                let (key, val) = (Key(Tok::new(k, 0)), Tok::new(t, 0));
                ask(k, mood, seed);
                guard(|| self.a.insert_inx_manual_unwrap(p, d.cmp(&0), key, val)).map(|(p, old)| match old {
                    None => vec![self.issue(p)],
                    Some((k, v)) => vec![self.h(p), k.0.id, v.id],
                })
            }
            2 | 3 => {
                let v = r.below(3);
                o = if k == 2 { "find" } else { "sim" };
                let key = Key(Tok::new(0, 0));
                ask(0, mood, seed);
                lin_used = if v == 1 { lin.min(len) } else { 0 };
                let with = |_: P, k: &Key, _: &Tok| answer(k.0.id);
                let res = if k == 2 {
                    guard(|| match v {
                        0 => self.a.find_key(&key),
                        1 => self.a.find_key_linear(some, lin, &key),
                        _ => self.a.find_with(with),
                    })
                    .map(|p| vec![p.map_or(0, |p| self.h(p))])
                } else {
                    guard(|| match v {
                        0 => self.a.find_similar_key(&key),
                        1 => self.a.find_similar_key_linear(some, lin, &key),
                        _ => self.a.find_similar_with(with),
                    })
                    .map(|p| p.map_or(vec![0], |(p, o)| vec![self.h(p), num(o)]))
                };
                drop(key);
                res
            }
            4 => {
                let h = live(r);
                (o, a) = ("rem", vec![h]);
                ask(-1, mood, seed);
                let p = self.ptrs[h as usize - 1];
                guard(|| self.a.remove(p)).map(|x| x.map_or(vec![], |(k, v)| vec![k.0.id, v.id]))
            }
            5 if P::has_gen() => {
                let h = live(r);
                (o, a) = ("inv", vec![h]);
                let p = self.ptrs[h as usize - 1];
                guard(|| self.a.invalidate(p)).map(|x| x.map_or(vec![0], |p| vec![self.issue(p)]))
            }
            5 | 6 => {
                let (h, t) = (live(r), self.token());
                (o, a) = ("set", vec![h, t]);
                let p = self.ptrs[h as usize - 1];
                guard(|| self.a.replace_val_and_keep_gen(p, Tok::new(t, 0)).is_ok()).map(|x| vec![x as i64])
            }
            _ => match r.below(8) {
                0..=2 if P::has_gen() => {
                    o = "comp";
                    ask(-1, mood, seed);
                    let mut new = vec![];
                    guard(|| self.a.compress_and_shrink_with(|_, _, _, q| new.push(q))).map(|()| {
                        for q in new {
                            self.issue(q);
                        }
                        vec![]
                    })
                }
                3 => {
                    o = "clear";
                    guard(|| self.a.clear()).map(|()| vec![])
                }
                4 => {
                    o = "drain";
                    let n = len + 3;
                    let got = guard(|| self.a.drain().take(n).map(|(p, k, v)| (p, k.0.id, v.id)).collect::<Vec<_>>());
                    got.map(|v| {
                        y = v.into_iter().map(|(p, k, v)| vec![self.h(p), k, v]).collect();
                        vec![]
                    })
                }
                5 => {
                    o = "copy";
                    ask(-1, mood, seed);
                    guard(|| self.a = self.a.clone()).map(|()| vec![])
                }
                _ => {
                    o = "copy";
                    ask(-1, mood, seed);
                    guard(|| {
                        let mut b: A<P> = OrdArena::new();
                        b.clone_from_with(&self.a, |_, v| v.clone());
                        self.a.clone_from(&b);
                    })
                    .map(|()| vec![])
                }
            },
        };
        let ans = self.said(&before);
        let panicked = res.is_err();
        self.event(rec, o, a, res.unwrap_or(vec![-1]), ans, lin_used, y);
        !panicked
    }
}

fn session<P: PX + Recast<P>>(rec: &mut Recorder, seed: u64, steps: usize, target: usize) {
    reg_reset();
    let mut s = Wild::<P> { a: OrdArena::new(), ptrs: vec![], handles: BTreeMap::new(), tokens: 0 };
    let mut r = Rng(seed);
    s.event(rec, "new", vec![], vec![], vec![], 0, vec![]);
    for _ in 0..steps {
        if !s.step(rec, &mut r, target) {
            break
        }
    }
    std::mem::forget(s.a);
}

fn main() {
    let args = Args::get();
    quiet_panics();
    let mut r = Rng(args.n("seed", 1) as u64 ^ 0x3117d);
    let mut rec = Recorder::default();
    for i in 0..12 * args.n("mult", 1) {
        let t = [4, 9, 20, 45][i as usize % 4];
        session::<PD>(&mut rec, r.next(), 350, t);
        session::<PN>(&mut rec, r.next(), 200, t);
    }
    for _ in 0..3 {
        session::<PD>(&mut rec, r.next(), 400, 250);
    }
    rec.save(&args.s("record", "trace.ndjson"));
}
