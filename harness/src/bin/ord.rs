//! Ordered arenas: replay of MCOrd behaviours and recording for TraceOrd and
//! TraceBalance.

use harness::{ptrs::*, *};
use serde_json::json;
use std::{
    cell::{Cell, RefCell},
    cmp::Ordering,
    collections::{BTreeMap, BTreeSet},
    sync::atomic::{AtomicBool, Ordering as At},
};
use triple_arena::{Advancer, Arena, ChainArena, OrdArena, Recast};

type Raw = (usize, u64);
type T2 = (i64, i64);

thread_local! {
    static COMPARISONS: Cell<u64> = const { Cell::new(0) };
}

thread_local! {
    /// the comparison that is to panic, counted from now
    static PANIC_IN: Cell<u64> = const { Cell::new(u64::MAX) };
}

thread_local! {
    /// answers to comparisons with the keys of these tokens, for keys that do
    /// not agree on an order, and the comparisons that were made
    static ANSWERS: RefCell<Option<(BTreeMap<i64, Ordering>, Vec<i64>)>> = const { RefCell::new(None) };
}

/// whether `wild` is part of the checks
static WILD: AtomicBool = AtomicBool::new(false);

/// `f` while the key of a new token is compared as `table` says, with the
/// tokens it was compared with
fn answering<R>(table: &BTreeMap<i64, Ordering>, f: impl FnOnce() -> R) -> (Result<R, String>, Vec<i64>) {
    ANSWERS.with(|x| *x.borrow_mut() = Some((table.clone(), vec![])));
    let r = guard(f);
    (r, ANSWERS.with(|x| x.borrow_mut().take()).unwrap().1)
}

/// number of comparisons `f` makes
fn counted<R>(f: impl FnOnce() -> R) -> (R, u64) {
    COMPARISONS.with(|c| c.set(0));
    let r = f();
    (r, COMPARISONS.with(|c| c.get()))
}

/// A key that is ordered by `n` only; the token tells equal keys apart.
#[derive(Clone)]
struct Key {
    n: i128,
    t: Tok,
}

impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.n == o.n
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        COMPARISONS.with(|c| c.set(c.get() + 1));
        PANIC_IN.with(|c| {
            c.set(c.get().saturating_sub(1));
            if c.get() == 0 {
                c.set(u64::MAX);
                panic!("comparison");
            }
        });
        ANSWERS
            .with(|x| {
                let mut x = x.borrow_mut();
                let (table, seen) = x.as_mut()?;
                let (stored, new) = (table.get(&o.t.id).copied(), table.get(&self.t.id).copied());
                seen.push(if stored.is_some() { o.t.id } else { self.t.id });
                stored.or(new.map(|x| x.reverse()))
            })
            .unwrap_or_else(|| self.n.cmp(&o.n))
    }
}
impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}@{}", self.t.id, self.n)
    }
}
impl serde::Serialize for Key {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        format!("{} {}", self.n, self.t.id).serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Key {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Key, D::Error> {
        let s = String::deserialize(d)?;
        let (n, id) = s.split_once(' ').ok_or(serde::de::Error::custom("key"))?;
        Ok(Key { n: n.parse().unwrap(), t: Tok::new(id.parse().unwrap(), 0) })
    }
}

fn probe(n: i128) -> Key {
    Key { n, t: Tok::new(-1, 0) }
}

type A<P> = OrdArena<P, Key, Tok>;

struct O<P: PX> {
    a: A<P>,
    /// only insertions since the arena was empty
    ins_only: bool,
}

struct Row {
    v: T2,
    kt: i64,
    kc: i64,
}

struct Exp {
    live: BTreeMap<i64, Row>,
    seq: Vec<i64>,
}

fn expected(s: &Value) -> Exp {
    Exp {
        live: rows(&s["live"])
            .into_iter()
            .map(|x| (x[0], Row { v: (x[1], x[2]), kt: x[3], kc: x[4] }))
            .collect(),
        seq: ints(&s["seq"]),
    }
}

const STEP: i128 = 1 << 100;

/// a number between the n-th and the n+1-th of `keys`
fn gap(keys: &[i128], n: usize) -> i128 {
    let lo = if n == 0 { None } else { keys.get(n - 1) };
    match (lo, keys.get(n)) {
        (None, None) => 0,
        (Some(lo), None) => lo + STEP,
        (None, Some(hi)) => hi - STEP,
        (Some(lo), Some(hi)) => lo + (hi - lo) / 2,
    }
}

fn nums<P: PX>(a: &A<P>) -> Vec<i128> {
    a.keys().take(a.len() + 3).map(|k| k.n).collect()
}

/// largest number of comparisons allowed for a lookup among n entries
fn bound(n: usize, ins_only: bool) -> u64 {
    let m = (n as u128 + 1) * (n as u128 + 1);
    let mut c = 0;
    while 1u128 << (c + 1) <= m {
        c += 1;
    }
    if ins_only {
        // heights of AVL trees, and one more
        let (mut h, mut f0, mut f1) = (0, 0u128, 1u128);
        while f1 <= n as u128 {
            (f0, f1) = (f1, f0 + f1 + 1);
            h += 1;
        }
        c = c.min(h + 1);
    }
    c
}

fn look<P: PX>(
    a: &mut A<P>,
    b: &Book<P>,
    e: &Exp,
    ins_only: bool,
    cx: &mut Cx,
    tag: Option<&'static str>,
) {
    let cl = |c: &'static str| tag.unwrap_or(c);
    let n = e.live.len();
    cx.eq(cl("len"), "len", a.len(), n);
    cx.eq(cl("len"), "is_empty", a.is_empty(), n == 0);
    for (h, r) in &e.live {
        let p = b.p(*h);
        if !a.contains(p) {
            cx.fail(cl("valid"), format!("contains({p:?}) is false, entry {:?} is live", r.v));
            continue
        }
        cx.eq(cl("valid"), "get", a.get(p).map(|x| (x.0.t.id, x.1.key())), Some((r.kt, r.v)));
        cx.eq(cl("valid"), "get_key", a.get_key(p).map(|k| k.t.id), Some(r.kt));
        cx.eq(cl("valid"), "get_val", a.get_val(p).map(|t| t.key()), Some(r.v));
        cx.eq(cl("valid"), "get_val_mut", a.get_val_mut(p).map(|t| t.key()), Some(r.v));
        cx.eq(cl("valid"), "get_mut", a.get_mut(p).map(|x| (x.0.t.id, x.1.key())), Some((r.kt, r.v)));
        cx.eq(cl("valid"), "index", a[p].key(), r.v);
        cx.eq(cl("valid"), "index_mut", (&mut a[&p]).key(), r.v);
    }
    for p in b.dead() {
        if a.contains(p)
            || a.get(p).is_some()
            || a.get_mut(p).is_some()
            || a.get_key(p).is_some()
            || a.get_val(p).is_some()
            || a.get_val_mut(p).is_some()
            || a.get_link(p).is_some()
        {
            cx.fail(cl("stale"), format!("invalid pointer {p:?} is accepted"));
        }
    }
    for p in b.dead_inx() {
        cx.check(a.get_link_no_gen(p.inx()).is_none(), cl("stale"), || format!("link of unused index {p:?}"));
    }
    if let Some(p) = b.dead_some(1).first() {
        cx.check(guard(|| a[p].key()).is_err(), cl("stale"), || format!("indexing accepts {p:?}"));
        cx.check(guard(|| (&mut a[p]).key()).is_err(), cl("stale"), || format!("indexing accepts {p:?}"));
    }
    if !cx.divs.is_empty() {
        return
    }
    // one order, seen in every way
    let lim = 2 * n + 5;
    let seq: Vec<P> = e.seq.iter().map(|h| b.p(*h)).collect();
    let sraw: Vec<Raw> = seq.iter().map(|p| p.raw()).collect();
    let full: Vec<(Raw, i64, T2)> =
        e.seq.iter().map(|h| (b.p(*h).raw(), e.live[h].kt, e.live[h].v)).collect();
    cx.eq(cl("order"), "first", a.first().map(|p| p.raw()), sraw.first().copied());
    cx.eq(cl("order"), "last", a.last().map(|p| p.raw()), sraw.last().copied());
    for (i, h) in e.seq.iter().enumerate() {
        let prev = if i == 0 { None } else { Some(seq[i - 1]) };
        let next = seq.get(i + 1).copied();
        let r = &e.live[h];
        match a.get_link(seq[i]) {
            Some(l) => {
                cx.eq(cl("order"), "get_link", l.prev_next(), (prev, next));
                cx.eq(cl("valid"), "get_link", (l.t.0.t.id, l.t.1.key()), (r.kt, r.v));
            }
            None => cx.fail(cl("valid"), "get_link"),
        }
        match a.get_link_no_gen(seq[i].inx()) {
            Some((g, l)) => {
                cx.eq(cl("order"), "get_link_no_gen", l.prev_next(), (prev.map(|p| p.inx()), next.map(|p| p.inx())));
                cx.eq(cl("valid"), "get_link_no_gen", (l.t.0.t.id, l.t.1.key()), (r.kt, r.v));
                cx.eq(cl("valid"), "generation of get_link_no_gen", P::gen_num(g), P::gen_num(seq[i].generation()));
            }
            None => cx.fail(cl("valid"), "get_link_no_gen"),
        }
        // from here on
        let mut adv = a.advancer_starting_from(seq[i]);
        let mut seen = vec![];
        while let Some(q) = adv.advance(a) {
            seen.push(q.raw());
            if seen.len() > lim {
                break
            }
        }
        cx.eq(cl("adv"), "advancer_starting_from", seen, sraw[i..].to_vec());
    }
    for p in b.dead_some(4) {
        let mut adv = a.advancer_starting_from(p);
        let mut k = 0;
        while k < 9 && adv.advance(a).is_some() {
            k += 1;
        }
        cx.eq(cl("adv"), "walk from an invalid pointer", k, 0);
    }
    cx.eq(cl("iter"), "ptrs", a.ptrs().take(lim).map(|p| p.raw()).collect::<Vec<_>>(), sraw.clone());
    cx.eq(
        cl("iter"),
        "iter",
        a.iter().take(lim).map(|x| (x.0.raw(), x.1.t.id, x.2.key())).collect::<Vec<_>>(),
        full.clone(),
    );
    cx.eq(
        cl("iter"),
        "&into_iter",
        (&*a).into_iter().take(lim).map(|x| (x.0.raw(), x.1.t.id, x.2.key())).collect::<Vec<_>>(),
        full.clone(),
    );
    cx.eq(
        cl("iter"),
        "keys",
        a.keys().take(lim).map(|k| k.t.id).collect::<Vec<_>>(),
        full.iter().map(|x| x.1).collect::<Vec<_>>(),
    );
    let vals: Vec<T2> = full.iter().map(|x| x.2).collect();
    cx.eq(cl("iter"), "vals", a.vals().take(lim).map(|t| t.key()).collect::<Vec<_>>(), vals.clone());
    cx.eq(cl("iter"), "vals_mut", a.vals_mut().take(lim).map(|t| t.key()).collect::<Vec<_>>(), vals);
    let mut adv = a.advancer();
    let mut seen = vec![];
    while let Some(q) = adv.advance(a) {
        seen.push(q.raw());
        if seen.len() > lim {
            break
        }
    }
    cx.eq(cl("iter"), "advancer", seen, sraw.clone());
    if !cx.divs.is_empty() {
        return
    }
    // the keys are as the specification says
    let ks = nums(a);
    for i in 1..n {
        let same = e.live[&e.seq[i]].kc == e.live[&e.seq[i - 1]].kc;
        cx.check(if same { ks[i - 1] == ks[i] } else { ks[i - 1] < ks[i] }, cl("order"), || {
            format!("keys {ks:?} at {i}")
        });
    }
    // lookups of every stored and of some missing keys
    let mut probes: Vec<i128> = (0..=n).map(|i| gap(&ks, i)).chain(ks.iter().copied()).collect();
    probes.sort();
    probes.dedup();
    let max = bound(n, ins_only);
    let mut hints: Vec<P> = seq.clone();
    hints.extend(b.dead_some(1));
    let mut limits: Vec<usize> = if n <= 8 { (0..=n + 1).collect() } else { vec![0, 1, 2, n / 2, n + 1] };
    limits.push(usize::MAX);
    if n > 8 {
        hints = (0..4).map(|i| hints[i * (hints.len() - 1) / 3]).collect();
    }
    for x in probes {
        let k = probe(x);
        let lo = ks.iter().filter(|y| **y < x).count();
        let hi = ks.iter().filter(|y| **y <= x).count();
        let eq: BTreeSet<Raw> = sraw[lo..hi].iter().copied().collect();
        let exact = |r: Option<P>| match r {
            Some(p) => eq.contains(&p.raw()),
            None => eq.is_empty(),
        };
        let similar = |r: Option<(P, Ordering)>| match r {
            None => n == 0,
            Some((p, Ordering::Equal)) => eq.contains(&p.raw()),
            Some((p, Ordering::Less)) => eq.is_empty() && sraw.get(lo) == Some(&p.raw()),
            Some((p, Ordering::Greater)) => eq.is_empty() && lo > 0 && sraw[lo - 1] == p.raw(),
        };
        let (r, c) = counted(|| a.find_key(&k));
        cx.check(exact(r), cl("find"), || format!("find_key({x}) in {ks:?} is {r:?}"));
        cx.check(c <= max, cl("balance"), || format!("find_key makes {c} comparisons among {n} entries"));
        let (r, c) = counted(|| a.find_similar_key(&k));
        cx.check(similar(r), cl("find"), || format!("find_similar_key({x}) in {ks:?} is {r:?}"));
        cx.check(c <= max, cl("balance"), || format!("find_similar_key makes {c} comparisons among {n} entries"));
        for p in &hints {
            for m in &limits {
                let (r, c) = counted(|| a.find_key_linear(*p, *m, &k));
                let lm = max + (*m as u64).min(n as u64 + 1);
                cx.check(exact(r), cl("find"), || format!("find_key_linear({p:?}, {m}, {x}) in {ks:?} is {r:?}"));
                cx.check(c <= lm, cl("balance"), || format!("find_key_linear makes {c} comparisons"));
                let (r, c) = counted(|| a.find_similar_key_linear(*p, *m, &k));
                cx.check(similar(r), cl("find"), || {
                    format!("find_similar_key_linear({p:?}, {m}, {x}) in {ks:?} is {r:?}")
                });
                cx.check(c <= lm, cl("balance"), || format!("find_similar_key_linear makes {c} comparisons"));
            }
        }
        // a search function is given the entries themselves
        let mut bad = None;
        let mut calls = 0;
        let arena = &*a;
        let mut f = |p: P, kk: &Key, v: &Tok| {
            calls += 1;
            match arena.get(p) {
                Some((k2, v2)) if std::ptr::eq(k2, kk) && std::ptr::eq(v2, v) => (),
                _ => bad = Some(format!("search function is given {p:?}, {kk:?}, {v:?}")),
            }
            x.cmp(&kk.n)
        };
        let r = arena.find_with(&mut f);
        cx.check(exact(r), cl("find"), || format!("find_with for {x} in {ks:?} is {r:?}"));
        let r = arena.find_similar_with(&mut f);
        cx.check(similar(r), cl("find"), || format!("find_similar_with for {x} in {ks:?} is {r:?}"));
        cx.check(calls <= 2 * max, cl("balance"), || format!("{calls} calls of the search function"));
        if let Some(m) = bad {
            cx.fail(cl("find"), m);
        }
        if !cx.divs.is_empty() {
            return
        }
    }
}

/// insertions that must not grow the arena
fn fill<P: PX>(a: &mut A<P>, b: &mut Book<P>, cx: &mut Cx, tag: Option<&'static str>) {
    let cl = |c: &'static str| tag.unwrap_or(c);
    let (cap, len) = (a.capacity(), a.len());
    let mut want = nums(a);
    for i in 0..cap.saturating_sub(len) {
        // into different places
        let at = (i * 7 + 1) % (want.len() + 1);
        let n = if i % 3 == 2 && at < want.len() { want[at] } else { gap(&want, at) };
        let p = a.insert_nonhereditary(
            Key { n, t: Tok::new(1_000_000 + i as i64, 0) },
            Tok::new(2_000_000 + i as i64, 0),
        );
        b.issue(p, cx);
        want.insert(at, n);
        want.sort();
        cx.eq(cl("valid"), "filled", a.get_val(p).map(|t| t.id), Some(2_000_000 + i as i64));
    }
    cx.eq(cl("free"), "capacity after filling", a.capacity(), cap);
    cx.eq(cl("len"), "len after filling", a.len(), cap.max(len));
    cx.eq(cl("order"), "keys after filling", nums(a), want);
    if let Err(e) = OrdArena::_check_invariants(a) {
        cx.fail(cl("inv"), e);
    }
}

/// index of an entry in the key order
fn position<P: PX>(a: &A<P>, p: P) -> i64 {
    a.ptrs().take(a.len() + 3).position(|q| q.inx() == p.inx()).map(|i| i as i64).unwrap_or(-1)
}

fn toks<P: PX>(a: &A<P>, b: &Book<P>) -> BTreeMap<Raw, T2> {
    b.live_ptrs().into_iter().filter_map(|(_, p)| a.get_val(p).map(|t| (p.raw(), t.key()))).collect()
}

fn compressed<P: PX>(a: &A<P>) -> bool {
    a.ptrs().take(a.len() + 3).enumerate().all(|(i, p)| p.raw().0 == i + 1)
}

impl<P: PX + Recast<P>> O<P> {
    /// the insertions; `m` are the comparisons allowed for a hint
    fn inserted(&mut self, b: &mut Book<P>, r: (P, Option<(Key, Tok)>), id: i64, cx: &mut Cx) -> Vec<i64> {
        b.nt += 2;
        match r.1 {
            None => vec![b.issue(r.0, cx), id, id + 1],
            Some((k, v)) => vec![b.h(r.0), id + 1, k.t.id, v.id, v.c],
        }
    }
}

/// a serialized ordered arena with these keys
fn input(a: &[i64]) -> V {
    let entry = |i: i64, c: i64| (V::S(format!("{} {}", c as i128 * STEP, 2 * i - 1)), tok(2 * i));
    V::Map(a.iter().enumerate().map(|(i, c)| entry(i as i64 + 1, *c)).collect())
}

impl<P: PX + Recast<P>> Kind for O<P> {
    type P = P;

    fn new() -> Self {
        O { a: OrdArena::new(), ins_only: true }
    }

    fn nargs(o: &str) -> usize {
        match o {
            "oman" | "rem" | "inv" | "rk" | "ru" | "set" => 1,
            "swap" | "get2" => 2,
            _ => 0,
        }
    }

    fn by_index(o: &str) -> bool {
        o == "oman"
    }

    fn scal(&self) -> Scal {
        Scal {
            len: self.a.len(),
            cap: self.a.capacity(),
            gen: P::gen_num(self.a.generation()),
            vlen: 0,
            vcap: None,
        }
    }

    fn ids(s: &Value) -> Vec<i64> {
        expected(s).live.values().flat_map(|r| [r.v.0, r.kt]).collect()
    }

    fn call(&mut self, b: &mut Book<P>, o: &str, a: &[i64], ps: &[Option<P>], cx: &mut Cx) -> Vec<i64> {
        let id = b.nt + 1;
        let p = |i: usize| ps[i].unwrap();
        // the content of the key's token is the token of the first such key
        let key = |n: i128| Key { n, t: Tok::new(id, id) };
        let len = self.a.len();
        match o {
            "de" => match decode(&input(a), cx) {
                Some(x) => {
                    self.a = x;
                    for i in 0..a.len() {
                        b.issue(P::make(i + 1, 2), cx);
                    }
                    b.nt = 2 * a.len() as i64;
                    self.ins_only = false;
                    vec![1]
                }
                None => vec![0],
            },
            "dex" if a[0] == 8 => {
                // more entries than there are indices
                let mut n = 0;
                if P::max_inx() == 255 {
                    let big: Vec<i64> = (1..=256).collect();
                    n += decode::<A<P>>(&input(&big), cx).is_some() as i64;
                    n += decode::<A<P>>(&input(&big[..255]), cx).is_none() as i64;
                }
                vec![n]
            }
            "dex" => vec![broken::<A<P>>(&input(&a[1..]), a[0])],
            "oins" | "oeq" => {
                let eq = o == "oeq";
                let k = if eq {
                    let k = self.a.get_key(b.p(a[0])).unwrap();
                    Key { n: k.n, t: Tok::new(id, k.t.c) }
                } else {
                    key(gap(&nums(&self.a), a[0] as usize))
                };
                let hint = match a[2] {
                    0 => b.dead_some(1).first().copied().unwrap_or(P::invalid()),
                    h => b.p(h),
                };
                let m = a[3] as usize;
                let v = Tok::new(id + 1, 0);
                let (r, c) = counted(|| match a[1] {
                    0 => self.a.insert(k, v),
                    1 => (self.a.insert_nonhereditary(k, v), None),
                    2 => self.a.insert_linear(hint, m, k, v),
                    _ => (self.a.insert_nonhereditary_linear(hint, m, k, v), None),
                });
                let max = bound(len, self.ins_only) + m as u64;
                cx.check(c <= max, "balance", || format!("{c} comparisons of an insertion into {len} entries"));
                if eq && r.1.is_none() {
                    // somewhere among the equal ones
                    let at = position(&self.a, r.0);
                    cx.choice = Some((4, at));
                    if at < a[5] || at > a[6] {
                        cx.fail("order", format!("inserted at {at}, specified {}..{}", a[5], a[6]));
                    } else if at != a[4] {
                        cx.abstain = true;
                    }
                }
                self.inserted(b, r, id, cx)
            }
            "oinx" => {
                let k = key(gap(&nums(&self.a), a[0] as usize));
                let hint = if a[2] == 0 { P::invalid() } else { b.p(a[2]) };
                let v = Tok::new(id + 1, 0);
                PANIC_IN.with(|c| c.set(a[4] as u64));
                match a[1] {
                    0 => self.a.insert(k, v).0,
                    1 => self.a.insert_nonhereditary(k, v),
                    2 => self.a.insert_linear(hint, a[3] as usize, k, v).0,
                    _ => self.a.insert_nonhereditary_linear(hint, a[3] as usize, k, v),
                };
                PANIC_IN.with(|c| c.set(u64::MAX));
                vec![0]
            }
            "oman" => {
                let at = position(&self.a, p(0));
                let k = if at < 0 {
                    key(0)
                } else if a[2] == 1 {
                    let k = self.a.keys().nth(at as usize).unwrap();
                    Key { n: k.n, t: Tok::new(id, k.t.c) }
                } else {
                    key(gap(&nums(&self.a), at as usize + (a[1] == 1) as usize))
                };
                let d = [Ordering::Less, Ordering::Greater, Ordering::Equal][a[1] as usize];
                let v = Tok::new(id + 1, 0);
                let (r, c) = counted(|| self.a.insert_inx_manual_unwrap(p(0).inx(), d, k, v));
                cx.eq("ret", "comparisons of a positional insertion", c, 0);
                self.inserted(b, r, id, cx)
            }
            "oemp" => match self.a.insert_empty(key(0), Tok::new(id + 1, 0)) {
                Some(q) => self.inserted(b, (q, None), id, cx),
                None => vec![0],
            },
            "rem" => match self.a.remove(p(0)) {
                Some((k, v)) => {
                    b.kill(b.h(p(0)));
                    self.ins_only = false;
                    vec![1, k.t.id, v.id, v.c]
                }
                None => vec![0],
            },
            "inv" => match self.a.invalidate(p(0)) {
                Some(q) => {
                    b.kill(b.h(p(0)));
                    vec![b.issue(q, cx)]
                }
                None => vec![0],
            },
            "rk" => match self.a.replace_val_and_keep_gen(p(0), Tok::new(id, 0)) {
                Ok(t) => {
                    b.nt += 1;
                    vec![1, id, t.id, t.c]
                }
                Err(t) => {
                    cx.eq("accept", "returned value", t.key(), (id, 0));
                    vec![0]
                }
            },
            "ru" => match self.a.replace_val_and_update_gen(p(0), Tok::new(id, 0)) {
                Ok((t, q)) => {
                    b.nt += 1;
                    b.kill(b.h(p(0)));
                    vec![b.issue(q, cx), id, t.id, t.c]
                }
                Err(t) => {
                    cx.eq("accept", "returned value", t.key(), (id, 0));
                    vec![0]
                }
            },
            "set" => {
                let r = match a[1] {
                    0 => self.a.get_val_mut(p(0)).map(|t| t.c += 1),
                    1 => self.a.get_mut(p(0)).map(|x| x.1.c += 1),
                    _ => {
                        if self.a.contains(p(0)) {
                            self.a[p(0)].c += 1;
                            Some(())
                        } else {
                            None
                        }
                    }
                };
                vec![r.is_some() as i64]
            }
            "seta" => {
                let mut n = 0;
                for t in self.a.vals_mut() {
                    t.c += 1;
                    n += 1;
                }
                vec![n]
            }
            "swap" => vec![self.a.swap_vals(p(0), p(1)).is_some() as i64],
            "get2" => match self.a.get2_val_mut(p(0), p(1)) {
                Some((x, y)) => {
                    let v = vec![1, x.id, x.c, y.id, y.c];
                    x.c += 1;
                    y.c += 2;
                    v
                }
                None => vec![0],
            },
            "clear" => {
                self.a.clear();
                self.ins_only = true;
                b.kill_all();
                vec![]
            }
            "cshr" => {
                self.a.clear_and_shrink();
                self.ins_only = true;
                b.kill_all();
                vec![]
            }
            "comp" => {
                let old = toks(&self.a, b);
                let oldk: BTreeMap<Raw, i64> = self.a.iter().map(|x| (x.0.raw(), x.1.t.id)).collect();
                let mut map: BTreeMap<Raw, P> = BTreeMap::new();
                self.ins_only = false;
                match a[0] {
                    0 => self.a.compress_and_shrink(),
                    1 => {
                        let mut bad = vec![];
                        self.a.compress_and_shrink_with(|p, k, v, q| {
                            if old.get(&p.raw()) != Some(&v.key())
                                || oldk.get(&p.raw()) != Some(&k.t.id)
                                || map.insert(p.raw(), q).is_some()
                            {
                                bad.push(format!("callback({p:?}, {k:?}, {v:?}, {q:?})"));
                            }
                        });
                        for x in bad {
                            cx.fail("comp", x);
                        }
                        cx.eq("comp", "callback calls", map.len(), old.len());
                    }
                    _ => {
                        let dead = b.dead();
                        let mut c: OrdArena<P, Key, Held<P>> = OrdArena::new();
                        c.clone_from_with(&self.a, |p, _| holds(b, p));
                        let rc = self.a.compress_and_shrink_recaster();
                        check_recaster(&rc, b, &dead, &mut map, cx);
                        check_recast(
                            &rc,
                            &map,
                            &dead,
                            c,
                            |c| c.iter().map(|(p, k, v)| ((p, k.t.id), v.clone())).collect(),
                            |c, p| *c.vals_mut().last().unwrap() = vec![Some(p)],
                            cx,
                        );
                    }
                }
                let found: BTreeMap<T2, P> =
                    self.a.iter().take(old.len() * 2 + 4).map(|x| (x.2.key(), x.0)).collect();
                #[cfg(feature = "ser")]
                cx.check(serde_json::to_string(&self.a).is_ok(), "serde", || "not serializable after compression".into());
                rename(b, &old, &found, &map, a[0] > 0, cx)
            }
            "res" => {
                self.a.reserve(a[0] as usize);
                vec![]
            }
            "drain" => {
                let want: Vec<(Raw, i64, T2)> = self.a.iter().map(|x| (x.0.raw(), x.1.t.id, x.2.key())).collect();
                let mut got = vec![];
                let mut it = self.a.drain();
                for _ in 0..a[0] {
                    match it.next() {
                        Some((p, k, v)) => got.push((p.raw(), k.t.id, v.key())),
                        None => {
                            cx.check(it.next().is_none(), "iter", || "drain goes on after its end".into());
                            break
                        }
                    }
                }
                drop(it);
                b.kill_all();
                self.ins_only = true;
                cx.eq("iter", "drained", got.clone(), want[..got.len().min(want.len())].to_vec());
                vec![got.len() as i64]
            }
            "into" if a[1] == 2 => {
                self.a = OrdArena::with_capacity(a[0] as usize);
                b.restart();
                self.ins_only = true;
                vec![]
            }
            "into" => {
                let x = std::mem::replace(&mut self.a, OrdArena::new());
                let want: Vec<(Raw, i64, T2)> = x.iter().map(|x| (x.0.raw(), x.1.t.id, x.2.key())).collect();
                let mut got = vec![];
                let mut it = if a[1] == 0 { x.into_iter() } else { x.capacity_drain() };
                for _ in 0..a[0] {
                    match it.next() {
                        Some((p, k, v)) => got.push((p.raw(), k.t.id, v.key())),
                        None => break,
                    }
                }
                drop(it);
                b.restart();
                self.ins_only = true;
                cx.eq("iter", "consumed", got.clone(), want[..got.len().min(want.len())].to_vec());
                vec![got.len() as i64]
            }
            _ => panic!("unknown operation {o}"),
        }
    }

    fn look(&mut self, b: &Book<P>, s: &Value, deep: bool, cx: &mut Cx) {
        let e = expected(s);
        let ins = self.ins_only;
        look(&mut self.a, b, &e, ins, cx, None);
        if let Err(x) = OrdArena::_check_invariants(&self.a) {
            cx.fail("inv", x);
        }
        if !deep || !cx.divs.is_empty() {
            return
        }
        if WILD.load(At::Relaxed) {
            return wild(&self.a, cx)
        }
        let want: Vec<(P, (Key, Tok))> = e
            .seq
            .iter()
            .map(|h| (b.p(*h), e.live[h].v))
            .map(|(p, v)| (p, (self.a.get_key(p).unwrap().clone(), Tok::new(v.0, v.1))))
            .collect();
        check_text(&self.a, &text(|f| f.debug_map().entries(want.iter().map(|x| (&x.0, &x.1))).finish()), cx);
        drop(want);
        let new = A::<P>::default();
        cx.eq(
            "len",
            "default arena",
            (new.len(), new.is_empty(), new.capacity(), new.generation()),
            (0, true, 0, A::<P>::new().generation()),
        );
        // clones
        let mut c = self.a.clone();
        look(&mut c, b, &e, ins, cx, Some("clone"));
        cx.check(c == self.a && c.cmp(&self.a) == Ordering::Equal, "eq", || "clone differs from its source".into());
        cx.eq("clone", "capacity of a clone", c.capacity(), self.a.capacity());
        cx.eq("clone", "generation of a clone", P::gen_num(c.generation()), P::gen_num(self.a.generation()));
        for h in &e.seq {
            let p = b.p(*h);
            c.get_val_mut(p).map(|t| t.c += 5);
            cx.check(c != self.a, "eq", || "arenas with different values compare equal".into());
            cx.check(c.cmp(&self.a) == Ordering::Greater, "eq", || "cmp ignores a value".into());
            cx.check(self.a.partial_cmp(&c) == Some(Ordering::Less), "eq", || "partial_cmp ignores a value".into());
            c.get_val_mut(p).map(|t| t.c -= 5);
        }
        if let Some(h) = e.seq.last() {
            cx.eq("clone", "source after writing the clone", self.a.get_val(b.p(*h)).map(|t| t.key()), Some(e.live[h].v));
            let _ = c.remove(b.p(*h));
            cx.check(c != self.a && self.a != c, "eq", || "arenas with different entries compare equal".into());
            cx.eq("eq", "cmp with a prefix", c.cmp(&self.a), Ordering::Less);
            cx.eq("eq", "partial_cmp with a prefix", self.a.partial_cmp(&c), Some(Ordering::Greater));
        }
        fill(&mut c, &mut Book::default(), cx, Some("clone"));
        look(&mut self.a, b, &e, ins, cx, Some("clone"));
        drop(c);
        // conversions
        let seq: Vec<P> = e.seq.iter().map(|h| b.p(*h)).collect();
        let mut want: Vec<(Raw, (i64, T2))> =
            e.live.iter().map(|(h, r)| (b.p(*h).raw(), (r.kt, r.v))).collect();
        want.sort();
        let g = P::gen_num(self.a.generation());
        let mut d: Arena<P, (i64, T2)> = Arena::new();
        for _ in 0..3 {
            d.insert((-1, (-1, -1)));
        }
        let want_cap = d.capacity().max(self.a.capacity());
        let mut calls = 0;
        self.a.clone_to_arena(&mut d, |p, k, v| {
            calls += 1;
            if self.a.get(p) != Some((k, v)) {
                return (-9, (-9, -9))
            }
            (k.t.id, v.key())
        });
        cx.eq("clone", "calls of the map", calls, e.live.len());
        let mut got: Vec<_> = d.iter().map(|(p, k)| (p.raw(), *k)).collect();
        got.sort();
        cx.eq("clone", "clone_to_arena", got, want.clone());
        cx.eq("clone", "clone_to_arena capacity", d.capacity(), want_cap);
        cx.eq("clone", "clone_to_arena generation", P::gen_num(d.generation()), g);
        let mut d: ChainArena<P, (i64, T2)> = ChainArena::new();
        d.insert_new((-1, (-1, -1)));
        self.a.clone_to_chain_arena(&mut d, |_, k, v| (k.t.id, v.key()));
        if let Err(x) = ChainArena::_check_invariants(&d) {
            cx.fail("clone", format!("clone_to_chain_arena: {x}"));
        }
        let mut got: Vec<_> = d.iter().map(|(p, l)| (p.raw(), l.t)).collect();
        got.sort();
        cx.eq("clone", "clone_to_chain_arena", got, want);
        for i in 0..seq.len() {
            let l = d.get_link(seq[i]).map(|l| l.prev_next());
            let w = (if i == 0 { None } else { Some(seq[i - 1]) }, seq.get(i + 1).copied());
            cx.eq("clone", "links of clone_to_chain_arena", l, Some(w));
        }
        cx.eq("clone", "clone_to_chain_arena generation", P::gen_num(d.generation()), g);
        // an equal key replaces the value of one of the equal entries
        for h in &e.seq {
            let mut c = self.a.clone();
            let n = c.get_key(b.p(*h)).unwrap().n;
            let (p, old) = c.insert(Key { n, t: Tok::new(-3, 0) }, Tok::new(-4, 0));
            let g = b.h(p);
            if !e.live.contains_key(&g) || e.live[&g].kc != e.live[h].kc {
                cx.fail("find", format!("insertion of an equal key at {p:?}"));
                continue
            }
            cx.eq(
                "find",
                "pair handed back for an equal key",
                old.map(|x| (x.0.t.id, x.1.key())),
                Some((-3, e.live[&g].v)),
            );
            cx.eq("find", "len after inserting an equal key", c.len(), e.live.len());
            for (h2, r) in &e.live {
                let want = if *h2 == g { (-4, 0) } else { r.v };
                cx.eq("find", "after inserting an equal key", c.get(b.p(*h2)).map(|x| (x.0.t.id, x.1.key())), Some((r.kt, want)));
            }
        }
        // collecting
        let mut pairs: Vec<(Key, Tok)> = self.a.iter().map(|x| (x.1.clone(), x.2.clone())).collect();
        pairs.rotate_left(e.seq.len() / 2);
        let mut want: Vec<(i128, i64, T2)> = vec![];
        for (k, v) in &pairs {
            match want.iter_mut().find(|x| x.0 == k.n) {
                Some(x) => x.2 = v.key(),
                None => want.push((k.n, k.t.id, v.key())),
            }
        }
        want.sort();
        let c: A<P> = Hinted(pairs.into_iter(), self.a.capacity()).collect();
        cx.eq("find", "from_iter", c.iter().map(|x| (x.1.n, x.1.t.id, x.2.key())).collect::<Vec<_>>(), want);
        drop(c);
        // serialization
        let comp = compressed(&self.a);
        #[cfg(feature = "ser")]
        {
            cx.eq("serde", "serializable to json", serde_json::to_string(&self.a).is_ok(), comp);
            cx.eq("serde", "serializable to bincode", bincode::serialize(&self.a).is_ok(), comp);
            cx.eq("serde", "serializable to ron", ron::to_string(&self.a).is_ok(), comp);
        }
        if comp {
            for (n, d) in round_trip(&self.a).into_iter().enumerate() {
                let Some(mut d) = d else {
                    cx.fail("serde", format!("format {n}: deserialization failed"));
                    continue
                };
                let mut b2 = reset_book(b, cx);
                look(&mut d, &b2, &e, false, cx, Some("serde"));
                if let Err(x) = OrdArena::_check_invariants(&d) {
                    cx.fail("serde", x);
                }
                fill(&mut d, &mut b2, cx, Some("serde"));
                for (h, r) in &e.live {
                    cx.eq("serde", "remove", d.remove(b2.p(*h)).map(|x| (x.0.t.id, x.1.key())), Some((r.kt, r.v)));
                    if let Err(x) = OrdArena::_check_invariants(&d) {
                        cx.fail("serde", x);
                    }
                }
            }
        }
    }

    fn last(&mut self, b: &mut Book<P>, _s: &Value, cx: &mut Cx) {
        fill(&mut self.a, b, cx, None);
    }

    fn copy(&mut self, src: &Self, v: i64, _b: &Book<P>, cx: &mut Cx) {
        match v {
            0 => self.a.clone_from(&src.a),
            1 => {
                let mut n = 0;
                self.a.clone_from_with(&src.a, |p, t| {
                    n += 1;
                    if src.a.get_val(p) != Some(t) {
                        cx.fail("clone", "clone_from_with passes a wrong pointer");
                    }
                    t.clone()
                });
                cx.eq("clone", "calls of the map", n, src.a.len());
            }
            _ => self.a = src.a.clone(),
        }
        self.ins_only = src.ins_only;
    }

    fn cmp_pair(&mut self, o: &mut Self, _b: &Book<P>, _ob: &Book<P>, s: &Value, os: &Value, cx: &mut Cx) {
        let list = |a: &A<P>, s: &Value| -> Vec<(i128, T2)> {
            let e = expected(s);
            nums(a).into_iter().zip(e.seq.iter().map(|h| e.live[h].v)).collect()
        };
        let (x, y) = (list(&self.a, s), list(&o.a, os));
        cx.eq("eq", "x == y", self.a == o.a, x == y);
        cx.eq("eq", "x != y", self.a != o.a, x != y);
        cx.eq("eq", "y == x", o.a == self.a, x == y);
        cx.eq("eq", "cmp", self.a.cmp(&o.a), x.cmp(&y));
        cx.eq("eq", "reversed cmp", o.a.cmp(&self.a), y.cmp(&x));
        cx.eq("eq", "partial_cmp", self.a.partial_cmp(&o.a), Some(x.cmp(&y)));
        cx.eq("eq", "reversed partial_cmp", o.a.partial_cmp(&self.a), Some(y.cmp(&x)));
        // the same with nothing but the keys to tell entries apart
        let (kx, ky) = (nums(&self.a), nums(&o.a));
        let (mut x, mut y) = (OrdArena::<P, _, ()>::new(), OrdArena::<P, _, ()>::new());
        x.clone_from_with(&self.a, |_, _| ());
        y.clone_from_with(&o.a, |_, _| ());
        cx.eq("eq", "x == y without values", x == y, kx == ky);
        cx.eq("eq", "cmp without values", x.cmp(&y), kx.cmp(&ky));
        cx.eq("eq", "partial_cmp without values", x.partial_cmp(&y), Some(kx.cmp(&ky)));
    }

    fn snapshot(&self, b: &Book<P>) -> Value {
        let live: Vec<Vec<i64>> = b
            .ptrs
            .keys()
            .filter(|h| b.usable(**h))
            .filter_map(|h| self.a.get(b.p(*h)).map(|(k, v)| vec![*h, v.id, v.c, k.t.id, k.t.c]))
            .collect();
        let mut it: Vec<Vec<i64>> = self
            .a
            .iter()
            .take(self.a.len() + 3)
            .map(|(p, k, v)| vec![b.h(p), v.id, v.c, k.t.id, k.t.c])
            .collect();
        let sq: Vec<i64> = it.iter().map(|x| x[0]).collect();
        it.sort();
        json!({"live": live, "it": it, "sq": sq, "cmp": worst(&self.a).min(40)})
    }
}

/// Lookups and insertions of a key that compares to the entries in every
/// conceivable way, whether or not there is an order that explains it. What may
/// happen then is in TraceWild.
fn wild<P: PX>(a: &A<P>, cx: &mut Cx) {
    let rows: Vec<(P, i64, T2)> = a.iter().map(|(p, k, v)| (p, k.t.id, v.key())).collect();
    let n = rows.len();
    let at = |x: i64| rows.iter().position(|y| y.1 == x).unwrap();
    let mut starts: Vec<P> = rows.iter().map(|x| x.0).collect();
    starts.push(P::invalid());
    let limits = [1, 2, usize::MAX];
    let new = || Key { n: 0, t: Tok::new(-7, 0) };
    for code in 0..3usize.pow(n as u32) {
        let table: BTreeMap<i64, Ordering> = rows
            .iter()
            .enumerate()
            .map(|(i, x)| (x.1, [Ordering::Less, Ordering::Equal, Ordering::Greater][code / 3usize.pow(i as u32) % 3]))
            .collect();
        let equals = |seen: &[i64]| -> Vec<P> {
            seen.iter().filter(|x| table[*x] == Ordering::Equal).map(|x| rows[at(*x)].0).collect()
        };
        // lookups
        let find = |(r, seen): (Result<Option<P>, String>, Vec<i64>), what: &str, cx: &mut Cx| {
            let eq = equals(&seen);
            let ok = match r {
                Ok(Some(p)) => eq.contains(&p),
                Ok(None) => eq.is_empty(),
                Err(_) => false,
            };
            cx.check(ok, "wild", || format!("{what} gives {r:?} after comparisons with {seen:?} answered as {table:?}"));
        };
        let similar = |(r, seen): (Result<Option<(P, Ordering)>, String>, Vec<i64>), what: &str, cx: &mut Cx| {
            let ok = match r {
                Ok(Some((p, o))) => seen.iter().any(|x| rows[at(*x)].0 == p && table[x] == o),
                Ok(None) => n == 0,
                Err(_) => false,
            };
            cx.check(ok, "wild", || format!("{what} gives {r:?} after comparisons with {seen:?} answered as {table:?}"));
        };
        let k = new();
        find(answering(&table, || a.find_key(&k)), "find_key", cx);
        similar(answering(&table, || a.find_similar_key(&k)), "find_similar_key", cx);
        for p in &starts {
            for l in limits {
                find(answering(&table, || a.find_key_linear(*p, l, &k)), "find_key_linear", cx);
                similar(answering(&table, || a.find_similar_key_linear(*p, l, &k)), "find_similar_key_linear", cx);
            }
        }
        let tell = |seen: &RefCell<Vec<i64>>, k: &Key| {
            seen.borrow_mut().push(k.t.id);
            table[&k.t.id]
        };
        let seen = RefCell::new(vec![]);
        let r = guard(|| a.find_with(|_, k, _| tell(&seen, k)));
        find((r, seen.take()), "find_with", cx);
        let r = guard(|| a.find_similar_with(|_, k, _| tell(&seen, k)));
        similar((r, seen.take()), "find_similar_with", cx);
        // insertions
        for v in 0..4 {
            for p in if v < 2 { &starts[..1] } else { &starts } {
                for l in if v < 2 { &limits[..1] } else { &limits } {
                    let mut c = a.clone();
                    let (r, seen) = answering(&table, || match v {
                        0 => c.insert(new(), Tok::new(-8, 0)),
                        1 => (c.insert_nonhereditary(new(), Tok::new(-8, 0)), None),
                        2 => c.insert_linear(*p, *l, new(), Tok::new(-8, 0)),
                        _ => (c.insert_nonhereditary_linear(*p, *l, new(), Tok::new(-8, 0)), None),
                    });
                    let got: Vec<(P, i64, T2)> =
                        c.iter().take(n + 3).map(|(p, k, v)| (p, k.t.id, v.key())).collect();
                    let eq = equals(&seen);
                    let ok = match r {
                        Ok((p, Some((k, old)))) => {
                            let i = rows.iter().position(|x| x.0 == p);
                            let mut want = rows.clone();
                            if let Some(i) = i {
                                want[i].2 = (-8, 0);
                            }
                            v % 2 == 0 && eq.contains(&p) && k.t.id == -7 && old.key() == rows[i.unwrap()].2 && got == want
                        }
                        Ok((p, None)) => {
                            let with = |i: usize| {
                                let mut want = rows.clone();
                                want.insert(i, (p, -7, (-8, 0)));
                                want
                            };
                            (v % 2 == 1 || eq.is_empty())
                                && (n == 0 && got == with(0)
                                    || seen.iter().any(|x| {
                                        table[x] != Ordering::Greater && got == with(at(*x))
                                            || table[x] != Ordering::Less && got == with(at(*x) + 1)
                                    }))
                        }
                        Err(_) => false,
                    };
                    let back: Vec<P> = std::iter::successors(c.last(), |p| c.get_link(*p).and_then(|l| l.prev()))
                        .take(n + 3)
                        .collect();
                    let ok = ok && back.iter().rev().eq(got.iter().map(|x| &x.0));
                    cx.check(ok, "wild", || {
                        format!("insertion {v} from {p:?} within {l} after comparisons with {seen:?} answered as {table:?}: {got:?}")
                    });
                }
            }
        }
    }
}

/// the largest number of comparisons of a lookup
fn worst<P: PX>(a: &A<P>) -> u64 {
    let ks = nums(a);
    let mut m = 0;
    for i in 0..=ks.len() {
        m = m.max(counted(|| a.find_key(&probe(gap(&ks, i)))).1);
        if i < ks.len() {
            m = m.max(counted(|| a.find_key(&probe(ks[i]))).1);
        }
    }
    m
}

impl<P: PX + Recast<P>> Walk for O<P> {
    const ORDERED: bool = true;

    fn start(&self, _kind: i64, p: Option<P>) -> Adv<Self> {
        let mut adv = match p {
            None => self.a.advancer(),
            Some(p) => self.a.advancer_starting_from(p),
        };
        Box::new(move |k| adv.advance(&k.a))
    }
}

// ---------------------------------------------------------------------------
// recording

fn random_step<P: PX + Recast<P>>(s: &mut Run<O<P>>, target: usize) -> bool {
    let len = s.k.a.len();
    let grow = if len < target { 16 } else { 4 };
    let (h, h2) = (s.b.any(&mut s.r), s.b.any(&mut s.r));
    let w = [grow, grow / 3, 2, 8, 2, 2, 2, 2, 2, 2, 2];
    let k = s.r.weighted(&w);
    // a gap between different keys
    let ks = nums(&s.k.a);
    let mut g = s.r.below(len + 1);
    while g > 0 && g < len && ks[g - 1] == ks[g] {
        g += 1;
    }
    let v = s.r.below(4) as i64;
    let num = s.r.pick(&[0i64, 1, 2, 5, 100]);
    if len == 0 || k == 0 {
        if len == 0 && s.r.chance(1, 3) {
            return s.op("oemp", vec![])
        }
        return s.op("oins", vec![g as i64, v, h.unwrap_or(0), num])
    }
    let (h, h2) = (h.unwrap(), h2.unwrap());
    let l = s.b.any_live(&mut s.r).unwrap();
    match k {
        1 => s.op("oeq", vec![l, v, h, num, -1, 0, 1 << 30]),
        2 => {
            let d = s.r.below(3) as i64;
            s.op("oman", vec![l, d, 1])
        }
        3 => s.op("rem", vec![h]),
        4 => s.op("inv", vec![h]),
        5 => s.op("ru", vec![h]),
        6 => s.op("rk", vec![h]),
        7 => {
            let v = s.r.below(3) as i64;
            s.op("set", vec![h, v])
        }
        8 => s.op("swap", vec![h, h2]),
        9 => s.op("get2", vec![h, h2]),
        _ => match s.r.below(16) {
            0 => s.op("clear", vec![]),
            1 => s.op("cshr", vec![]),
            2..=5 => {
                let v = s.r.below(3) as i64;
                s.op("comp", vec![v])
            }
            6 => {
                let n = s.r.below(len + 2) as i64;
                s.op("drain", vec![n])
            }
            7 => {
                let n = s.r.below(len + 2) as i64;
                s.op("into", vec![n, v % 2])
            }
            8..=11 => {
                let n = s.r.below(4);
                if s.k.a.capacity() + n < P::max_inx() {
                    s.op("res", vec![n as i64])
                } else {
                    true
                }
            }
            _ => s.op("seta", vec![0]),
        },
    }
}

fn record(args: &Args) {
    quiet_panics();
    let seed = args.n("seed", 1) as u64;
    let mult = args.n("mult", 1) as usize;
    let mut rec = Recorder::default();
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ 0x0bd);
    for i in 0..(3 * mult) {
        let t = 5 + 4 * (i % 4);
        session::<O<PD>>(&mut rec, r.next(), 300, 2, |s| random_step(s, t));
    }
    for _ in 0..mult {
        session::<O<PD>>(&mut rec, r.next(), 400, 5, |s| random_step(s, 60));
        session::<O<PS>>(&mut rec, r.next(), 300, 3, |s| random_step(s, 8));
        session::<O<PN>>(&mut rec, r.next(), 200, 3, |s| random_step(s, 8));
    }
    rec.save(&args.s("record", "trace.ndjson"));
}

/// Tries to make lookups expensive. Every event says how many entries there
/// are, whether there were only insertions, and the cost of the worst lookup.
fn balance(args: &Args) {
    quiet_panics();
    let seed = args.n("seed", 1) as u64;
    let mult = args.n("mult", 1) as usize;
    let mut rec = Recorder::default();
    let mut r = Rng(seed ^ 0xba1a);
    let mut sizes = vec![3usize, 7, 12, 20, 33, 54, 88, 143, 232, 376];
    if mult > 1 {
        sizes.extend([609, 986, 1596, 2583]);
    }
    for n in sizes {
        for pat in 0..8 {
            reg_reset();
            let mut a: A<PD> = OrdArena::new();
            let mut next = 0;
            rec.push(json!({"o": "new", "n": 0, "c": 0, "ins": true, "ok": true, "pat": pat, "size": n}));
            let ev = |rec: &mut Recorder, a: &A<PD>, ins: bool, what: &str| {
                let ok = OrdArena::_check_invariants(a).is_ok();
                rec.push(json!({"o": "bal", "n": a.len(), "c": worst(a).min(40), "ins": ins, "ok": ok, "pat": pat, "what": what}));
            };
            // keys are spread so that there is room in between
            for i in 0..n {
                let k = match pat {
                    0 | 4 => i as i128 * STEP / 4096,
                    1 | 5 => -(i as i128) * STEP / 4096,
                    2 | 6 => (r.next() as i128) << 30,
                    // from both sides towards the middle
                    _ => (if i % 2 == 0 { i as i128 } else { (2 * n - i) as i128 }) * STEP / 4096,
                };
                next += 1;
                let _ = a.insert(Key { n: k, t: Tok::new(next, 0) }, Tok::new(next, 0));
                if i % 16 == 0 || i + 1 == n {
                    ev(&mut rec, &a, true, "insert");
                }
            }
            if pat >= 4 {
                a.compress_and_shrink();
                ev(&mut rec, &a, false, "compress");
            }
            match pat % 4 {
                0 | 3 => {
                    // remove the entries that are found fastest
                    while a.len() > 2 {
                        let best = a
                            .iter()
                            .map(|(p, k, _)| (counted(|| a.find_key(k)).1, p.raw().0, p))
                            .min_by_key(|x| (x.0, x.1))
                            .unwrap();
                        a.remove(best.2).unwrap();
                        if a.len() % 4 == 0 {
                            ev(&mut rec, &a, false, "remove the fastest");
                        }
                        if n > 100 && a.len() < n / 4 {
                            break
                        }
                    }
                }
                1 => {
                    // remove the entries next to, but not on, the path to the slowest
                    while a.len() > 2 {
                        let slow = a
                            .iter()
                            .map(|(p, k, _)| (counted(|| a.find_key(k)).1, p.raw().0, k.n))
                            .max_by_key(|x| (x.0, x.1))
                            .unwrap();
                        let mut on = BTreeSet::new();
                        a.find_with(|p, k, _| {
                            on.insert(p.raw());
                            slow.2.cmp(&k.n)
                        });
                        let Some(q) = a.ptrs().find(|p| !on.contains(&p.raw())) else { break };
                        a.remove(q).unwrap();
                        if a.len() % 4 == 0 {
                            ev(&mut rec, &a, false, "remove off the path");
                        }
                        if n > 100 && a.len() < n / 4 {
                            break
                        }
                    }
                }
                _ => {
                    // removals and insertions in turn, drifting
                    for i in 0..(2 * n) {
                        let p = if i % 2 == 0 { a.first() } else { a.ptrs().nth(a.len() / 2) };
                        if let Some(p) = p {
                            a.remove(p).unwrap();
                        }
                        let ks = nums(&a);
                        let g = r.below(ks.len() + 1);
                        next += 1;
                        let k = Key { n: gap(&ks, if i % 3 == 0 { ks.len() } else { g }), t: Tok::new(next, 0) };
                        a.insert_nonhereditary(k, Tok::new(next, 0));
                        if i % 16 == 0 {
                            ev(&mut rec, &a, false, "mixed");
                        }
                    }
                }
            }
        }
    }
    rec.save(&args.s("record", "trace.ndjson"));
}

fn main() {
    let args = Args::get();
    if args.map.contains_key("balance") {
        return balance(&args)
    }
    if args.map.contains_key("record") {
        return record(&args)
    }
    if args.map.contains_key("de") {
        return replay_main(&args, &[
            ("json", run_format::<0, One<O<PD>>>),
            ("bincode-narrow", run_format::<1, One<O<PS>>>),
            ("ron-nogen", run_format::<2, One<O<PN>>>),
        ])
    }
    if args.map.contains_key("pair") {
        return replay_main(&args, &[
            ("default", run_line::<Pair<O<PD>>>),
            ("narrow", run_line::<Pair<O<PS>>>),
        ])
    }
    if args.map.contains_key("loop") {
        return replay_main(&args, &[
            ("default", run_line::<Loop<O<PD>>>),
            ("nogen", run_line::<Loop<O<PN>>>),
            ("narrow", run_line::<Loop<O<PS>>>),
        ])
    }
    if args.map.contains_key("wild") {
        WILD.store(true, At::Relaxed);
        return replay_main(&args, &[("default", run_line::<One<O<PD>>>)])
    }
    replay_main(&args, &[
        ("default", run_line::<One<O<PD>>>),
        ("nogen", run_line::<One<O<PN>>>),
        ("narrow", run_line::<One<O<PS>>>),
    ]);
}

