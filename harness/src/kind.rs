//! One executor per arena kind, used to replay specified behaviours, to record
//! behaviours for validation, and inside pairs of arenas.

use crate::{driver::*, rec::*, record::*, tok::*, PX};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// Which real pointer a handle of the specification stands for.
#[derive(Clone)]
pub struct Book<P: PX> {
    pub ptrs: BTreeMap<i64, P>,
    pub live: BTreeSet<i64>,
    rev: BTreeMap<(usize, u64), i64>,
    pub issued: HashSet<(usize, u64)>,
    pub nh: i64,
    pub nt: i64,
    raw: Vec<Value>,
}

impl<P: PX> Default for Book<P> {
    fn default() -> Self {
        Book {
            ptrs: BTreeMap::new(),
            live: BTreeSet::new(),
            rev: BTreeMap::new(),
            issued: HashSet::new(),
            nh: 0,
            nt: 0,
            raw: vec![],
        }
    }
}

impl<P: PX> Book<P> {
    pub fn p(&self, h: i64) -> P {
        self.ptrs[&h]
    }

    /// a newly issued pointer gets the next handle
    pub fn issue(&mut self, p: P, cx: &mut Cx) -> i64 {
        let raw = p.raw();
        if P::has_gen() {
            if self.issued.contains(&raw) {
                cx.fail("fresh", format!("pointer {p:?} was issued before"));
            }
        } else if self.rev.contains_key(&raw) {
            cx.fail("fresh", format!("pointer {p:?} is already in use"));
        }
        self.issued.insert(raw);
        self.nh += 1;
        let h = self.nh;
        self.ptrs.insert(h, p);
        self.live.insert(h);
        self.rev.insert(raw, h);
        self.raw.push(json!([h, raw.0, raw.1.min(1 << 30)]));
        h
    }

    pub fn token(&mut self) -> i64 {
        self.nt += 1;
        self.nt
    }

    pub fn kill(&mut self, h: i64) {
        if self.live.remove(&h) {
            let raw = self.ptrs[&h].raw();
            if self.rev.get(&raw) == Some(&h) {
                self.rev.remove(&raw);
            }
        }
    }

    pub fn kill_all(&mut self) {
        self.live.clear();
        self.rev.clear();
    }

    /// the history continues with a new arena
    pub fn restart(&mut self) {
        let nt = self.nt;
        *self = Book::default();
        self.nt = nt;
    }

    /// the handle of a valid pointer, -7 if it is none
    pub fn h(&self, p: P) -> i64 {
        self.rev.get(&p.raw()).copied().unwrap_or(-7)
    }

    pub fn h_opt(&self, p: Option<P>) -> i64 {
        p.map(|p| self.h(p)).unwrap_or(0)
    }

    /// handle of the valid pointer with this index
    pub fn h_inx(&self, i: usize) -> i64 {
        self.rev.range((i, 0)..=(i, u64::MAX)).next().map(|x| *x.1).unwrap_or(-7)
    }

    pub fn live_ptrs(&self) -> Vec<(i64, P)> {
        self.live.iter().map(|h| (*h, self.ptrs[h])).collect()
    }

    pub fn live_inx(&self) -> BTreeSet<usize> {
        self.rev.keys().map(|x| x.0).collect()
    }

    /// invalid pointers: every invalidated one, and some never issued
    pub fn dead(&self) -> Vec<P> {
        let live_inx = self.live_inx();
        let mut v = vec![];
        for (h, p) in &self.ptrs {
            if !self.live.contains(h) && (P::has_gen() || !live_inx.contains(&p.raw().0)) {
                v.push(*p);
            }
        }
        if P::has_gen() {
            v.push(P::invalid());
            if let Some(h) = self.live.iter().next() {
                // right slot, generation never issued
                let (i, g) = self.ptrs[h].raw();
                let top = self.issued.iter().map(|x| x.1).max().unwrap_or(g);
                if top.max(g) + 7 < P::max_gen() {
                    v.push(P::make(i, top.max(g) + 7));
                }
                if P::max_inx() > 100_000 {
                    v.push(P::make(P::max_inx(), g));
                    v.push(P::make(1 << 20, g));
                }
                v.extend(P::far(i, g));
                v.extend(P::far(0, g));
            }
        } else if P::max_inx() > 100_000 || !live_inx.contains(&P::max_inx()) {
            v.push(P::invalid());
        }
        v.sort_by_key(|p| p.raw());
        v.dedup();
        v
    }

    /// invalid pointers whose index is not in use either
    pub fn dead_inx(&self) -> Vec<P> {
        let l = self.live_inx();
        self.dead().into_iter().filter(|p| !l.contains(&p.raw().0)).collect()
    }

    /// a sample of `dead()`, at most `n`, preferring slots in use
    pub fn dead_some(&self, n: usize) -> Vec<P> {
        let l = self.live_inx();
        let mut d = self.dead();
        d.sort_by_key(|p| (!l.contains(&p.raw().0), p.raw()));
        d.truncate(n);
        d
    }

    pub fn take_raw(&mut self) -> Value {
        Value::Array(std::mem::take(&mut self.raw))
    }

    // for recording

    pub fn any_live(&self, r: &mut Rng) -> Option<i64> {
        let n = r.below(self.live.len());
        self.live.iter().nth(n).copied()
    }

    /// can the pointer be told apart from valid ones?
    pub fn usable(&self, h: i64) -> bool {
        P::has_gen() || self.live.contains(&h) || self.h_inx(self.p(h).raw().0) == -7
    }

    pub fn any_dead(&self, r: &mut Rng) -> Option<i64> {
        for _ in 0..20 {
            let h = r.below(self.ptrs.len()) as i64 + 1;
            if self.ptrs.contains_key(&h) && !self.live.contains(&h) && self.usable(h) {
                return Some(h)
            }
        }
        None
    }

    /// mostly a live handle
    pub fn any(&self, r: &mut Rng) -> Option<i64> {
        if r.chance(1, 8) {
            self.any_dead(r).or_else(|| self.any_live(r))
        } else {
            self.any_live(r).or_else(|| self.any_dead(r))
        }
    }
}

pub struct Scal {
    pub len: usize,
    pub cap: usize,
    pub gen: Option<u64>,
    /// second pair, for kinds with two parts
    pub vlen: usize,
    pub vcap: Option<usize>,
}

pub trait Kind: Sized {
    type P: PX;
    fn new() -> Self;
    /// number of leading arguments that are handles
    fn nargs(o: &str) -> usize;
    /// is a valid index enough for this operation?
    fn by_index(_o: &str) -> bool {
        false
    }
    /// Executes one operation; `p` are the pointers for the handle arguments.
    fn call(&mut self, b: &mut Book<Self::P>, o: &str, a: &[i64], p: &[Option<Self::P>], cx: &mut Cx) -> Vec<i64>;
    fn scal(&self) -> Scal;
    /// Compares everything that can be seen with the specified state. `deep`
    /// adds clones, conversions and serialization.
    fn look(&mut self, b: &Book<Self::P>, s: &Value, deep: bool, cx: &mut Cx);
    /// ids of the values (and keys) that must be alive
    fn ids(s: &Value) -> Vec<i64>;
    /// non-growing insertions and the like, at the end
    fn last(&mut self, b: &mut Book<Self::P>, s: &Value, cx: &mut Cx);
    /// `self` becomes a clone of `src`, through entry point `v`
    fn copy(&mut self, _src: &Self, _v: i64, _b: &Book<Self::P>, _cx: &mut Cx) {
        unimplemented!()
    }
    /// is `self == other`? compared with what the specification says
    fn cmp_pair(&mut self, _o: &mut Self, _b: &Book<Self::P>, _ob: &Book<Self::P>, _s: &Value, _os: &Value, _cx: &mut Cx) {
    }
    /// fields of a recorded event that show the whole state
    fn snapshot(&self, _b: &Book<Self::P>) -> Value {
        Value::Null
    }
}

/// Runs `op` on `k` in every way its arguments can be resolved.
pub fn exec_op<K: Kind>(k: &mut K, b: &mut Book<K::P>, op: &Op, cx: &mut Cx) {
    let before = k.scal();
    let n = K::nargs(&op.o).min(op.a.len());
    let mut combos: Vec<Vec<Option<K::P>>> = vec![vec![]];
    let mut zero = false;
    for h in &op.a[..n] {
        let cands: Vec<Option<K::P>> = match *h {
            -1 => vec![None],
            0 => {
                zero = true;
                let d = if K::by_index(&op.o) { b.dead_inx() } else { b.dead() };
                d.into_iter().map(Some).collect()
            }
            h => vec![Some(b.p(h))],
        };
        let mut next = vec![];
        for c in &combos {
            for x in &cands {
                let mut c = c.clone();
                c.push(*x);
                next.push(c);
            }
        }
        combos = next;
    }
    let fails = op.r == [0];
    let class = if zero {
        "stale"
    } else if fails {
        "accept"
    } else {
        "ret"
    };
    for c in combos {
        let got = guard(|| k.call(b, &op.o, &op.a, &c, cx));
        match got {
            Ok(v) => {
                if v != op.r {
                    cx.fail(class, format!("{}{:?} with {:?}: got {:?}, specified {:?}", op.o, op.a, c, v, op.r));
                    return
                }
            }
            Err(e) => {
                if op.r != [-1] {
                    cx.fail("panic", format!("{}{:?} with {:?}: {e}", op.o, op.a, c));
                    return
                }
            }
        }
    }
    let after = k.scal();
    let cap = after.cap as i64;
    if cap < op.k.0 || cap > op.k.1 {
        cx.fail("cap", format!("capacity is {cap}, specified {:?}", op.k));
    } else if cap != op.km && op.km >= 0 {
        cx.abstain = true;
    }
    if let Some(vcap) = after.vcap {
        let vcap = vcap as i64;
        if vcap < op.k2.0 || vcap > op.k2.1 {
            cx.fail("cap", format!("capacity for values is {vcap}, specified {:?}", op.k2));
        } else if vcap != op.km2 && op.km2 >= 0 {
            cx.abstain = true;
        }
    }
    if let (Some(x), Some(y), true) = (before.gen, after.gen, op.o != "into") {
        let d = y as i64 - x as i64;
        if d < op.g.0 || d > op.g.1 {
            cx.fail("gen", format!("generation moved by {d}, specified {:?}", op.g));
        }
    }
}

/// Replays behaviours of one arena.
pub struct One<K: Kind> {
    k: K,
    b: Book<K::P>,
}

impl<K: Kind> Sys for One<K> {
    fn new() -> Self {
        One { k: K::new(), b: Book::default() }
    }

    fn exec(&mut self, op: &Op, cx: &mut Cx) {
        exec_op(&mut self.k, &mut self.b, op, cx)
    }

    fn observe(&mut self, s: &Value, cx: &mut Cx) {
        if !cx.divs.is_empty() {
            // still look, to tell which properties are affected, but only if
            // the handles are in step
            if s["nh"].as_i64() != Some(self.b.nh) {
                return
            }
        }
        self.k.look(&self.b, s, cx.divs.is_empty(), cx);
        let mut ids = K::ids(s);
        ids.sort();
        cx.eq("drops", "values alive", reg_alive(), ids);
    }

    fn finish(mut self, s: &Value, cx: &mut Cx) {
        if cx.divs.is_empty() {
            self.k.last(&mut self.b, s, cx);
        }
        drop(self.k);
        cx.eq("drops", "values alive after the arena was dropped", reg_alive(), vec![]);
    }
}

pub type Adv<K> = Box<dyn FnMut(&K) -> Option<<K as Kind>::P>>;
/// Kinds that can be advanced through.
pub trait Walk: Kind {
    /// must entries be yielded in the order in which they are listed?
    const ORDERED: bool = false;
    /// kind 0: everything  1, 3: the chain or set of `p`  2: from `p` on
    fn start(&self, kind: i64, p: Option<Self::P>) -> Adv<Self>;
}

/// Replays loops that advance through an arena while it is modified (AdvOf).
pub struct Loop<K: Walk> {
    one: One<K>,
    adv: Option<Adv<K>>,
    seen: Vec<i64>,
    /// of kind 3
    free: bool,
}

impl<K: Walk> Loop<K> {
    /// advances to the end
    fn end(&mut self, demand: &[i64], cx: &mut Cx) {
        let n = if demand[0] < 0 { 1000 } else { self.one.b.live.len() };
        for _ in 0..=n {
            if !self.step(demand, cx) {
                break
            }
        }
        if self.adv.is_some() && cx.divs.is_empty() {
            cx.fail("adv", "does not end");
        }
        self.adv = None;
    }

    /// one advance, judged by the specified demand; false at the end
    fn step(&mut self, demand: &[i64], cx: &mut Cx) -> bool {
        let Some(adv) = self.adv.as_mut() else { return false };
        if demand[0] < 0 {
            let r = adv(&self.one.k);
            match r {
                Some(p) => cx.check(self.one.b.h(p) != -7, "adv", || format!("yields {p:?}, which is not valid")),
                None => self.adv = None,
            }
            return r.is_some() && cx.divs.is_empty()
        }
        let n = demand[0] as usize;
        let (must, allowed) = (&demand[1..1 + n], &demand[1 + n..]);
        match adv(&self.one.k) {
            Some(p) => {
                let h = self.one.b.h(p);
                if h == -7 {
                    cx.fail("adv", format!("yields {p:?}, which is not valid"));
                } else if self.seen.contains(&h) {
                    cx.fail("adv", format!("yields {p:?} again"));
                } else if !allowed.contains(&h) {
                    cx.fail("adv", format!("yields {p:?}, which does not belong to the walk"));
                }
                if K::ORDERED {
                    let pos = |h: &i64| allowed.iter().position(|x| x == h);
                    if let Some(l) = self.seen.iter().rev().find_map(|x| pos(x)) {
                        if pos(&h) < Some(l) {
                            cx.fail("adv", format!("yields {p:?} out of order"));
                        }
                    }
                }
                self.seen.push(h);
                cx.divs.is_empty()
            }
            None => {
                for h in must {
                    if !self.seen.contains(h) {
                        cx.fail("adv", format!("ends without {:?}, which was valid all the time", self.one.b.p(*h)));
                    }
                }
                self.adv = None;
                false
            }
        }
    }
}

impl<K: Walk> Sys for Loop<K> {
    fn new() -> Self {
        Loop { one: One::new(), adv: None, seen: vec![], free: false }
    }

    fn exec(&mut self, op: &Op, cx: &mut Cx) {
        match op.o.as_str() {
            "astart" => {
                let p = (op.a[1] > 0).then(|| self.one.b.p(op.a[1]));
                self.adv = Some(self.one.k.start(op.a[0], p));
                self.seen.clear();
                self.free = op.a[0] == 3;
            }
            "adv" => {
                self.step(&op.r, cx);
            }
            "afin" => self.end(&op.r, cx),
            _ => exec_op(&mut self.one.k, &mut self.one.b, op, cx),
        }
    }

    fn observe(&mut self, s: &Value, cx: &mut Cx) {
        if self.free {
            self.end(&[-1], cx);
        }
        self.one.observe(s, cx)
    }

    fn finish(self, s: &Value, cx: &mut Cx) {
        self.one.finish(s, cx)
    }
}

/// Replays behaviours of two arenas x and y; operations are named `x.op` and
/// `y.op`, `x.copy` makes x a clone of y.
pub struct Pair<K: Kind> {
    k: [K; 2],
    b: [Book<K::P>; 2],
}

impl<K: Kind> Sys for Pair<K> {
    fn new() -> Self {
        Pair { k: [K::new(), K::new()], b: [Book::default(), Book::default()] }
    }

    fn exec(&mut self, op: &Op, cx: &mut Cx) {
        let i = if op.o.starts_with("x.") { 0 } else { 1 };
        let mut o = op.clone();
        o.o = op.o[2..].to_string();
        if o.o == "copy" {
            let (l, r) = self.k.split_at_mut(1);
            let (dst, src) = if i == 0 { (&mut l[0], &r[0]) } else { (&mut r[0], &l[0]) };
            dst.copy(src, o.a[0], &self.b[1 - i], cx);
            self.b[i] = self.b[1 - i].clone();
            let cap = self.k[i].scal().cap as i64;
            if cap < op.k.0 || cap > op.k.1 {
                cx.fail("clone", format!("capacity is {cap} after cloning, specified {:?}", op.k));
            } else if cap != op.km {
                cx.abstain = true;
            }
            if let Some(c) = self.k[i].scal().vcap {
                let c = c as i64;
                if c < op.k2.0 || c > op.k2.1 {
                    cx.fail("clone", format!("value capacity is {c} after cloning, specified {:?}", op.k2));
                } else if c != op.km2 {
                    cx.abstain = true;
                }
            }
            cx.eq("clone", "generation of a clone", self.k[i].scal().gen, self.k[1 - i].scal().gen);
        } else {
            // tokens are numbered over both
            self.b[i].nt = self.b[0].nt.max(self.b[1].nt);
            exec_op(&mut self.k[i], &mut self.b[i], &o, cx)
        }
    }

    fn observe(&mut self, s: &Value, cx: &mut Cx) {
        let (sx, sy) = (&s["x"], &s["y"]);
        if sx["nh"].as_i64() != Some(self.b[0].nh) || sy["nh"].as_i64() != Some(self.b[1].nh) {
            return
        }
        self.k[0].look(&self.b[0], sx, false, cx);
        self.k[1].look(&self.b[1], sy, false, cx);
        if cx.divs.is_empty() {
            let (l, r) = self.k.split_at_mut(1);
            l[0].cmp_pair(&mut r[0], &self.b[0], &self.b[1], sx, sy, cx);
        }
        let mut ids = K::ids(sx);
        ids.extend(K::ids(sy));
        ids.sort();
        cx.eq("drops", "values alive", reg_alive(), ids);
    }

    fn finish(mut self, s: &Value, cx: &mut Cx) {
        if cx.divs.is_empty() {
            self.k[0].last(&mut self.b[0], &s["x"], cx);
            self.k[1].last(&mut self.b[1], &s["y"], cx);
        }
        let [x, y] = self.k;
        drop(x);
        drop(y);
        cx.eq("drops", "values alive after both were dropped", reg_alive(), vec![]);
    }
}

// ---------------------------------------------------------------------------

/// A recorded run of one arena.
pub struct Run<'a, K: Kind> {
    pub k: K,
    pub b: Book<K::P>,
    pub r: Rng,
    rec: &'a mut Recorder,
    n: usize,
    every: usize,
    pub adv: Option<Adv<K>>,
}

impl<K: Walk> Run<'_, K> {
    /// Starts or continues a loop over the whole arena.
    pub fn walk(&mut self) -> bool {
        let (o, a, h) = match self.adv.as_mut() {
            None => {
                self.adv = Some(self.k.start(0, None));
                ("astart", vec![0, 0], vec![])
            }
            Some(adv) => {
                let p = adv(&self.k);
                if p.is_none() {
                    self.adv = None;
                }
                ("adv", vec![], vec![self.b.h_opt(p)])
            }
        };
        let s = self.k.scal();
        let mut e = json!({"o": o, "a": a, "r": h, "len": s.len, "cap": s.cap,
            "gen": s.gen.unwrap_or(0).min(1 << 30), "raw": []});
        if let Some(c) = s.vcap {
            e["vlen"] = s.vlen.into();
            e["vcap"] = c.into();
        }
        self.rec.push(e);
        true
    }
}

impl<K: Kind> Run<'_, K> {
    /// Executes one operation and records it; false if it panicked.
    pub fn op(&mut self, o: &str, mut a: Vec<i64>) -> bool {
        let n = K::nargs(o).min(a.len());
        let p: Vec<Option<K::P>> =
            a[..n].iter().map(|h| if *h < 0 { None } else { Some(self.b.p(*h)) }).collect();
        let mut cx = Cx::default();
        let (k, b) = (&mut self.k, &mut self.b);
        let res = guard(|| k.call(b, o, &a, &p, &mut cx));
        let ok = res.is_ok();
        if o == "into" {
            self.adv = None;
        }
        if let Some((i, x)) = cx.choice {
            a[i] = x;
        }
        let s = self.k.scal();
        let mut e = json!({"o": o, "a": a, "r": res.clone().unwrap_or(vec![-1]), "len": s.len,
            "cap": s.cap, "gen": s.gen.unwrap_or(0).min(1 << 30), "raw": self.b.take_raw()});
        if let Some(c) = s.vcap {
            e["vlen"] = s.vlen.into();
            e["vcap"] = c.into();
        }
        if let Err(m) = res {
            e["msg"] = m.into();
        }
        if let Some(d) = cx.divs.first() {
            e["div"] = json!([d.class, d.msg]);
        }
        self.n += 1;
        if ok && self.n % self.every == 0 {
            if let Value::Object(m) = self.k.snapshot(&self.b) {
                for (k, v) in m {
                    e[k] = v;
                }
            }
        }
        self.rec.push(e);
        ok
    }
}

/// Records `steps` random operations chosen by `step`.
pub fn session<K: Kind>(
    rec: &mut Recorder,
    seed: u64,
    steps: usize,
    every: usize,
    mut step: impl FnMut(&mut Run<K>) -> bool,
) {
    reg_reset();
    let (mi, mg) = limit_fields::<K::P>();
    rec.push(json!({"o": "new", "mi": mi, "mg": mg}));
    let mut s = Run::<K> { k: K::new(), b: Book::default(), r: Rng(seed), rec, n: 0, every, adv: None };
    for _ in 0..steps {
        if !step(&mut s) && s.k.scal().len < K::P::max_inx() {
            // a generation overflow; what follows is unspecified
            break
        }
    }
    std::mem::forget(s.k);
}
