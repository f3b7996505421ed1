//! Basic arena: replay of MCArena behaviours and recording for TraceArena.

use harness::{ptrs::*, *};
use std::collections::BTreeMap;
use triple_arena::{Advancer, Arena, Recast};

struct A<P: PX> {
    a: Arena<P, Tok>,
}

type Exp = BTreeMap<i64, (i64, i64)>;

fn expected(s: &Value) -> Exp {
    rows(&s["live"]).into_iter().map(|x| (x[0], (x[1], x[2]))).collect()
}

/// checks what `a` shows for the pointers in `b` against `exp`
fn look<P: PX>(a: &mut Arena<P, Tok>, b: &Book<P>, exp: &Exp, cx: &mut Cx, tag: Option<&'static str>) {
    let cl = |c: &'static str| tag.unwrap_or(c);
    cx.eq(cl("len"), "len", a.len(), exp.len());
    cx.eq(cl("len"), "is_empty", a.is_empty(), exp.is_empty());
    for (k, e) in exp {
        let p = b.p(*k);
        if !a.contains(p) {
            cx.fail(cl("valid"), format!("contains({p:?}) is false, entry {e:?} is live"));
        }
        cx.eq(cl("valid"), "get", a.get(p).map(|t| t.key()), Some(*e));
        cx.eq(cl("valid"), "get_mut", a.get_mut(p).map(|t| t.key()), Some(*e));
        if a.contains(p) {
            cx.eq(cl("valid"), "index", a[p].key(), *e);
            cx.eq(cl("valid"), "index_mut", (&mut a[&p]).key(), *e);
        }
        let g = a.get_no_gen(p.inx()).map(|x| (P::gen_num(x.0), x.1.key()));
        cx.eq(cl("valid"), "get_no_gen", g, Some((P::gen_num(p.generation()), *e)));
        let g = a.get_no_gen_mut(p.inx()).map(|x| (P::gen_num(x.0), x.1.key()));
        cx.eq(cl("valid"), "get_no_gen_mut", g, Some((P::gen_num(p.generation()), *e)));
        if a.contains(p) {
            cx.eq(cl("valid"), "get_inx_unwrap", a.get_inx_unwrap(p.inx()).key(), *e);
            cx.eq(cl("valid"), "get_inx_mut_unwrap", a.get_inx_mut_unwrap(p.inx()).key(), *e);
        }
    }
    let dead = b.dead();
    for (n, p) in dead.iter().enumerate() {
        let p = *p;
        if a.contains(p) || a.get(p).is_some() || a.get_mut(p).is_some() {
            cx.fail(cl("stale"), format!("invalid pointer {p:?} is accepted"));
        }
        if n < 2 {
            if guard(|| a[p].key()).is_ok() || guard(|| (&mut a[p]).key()).is_ok() {
                cx.fail(cl("stale"), format!("indexing with invalid {p:?} succeeds"));
            }
        }
    }
    // iterators
    let mut want: Vec<((usize, u64), (i64, i64))> = exp.iter().map(|(k, e)| (b.p(*k).raw(), *e)).collect();
    want.sort();
    let bound = 2 * exp.len() + 5;
    let mut wantv: Vec<(i64, i64)> = exp.values().cloned().collect();
    wantv.sort();
    macro_rules! it {
        ($name:expr, $it:expr) => {{
            let mut v: Vec<_> = $it.take(bound).map(|(p, t)| (p.raw(), t.key())).collect();
            v.sort();
            cx.eq(cl("iter"), $name, v, want.clone());
        }};
    }
    macro_rules! itv {
        ($name:expr, $it:expr) => {{
            let mut v: Vec<_> = $it.take(bound).map(|t| t.key()).collect();
            v.sort();
            cx.eq(cl("iter"), $name, v, wantv.clone());
        }};
    }
    it!("iter", a.iter());
    it!("iter_mut", a.iter_mut());
    it!("&into_iter", (&*a).into_iter());
    it!("&mut into_iter", (&mut *a).into_iter());
    itv!("vals", a.vals());
    itv!("vals_mut", a.vals_mut());
    let wantp: Vec<_> = want.iter().map(|x| x.0).collect();
    let mut v: Vec<_> = a.ptrs().take(bound).map(|p| p.raw()).collect();
    v.sort();
    cx.eq(cl("iter"), "ptrs", v, wantp.clone());
    let mut adv = a.advancer();
    let mut v = vec![];
    while let Some(p) = adv.advance(a) {
        v.push(p.raw());
        if v.len() > bound {
            break
        }
    }
    v.sort();
    cx.eq(cl("iter"), "advancer", v, wantp);
}

/// counts how many non growing insertions succeed; the new pointers must be
/// different from all those in `b`
fn fill<P: PX>(a: &mut Arena<P, Tok>, b: &mut Book<P>, cx: &mut Cx, tag: Option<&'static str>) {
    let cl = |c: &'static str| tag.unwrap_or(c);
    let (cap, len) = (a.capacity(), a.len());
    let mut n = 0;
    let mut got = vec![];
    loop {
        match a.try_insert(Tok::new(1_000_000 + n, 0)) {
            Ok(p) => {
                b.issue(p, cx);
                got.push(p);
                n += 1;
            }
            Err(t) => {
                cx.eq(cl("accept"), "value handed back", t.key(), (1_000_000 + n, 0));
                break
            }
        }
        if n as usize > cap + 3 {
            break
        }
    }
    cx.eq(cl("free"), "non-growing insertions", n as usize, cap.wrapping_sub(len));
    cx.eq(cl("cap"), "capacity after filling", a.capacity(), cap);
    cx.eq(cl("len"), "len after filling", a.len(), cap);
    for (k, p) in got.iter().enumerate() {
        cx.eq(cl("valid"), "filled", a.get(*p).map(|t| t.id), Some(1_000_000 + k as i64));
    }
}

/// the pairs of old and new handles of a compression, and checks of its
/// callback; `toks` are the contents of the entries before
pub fn old_toks<P: PX>(a: &Arena<P, Tok>, b: &Book<P>) -> BTreeMap<(usize, u64), (i64, i64)> {
    b.live_ptrs().into_iter().filter_map(|(_, p)| a.get(p).map(|t| (p.raw(), t.key()))).collect()
}

/// a serialized arena with these indices
fn input<P: PX>(a: &[i64]) -> V {
    V::Map(a.iter().enumerate().map(|(i, x)| (index::<P>(*x), tok(i as i64 + 1))).collect())
}

impl<P: PX + Recast<P>> Kind for A<P> {
    type P = P;

    fn new() -> Self {
        A { a: Arena::new() }
    }

    fn nargs(o: &str) -> usize {
        match o {
            "rem" | "inv" | "rk" | "ru" | "set" => 1,
            "swap" | "get2" => 2,
            _ => 0,
        }
    }

    fn scal(&self) -> Scal {
        Scal {
            len: self.a.len(),
            cap: self.a.capacity(),
            gen: P::gen_num(self.a.generation()),
            vlen: 0,
            vcap: None,
        }
    }

    fn ids(s: &Value) -> Vec<i64> {
        expected(s).values().map(|e| e.0).collect()
    }

    fn call(&mut self, b: &mut Book<P>, o: &str, a: &[i64], p: &[Option<P>], cx: &mut Cx) -> Vec<i64> {
        let id = b.nt + 1;
        let p = |i: usize| p[i].unwrap();
        match o {
            "ins" => {
                let before = reg_alive_count();
                let got: Option<P> = match a[0] {
                    0 => Some(self.a.insert(Tok::new(id, 0))),
                    1 => {
                        let mut seen = None;
                        let q = self.a.insert_with(|p| {
                            seen = Some(p);
                            Tok::new(id, 0)
                        });
                        cx.eq("ret", "pointer given to create", seen, Some(q));
                        Some(q)
                    }
                    2 => match self.a.try_insert(Tok::new(id, 0)) {
                        Ok(q) => Some(q),
                        Err(t) => {
                            cx.eq("accept", "returned value", t.key(), (id, 0));
                            None
                        }
                    },
                    _ => {
                        let seen = std::cell::Cell::new(None);
                        let res = self.a.try_insert_with(|p| {
                            seen.set(Some(p));
                            Tok::new(id, 0)
                        });
                        match res {
                            Ok(q) => {
                                cx.eq("ret", "pointer given to create", seen.get(), Some(q));
                                Some(q)
                            }
                            Err(create) => {
                                cx.eq("accept", "create was called", seen.get(), None);
                                // the constructor is handed back unused
                                cx.eq("accept", "returned constructor", create(P::invalid()).id, id);
                                None
                            }
                        }
                    }
                };
                match got {
                    Some(q) => {
                        b.nt += 1;
                        vec![b.issue(q, cx), id]
                    }
                    None => {
                        cx.eq("drops", "values after failed insertion", reg_alive_count(), before);
                        vec![0]
                    }
                }
            }
            "de" => match decode(&input::<P>(a), cx) {
                Some(x) => {
                    self.a = x;
                    let mut ix = a.to_vec();
                    ix.sort();
                    for i in ix {
                        b.issue(P::make(i as usize, 2), cx);
                    }
                    b.nt = a.len() as i64;
                    vec![1]
                }
                None => vec![0],
            },
            "dex" => vec![broken::<Arena<P, Tok>>(&input::<P>(&a[1..]), a[0])],
            "insx" => {
                if a[0] == 1 {
                    self.a.insert_with(|_| panic!("constructor"));
                    vec![]
                } else {
                    match self.a.try_insert_with(|_| panic!("constructor")) {
                        Ok(_) => vec![],
                        Err(_) => vec![0],
                    }
                }
            }
            "rem" => match self.a.remove(p(0)) {
                Some(t) => {
                    b.kill(b.h(p(0)));
                    vec![1, t.id, t.c]
                }
                None => vec![0],
            },
            "inv" => match self.a.invalidate(p(0)) {
                Some(q) => {
                    b.kill(b.h(p(0)));
                    vec![b.issue(q, cx)]
                }
                None => vec![0],
            },
            "rk" => match self.a.replace_and_keep_gen(p(0), Tok::new(id, 0)) {
                Ok(t) => {
                    b.nt += 1;
                    vec![1, id, t.id, t.c]
                }
                Err(t) => {
                    cx.eq("accept", "returned value", t.key(), (id, 0));
                    vec![0]
                }
            },
            "ru" => match self.a.replace_and_update_gen(p(0), Tok::new(id, 0)) {
                Ok((t, q)) => {
                    b.nt += 1;
                    b.kill(b.h(p(0)));
                    vec![b.issue(q, cx), id, t.id, t.c]
                }
                Err(t) => {
                    cx.eq("accept", "returned value", t.key(), (id, 0));
                    vec![0]
                }
            },
            "set" => match a.get(1) {
                Some(1) if self.a.contains(p(0)) => {
                    self.a[p(0)].c += 1;
                    vec![1]
                }
                Some(2) if self.a.contains(p(0)) => {
                    self.a.get_no_gen_mut(p(0).inx()).unwrap().1.c += 1;
                    vec![1]
                }
                _ => vec![self.a.get_mut(p(0)).map(|t| t.c += 1).is_some() as i64],
            },
            "seta" => {
                let mut n = 0;
                let mut f = |t: &mut Tok| {
                    t.c += 1;
                    n += 1
                };
                match a[0] {
                    0 => self.a.vals_mut().for_each(f),
                    1 => self.a.iter_mut().for_each(|(_, t)| f(t)),
                    _ => {
                        for (_, t) in &mut self.a {
                            f(t)
                        }
                    }
                }
                vec![n]
            }
            "swap" => vec![self.a.swap(p(0), p(1)).is_some() as i64],
            "get2" => match self.a.get2_mut(p(0), p(1)) {
                Some((x, y)) => {
                    let v = vec![1, x.id, x.c, y.id, y.c];
                    x.c += 1;
                    y.c += 2;
                    v
                }
                None => vec![0],
            },
            "clear" => {
                self.a.clear();
                b.kill_all();
                vec![]
            }
            "cshr" => {
                self.a.clear_and_shrink();
                b.kill_all();
                vec![]
            }
            "comp" => {
                let toks = old_toks(&self.a, b);
                let mut map: BTreeMap<(usize, u64), P> = BTreeMap::new();
                match a[0] {
                    0 => self.a.compress_and_shrink(),
                    1 => {
                        let mut bad = vec![];
                        self.a.compress_and_shrink_with(|p, t, q| {
                            if toks.get(&p.raw()) != Some(&t.key()) || map.insert(p.raw(), q).is_some() {
                                bad.push(format!("callback({p:?}, {t:?}, {q:?})"));
                            }
                        });
                        for x in bad {
                            cx.fail("comp", x);
                        }
                        cx.eq("comp", "callback calls", map.len(), toks.len());
                    }
                    _ => {
                        let dead = b.dead();
                        let mut c: Arena<P, Held<P>> = Arena::new();
                        c.clone_from_with(&self.a, |p, _| holds(b, p));
                        let rc = self.a.compress_and_shrink_recaster();
                        check_recaster(&rc, b, &dead, &mut map, cx);
                        check_recast(
                            &rc,
                            &map,
                            &dead,
                            c,
                            |c| c.iter().map(|(p, v)| (p, v.clone())).collect(),
                            |c, p| *c.vals_mut().last().unwrap() = vec![Some(p)],
                            cx,
                        );
                    }
                }
                // where the entries are now
                let found: BTreeMap<(i64, i64), P> =
                    self.a.iter().take(toks.len() * 2 + 4).map(|(q, t)| (t.key(), q)).collect();
                rename(b, &toks, &found, &map, a[0] > 0, cx)
            }
            "rmby" => {
                let sel: Vec<P> = a.iter().map(|h| b.p(*h)).collect();
                let want = old_toks(&self.a, b);
                let before = self.a.len();
                let mut calls = vec![];
                self.a.remove_by(|p, t| {
                    calls.push((p.raw(), t.key()));
                    let x = sel.contains(&p);
                    if !x {
                        t.c += 1;
                    }
                    x
                });
                calls.sort();
                cx.eq("rmby", "predicate calls", calls, want.into_iter().collect());
                for h in a {
                    b.kill(*h);
                }
                vec![before as i64 - self.a.len() as i64]
            }
            "rmbx" => {
                // the predicate selects everything and panics at its last call
                let n = a.len();
                let mut called = vec![];
                let arena = &mut self.a;
                let r = guard(|| {
                    arena.remove_by(|p, _| {
                        if called.len() == n {
                            panic!("predicate");
                        }
                        called.push(p.raw());
                        true
                    })
                });
                let mut want: Vec<_> = a.iter().map(|h| b.p(*h).raw()).collect();
                want.sort();
                called.sort();
                if r.is_ok() {
                    cx.fail("rmby", "the panic of the predicate did not get through");
                } else if want != called {
                    cx.abstain = true; // visited in another order
                }
                for h in a {
                    b.kill(*h);
                }
                vec![-1]
            }
            "res" => {
                self.a.reserve(a[0] as usize);
                vec![]
            }
            "drain" => {
                let mut want = old_toks(&self.a, b);
                let mut n = 0;
                {
                    let mut d = self.a.drain();
                    while n < a[0] {
                        match d.next() {
                            Some((p, t)) => {
                                n += 1;
                                cx.eq("iter", "drain", Some(t.key()), want.remove(&p.raw()));
                            }
                            None => {
                                cx.check(d.next().is_none(), "iter", || "drain yields after its end".into());
                                break
                            }
                        }
                    }
                }
                cx.eq("iter", "empty after drain", self.a.len(), 0);
                b.kill_all();
                vec![n]
            }
            "into" if a[1] == 2 => {
                self.a = Arena::with_capacity(a[0] as usize);
                b.restart();
                vec![]
            }
            "into" => {
                let old = std::mem::take(&mut self.a);
                let mut want = old_toks(&old, b);
                let mut n = 0;
                let mut it = if a[1] == 0 { old.into_iter() } else { old.capacity_drain() };
                while n < a[0] {
                    match it.next() {
                        Some((p, t)) => {
                            n += 1;
                            cx.eq("iter", "consuming iterator", Some(t.key()), want.remove(&p.raw()));
                        }
                        None => break,
                    }
                }
                let before = reg_alive_count();
                drop(it);
                cx.eq("drops", "values dropped with the iterator", before - reg_alive_count(), want.len());
                b.restart();
                vec![n]
            }
            _ => panic!("unknown operation {o}"),
        }
    }

    fn look(&mut self, b: &Book<P>, s: &Value, deep: bool, cx: &mut Cx) {
        let exp = expected(s);
        look(&mut self.a, b, &exp, cx, None);
        if !deep {
            return
        }
        if cx.divs.is_empty() {
            let want: Vec<(P, Tok)> =
                self.a.ptrs().map(|p| (p, exp[&b.h(p)])).map(|(p, t)| (p, Tok::new(t.0, t.1))).collect();
            check_text(&self.a, &text(|f| f.debug_map().entries(want.iter().map(|x| (&x.0, &x.1))).finish()), cx);
        }
        let new = Arena::<P, Tok>::default();
        cx.eq(
            "len",
            "default arena",
            (new.len(), new.is_empty(), new.capacity(), new.generation()),
            (0, true, 0, Arena::<P, Tok>::new().generation()),
        );
        // clones
        let mut c = self.a.clone();
        look(&mut c, b, &exp, cx, Some("clone"));
        cx.check(c == self.a, "eq", || "clone differs from its source".into());
        cx.eq("clone", "capacity of a clone", c.capacity(), self.a.capacity());
        cx.eq("clone", "generation of a clone", P::gen_num(c.generation()), P::gen_num(self.a.generation()));
        if let Some(k) = exp.keys().next() {
            let p = b.p(*k);
            c.get_mut(p).map(|t| t.c += 5);
            cx.check(c != self.a, "eq", || "arenas with different contents compare equal".into());
            cx.eq("clone", "source after writing the clone", self.a.get(p).map(|t| t.key()), exp.get(k).copied());
            let _ = c.remove(p);
            cx.check(c != self.a, "eq", || "arenas with different entries compare equal".into());
        }
        fill(&mut c, &mut Book::default(), cx, Some("clone"));
        look(&mut self.a, b, &exp, cx, Some("clone"));
        drop(c);
        // clone assignment to a smaller and a larger destination
        for (n, extra) in [(0usize, 0usize), (3, 1), (7, 0)] {
            for with in [false, true] {
                let mut d: Arena<P, Tok> = Arena::new();
                for i in 0..n {
                    let p = d.insert(Tok::new(-2, 0));
                    if i == 1 {
                        let _ = d.remove(p);
                    }
                }
                d.reserve(extra);
                let want_cap = d.capacity().max(self.a.capacity());
                if with {
                    d.clone_from_with(&self.a, |p, t| {
                        if self.a.get(p) != Some(t) {
                            cx.fail("clone", "clone_from_with passes a wrong pointer");
                        }
                        t.clone()
                    });
                } else {
                    d.clone_from(&self.a);
                }
                cx.eq("clone", "capacity after clone_from", d.capacity(), want_cap);
                look(&mut d, b, &exp, cx, Some("clone"));
                cx.check(d == self.a, "eq", || "clone_from differs from its source".into());
                fill(&mut d, &mut Book::default(), cx, Some("clone"));
            }
        }
        // collecting
        let mut want: Vec<_> = exp.values().cloned().collect();
        let mut d: Arena<P, Tok> = Hinted(self.a.vals().cloned(), self.a.capacity()).collect();
        let mut got: Vec<_> = d.iter().map(|(_, t)| t.key()).collect();
        want.sort();
        got.sort();
        cx.eq("iter", "from_iter", got, want);
        cx.eq("len", "len after from_iter", d.len(), exp.len());
        fill(&mut d, &mut Book::default(), cx, Some("iter"));
        drop(d);
        // serialization
        for (n, d) in round_trip::<Arena<P, Tok>>(&self.a).into_iter().enumerate() {
            let Some(mut d) = d else {
                cx.fail("serde", format!("format {n}: deserialization failed"));
                continue
            };
            let mut b2 = reset_book(b, cx);
            look(&mut d, &b2, &exp, cx, Some("serde"));
            cx.check(d.capacity() >= d.len(), "serde", || "capacity < len".into());
            fill(&mut d, &mut b2, cx, Some("serde"));
            if d.len() < P::max_inx() {
                let more = d.insert(Tok::new(-3, 0));
                cx.check(d.contains(more), "serde", || "insertion after deserialization".into());
            }
            for k in exp.keys() {
                cx.eq("serde", "remove", d.remove(b2.p(*k)).map(|t| t.key()), exp.get(k).copied());
            }
        }
    }

    fn last(&mut self, b: &mut Book<P>, _s: &Value, cx: &mut Cx) {
        if let Err(e) = Arena::_check_invariants(&self.a) {
            cx.fail("inv", e);
        }
        fill(&mut self.a, b, cx, None);
    }

    fn copy(&mut self, src: &Self, v: i64, _b: &Book<P>, cx: &mut Cx) {
        match v {
            0 => self.a.clone_from(&src.a),
            1 => {
                let mut n = 0;
                self.a.clone_from_with(&src.a, |p, t| {
                    n += 1;
                    if src.a.get(p) != Some(t) {
                        cx.fail("clone", "clone_from_with passes a wrong pointer");
                    }
                    t.clone()
                });
                cx.eq("clone", "calls of the map", n, src.a.len());
            }
            _ => self.a = src.a.clone(),
        }
    }

    fn cmp_pair(&mut self, o: &mut Self, b: &Book<P>, ob: &Book<P>, s: &Value, os: &Value, cx: &mut Cx) {
        let set = |b: &Book<P>, s: &Value| {
            let mut v: Vec<_> = expected(s).into_iter().map(|(h, e)| (b.p(h).raw(), e)).collect();
            v.sort();
            v
        };
        let same = set(b, s) == set(ob, os);
        cx.eq("eq", "x == y", self.a == o.a, same);
        cx.eq("eq", "y == x", o.a == self.a, same);
        cx.eq("eq", "x != y", self.a != o.a, !same);
        cx.check(self.a == self.a, "eq", || "x == x is false".into());
        // the same with nothing but the pointers to tell entries apart
        let ptrs = |b: &Book<P>, s: &Value| set(b, s).into_iter().map(|x| x.0).collect::<Vec<_>>();
        let (mut x, mut y) = (Arena::<P, ()>::new(), Arena::<P, ()>::new());
        x.clone_from_with(&self.a, |_, _| ());
        y.clone_from_with(&o.a, |_, _| ());
        cx.eq("eq", "x == y without contents", x == y, ptrs(b, s) == ptrs(ob, os));
    }

    fn snapshot(&self, b: &Book<P>) -> Value {
        let mut v = vec![];
        for h in b.ptrs.keys() {
            if b.usable(*h) {
                if let Some(t) = self.a.get(b.p(*h)) {
                    v.push(vec![*h, t.id, t.c]);
                }
            }
        }
        let mut w: Vec<Vec<i64>> = self.a.iter().map(|(p, t)| vec![b.h(p), t.id, t.c]).collect();
        w.sort();
        serde_json::json!({"live": v, "it": w})
    }
}

impl<P: PX + Recast<P>> Walk for A<P> {
    fn start(&self, _kind: i64, _p: Option<P>) -> Adv<Self> {
        let mut adv = self.a.advancer();
        Box::new(move |k| adv.advance(&k.a))
    }
}

// ---------------------------------------------------------------------------
// recording

fn random_step<P: PX + Recast<P>>(s: &mut Run<A<P>>, target: usize) -> bool {
    let len = s.k.a.len();
    let grow = if len < target { 12 } else { 3 };
    let (h, h2) = (s.b.any(&mut s.r), s.b.any(&mut s.r));
    let w = [grow, 6, 2, 2, 2, 3, 1, 2, 2];
    if s.r.chance(1, 6) {
        return s.walk()
    }
    let k = s.r.weighted(&w);
    if k == 0 || h.is_none() {
        let v = s.r.below(4) as i64;
        return s.op("ins", vec![v])
    }
    let (h, h2) = (h.unwrap(), h2.unwrap());
    match k {
        1 => s.op("rem", vec![h]),
        2 => s.op("inv", vec![h]),
        3 => s.op("rk", vec![h]),
        4 => s.op("ru", vec![h]),
        5 => s.op("set", vec![h]),
        6 => s.op("swap", vec![h, h2]),
        7 => s.op("get2", vec![h, h2]),
        _ => match s.r.below(14) {
            0 => s.op("clear", vec![]),
            1 => s.op("cshr", vec![]),
            2 | 3 | 4 => {
                let v = s.r.below(3) as i64;
                s.op("comp", vec![v])
            }
            5 | 6 | 7 => {
                let d = s.r.below(6) + 1;
                let hs: Vec<i64> = s.b.live.iter().copied().collect();
                let v: Vec<i64> = hs.into_iter().filter(|_| s.r.chance(1, d)).collect();
                s.op("rmby", v)
            }
            8 => {
                let n = s.r.below(5) as i64;
                if s.k.a.capacity() + (n as usize) < P::max_inx() {
                    s.op("res", vec![n])
                } else {
                    true
                }
            }
            9 | 10 => {
                let n = s.r.below(len + 2) as i64;
                s.op("drain", vec![n])
            }
            11 => {
                let n = s.r.below(len + 2) as i64;
                let v = s.r.below(2) as i64;
                s.op("into", vec![n, v])
            }
            _ => s.op("seta", vec![0]),
        },
    }
}

fn record(args: &Args) {
    quiet_panics();
    let seed = args.n("seed", 1) as u64;
    let mult = args.n("mult", 1) as usize;
    let mut rec = Recorder::default();
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ 0xa4e7a);
    for i in 0..(6 * mult) {
        session::<A<PD>>(&mut rec, r.next(), 200, 2, |s| random_step(s, 3 + 2 * (i % 5)));
    }
    for _ in 0..mult {
        session::<A<PD>>(&mut rec, r.next(), 300, 5, |s| random_step(s, 40));
        session::<A<PS>>(&mut rec, r.next(), 300, 3, |s| random_step(s, 6));
        session::<A<PS>>(&mut rec, r.next(), 900, 60, |s| random_step(s, 300));
        session::<A<PN>>(&mut rec, r.next(), 150, 3, |s| random_step(s, 6));
        session::<A<PNS>>(&mut rec, r.next(), 100, 3, |s| random_step(s, 6));
    }
    rec.save(&args.s("record", "trace.ndjson"));
}

fn main() {
    let args = Args::get();
    if args.map.contains_key("record") {
        return record(&args)
    }
    if args.map.contains_key("de") {
        return replay_main(&args, &[
            ("json", run_format::<0, One<A<PD>>>),
            ("bincode", run_format::<1, One<A<PD>>>),
            ("ron", run_format::<2, One<A<PD>>>),
            ("narrow", run_format::<1, One<A<PS>>>),
            ("wide", run_format::<0, One<A<PW>>>),
            ("nogen", run_format::<2, One<A<PN>>>),
        ])
    }
    if args.map.contains_key("pair") {
        return replay_main(&args, &[
            ("default", run_line::<Pair<A<PD>>>),
            ("narrow", run_line::<Pair<A<PS>>>),
            ("nogen", run_line::<Pair<A<PN>>>),
        ])
    }
    if args.map.contains_key("loop") {
        return replay_main(&args, &[
            ("default", run_line::<Loop<A<PD>>>),
            ("narrow", run_line::<Loop<A<PS>>>),
            ("nogen", run_line::<Loop<A<PN>>>),
        ])
    }
    replay_main(&args, &[
        ("default", run_line::<One<A<PD>>>),
        ("narrow", run_line::<One<A<PS>>>),
        ("wide", run_line::<One<A<PW>>>),
        ("nogen", run_line::<One<A<PN>>>),
    ]);
}
