//! Surjection arenas: replay of MCSurject behaviours and recording for
//! TraceSurject.

use harness::{ptrs::*, *};
use std::{
    collections::{BTreeMap, BTreeSet},
    num::NonZeroUsize,
};
use triple_arena::{
    utils::{ChainNoGenArena, PtrInx},
    Advancer, Arena, ChainArena, Recast, SurjectArena,
};

type Raw = (usize, u64);
type T2 = (i64, i64);

struct S<P: PX> {
    a: SurjectArena<P, Tok, Tok>,
}

/// handle -> key, smallest handle of the set, value
struct Exp {
    live: BTreeMap<i64, (T2, i64, T2)>,
    sets: BTreeMap<i64, BTreeSet<i64>>,
}

fn expected(s: &Value) -> Exp {
    let live: BTreeMap<i64, (T2, i64, T2)> =
        rows(&s["live"]).into_iter().map(|x| (x[0], ((x[1], x[2]), x[3], (x[4], x[5])))).collect();
    let mut sets: BTreeMap<i64, BTreeSet<i64>> = BTreeMap::new();
    for (h, e) in &live {
        sets.entry(e.1).or_default().insert(*h);
    }
    Exp { live, sets }
}

fn inx<P: PX>(i: P::Inx) -> usize {
    PtrInx::get(i).get()
}

/// successor of every key, by index
fn nexts<P: PX>(a: &SurjectArena<P, Tok, Tok>) -> BTreeMap<usize, usize> {
    a.ptrs()
        .take(a.len_keys() + 3)
        .filter_map(|p| {
            let n = a.get_link_no_gen(p.inx())?.1.next()?;
            Some((p.raw().0, inx::<P>(n)))
        })
        .collect()
}

fn look<P: PX>(a: &mut SurjectArena<P, Tok, Tok>, b: &Book<P>, e: &Exp, cx: &mut Cx, tag: Option<&'static str>) {
    let cl = |c: &'static str| tag.unwrap_or(c);
    cx.eq(cl("len"), "len_keys", a.len_keys(), e.live.len());
    cx.eq(cl("len"), "len_vals", a.len_vals(), e.sets.len());
    cx.eq(cl("len"), "is_empty", a.is_empty(), e.live.is_empty());
    for (h, (k, m, v)) in &e.live {
        let p = b.p(*h);
        if !a.contains(p) {
            cx.fail(cl("valid"), format!("contains({p:?}) is false, key {k:?} is live"));
            continue
        }
        cx.eq(cl("valid"), "get_key", a.get_key(p).map(|t| t.key()), Some(*k));
        cx.eq(cl("valid"), "get_key_mut", a.get_key_mut(p).map(|t| t.key()), Some(*k));
        cx.eq(cl("set"), "get_val", a.get_val(p).map(|t| t.key()), Some(*v));
        cx.eq(cl("set"), "get_val_mut", a.get_val_mut(p).map(|t| t.key()), Some(*v));
        cx.eq(cl("set"), "get", a.get(p).map(|x| (x.0.key(), x.1.key())), Some((*k, *v)));
        cx.eq(cl("set"), "get_mut", a.get_mut(p).map(|x| (x.0.key(), x.1.key())), Some((*k, *v)));
        let n = e.sets[m].len();
        cx.eq(cl("set"), "len_key_set", a.len_key_set(p).map(|n| n.get()), Some(n));
        let l = a.get_link_no_gen(p.inx()).map(|x| (P::gen_num(x.0), x.1.t.key()));
        cx.eq(cl("valid"), "get_link_no_gen", l, Some((P::gen_num(p.generation()), *k)));
    }
    if !cx.divs.is_empty() {
        return
    }
    for (h, x) in &e.live {
        for (g, y) in &e.live {
            cx.eq(cl("set"), "in_same_set", a.in_same_set(b.p(*h), b.p(*g)), Some(x.1 == y.1));
        }
    }
    for p in b.dead() {
        if a.contains(p)
            || a.get(p).is_some()
            || a.get_mut(p).is_some()
            || a.get_key(p).is_some()
            || a.get_key_mut(p).is_some()
            || a.get_val(p).is_some()
            || a.get_val_mut(p).is_some()
            || a.len_key_set(p).is_some()
            || a.in_same_set(p, p).is_some()
        {
            cx.fail(cl("stale"), format!("invalid pointer {p:?} is accepted"));
        }
    }
    for p in b.dead_inx() {
        cx.check(a.get_link_no_gen(p.inx()).is_none(), cl("stale"), || format!("link of unused index {p:?}"));
    }
    for p in b.dead_some(3) {
        for h in e.live.keys() {
            let q = b.p(*h);
            if a.in_same_set(p, q).is_some() || a.in_same_set(q, p).is_some() {
                cx.fail(cl("stale"), format!("in_same_set accepts the invalid {p:?} with {q:?}"));
            }
        }
    }
    // a walk from an invalid pointer yields nothing
    for p in b.dead_some(4) {
        let mut adv = a.advancer_surject(p);
        let mut n = 0;
        while n < 9 && adv.advance(a).is_some() {
            n += 1;
        }
        cx.eq(cl("adv"), "walk of an invalid pointer", n, 0);
        match guard(|| a.iter_surject(p).take(9).count()) {
            Ok(n) => cx.eq(cl("adv"), "iter_surject of an invalid pointer", n, 0),
            Err(x) => cx.fail(cl("adv"), format!("iter_surject of an invalid pointer: {x}")),
        }
    }
    // the links of a set form one cycle, in both directions
    let bound = 2 * e.live.len() + 5;
    for (h, (_, m, v)) in &e.live {
        let p = b.p(*h);
        let want: BTreeSet<Raw> = e.sets[m].iter().map(|h| b.p(*h).raw()).collect();
        let wanti: BTreeSet<usize> = want.iter().map(|x| x.0).collect();
        for fwd in [true, false] {
            let mut seen = vec![];
            let mut i = p.inx();
            while seen.len() < bound {
                seen.push(inx::<P>(i));
                let l = a.get_link_no_gen(i).map(|x| if fwd { x.1.next() } else { x.1.prev() });
                match l {
                    Some(Some(j)) => i = j,
                    _ => {
                        cx.fail(cl("link"), format!("no neighbour of index {i:?} in the set of {p:?}"));
                        break
                    }
                }
                if i == p.inx() {
                    break
                }
            }
            cx.eq(cl("link"), "keys on the cycle", seen.len(), wanti.len());
            cx.eq(cl("link"), "cycle", seen.into_iter().collect::<BTreeSet<_>>(), wanti.clone());
        }
        let mut adv = a.advancer_surject(p);
        let mut seen = vec![];
        while let Some(q) = adv.advance(a) {
            seen.push(q.raw());
            if seen.len() > bound {
                break
            }
        }
        cx.eq(cl("walk"), "length of advancer_surject", seen.len(), want.len());
        cx.eq(cl("walk"), "advancer_surject", seen.into_iter().collect::<BTreeSet<_>>(), want.clone());
        let mut seen: Vec<(Raw, T2, T2)> =
            a.iter_surject(p).take(bound).map(|x| (x.0.raw(), x.1.key(), x.2.key())).collect();
        seen.sort();
        let mut want: Vec<(Raw, T2, T2)> = e.sets[m].iter().map(|h| (b.p(*h).raw(), e.live[h].0, *v)).collect();
        want.sort();
        cx.eq(cl("walk"), "iter_surject", seen, want);
    }
    // iterators
    macro_rules! it {
        ($name:expr, $v:expr, $want:expr) => {{
            let mut v = $v;
            v.sort();
            cx.eq(cl("iter"), $name, v, $want);
        }};
    }
    let mut want: Vec<(Raw, T2, T2)> = e.live.iter().map(|(h, x)| (b.p(*h).raw(), x.0, x.2)).collect();
    want.sort();
    it!("iter", a.iter().take(bound).map(|x| (x.0.raw(), x.1.key(), x.2.key())).collect::<Vec<_>>(), want.clone());
    it!(
        "&into_iter",
        (&*a).into_iter().take(bound).map(|x| (x.0.raw(), x.1.key(), x.2.key())).collect::<Vec<_>>(),
        want.clone()
    );
    let wantp: Vec<Raw> = want.iter().map(|x| x.0).collect();
    it!("ptrs", a.ptrs().take(bound).map(|p| p.raw()).collect::<Vec<_>>(), wantp.clone());
    let mut adv = a.advancer();
    let mut seen = vec![];
    while let Some(q) = adv.advance(a) {
        seen.push(q.raw());
        if seen.len() > bound {
            break
        }
    }
    it!("advancer", seen, wantp);
    let mut wantk: Vec<T2> = e.live.values().map(|x| x.0).collect();
    wantk.sort();
    it!("keys", a.keys().take(bound).map(|t| t.key()).collect::<Vec<_>>(), wantk.clone());
    it!("keys_mut", a.keys_mut().take(bound).map(|t| t.key()).collect::<Vec<_>>(), wantk);
    let mut wantv: Vec<T2> = e.sets.keys().map(|h| e.live[h].2).collect();
    wantv.sort();
    it!("vals", a.vals().take(bound).map(|t| t.key()).collect::<Vec<_>>(), wantv.clone());
    it!("vals_mut", a.vals_mut().take(bound).map(|t| t.key()).collect::<Vec<_>>(), wantv);
}

/// insertions that must not grow the arena
fn fill<P: PX>(a: &mut SurjectArena<P, Tok, Tok>, b: &mut Book<P>, cx: &mut Cx, tag: Option<&'static str>) {
    let cl = |c: &'static str| tag.unwrap_or(c);
    let (cap, vcap) = (a.capacity_keys(), a.capacity_vals());
    let (len, vlen) = (a.len_keys(), a.len_vals());
    let nv = vcap.saturating_sub(vlen).min(cap.saturating_sub(len));
    let mut got = vec![];
    for n in 0..nv as i64 {
        let p = a.insert(Tok::new(1_000_000 + n, 0), Tok::new(2_000_000 + n, 0));
        b.issue(p, cx);
        got.push((p, (1_000_000 + n, 2_000_000 + n)));
    }
    if let Some(p) = a.ptrs().next() {
        let v = a.get_val(p).map(|t| t.id).unwrap_or(-1);
        for n in 0..(cap.saturating_sub(len + nv)) as i64 {
            match a.insert_key(p, Tok::new(3_000_000 + n, 0)) {
                Ok(q) => {
                    b.issue(q, cx);
                    got.push((q, (3_000_000 + n, v)));
                }
                Err(_) => cx.fail(cl("free"), "insert_key fails"),
            }
        }
        cx.eq(cl("len"), "len_keys after filling", a.len_keys(), cap.max(len));
    }
    cx.eq(cl("len"), "len_vals after filling", a.len_vals(), vlen + nv);
    cx.eq(cl("free"), "capacities after filling", (a.capacity_keys(), a.capacity_vals()), (cap, vcap));
    for (p, x) in got {
        cx.eq(cl("valid"), "filled", a.get(p).map(|x| (x.0.id, x.1.id)), Some(x));
    }
}

fn toks<P: PX>(a: &SurjectArena<P, Tok, Tok>, b: &Book<P>) -> BTreeMap<Raw, T2> {
    b.live_ptrs().into_iter().filter_map(|(_, p)| a.get_key(p).map(|t| (p.raw(), t.key()))).collect()
}

/// whole sets must be contiguous in this sequence of new pointers
fn contiguous<P: PX>(a: &SurjectArena<P, Tok, Tok>, seq: &[P], cx: &mut Cx, what: &str) {
    let mut done: Vec<T2> = vec![];
    let mut cur = None;
    for p in seq {
        let v = a.get_val(*p).map(|t| t.key());
        if v != cur {
            if let Some(c) = cur {
                done.push(c);
            }
            cur = v;
            if done.contains(&v.unwrap_or((-1, -1))) {
                cx.fail("comp", format!("{what}: the set of {p:?} is not contiguous"));
                return
            }
        }
    }
}

/// a serialized surjection arena with these keys and values
fn input<P: PX>(a: &[i64]) -> V {
    let nk = a[0];
    let (ks, vs) = a[1..].split_at(4 * nk as usize);
    let key = |i: usize, c: &[i64]| {
        let k = V::Tup(vec![tok(i as i64 + 1), index::<P>(c[3])]);
        (index::<P>(c[0]), V::Tup(vec![opt_index::<P>(c[1]), opt_index::<P>(c[2]), k]))
    };
    let val = |i: usize, c: &[i64]| {
        (index::<P>(c[0]), V::Tup(vec![tok(nk + i as i64 + 1), V::N(c[1] as u64)]))
    };
    V::Tup(vec![
        V::Map(ks.chunks(4).enumerate().map(|(i, c)| key(i, c)).collect()),
        V::Map(vs.chunks(2).enumerate().map(|(i, c)| val(i, c)).collect()),
    ])
}

impl<P: PX + Recast<P>> Kind for S<P> {
    type P = P;

    fn new() -> Self {
        S { a: SurjectArena::new() }
    }

    fn nargs(o: &str) -> usize {
        match o {
            "skey" | "skex" | "remk" | "rems" | "inv" | "set" => 1,
            "union" | "swapk" | "swapv" | "g2k" | "g2v" | "g2kv" => 2,
            _ => 0,
        }
    }

    fn scal(&self) -> Scal {
        Scal {
            len: self.a.len_keys(),
            cap: self.a.capacity_keys(),
            gen: P::gen_num(self.a.generation()),
            vlen: self.a.len_vals(),
            vcap: Some(self.a.capacity_vals()),
        }
    }

    fn ids(s: &Value) -> Vec<i64> {
        let e = expected(s);
        let mut v: Vec<i64> = e.live.values().map(|x| x.0 .0).collect();
        v.extend(e.sets.keys().map(|h| e.live[h].2 .0));
        v
    }

    fn call(&mut self, b: &mut Book<P>, o: &str, a: &[i64], ps: &[Option<P>], cx: &mut Cx) -> Vec<i64> {
        let id = b.nt + 1;
        let p = |i: usize| ps[i].unwrap();
        match o {
            "sins" => {
                let q = if a[0] == 0 {
                    self.a.insert(Tok::new(id, 0), Tok::new(id + 1, 0))
                } else {
                    let mut seen = None;
                    let q = self.a.insert_with(|p| {
                        seen = Some(p);
                        (Tok::new(id, 0), Tok::new(id + 1, 0))
                    });
                    cx.eq("ret", "pointer given to create", seen, Some(q));
                    q
                };
                b.nt += 2;
                vec![b.issue(q, cx), id, id + 1]
            }
            "sinx" => {
                self.a.insert_with(|_| panic!("constructor"));
                vec![]
            }
            "skey" => {
                if a[1] == 0 {
                    match self.a.insert_key(p(0), Tok::new(id, 0)) {
                        Ok(q) => {
                            b.nt += 1;
                            vec![b.issue(q, cx), id]
                        }
                        Err(t) => {
                            cx.eq("accept", "returned key", t.key(), (id, 0));
                            vec![0]
                        }
                    }
                } else {
                    let mut seen = None;
                    let r = self.a.insert_key_with(p(0), |q| {
                        seen = Some(q);
                        Tok::new(id, 0)
                    });
                    cx.eq(if r.is_some() { "ret" } else { "accept" }, "pointer given to create", seen, r);
                    match r {
                        Some(q) => {
                            b.nt += 1;
                            vec![b.issue(q, cx), id]
                        }
                        None => vec![0],
                    }
                }
            }
            "de" => match decode(&input::<P>(a), cx) {
                Some(x) => {
                    self.a = x;
                    let nk = a[0] as usize;
                    let mut ix: Vec<i64> = a[1..=4 * nk].chunks(4).map(|c| c[0]).collect();
                    ix.sort();
                    for i in ix {
                        b.issue(P::make(i as usize, 2), cx);
                    }
                    b.nt = a[0] + (a.len() - 4 * nk - 1) as i64 / 2;
                    vec![1]
                }
                None => vec![0],
            },
            "dex" => vec![broken::<SurjectArena<P, Tok, Tok>>(&input::<P>(&a[1..]), a[0])],
            "skex" => match self.a.insert_key_with(p(0), |_| panic!("constructor")) {
                Some(_) => vec![],
                None => vec![0],
            },
            "union" => match self.a.union(p(0), p(1)) {
                Some((v, q)) => vec![1, v.id, v.c, b.h(q)],
                None => vec![0],
            },
            "remk" => match self.a.remove_key(p(0)) {
                Some((k, v)) => {
                    b.kill(b.h(p(0)));
                    let mut r = vec![1, k.id, k.c, v.is_some() as i64];
                    if let Some(v) = v {
                        r.extend([v.id, v.c]);
                    }
                    r
                }
                None => vec![0],
            },
            "rems" => {
                let mem: Vec<i64> = b
                    .live_ptrs()
                    .into_iter()
                    .filter(|x| self.a.in_same_set(x.1, p(0)) == Some(true))
                    .map(|x| x.0)
                    .collect();
                match self.a.remove(p(0)) {
                    Some(v) => {
                        for h in mem {
                            b.kill(h);
                        }
                        vec![1, v.id, v.c]
                    }
                    None => vec![0],
                }
            }
            "inv" => match self.a.invalidate(p(0)) {
                Some(q) => {
                    b.kill(b.h(p(0)));
                    vec![b.issue(q, cx)]
                }
                None => vec![0],
            },
            "set" => {
                let r = match a[1] {
                    0 => self.a.get_key_mut(p(0)).map(|t| t.c += 1),
                    1 => self.a.get_val_mut(p(0)).map(|t| t.c += 1),
                    _ => self.a.get_mut(p(0)).map(|(k, v)| {
                        k.c += 1;
                        v.c += 1
                    }),
                };
                vec![r.is_some() as i64]
            }
            "seta" => {
                let mut n = 0;
                if a[0] == 0 {
                    for t in self.a.keys_mut() {
                        t.c += 1;
                        n += 1;
                    }
                } else {
                    for t in self.a.vals_mut() {
                        t.c += 1;
                        n += 1;
                    }
                }
                vec![n]
            }
            "swapk" => vec![self.a.swap_keys(p(0), p(1)).is_some() as i64],
            "swapv" => vec![self.a.swap_vals(p(0), p(1)).is_some() as i64],
            "g2k" | "g2v" => {
                let r = if o == "g2k" { self.a.get2_key_mut(p(0), p(1)) } else { self.a.get2_val_mut(p(0), p(1)) };
                match r {
                    Some((x, y)) => {
                        let v = vec![1, x.id, x.c, y.id, y.c];
                        x.c += 1;
                        y.c += 2;
                        v
                    }
                    None => vec![0],
                }
            }
            "g2kv" => match self.a.get2_mut(p(0), p(1)) {
                Some(((k, v), (l, w))) => {
                    let r = vec![1, k.id, k.c, v.id, v.c, l.id, l.c, w.id, w.c];
                    k.c += 1;
                    v.c += 1;
                    l.c += 2;
                    w.c += 2;
                    r
                }
                None => vec![0],
            },
            "clear" => {
                self.a.clear();
                b.kill_all();
                vec![]
            }
            "cshr" => {
                self.a.clear_and_shrink();
                b.kill_all();
                vec![]
            }
            "comp" => {
                let old = toks(&self.a, b);
                let oldv: BTreeMap<Raw, T2> = b
                    .live_ptrs()
                    .into_iter()
                    .filter_map(|(_, p)| self.a.get_val(p).map(|t| (p.raw(), t.key())))
                    .collect();
                let mut map: BTreeMap<Raw, P> = BTreeMap::new();
                let mut order = vec![];
                match a[0] {
                    0 => self.a.compress_and_shrink(),
                    1 => {
                        let mut bad = vec![];
                        self.a.compress_and_shrink_with(|p, k, v, q| {
                            order.push(q);
                            if old.get(&p.raw()) != Some(&k.key())
                                || oldv.get(&p.raw()) != Some(&v.key())
                                || map.insert(p.raw(), q).is_some()
                            {
                                bad.push(format!("callback({p:?}, {k:?}, {v:?}, {q:?})"));
                            }
                        });
                        for x in bad {
                            cx.fail("comp", x);
                        }
                        cx.eq("comp", "callback calls", map.len(), old.len());
                    }
                    _ => {
                        let dead = b.dead();
                        let mut c: SurjectArena<P, Held<P>, Held<P>> = SurjectArena::new();
                        let by_val: BTreeMap<T2, P> = self.a.iter().map(|(p, _, v)| (v.key(), p)).collect();
                        c.clone_from_with(&self.a, |p, _| holds(b, p), |_, v| holds(b, by_val[&v.key()]));
                        let rc = self.a.compress_and_shrink_recaster();
                        check_recaster(&rc, b, &dead, &mut map, cx);
                        check_recast(
                            &rc,
                            &map,
                            &dead,
                            c,
                            |c| c.iter().map(|(p, k, v)| ((p, c.len_key_set(p)), [&k[..], v].concat())).collect(),
                            |c, p| *c.vals_mut().last().unwrap() = vec![Some(p)],
                            cx,
                        );
                    }
                }
                let seq: Vec<P> = self.a.ptrs().take(old.len() * 2 + 4).collect();
                let found: BTreeMap<T2, P> =
                    seq.iter().filter_map(|q| self.a.get_key(*q).map(|t| (t.key(), *q))).collect();
                contiguous(&self.a, &seq, cx, "iteration after compression");
                contiguous(&self.a, &order, cx, "callbacks of compression");
                rename(b, &old, &found, &map, a[0] > 0, cx)
            }
            "into" => {
                self.a = SurjectArena::with_capacity(a[0] as usize, a[1] as usize);
                b.restart();
                vec![]
            }
            "res" => {
                if a[0] > 0 {
                    self.a.reserve_keys(a[0] as usize);
                }
                if a[1] > 0 {
                    self.a.reserve_vals(a[1] as usize);
                }
                vec![]
            }
            _ => panic!("unknown operation {o}"),
        }
    }

    fn look(&mut self, b: &Book<P>, s: &Value, deep: bool, cx: &mut Cx) {
        let e = expected(s);
        look(&mut self.a, b, &e, cx, None);
        if !deep || !cx.divs.is_empty() {
            return
        }
        let tok = |t: T2| Tok::new(t.0, t.1);
        let want: Vec<(P, Tok, Tok)> =
            self.a.ptrs().map(|p| (p, e.live[&b.h(p)])).map(|(p, x)| (p, tok(x.0), tok(x.2))).collect();
        check_text(&self.a, &text(|f| f.debug_set().entries(&want).finish()), cx);
        drop(want);
        let new = SurjectArena::<P, Tok, Tok>::default();
        cx.eq(
            "len",
            "default arena",
            (new.len_keys(), new.len_vals(), new.is_empty(), new.capacity_keys(), new.generation()),
            (0, 0, true, 0, SurjectArena::<P, Tok, Tok>::new().generation()),
        );
        // clones
        let mut c = self.a.clone();
        look(&mut c, b, &e, cx, Some("clone"));
        cx.check(c == self.a, "eq", || "clone differs from its source".into());
        let caps = (self.a.capacity_keys(), self.a.capacity_vals());
        cx.eq("clone", "capacities of a clone", (c.capacity_keys(), c.capacity_vals()), caps);
        cx.eq("clone", "generation of a clone", P::gen_num(c.generation()), P::gen_num(self.a.generation()));
        if let Some((h, x)) = e.live.iter().next() {
            let p = b.p(*h);
            c.get_key_mut(p).map(|t| t.c += 5);
            cx.check(c != self.a, "eq", || "arenas with different keys compare equal".into());
            c.get_key_mut(p).map(|t| t.c -= 5);
            cx.check(c == self.a, "eq", || "equal arenas compare different".into());
            c.get_val_mut(p).map(|t| t.c += 5);
            cx.check(c != self.a, "eq", || "arenas with different values compare equal".into());
            cx.eq("clone", "source after writing the clone", self.a.get(p).map(|x| (x.0.key(), x.1.key())), Some((x.0, x.2)));
            // which keys share a value is part of equality, even if all values are equal
            if let Some(h2) = e.live.keys().find(|h2| e.live[*h2].1 != x.1) {
                let mut x = SurjectArena::<P, i64, ()>::new();
                x.clone_from_with(&c, |_, k| k.id, |_, _| ());
                let mut y = x.clone();
                cx.check(x == y, "eq", || "equal arenas compare different".into());
                let _ = y.union(p, b.p(*h2));
                cx.check(x != y && y != x, "eq", || "arenas with different sets compare equal".into());
            }
            let _ = c.remove(p);
            cx.check(c != self.a, "eq", || "arenas with different entries compare equal".into());
        }
        fill(&mut c, &mut Book::default(), cx, Some("clone"));
        look(&mut self.a, b, &e, cx, Some("clone"));
        drop(c);
        // conversions
        let next = nexts(&self.a);
        let mut want: Vec<(Raw, T2)> = e.live.iter().map(|(h, x)| (b.p(*h).raw(), x.0)).collect();
        want.sort();
        let g = P::gen_num(self.a.generation());
        let mut d: Arena<P, T2> = Arena::new();
        for _ in 0..3 {
            d.insert((-1, -1));
        }
        let want_cap = d.capacity().max(caps.0);
        let mut calls = 0;
        self.a.clone_keys_to_arena(&mut d, |p, t| {
            calls += 1;
            if self.a.get_key(p) != Some(t) {
                return (-9, -9)
            }
            t.key()
        });
        cx.eq("clone", "calls of the map", calls, e.live.len());
        let mut got: Vec<_> = d.iter().map(|(p, k)| (p.raw(), *k)).collect();
        got.sort();
        cx.eq("clone", "clone_keys_to_arena", got, want.clone());
        cx.eq("clone", "clone_keys_to_arena capacity", d.capacity(), want_cap);
        cx.eq("clone", "clone_keys_to_arena generation", P::gen_num(d.generation()), g);
        let mut d: ChainArena<P, T2> = ChainArena::new();
        d.insert_new((-1, -1));
        self.a.clone_keys_to_chain_arena(&mut d, |_, t| t.key());
        if let Err(x) = ChainArena::_check_invariants(&d) {
            cx.fail("clone", format!("clone_keys_to_chain_arena: {x}"));
        }
        let mut got: Vec<_> = d.iter().map(|(p, l)| (p.raw(), l.t)).collect();
        got.sort();
        cx.eq("clone", "clone_keys_to_chain_arena", got, want.clone());
        let got: BTreeMap<usize, usize> =
            d.iter().filter_map(|(p, l)| l.next().map(|n| (p.raw().0, n.raw().0))).collect();
        cx.eq("clone", "chains of clone_keys_to_chain_arena", got, next.clone());
        cx.eq("clone", "clone_keys_to_chain_arena generation", P::gen_num(d.generation()), g);
        let mut d: ChainNoGenArena<P, T2> = ChainNoGenArena::new();
        d.insert_new((-1, -1));
        self.a.clone_keys_to_chain_no_gen_arena(&mut d, |_, t| t.key());
        if let Err(x) = ChainNoGenArena::_check_invariants(&d) {
            cx.fail("clone", format!("clone_keys_to_chain_no_gen_arena: {x}"));
        }
        let mut got: Vec<_> = d.iter().map(|(p, l)| (p.raw(), l.t)).collect();
        got.sort();
        cx.eq("clone", "clone_keys_to_chain_no_gen_arena", got, want);
        let got: BTreeMap<usize, usize> =
            d.iter().filter_map(|(p, l)| l.next().map(|n| (p.raw().0, inx::<P>(n)))).collect();
        cx.eq("clone", "chains of clone_keys_to_chain_no_gen_arena", got, next);
        // serialization
        for (n, d) in round_trip(&self.a).into_iter().enumerate() {
            let Some(mut d) = d else {
                cx.fail("serde", format!("format {n}: deserialization failed"));
                continue
            };
            let mut b2 = reset_book(b, cx);
            look(&mut d, &b2, &e, cx, Some("serde"));
            if let Err(x) = SurjectArena::_check_invariants(&d) {
                cx.fail("serde", x);
            }
            fill(&mut d, &mut b2, cx, Some("serde"));
            for (h, x) in &e.live {
                cx.eq("serde", "remove_key", d.remove_key(b2.p(*h)).map(|t| t.0.key()), Some(x.0));
            }
        }
    }

    fn last(&mut self, b: &mut Book<P>, _s: &Value, cx: &mut Cx) {
        if let Err(e) = SurjectArena::_check_invariants(&self.a) {
            cx.fail("inv", e);
        }
        fill(&mut self.a, b, cx, None);
    }

    fn copy(&mut self, src: &Self, v: i64, _b: &Book<P>, cx: &mut Cx) {
        match v {
            0 => self.a.clone_from(&src.a),
            1 => {
                let (mut n, mut m) = (0, 0);
                let mut seen: Vec<(T2, usize)> = vec![];
                self.a.clone_from_with(
                    &src.a,
                    |p, t| {
                        n += 1;
                        if src.a.get_key(p) != Some(t) {
                            cx.fail("clone", "clone_from_with passes a wrong pointer");
                        }
                        t.clone()
                    },
                    |c: NonZeroUsize, t| {
                        m += 1;
                        seen.push((t.key(), c.get()));
                        t.clone()
                    },
                );
                cx.eq("clone", "calls of the maps", (n, m), (src.a.len_keys(), src.a.len_vals()));
                for (k, c) in seen {
                    let want = src.a.iter().filter(|x| x.2.key() == k).count();
                    cx.eq("clone", "key count given to the map", c, want);
                }
            }
            _ => self.a = src.a.clone(),
        }
    }

    fn cmp_pair(&mut self, o: &mut Self, b: &Book<P>, ob: &Book<P>, s: &Value, os: &Value, cx: &mut Cx) {
        let set = |b: &Book<P>, s: &Value| {
            let e = expected(s);
            let mut v: Vec<_> = e
                .live
                .iter()
                .map(|(h, (k, m, v))| {
                    let mem: BTreeSet<Raw> = e.sets[m].iter().map(|h| b.p(*h).raw()).collect();
                    (b.p(*h).raw(), *k, *v, mem)
                })
                .collect();
            v.sort();
            v
        };
        let same = set(b, s) == set(ob, os);
        // the order of keys inside a set may or may not count
        if !same || nexts(&self.a) == nexts(&o.a) {
            cx.eq("eq", "x == y", self.a == o.a, same);
            cx.eq("eq", "x != y", self.a != o.a, !same);
        }
        cx.eq("eq", "symmetry", o.a == self.a, self.a == o.a);
        // the same with nothing but pointers and sets to tell entries apart
        let sets = |b: &Book<P>, s: &Value| set(b, s).into_iter().map(|x| (x.0, x.3)).collect::<Vec<_>>();
        let same = sets(b, s) == sets(ob, os);
        if !same || nexts(&self.a) == nexts(&o.a) {
            let mut x = SurjectArena::<P, (), ()>::new();
            let mut y = SurjectArena::<P, (), ()>::new();
            x.clone_from_with(&self.a, |_, _| (), |_, _| ());
            y.clone_from_with(&o.a, |_, _| (), |_, _| ());
            cx.eq("eq", "x == y without contents", x == y, same);
            cx.eq("eq", "y == x without contents", y == x, same);
        }
    }

    fn snapshot(&self, b: &Book<P>) -> Value {
        let row = |h: i64, p: P| -> Option<Vec<i64>> {
            let (k, v) = self.a.get(p)?;
            let m = b
                .live_ptrs()
                .into_iter()
                .filter(|x| self.a.in_same_set(x.1, p) == Some(true))
                .map(|x| x.0)
                .min()
                .unwrap_or(-7);
            Some(vec![h, k.id, k.c, m, v.id, v.c])
        };
        let live: Vec<Vec<i64>> =
            b.ptrs.keys().filter(|h| b.usable(**h)).filter_map(|h| row(*h, b.p(*h))).collect();
        let mut it: Vec<Vec<i64>> = vec![];
        for (p, k, v) in self.a.iter().take(self.a.len_keys() + 3) {
            // the set as a walk shows it
            let m = self.a.iter_surject(p).take(self.a.len_keys() + 3).map(|x| b.h(x.0)).min().unwrap_or(-7);
            it.push(vec![b.h(p), k.id, k.c, m, v.id, v.c]);
        }
        it.sort();
        serde_json::json!({"live": live, "it": it})
    }
}

impl<P: PX + Recast<P>> Walk for S<P> {
    fn start(&self, _kind: i64, p: Option<P>) -> Adv<Self> {
        match p {
            None => {
                let mut adv = self.a.advancer();
                Box::new(move |k| adv.advance(&k.a))
            }
            Some(p) => {
                let mut adv = self.a.advancer_surject(p);
                Box::new(move |k| adv.advance(&k.a))
            }
        }
    }
}

// ---------------------------------------------------------------------------
// recording

fn random_step<P: PX + Recast<P>>(s: &mut Run<S<P>>, target: usize) -> bool {
    let len = s.k.a.len_keys();
    let grow = if len < target { 14 } else { 4 };
    let (h, h2) = (s.b.any(&mut s.r), s.b.any(&mut s.r));
    let w = [grow, 6, 3, 2, 2, 2, 2, 2, 2, 6, 2];
    if s.r.chance(1, 7) {
        return s.walk()
    }
    let k = s.r.weighted(&w);
    if h.is_none() || (k == 0 && s.r.chance(1, 2)) {
        let v = s.r.below(2) as i64;
        return s.op("sins", vec![v])
    }
    let (h, h2) = (h.unwrap(), h2.unwrap());
    match k {
        0 => {
            let v = s.r.below(2) as i64;
            s.op("skey", vec![h, v])
        }
        1 => s.op("remk", vec![h]),
        2 => s.op("inv", vec![h]),
        3 => {
            let v = s.r.below(3) as i64;
            s.op("set", vec![h, v])
        }
        4 => s.op("swapk", vec![h, h2]),
        5 => s.op("swapv", vec![h, h2]),
        6 => s.op("g2k", vec![h, h2]),
        7 => s.op("g2v", vec![h, h2]),
        8 => s.op("g2kv", vec![h, h2]),
        9 => s.op("union", vec![h, h2]),
        _ => match s.r.below(10) {
            0 => s.op("clear", vec![]),
            1 => s.op("cshr", vec![]),
            2 | 3 => {
                let v = s.r.below(3) as i64;
                s.op("comp", vec![v])
            }
            4 | 5 | 6 => s.op("rems", vec![h]),
            7 => {
                let (n, m) = (s.r.below(4), s.r.below(4));
                if s.k.a.capacity_keys() + n < P::max_inx() && s.k.a.capacity_vals() + m < P::max_inx() {
                    s.op("res", vec![n as i64, m as i64])
                } else {
                    true
                }
            }
            x => s.op("seta", vec![x as i64 - 8]),
        },
    }
}

fn record(args: &Args) {
    quiet_panics();
    let seed = args.n("seed", 1) as u64;
    let mult = args.n("mult", 1) as usize;
    let mut rec = Recorder::default();
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ 0x50b1e);
    for i in 0..(3 * mult) {
        let t = 4 + 3 * (i % 4);
        session::<S<PD>>(&mut rec, r.next(), 300, 2, |s| random_step(s, t));
    }
    for _ in 0..mult {
        session::<S<PD>>(&mut rec, r.next(), 300, 5, |s| random_step(s, 30));
        session::<S<PS>>(&mut rec, r.next(), 300, 3, |s| random_step(s, 6));
        session::<S<PN>>(&mut rec, r.next(), 200, 3, |s| random_step(s, 6));
    }
    rec.save(&args.s("record", "trace.ndjson"));
}

fn main() {
    let args = Args::get();
    if args.map.contains_key("record") {
        return record(&args)
    }
    if args.map.contains_key("de") {
        return replay_main(&args, &[
            ("json", run_format::<0, One<S<PD>>>),
            ("bincode-narrow", run_format::<1, One<S<PS>>>),
            ("ron-nogen", run_format::<2, One<S<PN>>>),
            ("wide", run_format::<0, One<S<PW>>>),
        ])
    }
    if args.map.contains_key("pair") {
        return replay_main(&args, &[
            ("default", run_line::<Pair<S<PD>>>),
            ("narrow", run_line::<Pair<S<PS>>>),
        ])
    }
    if args.map.contains_key("loop") {
        return replay_main(&args, &[
            ("default", run_line::<Loop<S<PD>>>),
            ("nogen", run_line::<Loop<S<PN>>>),
            ("narrow", run_line::<Loop<S<PS>>>),
        ])
    }
    replay_main(&args, &[
        ("default", run_line::<One<S<PD>>>),
        ("nogen", run_line::<One<S<PN>>>),
        ("narrow", run_line::<One<S<PS>>>),
    ]);
}
