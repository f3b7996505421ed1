//! Chain arenas: replay of MCChain behaviours and recording for TraceChain.

use harness::{ptrs::*, *};
use std::{collections::BTreeMap, marker::PhantomData};
use triple_arena::{
    utils::{ChainNoGenArena, LinkNoGen, PtrInx},
    Advancer, Arena, ChainArena, Link, Recast,
};

/// An interlink as seen from outside: index, and generation if it has one.
type L = Option<(usize, u64)>;
type Raw = (usize, u64);

/// Both chain arenas behind one interface.
trait Ch<P: PX>:
    Sized + Clone + PartialEq + Default + Ser + FromIterator<Tok>
{
    /// interlinks carry generations
    const GEN: bool;
    fn raw_link(p: P) -> Raw;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn cap(&self) -> usize;
    fn gen(&self) -> Option<u64>;
    fn reserve(&mut self, n: usize);
    fn insert(&mut self, a: Option<P>, b: Option<P>, t: Tok) -> Result<P, Tok>;
    fn insert_with(&mut self, a: Option<P>, b: Option<P>, f: impl FnOnce(P) -> Tok) -> Option<P>;
    fn insert_new(&mut self, t: Tok) -> P;
    fn insert_new_with(&mut self, f: impl FnOnce(P) -> Tok) -> P;
    fn insert_new_cyclic(&mut self, t: Tok) -> P;
    fn insert_new_cyclic_with(&mut self, f: impl FnOnce(P) -> Tok) -> P;
    fn insert_start(&mut self, p: P, t: Tok) -> Result<P, Tok>;
    fn insert_end(&mut self, p: P, t: Tok) -> Result<P, Tok>;
    fn contains(&self, p: P) -> bool;
    fn are_neighbors(&self, p: P, q: P) -> bool;
    /// by index only, where that exists
    fn are_neighbors_inx(&self, p: P, q: P) -> Option<bool>;
    fn link(&self, p: P) -> Option<(L, L, (i64, i64))>;
    fn link_mut(&mut self, p: P, add: i64) -> Option<(L, L, (i64, i64))>;
    fn get(&self, p: P) -> Option<&Tok>;
    fn get_mut(&mut self, p: P) -> Option<&mut Tok>;
    fn index(&self, p: P) -> &Tok;
    fn index_mut(&mut self, p: P) -> &mut Tok;
    fn no_gen(&self, p: P) -> Option<(Option<u64>, L, L, (i64, i64))>;
    fn no_gen_mut(&mut self, p: P, add: i64) -> Option<(Option<u64>, L, L, (i64, i64))>;
    fn unwraps(&mut self, p: P) -> [(i64, i64); 3];
    fn get2(&mut self, p: P, q: P) -> Option<Vec<i64>>;
    fn get2_link(&mut self, p: P, q: P) -> Option<(Vec<i64>, [L; 4])>;
    fn remove(&mut self, p: P) -> Option<(Tok, L, L)>;
    fn remove_chain(&mut self, p: P) -> Option<usize>;
    fn invalidate(&mut self, p: P) -> Option<P>;
    fn replace_keep(&mut self, p: P, t: Tok) -> Result<Tok, Tok>;
    fn replace_update(&mut self, p: P, t: Tok) -> Result<(Tok, P), Tok>;
    fn swap(&mut self, p: P, q: P) -> Option<()>;
    fn connect(&mut self, p: P, q: P) -> Option<()>;
    fn break_prev(&mut self, p: P) -> Option<()>;
    fn break_next(&mut self, p: P) -> Option<()>;
    fn exchange_next(&mut self, p: P, q: P) -> Option<()>;
    fn clear(&mut self);
    fn clear_and_shrink(&mut self);
    fn compress(&mut self);
    fn compress_with(&mut self, f: impl FnMut(P, &mut Tok, P));
    fn recaster(&mut self) -> Arena<P, P>;
    /// the same chains with entries that hold pointers
    type Holding: Recast<P>;
    fn holding(&self, f: impl FnMut(P) -> Held<P>) -> Self::Holding;
    fn held(c: &Self::Holding) -> Vec<((P, L, L), Held<P>)>;
    fn spoil(c: &mut Self::Holding, p: P);
    /// links with the pointers in them, before and after they are recast
    fn links(c: &Self::Holding, rc: &Arena<P, P>) -> Vec<(Held<P>, Result<Held<P>, P>)>;
    fn clone_from_with(&mut self, src: &Self, f: impl FnMut(P, &Tok) -> Tok);
    /// conversion through a plain arena of links
    fn via_arena(&self) -> Result<Self, &'static str>;
    fn to_arena(&self, dst: &mut Arena<P, (i64, i64)>);
    fn to_other(&self) -> Option<ChainArena<P, Tok>>;
    fn adv(&self, bound: usize) -> Vec<P>;
    fn adv_chain(&self, p: P, bound: usize) -> Vec<P>;
    fn walker(&self, p: Option<P>) -> Box<dyn FnMut(&Self) -> Option<P>>;
    fn ptrs(&self, bound: usize) -> Vec<P>;
    fn vals(&self, bound: usize) -> Vec<(i64, i64)>;
    fn vals_mut(&mut self, f: impl FnMut(&mut Tok));
    fn iter(&self, bound: usize) -> Vec<(P, L, L, (i64, i64))>;
    fn into_iter_ref(&self, bound: usize) -> Vec<(P, (i64, i64))>;
    fn iter_chain(&self, p: P, bound: usize) -> Vec<(P, (i64, i64))>;
    fn iter_mut(&mut self, f: impl FnMut(P, L, L, &mut Tok));
    fn into_iter_mut(&mut self, f: impl FnMut(P, L, L, &mut Tok));
    fn drain(&mut self, n: i64) -> Vec<(P, Tok)>;
    fn into(self, n: i64) -> Vec<(P, Tok)>;
    fn with(cap: usize) -> Self;
    fn check(&self) -> Result<(), &'static str>;
    /// textual forms of the arena and its links; `want` are the entries
    fn texts(&self, want: &[(P, Option<P>, Option<P>, Tok)], cx: &mut Cx);
    /// comparisons of the links
    fn compare(want: &[(P, Option<P>, Option<P>, Tok)], cx: &mut Cx);
    /// deserializes directly, or as an arena of links
    fn decode(&self, v: &V, cx: &mut Cx) -> Option<Self>;
}

macro_rules! chain {
    ($ty:ident, $link:ident, $gen:expr, $arg:expr, $l:expr, $inx:expr, $other:expr, $links:expr) => {
        impl<P: PX + Recast<P>> Ch<P> for $ty<P, Tok>
        {
            const GEN: bool = $gen;

            fn raw_link(p: P) -> Raw {
                if $gen { p.raw() } else { (p.raw().0, 0) }
            }
            fn len(&self) -> usize { $ty::len(self) }
            fn is_empty(&self) -> bool { $ty::is_empty(self) }
            fn cap(&self) -> usize { self.capacity() }
            fn gen(&self) -> Option<u64> { P::gen_num(self.generation()) }
            fn reserve(&mut self, n: usize) { $ty::reserve(self, n) }
            fn insert(&mut self, a: Option<P>, b: Option<P>, t: Tok) -> Result<P, Tok> {
                $ty::insert(self, (a.map($arg), b.map($arg)), t)
            }
            fn insert_with(&mut self, a: Option<P>, b: Option<P>, f: impl FnOnce(P) -> Tok) -> Option<P> {
                $ty::insert_with(self, (a.map($arg), b.map($arg)), f)
            }
            fn insert_new(&mut self, t: Tok) -> P { $ty::insert_new(self, t) }
            fn insert_new_with(&mut self, f: impl FnOnce(P) -> Tok) -> P { $ty::insert_new_with(self, f) }
            fn insert_new_cyclic(&mut self, t: Tok) -> P { $ty::insert_new_cyclic(self, t) }
            fn insert_new_cyclic_with(&mut self, f: impl FnOnce(P) -> Tok) -> P {
                $ty::insert_new_cyclic_with(self, f)
            }
            fn insert_start(&mut self, p: P, t: Tok) -> Result<P, Tok> { $ty::insert_start(self, p, t) }
            fn insert_end(&mut self, p: P, t: Tok) -> Result<P, Tok> { $ty::insert_end(self, p, t) }
            fn contains(&self, p: P) -> bool { $ty::contains(self, p) }
            fn are_neighbors(&self, p: P, q: P) -> bool { $ty::are_neighbors(self, p, q) }
            fn are_neighbors_inx(&self, p: P, q: P) -> Option<bool> { $inx(self, p, q) }
            fn link(&self, p: P) -> Option<(L, L, (i64, i64))> {
                self.get_link(p).map(|l| {
                    assert_eq!(l.prev_next(), (l.prev(), l.next()));
                    (l.prev().map($l), l.next().map($l), l.t.key())
                })
            }
            fn link_mut(&mut self, p: P, add: i64) -> Option<(L, L, (i64, i64))> {
                self.get_link_mut(p).map(|l| {
                    let r = (l.prev().map($l), l.next().map($l), l.t.key());
                    l.t.c += add;
                    r
                })
            }
            fn get(&self, p: P) -> Option<&Tok> { $ty::get(self, p) }
            fn get_mut(&mut self, p: P) -> Option<&mut Tok> { $ty::get_mut(self, p) }
            fn index(&self, p: P) -> &Tok { &self[p] }
            fn index_mut(&mut self, p: P) -> &mut Tok { &mut self[&p] }
            fn no_gen(&self, p: P) -> Option<(Option<u64>, L, L, (i64, i64))> {
                self.get_no_gen(p.inx())
                    .map(|(g, l)| (P::gen_num(g), l.prev().map($l), l.next().map($l), l.t.key()))
            }
            fn no_gen_mut(&mut self, p: P, add: i64) -> Option<(Option<u64>, L, L, (i64, i64))> {
                self.get_no_gen_mut(p.inx()).map(|(g, l)| {
                    let r = (P::gen_num(g), l.prev().map($l), l.next().map($l), l.t.key());
                    l.t.c += add;
                    r
                })
            }
            fn unwraps(&mut self, p: P) -> [(i64, i64); 3] {
                let x = self.get_inx_unwrap(p.inx()).t.key();
                let y = self.get_inx_mut_unwrap(p.inx()).t.key();
                let z = self.get_inx_mut_unwrap_t(p.inx()).key();
                [x, y, z]
            }
            fn get2(&mut self, p: P, q: P) -> Option<Vec<i64>> {
                self.get2_mut(p, q).map(|(x, y)| {
                    let v = vec![1, x.id, x.c, y.id, y.c];
                    x.c += 1;
                    y.c += 2;
                    v
                })
            }
            fn get2_link(&mut self, p: P, q: P) -> Option<(Vec<i64>, [L; 4])> {
                self.get2_link_mut(p, q).map(|(x, y)| {
                    let v = vec![1, x.t.id, x.t.c, y.t.id, y.t.c];
                    let l = [x.prev().map($l), x.next().map($l), y.prev().map($l), y.next().map($l)];
                    x.t.c += 1;
                    y.t.c += 2;
                    (v, l)
                })
            }
            fn remove(&mut self, p: P) -> Option<(Tok, L, L)> {
                $ty::remove(self, p).map(|l| (l.prev().map($l), l.next().map($l), l.t)).map(|x| (x.2, x.0, x.1))
            }
            fn remove_chain(&mut self, p: P) -> Option<usize> { $ty::remove_chain(self, p) }
            fn invalidate(&mut self, p: P) -> Option<P> { $ty::invalidate(self, p) }
            fn replace_keep(&mut self, p: P, t: Tok) -> Result<Tok, Tok> { self.replace_and_keep_gen(p, t) }
            fn replace_update(&mut self, p: P, t: Tok) -> Result<(Tok, P), Tok> {
                self.replace_and_update_gen(p, t)
            }
            fn swap(&mut self, p: P, q: P) -> Option<()> { $ty::swap(self, p, q) }
            fn connect(&mut self, p: P, q: P) -> Option<()> { $ty::connect(self, p, q) }
            fn break_prev(&mut self, p: P) -> Option<()> { $ty::break_prev(self, p) }
            fn break_next(&mut self, p: P) -> Option<()> { $ty::break_next(self, p) }
            fn exchange_next(&mut self, p: P, q: P) -> Option<()> { $ty::exchange_next(self, p, q) }
            fn clear(&mut self) { $ty::clear(self) }
            fn clear_and_shrink(&mut self) { $ty::clear_and_shrink(self) }
            fn compress(&mut self) { self.compress_and_shrink() }
            fn compress_with(&mut self, f: impl FnMut(P, &mut Tok, P)) { self.compress_and_shrink_with(f) }
            fn recaster(&mut self) -> Arena<P, P> { self.compress_and_shrink_recaster() }
            type Holding = $ty<P, Held<P>>;
            fn holding(&self, mut f: impl FnMut(P) -> Held<P>) -> Self::Holding {
                let mut c = $ty::new();
                c.clone_from_with(self, |p, _| f(p));
                c
            }
            fn held(c: &Self::Holding) -> Vec<((P, L, L), Held<P>)> {
                c.iter().map(|(p, l)| ((p, l.prev().map($l), l.next().map($l)), l.t.clone())).collect()
            }
            fn spoil(c: &mut Self::Holding, p: P) {
                *c.vals_mut().last().unwrap().t = vec![Some(p)];
            }
            fn links(c: &Self::Holding, rc: &Arena<P, P>) -> Vec<(Held<P>, Result<Held<P>, P>)> {
                $links(c, rc)
            }
            fn clone_from_with(&mut self, src: &Self, mut f: impl FnMut(P, &Tok) -> Tok) {
                $ty::clone_from_with(self, src, |p, l| f(p, &l.t))
            }
            fn via_arena(&self) -> Result<Self, &'static str> {
                let mut a: Arena<P, $link<P, Tok>> = Arena::new();
                self.clone_to_arena(&mut a, |_, l| l.clone());
                $ty::from_arena(a)
            }
            fn to_arena(&self, dst: &mut Arena<P, (i64, i64)>) { self.clone_to_arena(dst, |_, l| l.t.key()) }
            fn to_other(&self) -> Option<ChainArena<P, Tok>> { $other(self) }
            fn adv(&self, bound: usize) -> Vec<P> {
                let mut a = self.advancer();
                let mut v = vec![];
                while let Some(p) = a.advance(self) {
                    v.push(p);
                    if v.len() > bound { break }
                }
                v
            }
            fn adv_chain(&self, p: P, bound: usize) -> Vec<P> {
                let mut a = self.advancer_chain($arg(p));
                let mut v = vec![];
                while let Some(p) = a.advance(self) {
                    v.push(p);
                    if v.len() > bound { break }
                }
                v
            }
            fn walker(&self, p: Option<P>) -> Box<dyn FnMut(&Self) -> Option<P>> {
                match p {
                    None => {
                        let mut adv = self.advancer();
                        Box::new(move |a| adv.advance(a))
                    }
                    Some(p) => {
                        let mut adv = self.advancer_chain($arg(p));
                        Box::new(move |a| adv.advance(a))
                    }
                }
            }
            fn ptrs(&self, bound: usize) -> Vec<P> { $ty::ptrs(self).take(bound).collect() }
            fn vals(&self, bound: usize) -> Vec<(i64, i64)> {
                $ty::vals(self).take(bound).map(|l| l.t.key()).collect()
            }
            fn vals_mut(&mut self, mut f: impl FnMut(&mut Tok)) {
                for l in $ty::vals_mut(self) { f(l.t) }
            }
            fn iter(&self, bound: usize) -> Vec<(P, L, L, (i64, i64))> {
                $ty::iter(self)
                    .take(bound)
                    .map(|(p, l)| (p, l.prev().map($l), l.next().map($l), l.t.key()))
                    .collect()
            }
            fn into_iter_ref(&self, bound: usize) -> Vec<(P, (i64, i64))> {
                self.into_iter().take(bound).map(|(p, l)| (p, l.t.key())).collect()
            }
            fn iter_chain(&self, p: P, bound: usize) -> Vec<(P, (i64, i64))> {
                $ty::iter_chain(self, $arg(p)).take(bound).map(|(p, l)| (p, l.t.key())).collect()
            }
            fn iter_mut(&mut self, mut f: impl FnMut(P, L, L, &mut Tok)) {
                for (p, l) in $ty::iter_mut(self) { f(p, l.prev().map($l), l.next().map($l), l.t) }
            }
            fn into_iter_mut(&mut self, mut f: impl FnMut(P, L, L, &mut Tok)) {
                for (p, l) in self.into_iter() { f(p, l.prev().map($l), l.next().map($l), l.t) }
            }
            fn drain(&mut self, n: i64) -> Vec<(P, Tok)> {
                let mut d = $ty::drain(self);
                let mut v = vec![];
                while (v.len() as i64) < n {
                    match d.next() {
                        Some((p, l)) => v.push((p, l.t)),
                        None => break,
                    }
                }
                v
            }
            fn with(cap: usize) -> Self {
                $ty::with_capacity(cap)
            }

            fn into(self, n: i64) -> Vec<(P, Tok)> {
                let mut d = self.capacity_drain();
                let mut v = vec![];
                while (v.len() as i64) < n {
                    match d.next() {
                        Some((p, l)) => v.push((p, l.t)),
                        None => break,
                    }
                }
                v
            }
            fn check(&self) -> Result<(), &'static str> { $ty::_check_invariants(self) }
            fn texts(&self, want: &[(P, Option<P>, Option<P>, Tok)], cx: &mut Cx) {
                let link = |x: &(P, Option<P>, Option<P>, Tok)| {
                    let (a, b, t) = (x.1.map($arg), x.2.map($arg), x.3.clone());
                    text(move |f| {
                        write!(f, "({a:?}, {b:?}) ")?;
                        std::fmt::Debug::fmt(&t, f)
                    })
                };
                check_text(self, &text(|f| f.debug_map().entries(want.iter().map(|x| (&x.0, link(x)))).finish()), cx);
                for x in want {
                    let l = $ty::get_link(self, x.0).unwrap();
                    check_text(l, &link(x), cx);
                    let (a, b, t) = (x.1.map($arg), x.2.map($arg), &x.3);
                    cx.eq("text", "displayed link", format!("{l}"), format!("({a:?}, {b:?}) {t}"));
                    cx.eq("text", "alternate displayed link", format!("{l:#}"), format!("({a:?}, {b:?}) {t:#}"));
                }
            }
            fn compare(want: &[(P, Option<P>, Option<P>, Tok)], cx: &mut Cx) {
                let key = |x: &(P, Option<P>, Option<P>, Tok)| (x.1.map($arg), x.2.map($arg), x.3.key());
                let link = |x: &(P, Option<P>, Option<P>, Tok)| {
                    $link::<P, Tok>::new((x.1.map($arg), x.2.map($arg)), x.3.clone())
                };
                for x in want {
                    let a = link(x);
                    let l: Link<P, Tok> = Link::new((x.1, x.2), x.3.clone());
                    cx.eq("link", "prev_next", (l.prev(), l.next()), l.prev_next());
                    cx.eq("link", "from_link", LinkNoGen::from_link(l).prev_next(), (x.1.map(|p| p.inx()), x.2.map(|p| p.inx())));
                    cx.check(a == a.clone() && hash_of(&a) == hash_of(&a.clone()), "eq", || "equal links differ".into());
                    for y in want {
                        // the contents count after the interlinks
                        for c in [&y.3, &x.3] {
                            let y = (y.0, y.1, y.2, c.clone());
                            let b = link(&y);
                            let o = key(x).cmp(&key(&y));
                            cx.eq("eq", "order of links", (a.cmp(&b), a.partial_cmp(&b)), (o, Some(o)));
                            cx.eq("eq", "equality of links", a == b, key(x) == key(&y));
                        }
                    }
                }
            }
            fn decode(&self, v: &V, cx: &mut Cx) -> Option<Self> {
                if format() < 3 {
                    return decode(v, cx)
                }
                let a: Arena<P, $link<P, Tok>> = decode(v, cx)?;
                let res = $ty::from_arena(a.clone()).ok();
                if $gen && P::has_gen() && res.is_some() {
                    // links with another generation lead nowhere
                    for p in a.ptrs() {
                        let (prev, next) = a[p].prev_next();
                        let stale = P::make(p.raw().0, 3);
                        for new in [
                            (prev.map(|_| $arg(stale)), next),
                            (prev, next.map(|_| $arg(stale))),
                        ] {
                            if new != (prev, next) {
                                let mut b = a.clone();
                                b[p] = $link::new(new, b[p].t.clone());
                                cx.check($ty::from_arena(b).is_err(), "accept", || {
                                    format!("link of {p:?} with another generation")
                                });
                            }
                        }
                    }
                }
                res
            }
        }
    };
}
chain!(
    ChainArena,
    Link,
    true,
    |p: P| p,
    |p: P| p.raw(),
    |_: &Self, _: P, _: P| None,
    |_: &Self| None,
    |c: &ChainArena<P, Held<P>>, rc: &Arena<P, P>| {
        let all = |l: &Link<P, Held<P>>| [&[l.prev(), l.next()], &l.t[..]].concat();
        c.vals()
            .map(|l| {
                let mut n = l.clone();
                (all(l), n.recast(rc).map(|()| all(&n)))
            })
            .collect()
    }
);
chain!(
    ChainNoGenArena,
    LinkNoGen,
    false,
    |p: P| p.inx(),
    |i: P::Inx| (PtrInx::get(i).get(), 0),
    |s: &Self, p: P, q: P| Some(ChainNoGenArena::are_neighbors_inx(s, p.inx(), q.inx())),
    |s: &Self| {
        let mut d: ChainArena<P, Tok> = ChainArena::new();
        let x = d.insert_new(Tok::new(-4, 0));
        let _ = d.insert_end(x, Tok::new(-4, 1));
        s.clone_to_chain_arena(&mut d, |_, t| t.clone());
        Some(d)
    },
    |_: &ChainNoGenArena<P, Held<P>>, _: &Arena<P, P>| vec![]
);

struct C<P: PX, X: Ch<P>> {
    a: X,
    _p: PhantomData<P>,
}

struct Exp {
    live: BTreeMap<i64, (i64, i64)>,
    nxt: BTreeMap<i64, i64>,
    prv: BTreeMap<i64, i64>,
    walk: Vec<Vec<i64>>,
}

fn expected(s: &Value) -> Exp {
    let nxt: BTreeMap<i64, i64> = rows(&s["nxt"]).into_iter().map(|x| (x[0], x[1])).collect();
    Exp {
        live: rows(&s["live"]).into_iter().map(|x| (x[0], (x[1], x[2]))).collect(),
        prv: nxt.iter().map(|x| (*x.1, *x.0)).collect(),
        nxt,
        walk: rows(&s["walk"]),
    }
}

fn look<P: PX, X: Ch<P>>(a: &mut X, b: &Book<P>, e: &Exp, cx: &mut Cx, tag: Option<&'static str>) {
    let cl = |c: &'static str| tag.unwrap_or(c);
    cx.eq(cl("len"), "len", a.len(), e.live.len());
    cx.eq(cl("len"), "is_empty", a.is_empty(), e.live.is_empty());
    let lk = |h: Option<&i64>| -> L { h.map(|h| X::raw_link(b.p(*h))) };
    let mut want_iter = vec![];
    for (k, v) in &e.live {
        let p = b.p(*k);
        let (pv, nx) = (lk(e.prv.get(k)), lk(e.nxt.get(k)));
        want_iter.push((p.raw(), pv, nx, *v));
        if !a.contains(p) {
            cx.fail(cl("valid"), format!("contains({p:?}) is false, entry {v:?} is live"));
            continue
        }
        cx.eq(cl("valid"), "get", a.get(p).map(|t| t.key()), Some(*v));
        cx.eq(cl("valid"), "get_mut", a.get_mut(p).map(|t| t.key()), Some(*v));
        cx.eq(cl("valid"), "index", a.index(p).key(), *v);
        cx.eq(cl("valid"), "index_mut", a.index_mut(p).key(), *v);
        cx.eq(cl("valid"), "get_inx_unwrap", a.unwraps(p), [*v; 3]);
        cx.eq(cl("link"), "get_link", a.link(p), Some((pv, nx, *v)));
        cx.eq(cl("link"), "get_link_mut", a.link_mut(p, 0), Some((pv, nx, *v)));
        let g = P::gen_num(p.generation());
        cx.eq(cl("link"), "get_no_gen", a.no_gen(p), Some((g, pv, nx, *v)));
        cx.eq(cl("link"), "get_no_gen_mut", a.no_gen_mut(p, 0), Some((g, pv, nx, *v)));
    }
    if !cx.divs.is_empty() {
        return
    }
    for (k, _) in &e.live {
        for (l, _) in &e.live {
            let want = e.nxt.get(k) == Some(l);
            let (p, q) = (b.p(*k), b.p(*l));
            cx.eq(cl("link"), "are_neighbors", a.are_neighbors(p, q), want);
            if let Some(x) = a.are_neighbors_inx(p, q) {
                cx.eq(cl("link"), "are_neighbors_inx", x, want);
            }
        }
    }
    let dead = b.dead();
    for p in &dead {
        let p = *p;
        if a.contains(p) || a.get(p).is_some() || a.get_mut(p).is_some() || a.link(p).is_some() || a.link_mut(p, 0).is_some()
        {
            cx.fail(cl("stale"), format!("invalid pointer {p:?} is accepted"));
        }
    }
    for p in b.dead_some(3) {
        if guard(|| a.index(p).key()).is_ok() || guard(|| a.index_mut(p).key()).is_ok() {
            cx.fail(cl("stale"), format!("indexing with invalid {p:?} succeeds"));
        }
        for (k, _) in &e.live {
            let q = b.p(*k);
            if a.are_neighbors(p, q) || a.are_neighbors(q, p) {
                cx.fail(cl("stale"), format!("are_neighbors accepts the invalid {p:?} with {q:?}"));
            }
        }
        if a.are_neighbors(p, p) {
            cx.fail(cl("stale"), format!("are_neighbors accepts the invalid {p:?}"));
        }
    }
    // a walk from an invalid pointer yields nothing
    for p in if X::GEN { b.dead_some(4) } else { b.dead_inx() } {
        cx.eq(cl("adv"), "walk from an invalid pointer", a.adv_chain(p, 9).len() + a.iter_chain(p, 9).len(), 0);
    }
    // iterators
    let bound = 2 * e.live.len() + 5;
    want_iter.sort();
    macro_rules! it {
        ($name:expr, $v:expr, $want:expr) => {{
            let mut v = $v;
            v.sort();
            cx.eq(cl("iter"), $name, v, $want);
        }};
    }
    it!("iter", a.iter(bound).into_iter().map(|x| (x.0.raw(), x.1, x.2, x.3)).collect::<Vec<_>>(), want_iter.clone());
    let mut v = vec![];
    a.iter_mut(|p, x, y, t| {
        if v.len() < bound {
            v.push((p.raw(), x, y, t.key()))
        }
    });
    it!("iter_mut", v, want_iter.clone());
    let mut v = vec![];
    a.into_iter_mut(|p, x, y, t| {
        if v.len() < bound {
            v.push((p.raw(), x, y, t.key()))
        }
    });
    it!("&mut into_iter", v, want_iter.clone());
    let pv: Vec<(Raw, (i64, i64))> = want_iter.iter().map(|x| (x.0, x.3)).collect();
    it!("&into_iter", a.into_iter_ref(bound).into_iter().map(|x| (x.0.raw(), x.1)).collect::<Vec<_>>(), pv);
    let mut wantv: Vec<(i64, i64)> = e.live.values().copied().collect();
    wantv.sort();
    it!("vals", a.vals(bound), wantv.clone());
    let mut v = vec![];
    a.vals_mut(|t| v.push(t.key()));
    it!("vals_mut", v, wantv);
    let wantp: Vec<Raw> = want_iter.iter().map(|x| x.0).collect();
    it!("ptrs", a.ptrs(bound).into_iter().map(|p| p.raw()).collect::<Vec<_>>(), wantp.clone());
    it!("advancer", a.adv(bound).into_iter().map(|p| p.raw()).collect::<Vec<_>>(), wantp);
    for w in &e.walk {
        let p = b.p(w[0]);
        let want: Vec<P> = w.iter().map(|h| b.p(*h)).collect();
        cx.eq(cl("walk"), "advancer_chain", a.adv_chain(p, bound), want.clone());
        let wantv: Vec<(P, (i64, i64))> = w.iter().map(|h| (b.p(*h), e.live[h])).collect();
        cx.eq(cl("walk"), "iter_chain", a.iter_chain(p, bound), wantv);
    }
}

/// insertions that must not grow the arena, and their pointers
fn fill<P: PX, X: Ch<P>>(a: &mut X, b: &mut Book<P>, cx: &mut Cx, tag: Option<&'static str>) {
    let cl = |c: &'static str| tag.unwrap_or(c);
    let (cap, len) = (a.cap(), a.len());
    let mut got = vec![];
    for n in 0..cap.saturating_sub(len) {
        let p = a.insert_new(Tok::new(1_000_000 + n as i64, 0));
        b.issue(p, cx);
        got.push(p);
    }
    cx.eq(cl("free"), "capacity after filling", a.cap(), cap);
    cx.eq(cl("len"), "len after filling", a.len(), cap.max(len));
    for (k, p) in got.iter().enumerate() {
        cx.eq(cl("valid"), "filled", a.get(*p).map(|t| t.id), Some(1_000_000 + k as i64));
    }
}

fn toks<P: PX, X: Ch<P>>(a: &X, b: &Book<P>) -> BTreeMap<Raw, (i64, i64)> {
    b.live_ptrs().into_iter().filter_map(|(_, p)| a.get(p).map(|t| (p.raw(), t.key()))).collect()
}

impl<P: PX + Recast<P>, X: Ch<P>> C<P, X> {
    /// handle of the other end of an interlink
    fn hl(&self, b: &Book<P>, l: L) -> i64 {
        match l {
            None => 0,
            Some((i, g)) => {
                let h = b.h_inx(i);
                if X::GEN && h > 0 && b.p(h).raw() != (i, g) {
                    -8
                } else {
                    h
                }
            }
        }
    }

    /// chains must be contiguous in this sequence of new pointers
    fn contiguous(&self, seq: &[P], cx: &mut Cx, what: &str) {
        let mut done: Vec<Raw> = vec![];
        let mut cur: Vec<Raw> = vec![];
        for p in seq {
            if !cur.contains(&p.raw()) {
                done.append(&mut cur);
                cur = self.a.adv_chain(*p, seq.len() + 2).iter().map(|p| p.raw()).collect();
                if done.contains(&p.raw()) {
                    cx.fail("comp", format!("{what}: the chain of {p:?} is not contiguous"));
                    return
                }
            }
        }
    }
}

/// a serialized chain arena with these indices and links
fn input<P: PX>(a: &[i64]) -> V {
    V::Map(
        a.chunks(3)
            .enumerate()
            .map(|(i, c)| {
                let link = vec![opt_index::<P>(c[1]), opt_index::<P>(c[2]), tok(i as i64 + 1)];
                (index::<P>(c[0]), V::Tup(link))
            })
            .collect(),
    )
}

impl<P: PX + Recast<P>, X: Ch<P>> Kind for C<P, X> {
    type P = P;

    fn new() -> Self {
        C { a: X::default(), _p: PhantomData }
    }

    fn nargs(o: &str) -> usize {
        match o {
            "rem" | "remc" | "inv" | "rk" | "ru" | "set" | "brkp" | "brkn" | "cst" | "cen" => 1,
            "swap" | "get2" | "conn" | "exch" | "cins" | "cinx" => 2,
            _ => 0,
        }
    }

    fn by_index(o: &str) -> bool {
        !X::GEN && (o == "cins" || o == "cinx")
    }

    fn scal(&self) -> Scal {
        Scal { len: self.a.len(), cap: self.a.cap(), gen: self.a.gen(), vlen: 0, vcap: None }
    }

    fn ids(s: &Value) -> Vec<i64> {
        rows(&s["live"]).into_iter().map(|x| x[1]).collect()
    }

    fn call(&mut self, b: &mut Book<P>, o: &str, a: &[i64], ps: &[Option<P>], cx: &mut Cx) -> Vec<i64> {
        let id = b.nt + 1;
        let p = |i: usize| ps[i].unwrap();
        macro_rules! new {
            ($res:expr) => {
                match $res {
                    Ok(q) => {
                        b.nt += 1;
                        vec![b.issue(q, cx), id]
                    }
                    Err(t) => {
                        cx.eq("accept", "returned value", t.key(), (id, 0));
                        vec![0]
                    }
                }
            };
        }
        match o {
            "cins" => {
                if a[2] == 0 {
                    new!(self.a.insert(ps[0], ps[1], Tok::new(id, 0)))
                } else {
                    let mut seen = None;
                    let r = self.a.insert_with(ps[0], ps[1], |p| {
                        seen = Some(p);
                        Tok::new(id, 0)
                    });
                    cx.eq(if r.is_some() { "ret" } else { "accept" }, "pointer given to create", seen, r);
                    match r {
                        Some(q) => {
                            b.nt += 1;
                            vec![b.issue(q, cx), id]
                        }
                        None => vec![0],
                    }
                }
            }
            "de" => match self.a.decode(&input::<P>(a), cx) {
                Some(x) => {
                    self.a = x;
                    let mut ix: Vec<i64> = a.chunks(3).map(|c| c[0]).collect();
                    ix.sort();
                    b.nt = ix.len() as i64;
                    for i in ix {
                        b.issue(P::make(i as usize, 2), cx);
                    }
                    vec![1]
                }
                None => vec![0],
            },
            "dex" => vec![broken::<X>(&input::<P>(&a[1..]), a[0])],
            "cinx" => match self.a.insert_with(ps[0], ps[1], |_| panic!("constructor")) {
                Some(_) => vec![],
                None => vec![0],
            },
            "cnex" => {
                if a[0] == 0 {
                    self.a.insert_new_with(|_| panic!("constructor"));
                } else {
                    self.a.insert_new_cyclic_with(|_| panic!("constructor"));
                }
                vec![]
            }
            "cnew" => {
                let mut seen = None;
                let f = |p: P| {
                    seen = Some(p);
                    Tok::new(id, 0)
                };
                let q = match a[0] {
                    0 => self.a.insert_new(Tok::new(id, 0)),
                    1 => self.a.insert_new_with(f),
                    2 => self.a.insert_new_cyclic(Tok::new(id, 0)),
                    _ => self.a.insert_new_cyclic_with(f),
                };
                if a[0] % 2 == 1 {
                    cx.eq("ret", "pointer given to create", seen, Some(q));
                }
                b.nt += 1;
                vec![b.issue(q, cx), id]
            }
            "cst" => new!(self.a.insert_start(p(0), Tok::new(id, 0))),
            "cen" => new!(self.a.insert_end(p(0), Tok::new(id, 0))),
            "rem" => match self.a.remove(p(0)) {
                Some((t, l, r)) => {
                    let v = vec![1, t.id, t.c, self.hl(b, l), self.hl(b, r)];
                    b.kill(b.h(p(0)));
                    v
                }
                None => vec![0],
            },
            "remc" => {
                // who is in the chain, before
                let mem = if self.a.contains(p(0)) { self.a.adv_chain(p(0), self.a.len() + 3) } else { vec![] };
                match self.a.remove_chain(p(0)) {
                    Some(n) => {
                        for q in mem {
                            b.kill(b.h(q));
                        }
                        vec![n as i64]
                    }
                    None => vec![0],
                }
            }
            "inv" => match self.a.invalidate(p(0)) {
                Some(q) => {
                    b.kill(b.h(p(0)));
                    vec![b.issue(q, cx)]
                }
                None => vec![0],
            },
            "rk" => match self.a.replace_keep(p(0), Tok::new(id, 0)) {
                Ok(t) => {
                    b.nt += 1;
                    vec![1, id, t.id, t.c]
                }
                Err(t) => {
                    cx.eq("accept", "returned value", t.key(), (id, 0));
                    vec![0]
                }
            },
            "ru" => match self.a.replace_update(p(0), Tok::new(id, 0)) {
                Ok((t, q)) => {
                    b.nt += 1;
                    b.kill(b.h(p(0)));
                    vec![b.issue(q, cx), id, t.id, t.c]
                }
                Err(t) => {
                    cx.eq("accept", "returned value", t.key(), (id, 0));
                    vec![0]
                }
            },
            "set" => match a.get(1) {
                Some(1) if self.a.contains(p(0)) => {
                    self.a.index_mut(p(0)).c += 1;
                    vec![1]
                }
                Some(2) if self.a.contains(p(0)) => {
                    vec![self.a.no_gen_mut(p(0), 1).is_some() as i64]
                }
                Some(3) => vec![self.a.link_mut(p(0), 1).is_some() as i64],
                _ => vec![self.a.get_mut(p(0)).map(|t| t.c += 1).is_some() as i64],
            },
            "seta" => {
                let mut n = 0;
                let mut f = |t: &mut Tok| {
                    t.c += 1;
                    n += 1
                };
                match a[0] {
                    0 => self.a.vals_mut(f),
                    1 => self.a.iter_mut(|_, _, _, t| f(t)),
                    _ => self.a.into_iter_mut(|_, _, _, t| f(t)),
                }
                vec![n]
            }
            "swap" => vec![self.a.swap(p(0), p(1)).is_some() as i64],
            "get2" => {
                if a.get(2) == Some(&1) {
                    let want = [self.a.link(p(0)), self.a.link(p(1))];
                    match self.a.get2_link(p(0), p(1)) {
                        Some((v, l)) => {
                            if let [Some(x), Some(y)] = want {
                                cx.eq("link", "links of get2_link_mut", l, [x.0, x.1, y.0, y.1]);
                            }
                            v
                        }
                        None => vec![0],
                    }
                } else {
                    self.a.get2(p(0), p(1)).unwrap_or(vec![0])
                }
            }
            "conn" => vec![self.a.connect(p(0), p(1)).is_some() as i64],
            "brkp" => vec![self.a.break_prev(p(0)).is_some() as i64],
            "brkn" => vec![self.a.break_next(p(0)).is_some() as i64],
            "exch" => vec![self.a.exchange_next(p(0), p(1)).is_some() as i64],
            "clear" => {
                self.a.clear();
                b.kill_all();
                vec![]
            }
            "cshr" => {
                self.a.clear_and_shrink();
                b.kill_all();
                vec![]
            }
            "comp" => {
                let old = toks(&self.a, b);
                let mut map: BTreeMap<Raw, P> = BTreeMap::new();
                let mut order = vec![];
                match a[0] {
                    0 => self.a.compress(),
                    1 => {
                        let mut bad = vec![];
                        self.a.compress_with(|p, t, q| {
                            order.push(q);
                            if old.get(&p.raw()) != Some(&t.key()) || map.insert(p.raw(), q).is_some() {
                                bad.push(format!("callback({p:?}, {t:?}, {q:?})"));
                            }
                        });
                        for x in bad {
                            cx.fail("comp", x);
                        }
                        cx.eq("comp", "callback calls", map.len(), old.len());
                    }
                    _ => {
                        let dead = b.dead();
                        let c = self.a.holding(|p| holds(b, p));
                        let rc = self.a.recaster();
                        check_recaster(&rc, b, &dead, &mut map, cx);
                        for (l, got) in X::links(&c, &rc) {
                            let want = l.iter().map(|p| p.and_then(|p| map.get(&p.raw()).copied())).collect();
                            cx.eq("comp", "link after its recast", got, Ok(want));
                        }
                        check_recast(&rc, &map, &dead, c, X::held, X::spoil, cx);
                    }
                }
                let seq = self.a.ptrs(old.len() * 2 + 4);
                let found: BTreeMap<(i64, i64), P> =
                    seq.iter().filter_map(|q| self.a.get(*q).map(|t| (t.key(), *q))).collect();
                self.contiguous(&seq, cx, "iteration after compression");
                self.contiguous(&order, cx, "callbacks of compression");
                rename(b, &old, &found, &map, a[0] > 0, cx)
            }
            "res" => {
                self.a.reserve(a[0] as usize);
                vec![]
            }
            "drain" => {
                let mut want = toks(&self.a, b);
                let v = self.a.drain(a[0]);
                for (p, t) in &v {
                    cx.eq("iter", "drain", Some(t.key()), want.remove(&p.raw()));
                }
                cx.eq("iter", "empty after drain", self.a.len(), 0);
                b.kill_all();
                vec![v.len() as i64]
            }
            "into" if a[1] == 2 => {
                self.a = X::with(a[0] as usize);
                b.restart();
                vec![]
            }
            "into" => {
                let old = std::mem::take(&mut self.a);
                let mut want = toks(&old, b);
                let v = old.into(a[0]);
                for (p, t) in &v {
                    cx.eq("iter", "capacity_drain", Some(t.key()), want.remove(&p.raw()));
                }
                b.restart();
                vec![v.len() as i64]
            }
            _ => panic!("unknown operation {o}"),
        }
    }

    fn look(&mut self, b: &Book<P>, s: &Value, deep: bool, cx: &mut Cx) {
        let e = expected(s);
        look(&mut self.a, b, &e, cx, None);
        if !deep || !cx.divs.is_empty() {
            return
        }
        let ptr = |h: Option<&i64>| h.map(|h| b.p(*h));
        let want: Vec<(P, Option<P>, Option<P>, Tok)> = self
            .a
            .ptrs(e.live.len())
            .into_iter()
            .map(|p| (p, b.h(p)))
            .map(|(p, h)| (p, ptr(e.prv.get(&h)), ptr(e.nxt.get(&h)), Tok::new(e.live[&h].0, e.live[&h].1)))
            .collect();
        self.a.texts(&want, cx);
        X::compare(&want, cx);
        drop(want);
        // clones
        let mut c = self.a.clone();
        look(&mut c, b, &e, cx, Some("clone"));
        cx.check(c == self.a, "eq", || "clone differs from its source".into());
        cx.eq("clone", "capacity of a clone", c.cap(), self.a.cap());
        cx.eq("clone", "generation of a clone", c.gen(), self.a.gen());
        if let Some(k) = e.live.keys().next() {
            let p = b.p(*k);
            // links are part of equality
            if let Some(n) = e.nxt.get(k) {
                let _ = c.break_next(p);
                cx.check(c != self.a, "eq", || "arenas with different links compare equal".into());
                let _ = c.connect(p, b.p(*n));
                cx.check(c == self.a, "eq", || "arenas with equal links compare different".into());
            }
            c.get_mut(p).map(|t| t.c += 5);
            cx.check(c != self.a, "eq", || "arenas with different contents compare equal".into());
            cx.eq("clone", "source after writing the clone", self.a.get(p).map(|t| t.key()), e.live.get(k).copied());
            let _ = c.remove(p);
            cx.check(c != self.a, "eq", || "arenas with different entries compare equal".into());
        }
        fill(&mut c, &mut Book::default(), cx, Some("clone"));
        look(&mut self.a, b, &e, cx, Some("clone"));
        drop(c);
        // conversions
        match self.a.via_arena() {
            Ok(mut c) => look(&mut c, b, &e, cx, Some("clone")),
            Err(x) => cx.fail("clone", format!("from_arena: {x}")),
        }
        let mut d: Arena<P, (i64, i64)> = Arena::new();
        for _ in 0..3 {
            d.insert((-1, -1));
        }
        let want_cap = d.capacity().max(self.a.cap());
        self.a.to_arena(&mut d);
        cx.eq("clone", "clone_to_arena capacity", d.capacity(), want_cap);
        let mut got: Vec<_> = d.iter().map(|(p, k)| (p.raw(), *k)).collect();
        got.sort();
        let mut want: Vec<_> = e.live.iter().map(|(h, k)| (b.p(*h).raw(), *k)).collect();
        want.sort();
        cx.eq("clone", "clone_to_arena", got, want);
        cx.eq("clone", "clone_to_arena generation", P::gen_num(d.generation()), self.a.gen());
        if let Some(mut c) = self.a.to_other() {
            cx.eq("clone", "clone_to_chain_arena generation", P::gen_num(c.generation()), self.a.gen());
            look2(&mut c, b, &e, cx);
        }
        // collecting
        let mut want: Vec<_> = e.live.values().map(|k| (None, None, *k)).collect();
        let toks: Vec<Tok> = e.live.keys().filter_map(|h| self.a.get(b.p(*h)).cloned()).collect();
        let mut d: X = Hinted(toks.into_iter(), self.a.cap()).collect();
        let mut got: Vec<_> = d.iter(want.len() + 2).into_iter().map(|x| (x.1, x.2, x.3)).collect();
        want.sort();
        got.sort();
        cx.eq("iter", "from_iter", got, want);
        cx.eq("len", "len after from_iter", d.len(), e.live.len());
        fill(&mut d, &mut Book::default(), cx, Some("iter"));
        drop(d);
        // serialization
        for (n, d) in round_trip::<X>(&self.a).into_iter().enumerate() {
            let Some(mut d) = d else {
                cx.fail("serde", format!("format {n}: deserialization failed"));
                continue
            };
            let mut b2 = reset_book(b, cx);
            look(&mut d, &b2, &e, cx, Some("serde"));
            if let Err(x) = d.check() {
                cx.fail("serde", x);
            }
            fill(&mut d, &mut b2, cx, Some("serde"));
            for k in e.live.keys() {
                cx.eq("serde", "remove", d.remove(b2.p(*k)).map(|t| t.0.key()), e.live.get(k).copied());
            }
        }
    }

    fn last(&mut self, b: &mut Book<P>, _s: &Value, cx: &mut Cx) {
        if let Err(e) = self.a.check() {
            cx.fail("inv", e);
        }
        fill(&mut self.a, b, cx, None);
    }

    fn copy(&mut self, src: &Self, v: i64, _b: &Book<P>, cx: &mut Cx) {
        match v {
            0 => self.a.clone_from(&src.a),
            1 => {
                let mut n = 0;
                self.a.clone_from_with(&src.a, |p, t| {
                    n += 1;
                    if src.a.get(p) != Some(t) {
                        cx.fail("clone", "clone_from_with passes a wrong pointer");
                    }
                    t.clone()
                });
                cx.eq("clone", "calls of the map", n, src.a.len());
            }
            _ => self.a = src.a.clone(),
        }
    }

    fn cmp_pair(&mut self, o: &mut Self, b: &Book<P>, ob: &Book<P>, s: &Value, os: &Value, cx: &mut Cx) {
        let set = |b: &Book<P>, s: &Value| {
            let e = expected(s);
            let mut v: Vec<_> = e
                .live
                .iter()
                .map(|(h, k)| (b.p(*h).raw(), *k, e.nxt.get(h).map(|n| X::raw_link(b.p(*n)))))
                .collect();
            v.sort();
            v
        };
        let same = set(b, s) == set(ob, os);
        cx.eq("eq", "x == y", self.a == o.a, same);
        cx.eq("eq", "y == x", o.a == self.a, same);
        cx.eq("eq", "x != y", self.a != o.a, !same);
        // the same with nothing but pointers and links to tell entries apart
        let links = |b: &Book<P>, s: &Value| set(b, s).into_iter().map(|x| (x.0, x.2)).collect::<Vec<_>>();
        let (mut x, mut y) = (self.a.clone(), o.a.clone());
        x.clone_from_with(&self.a, |_, _| Tok::new(0, 0));
        y.clone_from_with(&o.a, |_, _| Tok::new(0, 0));
        cx.eq("eq", "x == y without contents", x == y, links(b, s) == links(ob, os));
    }

    fn snapshot(&self, b: &Book<P>) -> Value {
        let mut v = vec![];
        for h in b.ptrs.keys() {
            if b.usable(*h) {
                if let Some(t) = self.a.get(b.p(*h)) {
                    v.push(vec![*h, t.id, t.c]);
                }
            }
        }
        let (mut w, mut nx, mut pv) = (vec![], vec![], vec![]);
        for (p, x, y, k) in self.a.iter(self.a.len() + 3) {
            let h = b.h(p);
            w.push(vec![h, k.0, k.1]);
            if x.is_some() {
                pv.push(vec![h, self.hl(b, x)]);
            }
            if y.is_some() {
                nx.push(vec![h, self.hl(b, y)]);
            }
        }
        w.sort();
        nx.sort();
        pv.sort();
        serde_json::json!({"live": v, "it": w, "nx": nx, "pv": pv})
    }
}

/// the result of a conversion to a `ChainArena`
fn look2<P: PX + Recast<P>>(c: &mut ChainArena<P, Tok>, b: &Book<P>, e: &Exp, cx: &mut Cx) {
    look(c, b, e, cx, Some("clone"))
}

impl<P: PX + Recast<P>, X: Ch<P> + 'static> Walk for C<P, X> {
    fn start(&self, _kind: i64, p: Option<P>) -> Adv<Self> {
        let mut adv = self.a.walker(p);
        Box::new(move |k| adv(&k.a))
    }
}

// ---------------------------------------------------------------------------
// recording

fn random_step<P: PX + Recast<P>, X: Ch<P> + 'static>(s: &mut Run<C<P, X>>, target: usize) -> bool {
    let len = s.k.a.len();
    let grow = if len < target { 14 } else { 4 };
    let (h, h2) = (s.b.any(&mut s.r), s.b.any(&mut s.r));
    let w = [grow, 6, 2, 2, 2, 2, 1, 2, 6, 5, 6, 2];
    if s.r.chance(1, 7) {
        return s.walk()
    }
    let k = s.r.weighted(&w);
    if h.is_none() || (k == 0 && s.r.chance(1, 5)) {
        let v = s.r.below(4) as i64;
        return s.op("cnew", vec![v])
    }
    let (h, h2) = (h.unwrap(), h2.unwrap());
    // neighbours, mostly
    let live = |s: &Run<C<P, X>>, h: i64| s.b.live.contains(&h);
    match k {
        0 => match s.r.below(6) {
            0 => s.op("cst", vec![h]),
            1 => s.op("cen", vec![h]),
            2 => {
                let n = s.k.a.link(s.b.p(h)).map(|l| s.k.hl(&s.b, l.1)).unwrap_or(h2);
                let n = if n <= 0 || s.r.chance(1, 6) { h2 } else { n };
                let v = s.r.below(2) as i64;
                if !X::GEN && !(live(s, h) && live(s, n)) {
                    return true
                }
                s.op("cins", vec![h, n, v])
            }
            x => {
                let v = s.r.below(2) as i64;
                if !X::GEN && !live(s, h) {
                    return true
                }
                s.op("cins", if x % 2 == 0 { vec![h, -1, v] } else { vec![-1, h, v] })
            }
        },
        1 => s.op("rem", vec![h]),
        2 => s.op("inv", vec![h]),
        3 => s.op("rk", vec![h]),
        4 => s.op("ru", vec![h]),
        5 => s.op("set", vec![h, 3]),
        6 => s.op("swap", vec![h, h2]),
        7 => {
            let v = s.r.below(2) as i64;
            s.op("get2", vec![h, h2, v])
        }
        8 => s.op("conn", vec![h, h2]),
        9 => {
            let o = if s.r.chance(1, 2) { "brkn" } else { "brkp" };
            s.op(o, vec![h])
        }
        10 => s.op("exch", vec![h, h2]),
        _ => match s.r.below(14) {
            0 => s.op("clear", vec![]),
            1 => s.op("cshr", vec![]),
            2 | 3 | 4 => {
                let v = s.r.below(3) as i64;
                s.op("comp", vec![v])
            }
            5 | 6 | 7 => s.op("remc", vec![h]),
            8 => {
                let n = s.r.below(5) as i64;
                if s.k.a.cap() + (n as usize) < P::max_inx() {
                    s.op("res", vec![n])
                } else {
                    true
                }
            }
            9 => {
                let n = s.r.below(len + 2) as i64;
                s.op("drain", vec![n])
            }
            10 => {
                let n = s.r.below(len + 2) as i64;
                s.op("into", vec![n, 1])
            }
            _ => s.op("seta", vec![0]),
        },
    }
}

fn record(args: &Args) {
    quiet_panics();
    let seed = args.n("seed", 1) as u64;
    let mult = args.n("mult", 1) as usize;
    let mut rec = Recorder::default();
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ 0xc4a17);
    for i in 0..(3 * mult) {
        let t = 4 + 3 * (i % 4);
        session::<C<PD, ChainArena<PD, Tok>>>(&mut rec, r.next(), 250, 2, |s| random_step(s, t));
        session::<C<PD, ChainNoGenArena<PD, Tok>>>(&mut rec, r.next(), 200, 2, |s| random_step(s, t));
    }
    for _ in 0..mult {
        session::<C<PD, ChainArena<PD, Tok>>>(&mut rec, r.next(), 300, 5, |s| random_step(s, 30));
        session::<C<PS, ChainArena<PS, Tok>>>(&mut rec, r.next(), 300, 3, |s| random_step(s, 6));
        session::<C<PS, ChainNoGenArena<PS, Tok>>>(&mut rec, r.next(), 300, 3, |s| random_step(s, 6));
        session::<C<PN, ChainArena<PN, Tok>>>(&mut rec, r.next(), 150, 3, |s| random_step(s, 6));
    }
    rec.save(&args.s("record", "trace.ndjson"));
}

type G<P> = C<P, ChainArena<P, Tok>>;
type N<P> = C<P, ChainNoGenArena<P, Tok>>;

fn main() {
    let args = Args::get();
    if args.map.contains_key("record") {
        return record(&args)
    }
    if args.map.contains_key("de") {
        return replay_main(&args, &[
            ("json", run_format::<0, One<G<PD>>>),
            ("from-arena", run_format::<3, One<G<PD>>>),
            ("bincode-narrow", run_format::<1, One<G<PS>>>),
            ("ron-nogen", run_format::<2, One<G<PN>>>),
            ("nogenlink", run_format::<1, One<N<PD>>>),
            ("nogenlink-from-arena", run_format::<3, One<N<PS>>>),
            ("wide", run_format::<0, One<G<PW>>>),
        ])
    }
    if args.map.contains_key("pair") {
        return replay_main(&args, &[
            ("default", run_line::<Pair<G<PD>>>),
            ("narrow-nogenlink", run_line::<Pair<N<PS>>>),
        ])
    }
    if args.map.contains_key("loop") {
        return replay_main(&args, &[
            ("default", run_line::<Loop<G<PD>>>),
            ("nogen", run_line::<Loop<G<PN>>>),
            ("nogenlink", run_line::<Loop<N<PS>>>),
        ])
    }
    replay_main(&args, &[
        ("default", run_line::<One<G<PD>>>),
        ("nogen", run_line::<One<G<PN>>>),
        ("nogenlink", run_line::<One<N<PD>>>),
        ("narrow", run_line::<One<G<PS>>>),
        ("narrow-nogenlink", run_line::<One<N<PS>>>),
    ]);
}
