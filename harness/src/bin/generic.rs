//! The generic interface of the arenas: replay of MCTrait* behaviours through
//! `ArenaTrait`, with the concrete interface as a second witness.

use harness::{ptrs::*, *};
use std::{cmp::Ordering, collections::BTreeMap, num::NonZeroUsize};
use triple_arena::{
    utils::{ChainNoGenArena, LinkNoGen, PtrInx},
    Advancer, Arena, ArenaTrait, ChainArena, Link, OrdArena, SurjectArena,
};

/// What the executor has to know about an arena kind.
trait Gen: ArenaTrait
where
    Self::P: PX,
{
    /// the entry to be inserted; the first token is `id`
    fn entry(&self, o: &str, a: &[i64], p: &[Option<Self::P>], id: i64) -> Self::E;
    /// is a valid index enough for the links of an inserted entry?
    const INDEX: bool = false;
    /// tokens in an entry
    const TOKENS: i64;
    /// tokens numbered by an insertion
    const NUMBERED: i64;
    fn of_entry(b: &Book<Self::P>, e: Self::E) -> Vec<i64>;
    fn of_get(b: &Book<Self::P>, e: Self::GetRes<'_>) -> Vec<i64>;
    fn of_mut(b: &Book<Self::P>, e: &Self::GetMutRes<'_>) -> Vec<i64>;
    fn bump(e: Self::GetMutRes<'_>);
    /// handle -> contents
    fn want(s: &Value) -> BTreeMap<i64, Vec<i64>>;
    /// everything that `ArenaTrait::advancer` yields
    fn walk(&self, max: usize) -> Vec<Self::P>;
    /// operations of the concrete interface
    fn concrete(&mut self, b: &mut Book<Self::P>, o: &str, p: &[Option<Self::P>], cx: &mut Cx) -> Vec<i64>;
    /// len, capacity, generation, is_empty and the pointers of the concrete interface
    fn facts(&self) -> (usize, usize, Option<u64>, bool, Vec<Self::P>);
    fn same(&self, b: &Book<Self::P>, p: Self::P) -> (bool, Option<Vec<i64>>);
    /// must `walk` be in this order?
    fn order(_s: &Value) -> Option<Vec<i64>> {
        None
    }
}

macro_rules! common {
    () => {
        fn walk(&self, max: usize) -> Vec<Self::P> {
            let mut adv = ArenaTrait::advancer(self);
            let mut v = vec![];
            while let Some(p) = adv.advance(self) {
                v.push(p);
                if v.len() > max {
                    break
                }
            }
            v
        }
    };
}

macro_rules! facts {
    ($len:ident, $cap:ident) => {
        fn facts(&self) -> (usize, usize, Option<u64>, bool, Vec<P>) {
            let mut v = vec![];
            let mut adv = self.advancer();
            while let Some(p) = adv.advance(self) {
                v.push(p);
                if v.len() > self.$len() + 3 {
                    break
                }
            }
            (self.$len(), self.$cap(), P::gen_num(self.generation()), self.is_empty(), v)
        }
    };
}

fn invalidated<P: PX>(b: &mut Book<P>, p: Option<P>, q: Option<P>, cx: &mut Cx) -> Vec<i64> {
    match q {
        Some(q) => {
            b.kill(b.h(p.unwrap()));
            vec![b.issue(q, cx)]
        }
        None => vec![0],
    }
}

// Arena

impl<P: PX> Gen for Arena<P, Tok> {
    const NUMBERED: i64 = 1;
    const TOKENS: i64 = 1;

    common!();

    facts!(len, capacity);

    fn entry(&self, _: &str, _: &[i64], _: &[Option<P>], id: i64) -> Tok {
        Tok::new(id, 0)
    }

    fn of_entry(_: &Book<P>, e: Tok) -> Vec<i64> {
        vec![e.id, e.c]
    }

    fn of_get(_: &Book<P>, e: &Tok) -> Vec<i64> {
        vec![e.id, e.c]
    }

    fn of_mut(_: &Book<P>, e: &&mut Tok) -> Vec<i64> {
        vec![e.id, e.c]
    }

    fn bump(e: &mut Tok) {
        e.c += 1
    }

    fn want(s: &Value) -> BTreeMap<i64, Vec<i64>> {
        rows(&s["live"]).into_iter().map(|x| (x[0], x[1..3].to_vec())).collect()
    }

    fn concrete(&mut self, b: &mut Book<P>, o: &str, p: &[Option<P>], cx: &mut Cx) -> Vec<i64> {
        match o {
            "inv" => {
                let q = self.invalidate(p[0].unwrap());
                invalidated(b, p[0], q, cx)
            }
            _ => panic!("unknown operation {o}"),
        }
    }

    fn same(&self, _: &Book<P>, p: P) -> (bool, Option<Vec<i64>>) {
        (self.contains(p), self.get(p).map(|t| vec![t.id, t.c]))
    }
}

// chains

fn chain_want(s: &Value) -> BTreeMap<i64, Vec<i64>> {
    let nxt: BTreeMap<i64, i64> = rows(&s["nxt"]).into_iter().map(|x| (x[0], x[1])).collect();
    let prv: BTreeMap<i64, i64> = nxt.iter().map(|(x, y)| (*y, *x)).collect();
    let at = |m: &BTreeMap<i64, i64>, h: i64| m.get(&h).copied().unwrap_or(0);
    rows(&s["live"]).into_iter().map(|x| (x[0], vec![x[1], x[2], at(&prv, x[0]), at(&nxt, x[0])])).collect()
}

fn num<P: PX>(i: P::Inx) -> usize {
    PtrInx::get(i).get()
}

macro_rules! chain {
    ($arena:ident, $link:ident, $inx:expr, $h:expr, $t:expr) => {
        impl<P: PX> Gen for $arena<P, Tok> {
            const INDEX: bool = $inx;
            const NUMBERED: i64 = 1;
            const TOKENS: i64 = 1;

            common!();

            facts!(len, capacity);

            fn entry(&self, _: &str, _: &[i64], p: &[Option<P>], id: i64) -> $link<P, Tok> {
                let t: fn(P) -> _ = $t;
                $link::new((p[0].map(t), p[1].map(t)), Tok::new(id, 0))
            }

            fn of_entry(b: &Book<P>, e: $link<P, Tok>) -> Vec<i64> {
                let h: fn(&Book<P>, _) -> i64 = $h;
                vec![e.t.id, e.t.c, h(b, e.prev()), h(b, e.next())]
            }

            fn of_get(b: &Book<P>, e: &$link<P, Tok>) -> Vec<i64> {
                let h: fn(&Book<P>, _) -> i64 = $h;
                vec![e.t.id, e.t.c, h(b, e.prev()), h(b, e.next())]
            }

            fn of_mut(b: &Book<P>, e: &$link<P, &mut Tok>) -> Vec<i64> {
                let h: fn(&Book<P>, _) -> i64 = $h;
                vec![e.t.id, e.t.c, h(b, e.prev()), h(b, e.next())]
            }

            fn bump(e: $link<P, &mut Tok>) {
                e.t.c += 1
            }

            fn want(s: &Value) -> BTreeMap<i64, Vec<i64>> {
                chain_want(s)
            }

            fn concrete(&mut self, b: &mut Book<P>, o: &str, p: &[Option<P>], cx: &mut Cx) -> Vec<i64> {
                match o {
                    "inv" => {
                        let q = self.invalidate(p[0].unwrap());
                        invalidated(b, p[0], q, cx)
                    }
                    "cnew" => {
                        let q = self.insert_new_cyclic(Tok::new(b.token(), 0));
                        vec![b.issue(q, cx), b.nt]
                    }
                    _ => panic!("unknown operation {o}"),
                }
            }

            fn same(&self, b: &Book<P>, p: P) -> (bool, Option<Vec<i64>>) {
                (self.contains(p), self.get_link(p).map(|l| Self::of_get(b, l)))
            }
        }
    };
}

chain!(ChainArena, Link, false, |b, p| b.h_opt(p), |p| p);
chain!(
    ChainNoGenArena,
    LinkNoGen,
    true,
    |b, i: Option<P::Inx>| i.map(|i| b.h_inx(num::<P>(i))).unwrap_or(0),
    |p| PtrInx::new(NonZeroUsize::new(p.raw().0).unwrap())
);

// surjections

impl<P: PX> Gen for SurjectArena<P, Tok, ()> {
    // the specification numbers the values as well
    const NUMBERED: i64 = 2;
    const TOKENS: i64 = 1;

    common!();

    facts!(len_keys, capacity_keys);

    fn entry(&self, _: &str, _: &[i64], _: &[Option<P>], id: i64) -> Tok {
        Tok::new(id, 0)
    }

    fn of_entry(_: &Book<P>, e: Tok) -> Vec<i64> {
        vec![e.id, e.c]
    }

    fn of_get(_: &Book<P>, e: &Tok) -> Vec<i64> {
        vec![e.id, e.c]
    }

    fn of_mut(_: &Book<P>, e: &&mut Tok) -> Vec<i64> {
        vec![e.id, e.c]
    }

    fn bump(e: &mut Tok) {
        e.c += 1
    }

    fn want(s: &Value) -> BTreeMap<i64, Vec<i64>> {
        rows(&s["live"]).into_iter().map(|x| (x[0], x[1..3].to_vec())).collect()
    }

    fn concrete(&mut self, b: &mut Book<P>, o: &str, p: &[Option<P>], cx: &mut Cx) -> Vec<i64> {
        match o {
            "skey" => {
                let q = self.insert_key(p[0].unwrap(), Tok::new(b.token(), 0)).ok().unwrap();
                vec![b.issue(q, cx), b.nt]
            }
            "union" => match self.union(p[0].unwrap(), p[1].unwrap()) {
                Some(_) => vec![1],
                None => vec![0],
            },
            _ => panic!("unknown operation {o}"),
        }
    }

    fn same(&self, _: &Book<P>, p: P) -> (bool, Option<Vec<i64>>) {
        (self.contains(p), self.get_key(p).map(|t| vec![t.id, t.c]))
    }
}

// ordered arenas

struct Key {
    n: i128,
    t: Tok,
}

impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.n == o.n
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        self.n.cmp(&o.n)
    }
}

impl<P: PX> Gen for OrdArena<P, Key, Tok> {
    const NUMBERED: i64 = 2;
    const TOKENS: i64 = 2;

    common!();

    facts!(len, capacity);

    fn entry(&self, o: &str, a: &[i64], p: &[Option<P>], id: i64) -> (Key, Tok) {
        let n = if o == "oeq" {
            self.get_key(p[0].unwrap()).unwrap().n
        } else {
            let keys: Vec<i128> = self.keys().map(|k| k.n).collect();
            let i = a[0] as usize;
            match (i.checked_sub(1).and_then(|i| keys.get(i)), keys.get(i)) {
                (None, None) => 0,
                (Some(lo), None) => lo + (1 << 100),
                (None, Some(hi)) => hi - (1 << 100),
                (Some(lo), Some(hi)) => lo + (hi - lo) / 2,
            }
        };
        (Key { n, t: Tok::new(id, 0) }, Tok::new(id + 1, 0))
    }

    fn of_entry(_: &Book<P>, e: (Key, Tok)) -> Vec<i64> {
        vec![e.0.t.id, e.1.id, e.1.c]
    }

    fn of_get(_: &Book<P>, e: (&Key, &Tok)) -> Vec<i64> {
        vec![e.0.t.id, e.1.id, e.1.c]
    }

    fn of_mut(_: &Book<P>, e: &(&Key, &mut Tok)) -> Vec<i64> {
        vec![e.0.t.id, e.1.id, e.1.c]
    }

    fn bump(e: (&Key, &mut Tok)) {
        e.1.c += 1
    }

    fn want(s: &Value) -> BTreeMap<i64, Vec<i64>> {
        rows(&s["live"]).into_iter().map(|x| (x[0], vec![x[3], x[1], x[2]])).collect()
    }

    fn concrete(&mut self, b: &mut Book<P>, o: &str, p: &[Option<P>], cx: &mut Cx) -> Vec<i64> {
        match o {
            "inv" => {
                let q = self.invalidate(p[0].unwrap());
                invalidated(b, p[0], q, cx)
            }
            _ => panic!("unknown operation {o}"),
        }
    }

    fn same(&self, _: &Book<P>, p: P) -> (bool, Option<Vec<i64>>) {
        (self.contains(p), self.get(p).map(|x| vec![x.0.t.id, x.1.id, x.1.c]))
    }

    fn order(s: &Value) -> Option<Vec<i64>> {
        Some(ints(&s["seq"]))
    }
}

// the executor

struct T<A>(A);

impl<A: Gen> Kind for T<A>
where
    A::P: PX,
{
    type P = A::P;

    fn new() -> Self {
        T(<A as ArenaTrait>::new())
    }

    fn nargs(o: &str) -> usize {
        match o {
            "rem" | "remk" | "set" | "inv" | "skey" | "oeq" => 1,
            "cins" | "union" => 2,
            _ => 0,
        }
    }

    fn by_index(o: &str) -> bool {
        A::INDEX && o == "cins"
    }

    fn call(&mut self, b: &mut Book<A::P>, o: &str, a: &[i64], p: &[Option<A::P>], cx: &mut Cx) -> Vec<i64> {
        match o {
            "ins" | "cins" | "sins" | "oins" => {
                let id = b.nt + 1;
                let e = self.0.entry(o, a, p, id);
                let q = ArenaTrait::insert(&mut self.0, e);
                b.nt += A::NUMBERED;
                let mut r = vec![b.issue(q, cx)];
                if o != "oins" {
                    r.extend(id..=b.nt);
                }
                r
            }
            // replaces the entry with an equal key
            "oeq" => {
                let e = self.0.entry(o, a, p, b.nt + 1);
                let q = ArenaTrait::insert(&mut self.0, e);
                b.nt += A::NUMBERED;
                vec![b.h(q)]
            }
            "rem" | "remk" => match ArenaTrait::remove(&mut self.0, p[0].unwrap()) {
                Some(e) => {
                    let mut r = vec![1];
                    r.extend(A::of_entry(b, e));
                    b.kill(b.h(p[0].unwrap()));
                    r
                }
                None => vec![0],
            },
            "set" => match ArenaTrait::get_mut(&mut self.0, p[0].unwrap()) {
                Some(e) => {
                    A::bump(e);
                    vec![1]
                }
                None => vec![0],
            },
            "clear" => {
                ArenaTrait::clear(&mut self.0);
                b.kill_all();
                vec![]
            }
            "cshr" => {
                ArenaTrait::clear_and_shrink(&mut self.0);
                b.kill_all();
                vec![]
            }
            _ => self.0.concrete(b, o, p, cx),
        }
    }

    fn scal(&self) -> Scal {
        Scal {
            len: ArenaTrait::len(&self.0),
            cap: ArenaTrait::capacity(&self.0),
            gen: A::P::gen_num(ArenaTrait::generation(&self.0)),
            vlen: 0,
            vcap: None,
        }
    }

    fn look(&mut self, b: &Book<A::P>, s: &Value, _: bool, cx: &mut Cx) {
        let want = A::want(s);
        let a = &mut self.0;
        let (len, cap, gen, empty, ptrs) = a.facts();
        cx.eq("len", "ArenaTrait::len", (ArenaTrait::len(a), len), (want.len(), want.len()));
        cx.eq("len", "ArenaTrait::is_empty", (ArenaTrait::is_empty(a), empty), (want.is_empty(), want.is_empty()));
        cx.eq("cap", "ArenaTrait::capacity", ArenaTrait::capacity(a), cap);
        cx.eq("gen", "ArenaTrait::generation", A::P::gen_num(ArenaTrait::generation(a)), gen);
        for (h, w) in &want {
            let p = b.p(*h);
            cx.eq("valid", "contains", (ArenaTrait::contains(a, p), a.same(b, p).0), (true, true));
            let got = ArenaTrait::get(a, p).map(|e| A::of_get(b, e));
            cx.eq("valid", "ArenaTrait::get", got.as_ref(), Some(w));
            cx.eq("valid", "concrete lookup", a.same(b, p).1.as_ref(), Some(w));
            let got = ArenaTrait::get_mut(a, p).map(|e| A::of_mut(b, &e));
            cx.eq("valid", "ArenaTrait::get_mut", got.as_ref(), Some(w));
        }
        for p in b.dead() {
            cx.eq("stale", "contains of an invalid pointer", (ArenaTrait::contains(a, p), a.same(b, p).0), (false, false));
            cx.eq("stale", "ArenaTrait::get", ArenaTrait::get(a, p).map(|e| A::of_get(b, e)), None);
            cx.eq("stale", "ArenaTrait::get_mut", ArenaTrait::get_mut(a, p).map(|e| A::of_mut(b, &e)), None);
        }
        let got = a.walk(want.len() + 3);
        cx.eq("adv", "ArenaTrait::advancer and the concrete advancer", &got, &ptrs);
        let mut hs: Vec<i64> = got.iter().map(|p| b.h(*p)).collect();
        match A::order(s) {
            Some(q) => cx.eq("adv", "ArenaTrait::advancer", hs, q),
            None => {
                hs.sort();
                cx.eq("adv", "ArenaTrait::advancer", hs, want.keys().copied().collect())
            }
        }
    }

    fn ids(s: &Value) -> Vec<i64> {
        // key and value come first in `want`
        A::want(s).values().flat_map(|v| v[..A::TOKENS as usize].to_vec()).collect()
    }

    fn last(&mut self, _: &mut Book<A::P>, _: &Value, _: &mut Cx) {}
}

fn main() {
    let args = Args::get();
    match args.map.get("kind").map(|s| s.as_str()) {
        Some("arena") => replay_main(&args, &[
            ("default", run_line::<One<T<Arena<PD, Tok>>>>),
            ("narrow", run_line::<One<T<Arena<PS, Tok>>>>),
            ("nogen", run_line::<One<T<Arena<PN, Tok>>>>),
        ]),
        Some("chain") => replay_main(&args, &[
            ("default", run_line::<One<T<ChainArena<PD, Tok>>>>),
            ("nogenlink", run_line::<One<T<ChainNoGenArena<PD, Tok>>>>),
            ("narrow", run_line::<One<T<ChainArena<PS, Tok>>>>),
            ("nogen-nogenlink", run_line::<One<T<ChainNoGenArena<PN, Tok>>>>),
        ]),
        Some("surject") => replay_main(&args, &[
            ("default", run_line::<One<T<SurjectArena<PD, Tok, ()>>>>),
            ("nogen", run_line::<One<T<SurjectArena<PN, Tok, ()>>>>),
        ]),
        Some("ord") => replay_main(&args, &[
            ("default", run_line::<One<T<OrdArena<PD, Key, Tok>>>>),
            ("narrow", run_line::<One<T<OrdArena<PS, Key, Tok>>>>),
        ]),
        _ => panic!("--kind arena|chain|surject|ord"),
    }
}
