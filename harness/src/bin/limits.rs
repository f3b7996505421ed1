//! Replays histories that reach the limits of the index type and of the
//! generation counter.

use harness::{ptrs::*, *};
use std::collections::{BTreeMap, HashSet};
use triple_arena::{utils::ChainNoGenArena, *};

mod wide {
    use core::num::NonZeroU8;
    triple_arena::ptr_struct!(PB[NonZeroU8]);
    triple_arena::ptr_struct!(PG(NonZeroU8));
}
use wide::{PB, PG};

/// One arena kind, reduced to what matters at the limits. `live` are the valid
/// pointers, the oldest first.
trait Lim: Sized + Clone {
    type P: PX + Recast<Self::P>;
    fn new() -> Self;
    /// inserts through entry point `v`; `None` if it reports that there is no
    /// space left
    fn insert(&mut self, v: i64, id: i64, live: &[Self::P]) -> Option<Self::P>;
    fn remove(&mut self, p: Self::P) -> bool;
    fn inval(&mut self, v: i64, p: Self::P) -> Option<Self::P>;
    fn get(&self, p: Self::P) -> Option<i64>;
    fn len(&self) -> usize;
    fn cap(&self) -> usize;
    fn gen(&self) -> Option<u64>;
    fn res(&mut self, n: usize);
    fn clear(&mut self);
    fn cshr(&mut self);
    fn comp(&mut self);
    fn comp_with(&mut self, f: &mut dyn FnMut(Self::P, Self::P));
    fn comp_recast(&mut self) -> Arena<Self::P, Self::P>;
    fn drain(&mut self) -> Vec<Self::P>;
    fn into_ptrs(self) -> Vec<Self::P>;
    fn wipe(&mut self, p: Self::P);
    fn all(&self) -> Vec<(Self::P, i64)>;
    fn dup(&self, v: i64) -> Self;
    /// collects `n` entries from an iterator, `None` if there is no such function
    fn collect(n: usize, way: usize) -> Option<Self>;
    fn inv(&self) -> bool;
}

#[derive(Clone)]
struct LA<P: PX>(Arena<P, Tok>);

impl<P: PX + Recast<P>> Lim for LA<P> {
    type P = P;

    fn new() -> Self {
        LA(Arena::new())
    }

    fn insert(&mut self, v: i64, id: i64, _live: &[P]) -> Option<P> {
        let mut id2 = id;
        if v >= 2 && self.0.len() == self.0.capacity() && self.0.len() < P::max_inx() {
            // these do not grow the arena
            let n = (P::max_inx() - self.0.len()).min(7);
            self.0.reserve(n);
        }
        match v {
            0 => Some(self.0.insert(Tok::new(id, 0))),
            1 => Some(self.0.insert_with(|p| {
                id2 = if P::has_gen() && p == P::invalid() { -1 } else { id };
                Tok::new(id2, 0)
            })),
            2 => self.0.try_insert(Tok::new(id, 0)).ok(),
            _ => self.0.try_insert_with(|_| Tok::new(id, 0)).ok(),
        }
    }

    fn remove(&mut self, p: P) -> bool {
        self.0.remove(p).is_some()
    }

    fn inval(&mut self, v: i64, p: P) -> Option<P> {
        if v == 0 {
            self.0.invalidate(p)
        } else {
            let id = self.0.get(p)?.id;
            self.0.replace_and_update_gen(p, Tok::new(id, 0)).ok().map(|x| x.1)
        }
    }

    fn get(&self, p: P) -> Option<i64> {
        self.0.get(p).map(|x| x.id)
    }

    fn len(&self) -> usize {
        self.0.len()
    }

    fn cap(&self) -> usize {
        self.0.capacity()
    }

    fn gen(&self) -> Option<u64> {
        P::gen_num(self.0.generation())
    }

    fn res(&mut self, n: usize) {
        self.0.reserve(n)
    }

    fn clear(&mut self) {
        self.0.clear()
    }

    fn cshr(&mut self) {
        self.0.clear_and_shrink()
    }

    fn comp(&mut self) {
        self.0.compress_and_shrink()
    }

    fn comp_with(&mut self, f: &mut dyn FnMut(P, P)) {
        self.0.compress_and_shrink_with(|p, _, q| f(p, q))
    }

    fn comp_recast(&mut self) -> Arena<P, P> {
        self.0.compress_and_shrink_recaster()
    }

    fn drain(&mut self) -> Vec<P> {
        self.0.drain().map(|x| x.0).collect()
    }

    fn into_ptrs(self) -> Vec<P> {
        self.0.into_iter().map(|x| x.0).collect()
    }

    fn wipe(&mut self, _p: P) {
        self.0.remove_by(|_, _| true)
    }

    fn all(&self) -> Vec<(P, i64)> {
        self.0.iter().map(|(p, t)| (p, t.id)).collect()
    }

    fn dup(&self, v: i64) -> Self {
        if v == 0 {
            self.clone()
        } else {
            let mut x = LA(Arena::new());
            x.0.insert(Tok::new(-1, 0));
            x.0.clone_from(&self.0);
            x
        }
    }

    fn collect(n: usize, way: usize) -> Option<Self> {
        Some(LA(Hinted((0..n).map(|_| Tok::new(-1, 0)), way).collect()))
    }

    fn inv(&self) -> bool {
        Arena::_check_invariants(&self.0).is_ok()
    }
}

macro_rules! chain {
    ($name:ident, $arena:ident, $arg:expr) => {
        #[derive(Clone)]
        struct $name<P: PX>($arena<P, Tok>);

        impl<P: PX + Recast<P>> Lim for $name<P> {
            type P = P;

            fn new() -> Self {
                $name($arena::new())
            }

            fn insert(&mut self, v: i64, id: i64, live: &[P]) -> Option<P> {
                let t = Tok::new(id, 0);
                let arg = $arg;
                match (v, live.last()) {
                    (0, _) => Some(self.0.insert_new(t)),
                    (1, _) => Some(self.0.insert_new_with(|_| t)),
                    (2, _) => Some(self.0.insert_new_cyclic(t)),
                    (3, _) => Some(self.0.insert_new_cyclic_with(|_| t)),
                    (_, None) => Some(self.0.insert_new(t)),
                    // somewhere into the chain
                    (4, Some(p)) if id % 2 == 0 => Some(self.0.insert((Some(arg(*p)), None), t).unwrap()),
                    (4, Some(p)) => Some(self.0.insert((None, Some(arg(*p))), t).unwrap()),
                    (_, Some(p)) => Some(self.0.insert_with((Some(arg(*p)), None), |_| t).unwrap()),
                }
            }

            fn remove(&mut self, p: P) -> bool {
                self.0.remove(p).is_some()
            }

            fn inval(&mut self, v: i64, p: P) -> Option<P> {
                if v == 0 {
                    self.0.invalidate(p)
                } else {
                    let id = self.0.get(p)?.id;
                    self.0.replace_and_update_gen(p, Tok::new(id, 0)).ok().map(|x| x.1)
                }
            }

            fn get(&self, p: P) -> Option<i64> {
                self.0.get(p).map(|x| x.id)
            }

            fn len(&self) -> usize {
                self.0.len()
            }

            fn cap(&self) -> usize {
                self.0.capacity()
            }

            fn gen(&self) -> Option<u64> {
                P::gen_num(self.0.generation())
            }

            fn res(&mut self, n: usize) {
                self.0.reserve(n)
            }

            fn clear(&mut self) {
                self.0.clear()
            }

            fn cshr(&mut self) {
                self.0.clear_and_shrink()
            }

            fn comp(&mut self) {
                self.0.compress_and_shrink()
            }

            fn comp_with(&mut self, f: &mut dyn FnMut(P, P)) {
                self.0.compress_and_shrink_with(|p, _, q| f(p, q))
            }

            fn comp_recast(&mut self) -> Arena<P, P> {
                self.0.compress_and_shrink_recaster()
            }

            fn drain(&mut self) -> Vec<P> {
                self.0.drain().map(|x| x.0).collect()
            }

            fn into_ptrs(self) -> Vec<P> {
                self.0.into_iter().map(|x| x.0).collect()
            }

            fn wipe(&mut self, p: P) {
                self.0.remove_chain(p).unwrap();
            }

            fn all(&self) -> Vec<(P, i64)> {
                self.0.iter().map(|(p, t)| (p, t.t.id)).collect()
            }

            fn dup(&self, v: i64) -> Self {
                if v == 0 {
                    self.clone()
                } else {
                    let mut x = $name($arena::new());
                    x.0.insert_new(Tok::new(-1, 0));
                    x.0.clone_from(&self.0);
                    x
                }
            }

            fn collect(n: usize, way: usize) -> Option<Self> {
                Some($name(Hinted((0..n).map(|_| Tok::new(-1, 0)), way).collect()))
            }

            fn inv(&self) -> bool {
                $arena::_check_invariants(&self.0).is_ok()
            }
        }
    };
}
chain!(LC, ChainArena, |p: P| p);
chain!(LN, ChainNoGenArena, |p: P| p.inx());

#[derive(Clone)]
struct LS<P: PX>(SurjectArena<P, Tok, Tok>);

impl<P: PX + Recast<P>> Lim for LS<P> {
    type P = P;

    fn new() -> Self {
        LS(SurjectArena::new())
    }

    fn insert(&mut self, v: i64, id: i64, live: &[P]) -> Option<P> {
        let k = Tok::new(id, 0);
        match (v, live.last()) {
            (1, _) => Some(self.0.insert_with(|_| (k, Tok::new(1_000_000, 0)))),
            (2, Some(p)) => Some(self.0.insert_key(*p, k).unwrap()),
            (3, Some(p)) => Some(self.0.insert_key_with(*p, |_| k).unwrap()),
            _ => Some(self.0.insert(k, Tok::new(1_000_000, 0))),
        }
    }

    fn remove(&mut self, p: P) -> bool {
        self.0.remove_key(p).is_some()
    }

    fn inval(&mut self, _v: i64, p: P) -> Option<P> {
        self.0.invalidate(p)
    }

    fn get(&self, p: P) -> Option<i64> {
        let k = self.0.get_key(p).map(|x| x.id);
        if let Some(v) = self.0.get_val(p) {
            assert_eq!(v.id, 1_000_000);
            assert!(k.is_some());
        }
        k
    }

    fn len(&self) -> usize {
        self.0.len_keys()
    }

    fn cap(&self) -> usize {
        assert!(self.0.capacity_vals() <= P::max_inx());
        assert!(self.0.len_vals() <= self.0.capacity_vals());
        self.0.capacity_keys()
    }

    fn gen(&self) -> Option<u64> {
        P::gen_num(self.0.generation())
    }

    fn res(&mut self, n: usize) {
        self.0.reserve_keys(n);
        assert!(self.0.capacity_keys() >= self.0.len_keys() + n);
    }

    fn clear(&mut self) {
        self.0.clear()
    }

    fn cshr(&mut self) {
        self.0.clear_and_shrink()
    }

    fn comp(&mut self) {
        self.0.compress_and_shrink()
    }

    fn comp_with(&mut self, f: &mut dyn FnMut(P, P)) {
        self.0.compress_and_shrink_with(|p, _, _, q| f(p, q))
    }

    fn comp_recast(&mut self) -> Arena<P, P> {
        self.0.compress_and_shrink_recaster()
    }

    fn drain(&mut self) -> Vec<P> {
        unimplemented!()
    }

    fn into_ptrs(self) -> Vec<P> {
        unimplemented!()
    }

    fn wipe(&mut self, p: P) {
        self.0.remove(p).unwrap();
    }

    fn all(&self) -> Vec<(P, i64)> {
        self.0.iter().map(|(p, k, _)| (p, k.id)).collect()
    }

    fn dup(&self, v: i64) -> Self {
        if v == 0 {
            self.clone()
        } else {
            let mut x = LS(SurjectArena::new());
            x.0.insert(Tok::new(-1, 0), Tok::new(-1, 0));
            x.0.clone_from(&self.0);
            x
        }
    }

    fn collect(n: usize, way: usize) -> Option<Self> {
        let _ = (n, way);
        None
    }

    fn inv(&self) -> bool {
        SurjectArena::_check_invariants(&self.0).is_ok()
    }
}

#[derive(Clone)]
struct LO<P: PX>(OrdArena<P, i64, Tok>);

impl<P: PX + Recast<P>> Lim for LO<P> {
    type P = P;

    fn new() -> Self {
        LO(OrdArena::new())
    }

    fn insert(&mut self, v: i64, id: i64, live: &[P]) -> Option<P> {
        // a mix of ends and insides
        let k = if id % 3 == 0 { -id } else { id % 97 * 1_000_000 + id };
        let t = Tok::new(id, 0);
        let p0 = live.last().copied().unwrap_or(P::invalid());
        match v {
            0 => {
                let (p, old) = self.0.insert(k, t);
                assert!(old.is_none());
                Some(p)
            }
            1 => Some(self.0.insert_nonhereditary(k, t)),
            2 => {
                if live.is_empty() {
                    return self.0.insert_empty(k, t)
                }
                let (p, old) = self.0.insert_linear(p0, 4, k, t);
                assert!(old.is_none());
                Some(p)
            }
            3 => {
                if live.is_empty() {
                    return self.0.insert_empty(k, t)
                }
                Some(self.0.insert_nonhereditary_linear(p0, 4, k, t))
            }
            _ => {
                // always at the end
                let Some((p, _)) = self.0.find_similar_key(&i64::MAX) else {
                    return self.0.insert_empty(k, t)
                };
                let k = self.0.get_key(p).unwrap() + 1_000_000_000;
                Some(self.0.insert(k, t).0)
            }
        }
    }

    fn remove(&mut self, p: P) -> bool {
        self.0.remove(p).is_some()
    }

    fn inval(&mut self, v: i64, p: P) -> Option<P> {
        if v == 0 {
            self.0.invalidate(p)
        } else {
            let id = self.0.get_val(p)?.id;
            self.0.replace_val_and_update_gen(p, Tok::new(id, 0)).ok().map(|x| x.1)
        }
    }

    fn get(&self, p: P) -> Option<i64> {
        self.0.get_val(p).map(|x| x.id)
    }

    fn len(&self) -> usize {
        self.0.len()
    }

    fn cap(&self) -> usize {
        self.0.capacity()
    }

    fn gen(&self) -> Option<u64> {
        P::gen_num(self.0.generation())
    }

    fn res(&mut self, n: usize) {
        self.0.reserve(n)
    }

    fn clear(&mut self) {
        self.0.clear()
    }

    fn cshr(&mut self) {
        self.0.clear_and_shrink()
    }

    fn comp(&mut self) {
        self.0.compress_and_shrink()
    }

    fn comp_with(&mut self, f: &mut dyn FnMut(P, P)) {
        self.0.compress_and_shrink_with(|p, _, _, q| f(p, q))
    }

    fn comp_recast(&mut self) -> Arena<P, P> {
        self.0.compress_and_shrink_recaster()
    }

    fn drain(&mut self) -> Vec<P> {
        self.0.drain().map(|x| x.0).collect()
    }

    fn into_ptrs(self) -> Vec<P> {
        self.0.into_iter().map(|x| x.0).collect()
    }

    fn wipe(&mut self, _p: P) {
        unimplemented!()
    }

    fn all(&self) -> Vec<(P, i64)> {
        let v: Vec<(P, i64)> = self.0.iter().map(|(p, _, t)| (p, t.id)).collect();
        assert!(self.0.iter().zip(self.0.iter().skip(1)).all(|(a, b)| a.1 <= b.1));
        v
    }

    fn dup(&self, v: i64) -> Self {
        if v == 0 {
            self.clone()
        } else {
            let mut x = LO(OrdArena::new());
            x.0.insert(5, Tok::new(-1, 0));
            x.0.clone_from(&self.0);
            x
        }
    }

    fn collect(n: usize, way: usize) -> Option<Self> {
        Some(LO(Hinted((0..n).map(|i| (i as i64, Tok::new(-1, 0))), way).collect()))
    }

    fn inv(&self) -> bool {
        OrdArena::_check_invariants(&self.0).is_ok()
    }
}

// ---------------------------------------------------------------------------

struct L<A: Lim> {
    a: A,
    live: Vec<A::P>,
    id: BTreeMap<(usize, u64), i64>,
    dead: Vec<A::P>,
    issued: HashSet<(usize, u64)>,
    nt: i64,
}

impl<A: Lim> L<A> {
    fn issue(&mut self, p: A::P, id: i64, cx: &mut Cx) {
        if A::P::has_gen() {
            cx.check(self.issued.insert(p.raw()), "limit", || format!("{p:?} was issued before"));
        } else {
            cx.check(!self.id.contains_key(&p.raw()), "limit", || format!("{p:?} is in use"));
        }
        self.live.push(p);
        self.id.insert(p.raw(), id);
    }

    fn kill(&mut self, i: usize) {
        let p = self.live.remove(i);
        self.id.remove(&p.raw());
        self.dead.push(p);
    }

    fn kill_all(&mut self) {
        self.dead.append(&mut self.live);
        self.id.clear();
    }

    /// everything that can be seen
    fn look(&self, class: &'static str, cx: &mut Cx) {
        cx.eq(class, "number of entries", self.a.len(), self.live.len());
        for p in &self.live {
            if self.a.get(*p) != self.id.get(&p.raw()).copied() {
                cx.fail(class, format!("contents of {p:?} are {:?}, specified {:?}", self.a.get(*p), self.id[&p.raw()]));
                return
            }
        }
        if A::P::has_gen() {
            for p in &self.dead {
                if self.a.get(*p).is_some() {
                    cx.fail(class, format!("invalid {p:?} is accepted"));
                    return
                }
            }
        }
        let all: BTreeMap<(usize, u64), i64> = self.a.all().into_iter().map(|(p, i)| (p.raw(), i)).collect();
        cx.check(all == self.id, class, || "iteration shows other entries".into());
        let cap = self.a.cap();
        cx.check(cap <= A::P::max_inx() && cap >= self.live.len(), class, || format!("capacity is {cap}"));
        cx.check(self.a.inv(), class, || "invariant check fails".into());
    }

    /// the calls of one operation; `Err` is an insertion reported as impossible
    fn run(&mut self, op: &Op, cx: &mut Cx) -> Result<(), ()> {
        let a = &op.a;
        match op.o.as_str() {
            "fill" | "full" => {
                let (m, v) = if op.o == "fill" { (a[0] as usize, a[1]) } else { (self.live.len() + 1, a[0]) };
                while self.live.len() < m {
                    self.nt += 1;
                    match self.a.insert(v, self.nt, &self.live) {
                        Some(p) => self.issue(p, self.nt, cx),
                        None => return Err(()),
                    }
                }
            }
            "rem" => {
                for j in 0..a[0] as usize {
                    let i = [0, self.live.len() - 1, self.live.len() / 2][j % 3];
                    let p = self.live[i];
                    cx.check(self.a.remove(p), "limit", || format!("{p:?} not removed"));
                    self.kill(i);
                }
            }
            "inv" => {
                for j in 0..a[0] as usize {
                    let i = [0, self.live.len() - 1][j % 2];
                    let p = self.live[i];
                    match self.a.inval(a[1], p) {
                        Some(q) => {
                            let id = self.id[&p.raw()];
                            if A::P::has_gen() {
                                self.kill(i);
                                self.issue(q, id, cx);
                            } else {
                                cx.eq("limit", "pointer without generation", q, p);
                            }
                        }
                        None => cx.fail("limit", format!("{p:?} not invalidated")),
                    }
                }
            }
            "clear" => {
                self.a.clear();
                self.kill_all();
            }
            "cshr" => {
                self.a.cshr();
                self.kill_all();
            }
            "wipe" => {
                self.a.wipe(self.live[self.live.len() / 2]);
                self.kill_all();
            }
            "drain" => {
                let mut v = self.a.drain();
                v.sort();
                let mut w = self.live.clone();
                w.sort();
                cx.eq("limit", "drained pointers", v, w);
                self.kill_all();
            }
            "into" => {
                let mut v = std::mem::replace(&mut self.a, A::new()).into_ptrs();
                v.sort();
                let mut w = std::mem::take(&mut self.live);
                w.sort();
                cx.eq("limit", "pointers", v, w);
                self.dead.clear();
                self.issued.clear();
                self.id.clear();
            }
            "comp" => {
                let mut map = BTreeMap::new();
                match a[0] {
                    0 => self.a.comp(),
                    1 => self.a.comp_with(&mut |p, q| {
                        map.insert(p.raw(), q);
                    }),
                    _ => {
                        let rc = self.a.comp_recast();
                        for p in &self.live {
                            let mut x = *p;
                            match x.recast(&rc) {
                                Ok(()) => {
                                    map.insert(p.raw(), x);
                                }
                                Err(_) => cx.fail("limit", format!("recaster rejects {p:?}")),
                            }
                        }
                    }
                }
                let found: BTreeMap<i64, A::P> = self.a.all().into_iter().map(|(p, i)| (i, p)).collect();
                let old: Vec<(A::P, i64)> = self.live.iter().map(|p| (*p, self.id[&p.raw()])).collect();
                self.kill_all();
                for (p, id) in old {
                    let q = found.get(&id).copied();
                    if a[0] != 0 {
                        cx.eq("limit", "reported new pointer", map.get(&p.raw()).copied(), q);
                    }
                    match q {
                        Some(q) => self.issue(q, id, cx),
                        None => cx.fail("limit", format!("entry {id} lost")),
                    }
                }
            }
            "res" => self.a.res(a[0] as usize),
            "dup" => self.a = self.a.dup(a[0]),
            o => panic!("unknown operation {o}"),
        }
        Ok(())
    }
}

impl<A: Lim> Sys for L<A> {
    fn new() -> Self {
        L { a: A::new(), live: vec![], id: BTreeMap::new(), dead: vec![], issued: HashSet::new(), nt: 0 }
    }

    fn exec(&mut self, op: &Op, cx: &mut Cx) {
        let (g0, c0) = (self.a.gen(), self.a.cap());
        let mut dummy = Cx::default();
        let r = guard(|| self.run(op, &mut dummy));
        cx.divs.extend(dummy.divs.into_iter().map(|mut d| {
            d.op = cx.cur.clone();
            d
        }));
        let must = op.r == [-1];
        let what = || format!("{}{:?}", op.o, op.a);
        match r {
            Ok(Ok(())) => {
                // without a counter only the insertions can be refused
                if must && (A::P::has_gen() || op.o == "full" || op.o == "res") {
                    cx.fail("limit", format!("{} at the limit was accepted", what()));
                }
            }
            Ok(Err(())) => cx.check(must, "limit", || format!("{}: no space left with {} entries", what(), self.live.len())),
            Err(e) => {
                let may = op.o == "res" && c0 + op.a[0] as usize > A::P::max_inx();
                cx.check(must || may, "limit", || format!("{} below the limit: {e}", what()));
            }
        }
        if op.o == "res" && !must {
            cx.check(self.a.cap() <= A::P::max_inx(), "limit", || format!("{}: capacity {}", what(), self.a.cap()));
        }
        if let (Some(g0), Some(g1), true) = (g0, self.a.gen(), op.o != "into") {
            let over = must && op.o != "full" && op.o != "res";
            if !over && g1 as i64 - g0 as i64 != op.g.0 {
                cx.fail("gen", format!("{}: generation moved by {}, specified {}", what(), g1 as i64 - g0 as i64, op.g.0));
            }
            // the counter never falls
            cx.check(g1 >= g0, "limit", || format!("{}: generation moved from {g0} to {g1}", what()));
        }
    }

    fn observe(&mut self, s: &Value, cx: &mut Cx) {
        if s["over"].as_i64() == Some(1) || !cx.divs.is_empty() {
            return
        }
        cx.eq("limit", "entries", self.a.len() as i64, s["n"].as_i64().unwrap());
        self.look("limit", cx);
    }

    fn finish(mut self, s: &Value, cx: &mut Cx) {
        if s["over"].as_i64() == Some(1) || !cx.divs.is_empty() {
            std::mem::forget(self);
            return
        }
        // as many entries can be collected at once
        let n = self.live.len();
        match guard(|| A::collect(n, self.nt as usize).map(|a| (a.len(), a.inv()))) {
            Ok(x) => cx.check(x.is_none_or(|x| x == (n, true)), "limit", || format!("collecting {n} entries: {x:?}")),
            Err(e) => cx.fail("limit", format!("collecting {n} entries: {e}")),
        }
        // the arena can be filled up to its limit
        let max = s["max"].as_i64().unwrap() as usize;
        let m = if max > 0 { max } else { self.live.len() + 3 };
        while self.live.len() < m {
            self.nt += 1;
            let id = self.nt;
            let r = guard(|| self.a.insert(id % 2, id, &self.live));
            match r {
                Ok(Some(p)) => self.issue(p, id, cx),
                Ok(None) => return cx.fail("limit", format!("no space left with {} entries", self.live.len())),
                Err(e) => return cx.fail("limit", format!("insertion with {} entries: {e}", self.live.len())),
            }
        }
        if max > 0 {
            self.look("limit", cx);
            if !cx.divs.is_empty() {
                return
            }
            for v in 0..6 {
                let r = guard(|| self.a.insert(v, 0, &self.live));
                if let Ok(Some(_)) = r {
                    return cx.fail("limit", "insertion beyond the limit was accepted")
                }
            }
        }
        self.look("undo", cx);
        let mut alive = reg_alive();
        alive.retain(|x| *x < 1_000_000);
        let mut want: Vec<i64> = self.id.values().copied().collect();
        want.sort();
        cx.eq("drops", "values alive", alive, want);
        drop(self);
        cx.eq("drops", "values alive after the drop", reg_alive(), vec![]);
    }
}

macro_rules! runners {
    ($args:expr, $p:ident, $name:expr) => {
        match $args.s("kind", "arena").as_str() {
            "arena" => replay_main(&$args, &[($name, run_line::<L<LA<$p>>>)]),
            "chain" => {
                replay_main(&$args, &[($name, run_line::<L<LC<$p>>>), (concat!($name, "-index"), run_line::<L<LN<$p>>>)])
            }
            "surject" => replay_main(&$args, &[($name, run_line::<L<LS<$p>>>)]),
            _ => replay_main(&$args, &[($name, run_line::<L<LO<$p>>>)]),
        }
    };
}

fn main() {
    let args = Args::get();
    match args.s("width", "both").as_str() {
        "both" => runners!(args, PS, "both"),
        "inx" => runners!(args, PB, "index"),
        "nogen" => runners!(args, PNS, "nogen"),
        "both16" => runners!(args, PH, "both16"),
        _ => runners!(args, PG, "generation"),
    }
}
