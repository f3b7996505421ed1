//! Checks shared by the arena kinds.

use crate::{driver::Cx, kind::Book, Ser, PX};
use std::{collections::BTreeMap, fmt};
use triple_arena::{Arena, Recast, Recaster};

/// Serializes and deserializes in several formats.
#[cfg(feature = "ser")]
pub fn round_trip<T: Ser>(x: &T) -> Vec<Option<T>> {
    let mut res = vec![];
    match serde_json::to_string(x) {
        Ok(s) => res.push(serde_json::from_str(&s).ok()),
        Err(_) => res.push(None),
    }
    match bincode::serialize(x) {
        Ok(s) => res.push(bincode::deserialize(&s).ok()),
        Err(_) => res.push(None),
    }
    // ron does not support all index types
    if let Ok(s) = ron::to_string(x) {
        res.push(ron::from_str(&s).ok());
    }
    res
}

#[cfg(not(feature = "ser"))]
pub fn round_trip<T: Ser>(_: &T) -> Vec<Option<T>> {
    vec![]
}

/// The book after a serialization round trip: the live pointers with their
/// generation reset, as deserialization of the pointers gives them.
pub fn reset_book<P: PX>(b: &Book<P>, cx: &mut Cx) -> Book<P> {
    let mut dummy = Cx::default();
    let mut n: Book<P> = Book::default();
    for (h, p) in b.live_ptrs() {
        n.nh = h - 1;
        let want = P::make(p.raw().0, 2);
        n.issue(want, &mut dummy);
        for q in round_trip(&p) {
            cx.eq("serde", "pointer", q, Some(want));
        }
    }
    n
}

/// Checks that `rc` maps exactly the pointers that were valid (still in `b`),
/// and records the mapping.
pub fn check_recaster<P: PX + Recast<P>>(
    rc: &Arena<P, P>,
    b: &Book<P>,
    dead: &[P],
    map: &mut BTreeMap<(usize, u64), P>,
    cx: &mut Cx,
) {
    let live = b.live_ptrs();
    for (_, p) in &live {
        let mut x = *p;
        match x.recast(rc) {
            Ok(()) => {
                map.insert(p.raw(), x);
            }
            Err(e) => cx.fail("comp", format!("recaster rejects {p:?} ({e:?})")),
        }
        let mut y = *p;
        cx.eq("comp", "recast_item", rc.recast_item(&mut y), Ok(()));
        cx.eq("comp", "recast_item result", y, x);
    }
    for p in dead {
        let mut x = *p;
        cx.eq("comp", "recast of an invalid pointer", x.recast(rc), Err(*p));
        cx.eq("comp", "invalid pointer after recast", x, *p);
    }
    // a container of pointers, each recast once
    let mut v: Vec<Option<P>> = live.iter().map(|x| Some(x.1)).collect();
    v.push(None);
    cx.eq("comp", "recast container", v.recast(rc), Ok(()));
    let mut want: Vec<Option<P>> = live.iter().map(|x| map.get(&x.1.raw()).copied()).collect();
    want.push(None);
    cx.eq("comp", "recast container contents", v, want);
}

/// The pointers held by an entry of an arena that is recast.
pub type Held<P> = Vec<Option<P>>;

/// What the entry of `p` holds: pointers to itself and to another live entry.
pub fn holds<P: PX>(b: &Book<P>, p: P) -> Held<P> {
    let live = b.live_ptrs();
    let n = live.iter().position(|x| x.1 == p).unwrap_or(0);
    vec![Some(p), None, live.get((n + 1) % live.len().max(1)).map(|x| x.1)]
}

/// Checks that recasting `c` renames the pointers that its entries hold and
/// changes nothing else. `held` lists the entries with what they hold, `spoil`
/// puts an unknown pointer into the last entry.
pub fn check_recast<P: PX, C: Recast<P>, K: PartialEq + std::fmt::Debug>(
    rc: &Arena<P, P>,
    map: &BTreeMap<(usize, u64), P>,
    dead: &[P],
    mut c: C,
    held: impl Fn(&C) -> Vec<(K, Held<P>)>,
    spoil: impl Fn(&mut C, P),
    cx: &mut Cx,
) {
    let mut want = held(&c);
    for p in want.iter_mut().flat_map(|x| &mut x.1).flatten() {
        if let Some(q) = map.get(&p.raw()) {
            *p = *q;
        }
    }
    cx.eq("comp", "recast of the arena", c.recast(rc), Ok(()));
    cx.eq("comp", "entries after their recast", held(&c), want);
    // the new names are unknown to the recaster, unless they are also old ones
    if let (Some(p), false) = (dead.first(), held(&c).is_empty()) {
        let unknown = |p: &P| !map.contains_key(&p.raw());
        let all: Vec<P> = held(&c).into_iter().flat_map(|x| x.1).flatten().collect();
        if unknown(p) && !all.iter().any(unknown) {
            spoil(&mut c, *p);
            cx.eq("comp", "recast of an arena with an unknown pointer", c.recast(rc), Err(*p));
        } else {
            let first = all.into_iter().find(unknown);
            cx.eq("comp", "second recast of the arena", c.recast(rc).err().is_some(), first.is_some());
        }
    }
}

/// A specified textual form.
pub struct Text<F>(F);

pub fn text<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result>(f: F) -> Text<F> {
    Text(f)
}

impl<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result> fmt::Debug for Text<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0(f)
    }
}

/// Compares the debugging output of `a`, on its own and nested.
pub fn check_text(a: &dyn fmt::Debug, want: &dyn fmt::Debug, cx: &mut Cx) {
    cx.eq("text", "debug form", format!("{a:?}"), format!("{want:?}"));
    cx.eq("text", "alternate debug form", format!("{:#?}", Some(a)), format!("{:#?}", Some(want)));
}

pub fn hash_of(x: &impl std::hash::Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

/// After a compression: `toks` are the contents by old pointer, `found` the
/// new pointers by content, `map` what the compression reported. Issues the
/// new handles and returns the pairs of handles.
pub fn rename<P: PX>(
    b: &mut Book<P>,
    toks: &BTreeMap<(usize, u64), (i64, i64)>,
    found: &BTreeMap<(i64, i64), P>,
    map: &BTreeMap<(usize, u64), P>,
    reported: bool,
    cx: &mut Cx,
) -> Vec<i64> {
    let old = b.live_ptrs();
    b.kill_all();
    let mut res = vec![];
    for (h, p) in old {
        let q = toks.get(&p.raw()).and_then(|k| found.get(k));
        if reported {
            cx.eq("comp", "reported new pointer", map.get(&p.raw()), q);
        }
        res.push(h);
        match q {
            Some(q) => res.push(b.issue(*q, cx)),
            None => {
                cx.fail("comp", format!("entry {:?} lost by compression", toks.get(&p.raw())));
                res.push(-7);
            }
        }
    }
    res
}
