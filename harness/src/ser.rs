//! Serialized inputs, written down independently of the arena types.

use crate::{driver::*, PX};
use crate::Ser;
use serde::ser::*;
use std::cell::Cell;

#[derive(Clone, Debug)]
pub enum V {
    Map(Vec<(V, V)>),
    Tup(Vec<V>),
    Opt(Option<Box<V>>),
    /// an index, and the size of its type
    Inx(u64, usize),
    /// a count
    N(u64),
    I(i64),
    S(String),
}

impl Serialize for V {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            V::Map(m) => {
                let mut s = z.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    s.serialize_entry(k, v)?;
                }
                s.end()
            }
            V::Tup(t) => {
                let mut s = z.serialize_tuple(t.len())?;
                for x in t {
                    s.serialize_element(x)?;
                }
                s.end()
            }
            V::Opt(None) => z.serialize_none(),
            V::Opt(Some(x)) => z.serialize_some(x),
            V::Inx(n, 1) => z.serialize_u8(*n as u8),
            V::Inx(n, 2) => z.serialize_u16(*n as u16),
            V::Inx(n, 4) => z.serialize_u32(*n as u32),
            V::Inx(n, 8) => z.serialize_u64(*n),
            V::Inx(n, _) => z.serialize_u128(*n as u128),
            V::N(n) => z.serialize_u64(*n),
            V::I(n) => z.serialize_i64(*n),
            V::S(s) => z.serialize_str(s),
        }
    }
}

pub fn index<P: PX>(i: i64) -> V {
    V::Inx(i as u64, std::mem::size_of::<P::Inx>())
}

/// 0 is none
pub fn opt_index<P: PX>(i: i64) -> V {
    V::Opt((i > 0).then(|| Box::new(index::<P>(i))))
}

pub fn tok(id: i64) -> V {
    V::Tup(vec![V::I(id), V::I(0)])
}

#[cfg(not(feature = "ser"))]
pub fn decode<T: Ser>(_: &V, _: &mut Cx) -> Option<T> {
    panic!("built without serialization")
}

#[cfg(not(feature = "ser"))]
pub fn broken<T: Ser>(_: &V, _: i64) -> i64 {
    panic!("built without serialization")
}

thread_local! {
    static FORMAT: Cell<usize> = const { Cell::new(0) };
}

/// Deserializes the way number `F` (see `decode`).
pub fn run_format<const F: usize, S: Sys>(line: &crate::Line, cx: &mut Cx) {
    FORMAT.with(|f| f.set(F));
    run_line::<S>(line, cx)
}

pub fn format() -> usize {
    FORMAT.with(|f| f.get())
}

/// Deserializes `v` in one of several formats; all have to agree on whether
/// that is possible.
#[cfg(feature = "ser")]
pub fn decode<T: Ser>(v: &V, cx: &mut Cx) -> Option<T> {
    let mut all: Vec<Option<T>> = vec![];
    let json = serde_json::to_string(v).unwrap();
    all.push(serde_json::from_str(&json).ok());
    all.push(bincode::deserialize(&bincode::serialize(v).unwrap()).ok());
    // ron does not support all index types
    match ron::to_string(v) {
        Ok(s) => all.push(ron::from_str(&s).ok()),
        Err(_) => all.push(serde_json::from_reader(json.as_bytes()).ok()),
    }
    for (i, x) in all.iter().enumerate() {
        cx.eq("accept", &format!("accepted by format {i} as by the first"), x.is_some(), all[0].is_some());
    }
    let f = format() % all.len();
    all.swap_remove(f)
}

/// every variant of `v` with one node replaced by what `f` makes of it
fn variants(v: &V, f: &dyn Fn(&V) -> Vec<V>) -> Vec<V> {
    let mut res = f(v);
    match v {
        V::Map(m) => {
            for i in 0..m.len() {
                for k in variants(&m[i].0, f) {
                    let mut m = m.clone();
                    m[i].0 = k;
                    res.push(V::Map(m));
                }
                for x in variants(&m[i].1, f) {
                    let mut m = m.clone();
                    m[i].1 = x;
                    res.push(V::Map(m));
                }
            }
        }
        V::Tup(t) => {
            for i in 0..t.len() {
                for x in variants(&t[i], f) {
                    let mut t = t.clone();
                    t[i] = x;
                    res.push(V::Tup(t));
                }
            }
        }
        V::Opt(Some(x)) => {
            for x in variants(x, f) {
                res.push(V::Opt(Some(Box::new(x))));
            }
        }
        _ => (),
    }
    res
}

/// Encodings that no arena has, made from the valid input `v` in way `kind`;
/// returns the number of them that are accepted.
#[cfg(feature = "ser")]
pub fn broken<T: Ser>(v: &V, kind: i64) -> i64 {
    let mut texts: Vec<String> = vec![];
    let mut bins: Vec<Vec<u8>> = vec![];
    let json = |v: &V| serde_json::to_string(v).unwrap();
    let bin = |v: &V| bincode::serialize(v).unwrap();
    // where the numbers of entries are
    let lens = match v {
        V::Tup(t) => vec![0, bin(&t[0]).len()],
        _ => vec![0],
    };
    match kind {
        // truncated
        0 => {
            let (s, b) = (json(v), bin(v));
            texts.extend((0..s.len()).map(|n| s[..n].to_string()));
            bins.extend((0..b.len()).map(|n| b[..n].to_vec()));
        }
        // with a number of entries that can not be, or one too large
        1 | 2 => {
            for o in lens {
                let b = bin(v);
                let n = u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
                let ns = if kind == 1 { vec![u64::MAX, 1 << 60, 1 << 40, 1 << 20] } else { vec![n + 1] };
                for n in ns {
                    let mut b = b.clone();
                    b[o..o + 8].copy_from_slice(&n.to_le_bytes());
                    // what follows must not supply the missing entries
                    if o + 8 == b.len() || kind == 1 || !matches!(v, V::Tup(_)) {
                        bins.push(b);
                    }
                }
            }
        }
        // an index zero, a count zero
        3 | 8 => {
            for x in variants(v, &|x| match x {
                V::Inx(_, n) if kind == 3 => vec![V::Inx(0, *n)],
                V::N(_) if kind == 8 => vec![V::N(0)],
                _ => vec![],
            }) {
                texts.push(json(&x));
                bins.push(bin(&x));
            }
        }
        // something of another type
        4 => {
            for x in variants(v, &|x| match x {
                V::Inx(..) | V::N(_) | V::I(_) | V::S(_) => vec![V::S("x".into())],
                _ => vec![],
            }) {
                texts.push(json(&x));
            }
        }
        // an element too many or too few
        5 => {
            for x in variants(v, &|x| match x {
                V::Tup(t) => {
                    let (mut l, mut s) = (t.clone(), t.clone());
                    l.push(l[0].clone());
                    s.pop();
                    vec![V::Tup(l), V::Tup(s), V::Tup(vec![])]
                }
                _ => vec![],
            }) {
                texts.push(json(&x));
            }
        }
        // no map
        6 => {
            for x in variants(v, &|x| match x {
                V::Map(_) => vec![V::I(3), V::Tup(vec![]), V::Opt(None), V::S("x".into()), V::Tup(vec![V::I(1)])],
                _ => vec![],
            }) {
                texts.push(json(&x));
            }
        }
        // an index that does not fit
        _ => {
            for x in variants(v, &|x| match x {
                V::Inx(i, n) => {
                    let mut res = vec![V::S(format!("BIG{n}")), V::S("NEG".into())];
                    if *n > std::mem::size_of::<usize>() {
                        // it fits into the index type, but no arena can have it
                        for i in [0, *i] {
                            res.push(V::S(format!("FAR{}", (1 << usize::BITS) + i as u128)));
                        }
                    }
                    res
                }
                _ => vec![],
            }) {
                let mut s = json(&x);
                for (name, num) in [
                    ("NEG", "-1"),
                    ("BIG16", "340282366920938463463374607431768211456"),
                    ("BIG1", "256"),
                    ("BIG2", "65536"),
                    ("BIG4", "4294967296"),
                    ("BIG8", "18446744073709551616"),
                ] {
                    s = s.replace(&format!("\"{name}\":"), &format!("\"{num}\":"));
                    s = s.replace(&format!("\"{name}\""), num);
                }
                if let Some(i) = s.find("\"FAR") {
                    let n = s[i + 4..].find('"').unwrap() + i + 4;
                    let key = s[n + 1..].starts_with(':');
                    let q = if key { "\"" } else { "" };
                    s = format!("{}{q}{}{q}{}", &s[..i], &s[i + 4..n], &s[n + 1..]);
                }
                texts.push(s);
            }
        }
    }
    let mut n = 0;
    for s in texts {
        n += serde_json::from_str::<T>(&s).is_ok() as i64;
        n += serde_json::from_reader::<_, T>(s.as_bytes()).is_ok() as i64;
    }
    for b in bins {
        n += bincode::deserialize::<T>(&b).is_ok() as i64;
        n += bincode::deserialize_from::<_, T>(&b[..]).is_ok() as i64;
    }
    n
}
