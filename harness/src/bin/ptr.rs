//! Pointer values: replay of MCPtr behaviours.

use harness::*;
use std::{
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    fmt::{Debug, Display},
    hash::{Hash, Hasher},
    num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8, NonZeroUsize},
};
use triple_arena::{
    ptr_struct,
    utils::{PtrGen, PtrInx, PtrNoGen},
    Ptr, Recast, Recaster,
};

const TOP: i64 = 5;

/// 1, 2, 3, and the largest two
fn number(n: i64, max: u128) -> u128 {
    if n > 3 {
        max - (TOP - n) as u128
    } else {
        n as u128
    }
}

trait Counter: PtrGen {
    const MAX: Option<u128>;
    fn of(n: u128) -> Self;
    fn get(self) -> u128;
}

macro_rules! counter {
    ($($nz:ident $x:ident),*) => {$(
        impl Counter for $nz {
            const MAX: Option<u128> = Some($x::MAX as u128);
            fn of(n: u128) -> Self { $nz::new(n as $x).unwrap() }
            fn get(self) -> u128 { $nz::get(self) as u128 }
        }
    )*};
}
counter!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128);
impl Counter for () {
    const MAX: Option<u128> = None;

    fn of(_: u128) {}

    fn get(self) -> u128 {
        0
    }
}

/// A pointer type, with what the declaration says about it.
trait Decl: 'static + Ptr<Gen: Counter> + Default + Display + Ser {
    const NAME: &'static str;
    /// the largest index
    const TOP: u128;
}

macro_rules! decl {
    ($($p:ident $inx:ident $nzi:ident $gen:ty),* $(,)?) => {$(
        impl Decl for $p {
            const NAME: &'static str = stringify!($p);
            const TOP: u128 = $inx::MAX as usize as u128;
        }
        // the types are the declared ones
        const _: fn() = || {
            fn same<P: Ptr<Inx = $nzi, Gen = $gen>>() {}
            same::<$p>();
        };
    )*};
}
impl<P: Decl> Decl for PtrNoGen<P> {
    const NAME: &'static str = P::NAME;
    const TOP: u128 = P::TOP;
}

ptr_struct!(A8[NonZeroU8](NonZeroU8); A16[NonZeroU16](NonZeroU32); A32[NonZeroU32](NonZeroU16));
ptr_struct!(A64[NonZeroU64](NonZeroU128) doc = "with an attribute");
ptr_struct!(A128[NonZeroU128](NonZeroU64));
ptr_struct!(B16[NonZeroU16]; B8[NonZeroU8] doc = "with an attribute");
ptr_struct!(C16(NonZeroU16); C8(NonZeroU8));
ptr_struct!(D0; D1 doc = "with an attribute");
ptr_struct!(E8[NonZeroU8](); E16[NonZeroU16](); E32[NonZeroU32](); E64[NonZeroU64](); E128[NonZeroU128]());
ptr_struct!(F0(); F1() doc = "with an attribute");
decl!(
    A8 u8 NonZeroU8 NonZeroU8,
    A16 u16 NonZeroU16 NonZeroU32,
    A32 u32 NonZeroU32 NonZeroU16,
    A64 u64 NonZeroU64 NonZeroU128,
    A128 u128 NonZeroU128 NonZeroU64,
    B16 u16 NonZeroU16 NonZeroU64,
    B8 u8 NonZeroU8 NonZeroU64,
    C16 usize NonZeroUsize NonZeroU16,
    C8 usize NonZeroUsize NonZeroU8,
    D0 usize NonZeroUsize NonZeroU64,
    D1 usize NonZeroUsize NonZeroU64,
    E8 u8 NonZeroU8 (),
    E16 u16 NonZeroU16 (),
    E32 u32 NonZeroU32 (),
    E64 u64 NonZeroU64 (),
    E128 u128 NonZeroU128 (),
    F0 usize NonZeroUsize (),
    F1 usize NonZeroUsize (),
);

struct Swap<P>(P, P);

impl<P: Ptr> Recaster for Swap<P> {
    type Item = P;

    fn recast_item(&self, item: &mut P) -> Result<(), P> {
        if *item == self.0 {
            *item = self.1;
            Ok(())
        } else {
            Err(*item)
        }
    }
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

struct Reg<P>(P);

impl<P: Decl> Reg<P> {
    fn raw(i: i64, g: i64) -> P {
        let i = NonZeroUsize::new(number(i, P::TOP) as usize).unwrap();
        P::_from_raw(PtrInx::new(i), Counter::of(number(g, P::Gen::MAX.unwrap_or(0))))
    }

    fn call(&mut self, o: &str, a: &[i64], cx: &mut Cx) -> Vec<i64> {
        let p = &mut self.0;
        match o {
            "raw" => {
                *p = Self::raw(a[0], a[1]);
                vec![]
            }
            "inc" => {
                *p = P::_from_raw(p.inx(), PtrGen::increment(p.generation()));
                vec![]
            }
            "inv" => {
                *p = if a[0] == 0 { P::invalid() } else { P::default() };
                vec![]
            }
            "ser" => {
                let all = round_trip(p);
                match &all[a[0] as usize % all.len()] {
                    Some(q) => *p = *q,
                    None => cx.fail("serde", format!("{p:?} has no round trip")),
                }
                vec![]
            }
            "cmp" => {
                let q = Self::raw(a[0], a[1]);
                let c = match (*p).cmp(&q) {
                    Ordering::Less => 0,
                    Ordering::Equal => 1,
                    Ordering::Greater => 2,
                };
                cx.eq("ret", "partial_cmp", (*p).partial_cmp(&q), Some((*p).cmp(&q)));
                cx.eq("ret", "the other way around", q.cmp(p), (*p).cmp(&q).reverse());
                cx.eq("eq", "equality", (*p == q, *p != q), (c == 1, c != 1));
                cx.eq("ret", "operators", (*p < q, *p <= q, *p > q, *p >= q), (c == 0, c < 2, c == 2, c > 0));
                cx.check(c != 1 || hash(p) == hash(&q), "eq", || "equal pointers with different hashes".into());
                vec![c]
            }
            "rec" => {
                let (f, t) = (Self::raw(a[0], a[1]), Self::raw(a[2], a[3]));
                let was = *p;
                match p.recast(&Swap(f, t)) {
                    Ok(()) => vec![1],
                    Err(e) => {
                        cx.eq("ret", "the pointer that has no image", e, was);
                        vec![0]
                    }
                }
            }
            _ => panic!("unknown operation {o}"),
        }
    }
}

impl<P: Decl> Sys for Reg<P> {
    fn new() -> Self {
        Reg(P::invalid())
    }

    fn exec(&mut self, op: &Op, cx: &mut Cx) {
        match guard(|| self.call(&op.o, &op.a, cx)) {
            Ok(r) => cx.eq("ret", &format!("{}{:?}", op.o, op.a), r, op.r.clone()),
            Err(e) => {
                if op.r != [-1] {
                    cx.fail("panic", format!("{}{:?}: {e}", op.o, op.a));
                }
            }
        }
    }

    fn observe(&mut self, s: &Value, cx: &mut Cx) {
        let w: Vec<i64> = s.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let p = self.0;
        let (i, g) = (number(w[0], P::TOP), number(w[1], P::Gen::MAX.unwrap_or(0)));
        cx.eq("valid", "index", PtrInx::get(p.inx()).get() as u128, i);
        cx.eq("valid", "generation", p.generation().get(), g);
        cx.eq("valid", "raw parts", P::_from_raw(p.inx(), p.generation()), p);
        cx.eq("valid", "index made of a number", <P::Inx as PtrInx>::new(NonZeroUsize::new(i as usize).unwrap()), p.inx());
        cx.eq("valid", "largest index", <P::Inx as PtrInx>::max().get() as u128, P::TOP);
        if P::Gen::MAX.is_some() {
            cx.eq("gen", "first generations", (<P::Gen as PtrGen>::one().get(), <P::Gen as PtrGen>::two().get()), (1, 2));
        }
        cx.eq("ret", "name", P::name(), P::NAME);
        let text = match P::Gen::MAX {
            Some(_) => format!("{}[{i:x}]({g:x})", P::NAME),
            None => format!("{}[{i:x}]", P::NAME),
        };
        show(cx, &p, &text);
        // without its generation
        let n = PtrNoGen::<P>::_from_raw(p.inx(), ());
        cx.eq("valid", "index without generation", n.inx(), p.inx());
        cx.eq("ret", "name without generation", PtrNoGen::<P>::name(), P::NAME);
        show(cx, &n, &format!("{}[{i:x}]", P::NAME));
        for q in round_trip(&n) {
            cx.eq("serde", "pointer without generation", q, Some(n));
        }
        // serialized like the index
        #[cfg(feature = "ser")]
        {
            let t = serde_json::to_string(&p).ok();
            cx.eq("serde", "text", t.clone(), serde_json::to_string(&p.inx()).ok());
            cx.eq("serde", "text without generation", serde_json::to_string(&n).ok(), t);
            cx.check(serde_json::from_str::<P>("0").is_err(), "serde", || "the index 0 was accepted".into());
        }
    }

    fn finish(self, _: &Value, _: &mut Cx) {}
}

/// All ways to print a pointer give one line.
fn show(cx: &mut Cx, p: &(impl Display + Debug), text: &str) {
    cx.eq("ret", "printed", format!("{p}"), text.to_string());
    cx.eq("ret", "printed", format!("{p:?}"), text.to_string());
    cx.eq("ret", "printed", format!("{p:#?}"), text.to_string());
}

fn main() {
    let args = Args::get();
    macro_rules! kinds {
        ($($p:ty),*) => { replay_main(&args, &[$((stringify!($p), run_line::<Reg<$p>>)),*]) };
    }
    if args.n("gen", 1) == 1 {
        kinds!(A8, A16, A32, A64, A128, B16, B8, C16, C8, D0, D1)
    } else {
        kinds!(E8, E16, E32, E64, E128, F0, F1, PtrNoGen<A8>, PtrNoGen<A16>, PtrNoGen<A128>, PtrNoGen<D0>, PtrNoGen<E32>)
    }
}
