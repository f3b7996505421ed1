//! Shared machinery: reads behaviours printed by TLC, steps them through the
//! real types, and records behaviours of the real types for TLC.

pub mod driver;
pub mod kind;
pub mod rec;
pub mod record;
pub mod ser;
pub mod tok;
pub mod util;

pub use driver::*;
pub use kind::*;
pub use rec::*;
pub use record::*;
pub use ser::*;
pub use serde_json::Value;
pub use tok::*;
pub use util::*;

use std::num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8, NonZeroUsize};
use triple_arena::{
    utils::{PtrGen, PtrInx},
    Ptr,
};

/// Reads generation counters as numbers; `None` without a counter.
pub trait GenNum: PtrGen {
    fn num(self) -> Option<u64>;
    /// the largest counter value
    fn max_num() -> u64;
    fn from_num(n: u64) -> Self;
}

macro_rules! gn {
    ($($t:ident $u:ident),*) => {$(
        impl GenNum for $t {
            fn num(self) -> Option<u64> { Some(self.get() as u64) }
            fn max_num() -> u64 { $u::MAX as u64 }
            fn from_num(n: u64) -> Self { $t::new(n as $u).unwrap() }
        }
    )*};
}
gn!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128);
impl GenNum for () {
    fn num(self) -> Option<u64> {
        None
    }

    fn max_num() -> u64 {
        u64::MAX
    }

    fn from_num(_: u64) -> Self {}
}

/// What can be serialized, where that is supported.
#[cfg(feature = "ser")]
pub trait Ser: serde::Serialize + for<'a> serde::Deserialize<'a> {}
#[cfg(feature = "ser")]
impl<T: serde::Serialize + for<'a> serde::Deserialize<'a>> Ser for T {}
#[cfg(not(feature = "ser"))]
pub trait Ser {}
#[cfg(not(feature = "ser"))]
impl<T> Ser for T {}

/// A pointer type of the harness.
pub trait PX: 'static + Ptr + Ser {
    fn gen_num(g: <Self as Ptr>::Gen) -> Option<u64>;
    fn raw(self) -> (usize, u64);
    fn make(inx: usize, g: u64) -> Self;
    /// a pointer whose index exceeds what a `usize` can hold, by `inx`
    fn far(inx: usize, g: u64) -> Option<Self>;
    fn max_inx() -> usize;
    fn max_gen() -> u64;
    fn has_gen() -> bool;
}

impl<P> PX for P
where
    P: 'static + Ptr + Ser,
    <P as Ptr>::Gen: GenNum,
{
    fn gen_num(g: <P as Ptr>::Gen) -> Option<u64> {
        g.num()
    }

    fn raw(self) -> (usize, u64) {
        (
            <<P as Ptr>::Inx as PtrInx>::get(self.inx()).get(),
            self.generation().num().unwrap_or(0),
        )
    }

    fn make(inx: usize, g: u64) -> P {
        P::_from_raw(PtrInx::new(NonZeroUsize::new(inx).unwrap()), <P as Ptr>::Gen::from_num(g))
    }

    fn far(inx: usize, g: u64) -> Option<P> {
        let n = NonZeroU128::new((1 << usize::BITS) + inx as u128).unwrap();
        if std::mem::size_of::<<P as Ptr>::Inx>() != std::mem::size_of_val(&n) {
            return None
        }
        // the only index type of this size is `NonZeroU128`
        let i = unsafe { std::mem::transmute_copy::<NonZeroU128, <P as Ptr>::Inx>(&n) };
        Some(P::_from_raw(i, <P as Ptr>::Gen::from_num(g)))
    }

    fn max_inx() -> usize {
        <<P as Ptr>::Inx as PtrInx>::max().get()
    }

    fn max_gen() -> u64 {
        <P as Ptr>::Gen::max_num()
    }

    fn has_gen() -> bool {
        std::mem::size_of::<<P as Ptr>::Gen>() != 0
    }
}

/// An iterator that tells little about its length, in way `.1`.
pub struct Hinted<I>(pub I, pub usize);

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;

    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 % 4 {
            0 => self.0.size_hint(),
            1 => (0, None),
            // as of a filter on much data
            2 => (0, Some(1 << 40)),
            _ => (self.0.size_hint().0 / 2, Some(usize::MAX)),
        }
    }
}

pub mod ptrs {
    use core::num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU8};
    use triple_arena::ptr_struct;
    // the default: usize index, 64 bit generations
    ptr_struct!(PD);
    // narrow index and generation
    ptr_struct!(PS[NonZeroU8](NonZeroU8));
    ptr_struct!(PM[NonZeroU16](NonZeroU32));
    ptr_struct!(PH[NonZeroU16](NonZeroU16));
    ptr_struct!(PW[NonZeroU128](NonZeroU128));
    // no generation counter
    ptr_struct!(PN());
    ptr_struct!(PNS[NonZeroU8]());
}
