//! The storage below the arenas: replay of MCVec behaviours.

use harness::*;
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    num::NonZeroUsize,
};
use triple_arena::utils::NonZeroInxVec;

thread_local! {
    /// blocks with a large alignment, which only the storage asks for
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    /// blocks returned with another layout than they were requested with
    static MISMATCH: Cell<u64> = const { Cell::new(0) };
    static CLONES: Cell<i64> = const { Cell::new(0) };
}

/// Keeps the layout in front of every block and compares it on return.
struct Checked;

fn pad(l: Layout) -> usize {
    l.align().max(32)
}

fn outer(l: Layout) -> Layout {
    Layout::from_size_align(l.size() + pad(l), pad(l)).unwrap()
}

fn count(l: Layout, d: i64) {
    if l.align() >= 64 {
        let _ = BLOCKS.try_with(|b| b.set(b.get() + d));
    }
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(outer(l));
        if p.is_null() {
            return p
        }
        count(l, 1);
        let q = p.add(pad(l));
        (q as *mut usize).sub(2).write(l.size());
        (q as *mut usize).sub(1).write(l.align());
        q
    }

    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let was = Layout::from_size_align((q as *mut usize).sub(2).read(), (q as *mut usize).sub(1).read());
        match was {
            Ok(was) => {
                if was != l {
                    let _ = MISMATCH.try_with(|m| m.set(m.get() + 1));
                }
                count(was, -1);
                (q as *mut usize).sub(1).write(0);
                System.dealloc(q.sub(pad(was)), outer(was))
            }
            Err(_) => {
                // freed before, or never a block
                let _ = MISMATCH.try_with(|m| m.set(m.get() + 1));
            }
        }
    }

    unsafe fn realloc(&self, q: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let new = Layout::from_size_align_unchecked(size, l.align());
        let p = self.alloc(new);
        if !p.is_null() {
            std::ptr::copy_nonoverlapping(q, p, l.size().min(size));
            self.dealloc(q, l);
        }
        p
    }
}

#[global_allocator]
static ALLOC: Checked = Checked;

/// Elements of different sizes and alignments.
trait El: Clone {
    /// do they keep a registered value?
    const REG: bool = true;
    const COUNTED: bool = false;
    fn make(id: i64) -> Self;
    fn key(&self) -> (i64, i64);
    fn bump(&mut self);
    fn intact(&self) -> bool {
        true
    }
}

struct Plain(Tok);
#[repr(align(64))]
struct Aligned(Tok);
#[repr(align(128))]
struct Large(Tok, [i64; 60]);
struct Small(u16);

fn clone_panics() {
    CLONES.with(|c| {
        c.set(c.get() - 1);
        if c.get() == 0 {
            panic!("clone")
        }
    })
}

impl Clone for Plain {
    fn clone(&self) -> Self {
        clone_panics();
        Plain(self.0.clone())
    }
}
impl Clone for Aligned {
    fn clone(&self) -> Self {
        clone_panics();
        Aligned(self.0.clone())
    }
}
impl Clone for Large {
    fn clone(&self) -> Self {
        clone_panics();
        Large(self.0.clone(), self.1)
    }
}
impl Clone for Small {
    fn clone(&self) -> Self {
        clone_panics();
        Small(self.0)
    }
}

impl El for Plain {
    fn make(id: i64) -> Self {
        Plain(Tok::new(id, 0))
    }

    fn key(&self) -> (i64, i64) {
        self.0.key()
    }

    fn bump(&mut self) {
        self.0.c += 1
    }
}
impl El for Aligned {
    const COUNTED: bool = true;

    fn make(id: i64) -> Self {
        Aligned(Tok::new(id, 0))
    }

    fn key(&self) -> (i64, i64) {
        self.0.key()
    }

    fn bump(&mut self) {
        self.0.c += 1
    }

    fn intact(&self) -> bool {
        self as *const Self as usize % 64 == 0
    }
}
impl El for Large {
    const COUNTED: bool = true;

    fn make(id: i64) -> Self {
        Large(Tok::new(id, 0), [id; 60])
    }

    fn key(&self) -> (i64, i64) {
        self.0.key()
    }

    fn bump(&mut self) {
        self.0.c += 1
    }

    fn intact(&self) -> bool {
        self.1.iter().all(|x| *x == self.0.id) && self as *const Self as usize % 128 == 0
    }
}
// 11 bits of identity, 5 of content
impl El for Small {
    const REG: bool = false;

    fn make(id: i64) -> Self {
        Small((id as u16) << 5)
    }

    fn key(&self) -> (i64, i64) {
        ((self.0 >> 5) as i64, (self.0 & 31) as i64)
    }

    fn bump(&mut self) {
        self.0 += 1
    }
}

fn nz(i: i64) -> NonZeroUsize {
    NonZeroUsize::new(i as usize).unwrap()
}

struct Store<T: El> {
    v: NonZeroInxVec<T>,
    nt: i64,
    blocks: i64,
}

impl<T: El> Store<T> {
    fn call(&mut self, o: &str, a: &[i64], cx: &mut Cx) -> Vec<i64> {
        let v = &mut self.v;
        let two = |x: &T, y: &T| vec![1, x.key().0, x.key().1, y.key().0, y.key().1];
        match o {
            "push" => {
                self.nt += 1;
                v.push(T::make(self.nt));
                vec![self.nt]
            }
            "pop" => match v.pop() {
                Some(t) => vec![1, t.key().0, t.key().1],
                None => vec![0],
            },
            "vset" => match v.get_mut(nz(a[0])) {
                Some(t) => {
                    t.bump();
                    vec![1]
                }
                None => vec![0],
            },
            "vget2" => match v.get2_mut(nz(a[0]), nz(a[1])) {
                Some((x, y)) => {
                    let r = two(x, y);
                    x.bump();
                    y.bump();
                    r
                }
                None => vec![0],
            },
            "res" => {
                v.reserve(a[0] as usize);
                vec![]
            }
            "resx" => {
                let top = [usize::MAX, isize::MAX as usize / std::mem::size_of::<T>() + 3][a[0] as usize];
                v.reserve(top - a[1] as usize);
                vec![]
            }
            "stf" => {
                v.shrink_to_fit();
                vec![]
            }
            "clear" => {
                v.clear();
                vec![]
            }
            "cshr" => {
                v.clear_and_shrink();
                vec![]
            }
            "clone" => {
                let mut c = v.clone();
                if a[0] == 0 {
                    std::mem::swap(&mut c, v);
                }
                cx.eq("clone", "length of the other", c.len(), v.len());
                cx.check(c.capacity() >= c.len(), "cap", || "capacity of the other".into());
                for i in c.nziter() {
                    cx.eq("clone", "element of the other", c.get(i).map(|x| x.key()), v.get(i).map(|x| x.key()));
                }
                vec![]
            }
            "clonx" => {
                CLONES.with(|c| c.set(a[0]));
                let r = guard(|| v.clone());
                CLONES.with(|c| c.set(0));
                match r {
                    Ok(_) => vec![],
                    Err(_) => vec![-1],
                }
            }
            "take" => {
                let mut old = std::mem::take(v);
                let mut r = vec![];
                for i in old.nziter() {
                    r.extend(old.get(i).map(|t| vec![t.key().0, t.key().1]).unwrap());
                }
                // what is left is dropped with the array
                old.pop();
                r
            }
            _ => panic!("unknown operation {o}"),
        }
    }
}

impl<T: El> Sys for Store<T> {
    fn new() -> Self {
        MISMATCH.with(|m| m.set(0));
        Store { v: NonZeroInxVec::new(), nt: 0, blocks: BLOCKS.with(|b| b.get()) }
    }

    fn exec(&mut self, op: &Op, cx: &mut Cx) {
        let (len, cap) = (self.v.len(), self.v.capacity());
        match guard(|| self.call(&op.o, &op.a, cx)) {
            Ok(r) => cx.eq("ret", &format!("{}{:?}", op.o, op.a), r, op.r.clone()),
            Err(e) => {
                if op.r != [-1] {
                    cx.fail("panic", format!("{}{:?}: {e}", op.o, op.a));
                    return
                }
            }
        }
        let (now, n) = (self.v.capacity(), op.g.1 as usize);
        let ok = match op.g.0 {
            0 => now == cap,
            1 => now >= cap && now >= n,
            2 => now >= n && now <= cap,
            3 => now == 0,
            4 => now >= n,
            _ => if len < cap { now == cap } else { now >= n },
        };
        cx.check(ok, "cap", || format!("{}{:?} with {len} elements: capacity {cap} became {now}", op.o, op.a));
    }

    fn observe(&mut self, s: &Value, cx: &mut Cx) {
        let want = rows(&s["q"]);
        let v = &mut self.v;
        cx.eq("len", "len", v.len(), want.len());
        cx.eq("len", "is_empty", v.is_empty(), want.is_empty());
        cx.check(v.capacity() >= v.len(), "cap", || "capacity below the length".into());
        let it: Vec<usize> = v.nziter().into_iter().take(want.len() + 3).map(|i| i.get()).collect();
        cx.eq("iter", "nziter", it, (1..=want.len()).collect());
        for (i, w) in want.iter().enumerate() {
            let i = nz(i as i64 + 1);
            cx.eq("valid", "get", v.get(i).map(|t| t.key()), Some((w[0], w[1])));
            cx.check(v.get(i).map(|t| t.intact()) == Some(true), "valid", || format!("element {i} is damaged"));
            cx.eq("valid", "get_mut", v.get_mut(i).map(|t| t.key()), Some((w[0], w[1])));
        }
        for i in [want.len() + 1, want.len() + 2, v.capacity() + 1, isize::MAX as usize, usize::MAX] {
            let i = NonZeroUsize::new(i).unwrap();
            cx.check(v.get(i).is_none(), "stale", || format!("get({i}) beyond the end"));
            cx.check(v.get_mut(i).is_none(), "stale", || format!("get_mut({i}) beyond the end"));
            cx.check(v.get2_mut(i, nz(1)).is_none(), "stale", || format!("get2_mut({i}, 1) beyond the end"));
            cx.check(v.get2_mut(nz(1), i).is_none(), "stale", || format!("get2_mut(1, {i}) beyond the end"));
        }
        if T::REG {
            let mut ids: Vec<i64> = want.iter().map(|w| w[0]).collect();
            ids.sort();
            cx.eq("drops", "values alive", reg_alive(), ids);
        }
        if T::COUNTED {
            let b = BLOCKS.with(|b| b.get()) - self.blocks;
            cx.eq("drops", "blocks allocated", b, (v.capacity() != 0) as i64);
        }
        cx.eq("drops", "blocks returned with a wrong layout", MISMATCH.with(|m| m.get()), 0);
    }

    fn finish(self, _: &Value, cx: &mut Cx) {
        drop(self.v);
        cx.eq("drops", "values alive after the drop", reg_alive(), vec![]);
        if T::COUNTED {
            cx.eq("drops", "blocks left", BLOCKS.with(|b| b.get()) - self.blocks, 0);
        }
        cx.eq("drops", "blocks returned with a wrong layout", MISMATCH.with(|m| m.get()), 0);
    }
}

fn main() {
    let args = Args::get();
    replay_main(&args, &[
        ("large", run_line::<Store<Large>>),
        ("aligned", run_line::<Store<Aligned>>),
        ("plain", run_line::<Store<Plain>>),
        ("small", run_line::<Store<Small>>),
    ]);
}
