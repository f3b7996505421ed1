//! Recording of behaviours of the real types for validation by TLC.

use crate::PX;
use serde_json::Value;
use std::{
    io::Write,
    sync::atomic::{AtomicUsize, Ordering},
    time::Duration,
};

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }

    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }

    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut x = self.below(t);
        for (i, n) in w.iter().enumerate() {
            if x < *n {
                return i
            }
            x -= n;
        }
        0
    }
}

/// number of events recorded so far
static EVENTS: AtomicUsize = AtomicUsize::new(0);

pub struct Recorder {
    pub events: Vec<Value>,
}

impl Default for Recorder {
    /// The process is aborted if there is no further event for a long time.
    fn default() -> Recorder {
        std::thread::spawn(|| {
            let (mut seen, mut still) = (0, 0);
            while still < 60 {
                std::thread::sleep(Duration::from_secs(1));
                let now = EVENTS.load(Ordering::SeqCst);
                still = if now == seen { still + 1 } else { 0 };
                seen = now;
            }
            eprintln!("the call after event {seen} does not return");
            std::process::abort();
        });
        Recorder { events: vec![] }
    }
}

impl Recorder {
    pub fn push(&mut self, v: Value) {
        EVENTS.fetch_add(1, Ordering::SeqCst);
        self.events.push(v);
    }

    pub fn save(&self, path: &str) {
        let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("trace file"));
        for e in &self.events {
            writeln!(f, "{e}").unwrap();
        }
    }
}

pub fn gen_field<P: PX>(g: <P as triple_arena::Ptr>::Gen) -> u64 {
    P::gen_num(g).unwrap_or(0).min(1 << 30)
}

pub fn limit_fields<P: PX>() -> (u64, u64) {
    let cap = 1_000_000_000u64;
    ((P::max_inx() as u64).min(cap), if P::has_gen() { P::max_gen().min(cap) } else { cap })
}
