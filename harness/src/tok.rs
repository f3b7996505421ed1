//! Values whose drops are tracked.

use std::cell::RefCell;

#[derive(Default)]
pub struct Registry {
    /// per instance: token id, dropped?
    inst: Vec<(i64, bool)>,
    alive: usize,
    pub errors: Vec<String>,
}

thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
}

/// Starts a new accounting period; instances from earlier ones are ignored.
pub fn reg_reset() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.inst.clear();
        r.alive = 0;
        r.errors.clear();
    })
}

/// Ids of all instances that are currently alive, sorted.
pub fn reg_alive() -> Vec<i64> {
    REG.with(|r| {
        let r = r.borrow();
        let mut v: Vec<i64> = r.inst.iter().filter(|x| !x.1).map(|x| x.0).collect();
        v.sort();
        v
    })
}

pub fn reg_alive_count() -> usize {
    REG.with(|r| r.borrow().alive)
}

pub fn reg_errors() -> Vec<String> {
    REG.with(|r| std::mem::take(&mut r.borrow_mut().errors))
}

const MAGIC: u64 = 0x5eed_a11c_0ffe_e000;

/// A value with identity `id`, content `c` and tracked lifetime. Comparisons
/// look at `(id, c)` only.
pub struct Tok {
    pub id: i64,
    pub c: i64,
    serial: usize,
    magic: u64,
    // makes a double drop visible to the allocator as well
    _heap: Box<u8>,
}

impl Tok {
    pub fn new(id: i64, c: i64) -> Tok {
        let serial = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.inst.push((id, false));
            r.alive += 1;
            r.inst.len() - 1
        });
        Tok { id, c, serial, magic: MAGIC ^ id as u64, _heap: Box::new(1) }
    }

    pub fn key(&self) -> (i64, i64) {
        (self.id, self.c)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let ok = self.magic == MAGIC ^ self.id as u64;
        let (serial, id) = (self.serial, self.id);
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if !ok {
                r.errors.push("drop of memory that is not a live value".into());
                return
            }
            if serial >= r.inst.len() || r.inst[serial].0 != id {
                return // from an earlier period
            }
            if r.inst[serial].1 {
                r.errors.push(format!("value {id} dropped twice"));
            } else {
                r.inst[serial].1 = true;
                r.alive -= 1;
            }
        });
        self.magic = 0;
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(self.id, self.c)
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.key() == o.key()
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> std::cmp::Ordering {
        self.key().cmp(&o.key())
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "t{}.{}", self.id, self.c)
    }
}
impl std::fmt::Display for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if f.alternate() {
            write!(f, "token {} with {}", self.id, self.c)
        } else {
            write!(f, "<{}:{}>", self.id, self.c)
        }
    }
}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.key().hash(h)
    }
}
impl serde::Serialize for Tok {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.id, self.c).serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Tok {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Tok, D::Error> {
        let (id, c) = <(i64, i64)>::deserialize(d)?;
        Ok(Tok::new(id, c))
    }
}
