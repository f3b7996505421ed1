//! Replays behaviours on several threads and collects divergences.

use crate::{rec::*, tok::*};
use serde_json::{json, Value};
use std::{
    any::Any,
    cell::RefCell,
    collections::BTreeMap,
    fs::File,
    io::{Seek, SeekFrom, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`; a panic is returned as its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e: Box<dyn Any + Send>| {
        // the payload may own tracked values
        drop(e);
        last_panic()
    })
}

#[derive(Clone, Debug)]
pub struct Div {
    pub class: &'static str,
    pub op: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Cx {
    pub divs: Vec<Div>,
    /// operation being executed or observed
    pub cur: String,
    /// the behaviour can not be followed (an implementation choice that the
    /// specification leaves open differs from the one the model made)
    pub abstain: bool,
    /// this is the last operation of the behaviour
    pub last: bool,
    pub ops: u64,
    /// an argument that describes a choice the implementation made
    pub choice: Option<(usize, i64)>,
}

impl Cx {
    pub fn fail(&mut self, class: &'static str, msg: impl Into<String>) {
        if self.divs.len() < 40 {
            let (op, msg) = (self.cur.clone(), msg.into());
            self.divs.push(Div { class, op, msg });
        }
    }

    pub fn check(&mut self, ok: bool, class: &'static str, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(class, msg());
        }
    }

    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, class: &'static str, what: &str, got: T, want: T) {
        if got != want {
            self.fail(class, format!("{what}: got {got:?}, specified {want:?}"));
        }
    }

    /// runs code that must not panic
    pub fn nopanic<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match guard(f) {
            Ok(r) => Some(r),
            Err(e) => {
                self.fail("panic", format!("{what}: {e}"));
                None
            }
        }
    }
}

/// The real system under replay.
pub trait Sys: Sized {
    fn new() -> Self;
    fn exec(&mut self, op: &Op, cx: &mut Cx);
    fn observe(&mut self, s: &Value, cx: &mut Cx);
    /// last, destructive checks
    fn finish(self, s: &Value, cx: &mut Cx);
}

pub fn run_line<S: Sys>(line: &Line, cx: &mut Cx) {
    reg_reset();
    let mut sys = S::new();
    let n = line.h.len();
    for (i, op) in line.h.iter().enumerate() {
        cx.cur.clear();
        cx.cur.push_str(&op.o);
        if op.r == [0] && !["seta", "drain", "into", "rmby"].contains(&op.o.as_str()) {
            cx.cur.push('!'); // specified to fail without any effect
        }
        cx.last = i + 1 == n;
        cx.ops += 1;
        let r = guard(|| sys.exec(op, cx));
        if let Err(e) = r {
            cx.fail("panic", format!("{:?}: {e}", op.a));
            std::mem::forget(sys);
            return
        }
        for e in reg_errors() {
            cx.fail("drops", e);
        }
        if cx.abstain || (!cx.divs.is_empty() && !cx.last) {
            std::mem::forget(sys);
            return
        }
    }
    let r = guard(|| sys.observe(&line.s, cx));
    if let Err(e) = r {
        cx.fail("panic", format!("observing: {e}"));
        std::mem::forget(sys);
        return
    }
    for e in reg_errors() {
        cx.fail("drops", e);
    }
    if cx.abstain {
        std::mem::forget(sys);
        return
    }
    let r = guard(|| sys.finish(&line.s, cx));
    if let Err(e) = r {
        cx.fail("panic", format!("final use and drop: {e}"));
        return
    }
    for e in reg_errors() {
        cx.fail("drops", e);
    }
}

pub type Runner = fn(&Line, &mut Cx);

pub struct Args {
    pub map: BTreeMap<String, String>,
}

impl Args {
    pub fn get() -> Args {
        let mut map = BTreeMap::new();
        let mut it = std::env::args().skip(1);
        while let Some(k) = it.next() {
            let k = k.trim_start_matches("--").to_string();
            let v = it.next().unwrap_or_default();
            map.insert(k, v);
        }
        Args { map }
    }

    pub fn s(&self, k: &str, d: &str) -> String {
        self.map.get(k).cloned().unwrap_or_else(|| d.to_string())
    }

    pub fn n(&self, k: &str, d: i64) -> i64 {
        self.map.get(k).map(|x| x.parse().expect("number")).unwrap_or(d)
    }
}

/// Extracts the behaviours from TLC's output.
pub fn behaviours(path: &str) -> Vec<String> {
    let text = std::fs::read_to_string(path).expect("behaviour file");
    let mut res = vec![];
    for l in text.lines() {
        if l.starts_with("\"@") {
            let s: String = serde_json::from_str(l).expect("TLC string");
            res.push(s[1..].to_string());
        } else if l.starts_with("{\"h\"") {
            res.push(l.to_string());
        }
    }
    res
}

#[derive(Default)]
struct Shared {
    divs: BTreeMap<(String, String, String), (u64, Vec<(usize, Value)>)>,
    runs: u64,
    ops: u64,
    abstained: u64,
    opcount: BTreeMap<String, u64>,
}

fn write_result(out: &str, total: usize, sh: &Shared, cfgs: &[&str], t0: Instant, note: &str) {
    let mut divs = vec![];
    for ((class, op, cfg), (count, ex)) in &sh.divs {
        let mut ex = ex.clone();
        ex.sort_by_key(|x| x.0);
        divs.push(json!({"class": class, "op": op, "cfg": cfg, "count": count,
            "examples": ex.iter().map(|x| x.1.clone()).collect::<Vec<_>>()}));
    }
    let v = json!({"behaviours": total, "runs": sh.runs, "ops": sh.ops, "abstained": sh.abstained,
        "configs": cfgs, "opcount": sh.opcount, "divergences": divs, "note": note,
        "seconds": t0.elapsed().as_secs_f64()});
    std::fs::write(out, serde_json::to_string(&v).unwrap()).expect("write result");
}

/// Entry point of the replaying binaries.
pub fn replay_main(args: &Args, runners: &[(&'static str, Runner)]) {
    quiet_panics();
    let t0 = Instant::now();
    let out = args.s("out", "/dev/stdout");
    let only_cfg = args.s("cfg", "");
    let only = args.n("only", -1);
    let threads = args.n("threads", 8) as usize;
    let progress = args.s("progress", "");
    let lines = Arc::new(behaviours(&args.s("in", "/dev/stdin")));
    let only_line: Vec<usize> =
        if only >= 0 { vec![only as usize] } else { (0..lines.len()).collect() };
    let runners: Vec<(&'static str, Runner)> = runners
        .iter()
        .filter(|r| only_cfg.is_empty() || only_cfg.split(',').any(|c| c == r.0))
        .cloned()
        .collect();
    let cfgs: Vec<&str> = runners.iter().map(|r| r.0).collect();
    let work = Arc::new(only_line);
    let next = Arc::new(AtomicUsize::new(0));
    let shared = Arc::new(Mutex::new(Shared::default()));
    // per thread: milliseconds since t0 when the current run started, +1; work item
    let clocks: Arc<Vec<(AtomicU64, AtomicUsize, AtomicUsize)>> = Arc::new(
        (0..threads)
            .map(|_| (AtomicU64::new(0), AtomicUsize::new(0), AtomicUsize::new(0)))
            .collect(),
    );
    let done = Arc::new(AtomicUsize::new(0));
    let mut handles = vec![];
    for t in 0..threads {
        let (lines, work, next, shared, clocks, done, runners, progress) = (
            lines.clone(),
            work.clone(),
            next.clone(),
            shared.clone(),
            clocks.clone(),
            done.clone(),
            runners.clone(),
            progress.clone(),
        );
        let b = std::thread::Builder::new().stack_size(64 << 20);
        handles.push(
            b.spawn(move || {
                let mut pf = if progress.is_empty() {
                    None
                } else {
                    Some(File::create(format!("{progress}.{t}")).expect("progress file"))
                };
                let mut local = Shared::default();
                loop {
                    let w0 = next.fetch_add(64, Ordering::SeqCst);
                    if w0 >= work.len() {
                        break
                    }
                    for w in w0..(w0 + 64).min(work.len()) {
                        let i = work[w];
                        let line = Line::parse(&lines[i]);
                        if let Some(op) = line.h.last() {
                            *local.opcount.entry(op.o.clone()).or_default() += 1;
                        }
                        for (ci, (cfg, run)) in runners.iter().enumerate() {
                            if let Some(pf) = pf.as_mut() {
                                pf.seek(SeekFrom::Start(0)).unwrap();
                                pf.write_all(format!("{i} {cfg}          \n").as_bytes()).unwrap();
                            }
                            clocks[t].1.store(i, Ordering::SeqCst);
                            clocks[t].2.store(ci, Ordering::SeqCst);
                            clocks[t].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            let mut cx = Cx::default();
                            run(&line, &mut cx);
                            clocks[t].0.store(0, Ordering::SeqCst);
                            local.runs += 1;
                            local.ops += cx.ops;
                            if cx.abstain {
                                local.abstained += 1;
                            }
                            if !cx.divs.is_empty() {
                                let mut sh = shared.lock().unwrap();
                                for d in cx.divs {
                                    let e = sh
                                        .divs
                                        .entry((d.class.to_string(), d.op.clone(), cfg.to_string()))
                                        .or_default();
                                    e.0 += 1;
                                    e.1.push((
                                        i,
                                        json!({"line": i, "cfg": cfg, "msg": d.msg, "behaviour": lines[i]}),
                                    ));
                                    if e.1.len() > 2 {
                                        e.1.sort_by_key(|x| x.0);
                                        e.1.truncate(1);
                                    }
                                }
                            }
                        }
                    }
                }
                if let Some(pf) = pf.as_mut() {
                    pf.seek(SeekFrom::Start(0)).unwrap();
                    let _ = pf.write_all(b"-1 done          \n");
                }
                let mut sh = shared.lock().unwrap();
                sh.runs += local.runs;
                sh.ops += local.ops;
                sh.abstained += local.abstained;
                for (k, v) in local.opcount {
                    *sh.opcount.entry(k).or_default() += v;
                }
                done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap(),
        );
    }
    let limit = args.n("hang-ms", 20_000) as u64;
    while done.load(Ordering::SeqCst) < threads {
        std::thread::sleep(Duration::from_millis(5));
        let now = t0.elapsed().as_millis() as u64 + 1;
        for c in clocks.iter() {
            let s = c.0.load(Ordering::SeqCst);
            if s != 0 && now > s + limit {
                let (i, ci) = (c.1.load(Ordering::SeqCst), c.2.load(Ordering::SeqCst));
                let line = Line::parse(&lines[i]);
                let op = line.h.last().map(|o| o.o.clone()).unwrap_or_default();
                let mut sh = shared.lock().unwrap();
                let cfg = cfgs[ci];
                let e = sh.divs.entry(("hang".into(), op, cfg.into())).or_default();
                e.0 += 1;
                e.1.push((i, json!({"line": i, "cfg": cfg, "msg": "no result within the time limit",
                    "behaviour": lines[i]})));
                write_result(&out, lines.len(), &sh, &cfgs, t0, "stopped at a hang");
                std::process::exit(0);
            }
        }
        // a worker that died without finishing
        if handles.iter().all(|h| h.is_finished()) && done.load(Ordering::SeqCst) < threads {
            eprintln!("harness worker failed: {}", last_panic());
            std::process::exit(3);
        }
    }
    for h in handles {
        if h.join().is_err() {
            std::process::exit(3);
        }
    }
    let sh = shared.lock().unwrap();
    write_result(&out, lines.len(), &sh, &cfgs, t0, "");
}
