#!/usr/bin/env python3
"""Mutation campaign in a scratch copy: mutate.py [--n N] [--seed S] [--worker W] [--files GLOB] [--dir D]

Makes single-token or single-statement changes in a copy of /repo, replays the
behaviours of the specification into the changed code (the output of TLC is
made once and shared), and runs the repository's own tests only on changes that
the replay does not notice. Writes one line per change to D/result-W.jsonl.
Never touches /repo."""
import argparse, fnmatch, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
import run  # noqa: E402
from suites import SUITES, PROPS  # noqa: E402

CACHED = ["arena", "arena_pairs", "arena_sim", "arena_pair", "arena_pair_sim", "chain", "chain_sim", "chain_pair",
          "chain_pair_sim", "surject", "surject_sim", "surject_pair", "surject_pair_sim", "ord", "ord_tree",
          "ord_sim", "ord_pair", "ord_pair_sim", "arena_loop", "chain_loop_sim", "surject_loop_sim", "ord_loop",
          "limits_arena_both", "limits_arena_nogen", "limits_chain_both", "limits_surject_both", "limits_ord_both",
          "arena_de", "chain_de", "surject_de", "ord_de", "arena_trait", "chain_trait_sim", "surject_trait_sim",
          "ord_trait", "vec", "vec_plain", "vec_sim", "render", "render_two", "render_sim", "chain_free", "surject_free", "chain_loop",
          "surject_loop", "ptr_sim"]

# which binaries to try, in order, for a change in a file
ORDER = [
    ("*/nonzero_inx_vec.rs", ["vec", "arena", "chain", "limits", "generic"]),
    ("*/arena_trait.rs", ["generic"]),
    ("*/arena/*", ["arena", "limits", "chain", "surject", "ord", "generic"]),
    ("*/chain/*", ["chain", "surject", "ord", "limits", "generic"]),
    ("*/surject/*", ["surject", "limits", "generic"]),
    ("*/ord/*", ["ord", "limits", "generic"]),
    ("triple_arena_render/*", ["render"]),
    ("*/ptr_serde.rs", ["ptr", "arena", "chain", "limits"]),
    ("*", ["arena", "chain", "surject", "ord", "limits", "generic"]),
]

SWAPS = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "),
         ("&&", "||"), ("||", "&&"), (" + ", " - "), (" - ", " + "), ("true", "false"), ("false", "true"),
         (".prev", ".next"), (".next", ".prev"), ("prev:", "next:"), ("is_some()", "is_none()"), ("is_none()", "is_some()"),
         ("p0", "p1"), ("p1", "p0"), ("p_prev", "p_next"), ("p_next", "p_prev"), ("first", "last"), ("last", "first"),
         (".0", ".1"), (".1", ".0"), ("key", "val"), ("p_tree0", "p_tree1"), ("p_tree1", "p_tree0"), ("tree0", "tree1"),
         ("Less", "Greater"), ("Greater", "Less"), ("gen", "two()"), ("(1)", "(0)"), ("(1)", "(2)"), (" 1", " 0"), (" 1", " 2"),
         ("Some(", "None::<_>.or(Some("), ("continue", "break"), ("break", "continue"), ("link0", "link1"), ("lno", "lno0"),
         ("self", "other"), ("other", "self"), ("len()", "capacity()"), ("capacity()", "len()"), ("start", "end"),
         ("inc_gen", "()"), (".max(", ".min("), (".min(", ".max("), ("next_back()", "next()"), ("wrapping_add", "wrapping_sub"),
         ("if let Some", "if let None::<()> = None && let Some"), (".cloned()", ""), ("rank0", "rank1"), ("Ok(", "Err("), ("remove", "get")]


def mutants(path, text):
    """(line number, description, new text)"""
    lines = text.split("\n")
    out = []
    skip = False
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith("//") or t.startswith("#") or not t or t.startswith("use ") or t.startswith("pub mod"):
            continue
        if "_check_invariants" in l and "fn " in l:
            skip = True
        if skip:
            if l.startswith("    }") and len(l) == 5:
                skip = False
            continue
        if t.startswith(("assert", "debug_assert", "pub fn", "fn ", "impl", "unsafe impl", "pub struct", "mod ", "where", "type ")):
            continue
        code = l.split("//")[0]

        def put(new, what):
            out.append((i + 1, what, "\n".join(lines[:i] + ([new] if new is not None else []) + lines[i + 1:])))
        # a whole statement
        if re.match(r"^\s+[\w.*\[\]:<>&()]+.*;\s*$", l) and not t.startswith(("let ", "return", "}", ")", "break", "continue")):
            put(None, "delete: " + t)
        m = re.match(r"^(\s*)(} else )?if ([^{]+) \{$", l)
        if m and not m[3].startswith("let "):
            put(f"{m[1]}{m[2] or ''}if !({m[3]}) {{", "negate: " + t)
            put(f"{m[1]}{m[2] or ''}if true || ({m[3]}) {{", "always: " + t)
            put(f"{m[1]}{m[2] or ''}if false && ({m[3]}) {{", "never: " + t)
        for a, b in SWAPS:
            for k in re.finditer(re.escape(a), code):
                s, e = k.span()
                # whole words only
                if a[0].isalnum() and s and (code[s - 1].isalnum() or code[s - 1] == "_"):
                    continue
                if a[-1].isalnum() and e < len(code) and (code[e].isalnum() or code[e] == "_"):
                    continue
                put(l[:s] + b + l[e:], f"{a} -> {b}: {t}")
    return out


def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def cache(d):
    """TLC's behaviours of the suites."""
    os.makedirs(d, exist_ok=True)
    for n in CACHED:
        f = os.path.join(d, n + ".out")
        if os.path.exists(f):
            continue
        job = SUITES[n]
        w = os.path.join(d, "work-" + n)
        os.makedirs(w, exist_ok=True)
        keep = {}

        def fake(work, binary, args, timeout):
            keep["in"] = args[1]
            raise run.ToolError("stop")
        old, run.harness = run.harness, fake
        try:
            run.run_mc(n, job, "quick", 1, w)
        except run.ToolError as e:
            if "in" not in keep:
                raise
        finally:
            run.harness = old
        os.rename(keep["in"], f)
        shutil.rmtree(w)
        print("cached", n, flush=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--worker", type=int, default=0)
    ap.add_argument("--files", default="*")
    ap.add_argument("--dir", default="/tmp/mut")
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--cache-only", action="store_true")
    ap.add_argument("--tests", action="store_true", help="run the tests on noticed changes as well")
    a = ap.parse_args()
    cache(os.path.join(a.dir, "cache"))
    if a.cache_only:
        return
    w = os.path.join(a.dir, f"w{a.worker}")
    os.makedirs(w, exist_ok=True)
    repo, harn = os.path.join(w, "repo"), os.path.join(w, "harness")
    sh(f"rsync -a --delete --exclude target /repo/ {repo}/ 2>/dev/null || (mkdir -p {repo} && cp -a /repo/. {repo}/)", "/", 600)
    sh(f"mkdir -p {harn} && cp -a {ROOT}/harness/Cargo.toml {ROOT}/harness/Cargo.lock {ROOT}/harness/src {harn}/ && "
       f"sed -i 's#/repo/#{repo}/#g' {harn}/Cargo.toml", "/", 600)
    files = []
    for top in ("triple_arena/src", "triple_arena_render/src"):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f), repo)
                if p.endswith(".rs") and "safe_nonzero" not in p and p != "triple_arena/src/traits/ptr.rs" \
                        and fnmatch.fnmatch(p, a.files):
                    files.append(p)
    allm = []
    for p in sorted(files):
        t = open(os.path.join(repo, p)).read()
        for ln, what, new in mutants(p, t):
            allm.append((p, ln, what, new))
    rnd = random.Random(a.seed)
    rnd.shuffle(allm)
    print(len(allm), "mutants; taking", a.n, flush=True)
    env = run.cargo_env()
    env.update(CARGO_TARGET_DIR=os.path.join(w, "target"), CARGO_BUILD_JOBS=str(a.jobs))
    tenv = dict(env, CARGO_TARGET_DIR=os.path.join(w, "test-target"))
    res = open(os.path.join(a.dir, f"result-{a.worker}.jsonl"), "a")
    for p, ln, what, new in allm[:a.n]:
        f = os.path.join(repo, p)
        orig = open(f).read()
        t0 = time.time()
        rec = {"file": p, "line": ln, "what": what}
        try:
            with open(f, "w") as h:
                h.write(new)
            bins = next(b for g, b in ORDER if fnmatch.fnmatch(p, g))
            status, found = "missed", []
            for b in bins:
                extra = " --features render" if b == "render" else ""
                rc, out = sh(f"cargo build --offline --release --quiet --bin {b}{extra}", harn, 600, env)
                if rc != 0:
                    status = "no build"
                    break
                for n in CACHED:
                    j = SUITES[n]
                    if j["bin"] != b:
                        continue
                    r = os.path.join(w, "res.json")
                    rc, out = sh("ulimit -v 16000000; " + " ".join([os.path.join(w, "target/release", b), "--in",
                                 os.path.join(a.dir, "cache", n + ".out"), "--out", r, "--threads", str(a.jobs),
                                 *j.get("args", [])]), w, 600)
                    if rc != 0:
                        status, found = "killed", [[n, "crash", "", str(rc)]]
                        break
                    dv = json.load(open(r))["divergences"]
                    if dv:
                        status = "killed"
                        found = [[n, d["class"], d["op"], d["examples"][0]["msg"][:120]] for d in dv]
                        break
                if status != "missed":
                    break
            if status == "missed":
                rc, out = sh("cargo test --offline --workspace --all-features --release 2>&1", repo, 900, tenv)
                status = "tests pass" if rc == 0 else "only tests"
                if rc != 0:
                    found = [[x[:200] for x in out.splitlines() if "FAILED" in x or "panicked" in x or x.startswith("error")][:4]]
            elif status == "killed" and a.tests:
                rc, out = sh("cargo test --offline --workspace --all-features --release 2>&1", repo, 900, tenv)
                rec["tests"] = "pass" if rc == 0 else "fail"
            rec["status"], rec["found"] = status, found[:12]
            rec["props"] = sorted(q for q in PROPS if status == "killed" and any(
                x[0] in PROPS[q]["suites"] and PROPS[q]["match"](x[0], x[1], x[2]) for x in found))
        finally:
            with open(f, "w") as h:
                h.write(orig)
        rec["s"] = round(time.time() - t0, 1)
        res.write(json.dumps(rec) + "\n")
        res.flush()
        print(rec["status"], p, ln, what[:80], rec["s"], flush=True)


if __name__ == "__main__":
    main()
