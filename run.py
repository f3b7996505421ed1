#!/usr/bin/env python3
"""Runs the model checks, replays and trace validations that decide a property.

  run.py check --property ID [--tier quick|thorough]
  run.py replay FILE              re-run a recorded violation
  run.py build                    build the harness
  run.py suite NAME [--tier T]    run one suite and print every divergence
"""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, time
import concurrent.futures as cf

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
TARGET = os.path.join(HARN, "target")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from suites import SUITES, PROPS  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------
# building

def source_hash():
    h = hashlib.sha256()
    for top in ("triple_arena", "triple_arena_render"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def cargo_env():
    env = dict(os.environ)
    env.update(HOME="/root", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable",
               CARGO_TARGET_DIR=TARGET, RUSTFLAGS="--cap-lints allow",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.pop("RUSTC_WRAPPER", None)
    return env


def build(bins):
    """Builds the harness binaries from the current tree; those under plain/
    without serialization support, which has a pointer type of its own."""
    sets = {"": {b for b in bins if "/" not in b}, "plain": {b[6:] for b in bins if b.startswith("plain/")}}
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        for f in [ex.submit(build_in, os.path.join(TARGET, d), b, d == "plain") for d, b in sets.items() if b]:
            f.result()


def build_in(target, bins, plain):
    """Cargo looks at modification times only, so the crates are cleaned when
    their content differs from the one they were last built from."""
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = target
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "source-hash")
    cur = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != cur:
        if old:
            subprocess.run(["cargo", "clean", "--offline", "--release", "-p", "triple_arena",
                            "-p", "triple_arena_render", "-p", "harness"],
                           cwd=HARN, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(stamp):
                os.remove(stamp)
    cmd = ["cargo", "build", "--offline", "--release", "--quiet"]
    if plain:
        cmd += ["--no-default-features"]
    if "render" in bins:
        cmd += ["--features", "render"]
    for b in sorted(bins):
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=HARN, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(cur)


# --------------------------------------------------------------------------
# running TLC and the harness

def tlc(work, module, cfg, extra=(), timeout=3600, heap="2g"):
    """Runs TLC in `work`; returns its output as a file name and the statistics."""
    with open(os.path.join(work, module + ".cfg"), "w") as f:
        f.write(cfg)
    for n in os.listdir(SPEC):
        if n.endswith(".tla"):
            dst = os.path.join(work, n)
            if not os.path.exists(dst):
                os.symlink(os.path.join(SPEC, n), dst)
    out = os.path.join(work, module + ".out")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + work,
           "-cp", JAR, "tlc2.TLC", "-workers", "1", "-nowarning",
           "-metadir", os.path.join(work, "md"), "-config", module + ".cfg", *extra, module + ".tla"]
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=work, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
    stats = {"rc": p.returncode, "states": 0, "transitions": 0, "errors": [], "bad": []}
    with open(out) as f:
        for line in f:
            if line.startswith('"@{'):
                stats["lines"] = stats.get("lines", 0) + 1
            elif line.startswith('"@BAD'):
                stats["bad"].append(json.loads(json.loads(line)[5:]))
            elif "states generated," in line:
                m = re.match(r"(\d+) states generated, (\d+) distinct", line)
                if m:
                    stats["transitions"], stats["states"] = int(m[1]), int(m[2])
            elif line.startswith("The number of states generated:"):
                stats["transitions"] = stats["states"] = int(line.split(":")[1])
            elif line.startswith("Error:"):
                stats["errors"].append(line.strip())
    return out, stats


def limits():
    import resource
    gb = 8 << 30
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness(work, binary, args, timeout):
    cmd = [os.path.join(TARGET, os.path.dirname(binary), "release", os.path.basename(binary))] + [str(x) for x in args]
    try:
        return subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              text=True, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        raise ToolError(f"harness timed out: {cmd}")


def crash_lines(work, binary, infile, extra, name):
    """After a crash of the replayer: find the behaviours that cause it."""
    cands = set()
    for n in os.listdir(work):
        if n.startswith(name + ".prog."):
            t = open(os.path.join(work, n)).read().split()
            if len(t) >= 2 and t[0] != "-1":
                cands.add((int(t[0]), t[1]))
    res = []
    for i, c in sorted(cands):
        p = harness(work, binary, ["--in", infile, "--out", name + ".one", "--only", i, "--cfg", c,
                                   "--threads", 1, *extra], 300)
        if p.returncode < 0 or p.returncode >= 128:
            res.append((i, c, p.returncode, (p.stderr or "")[-400:]))
    return res


def behaviour_at(path, i):
    n = 0
    with open(path) as f:
        for line in f:
            if line.startswith('"@{'):
                if n == i:
                    return json.loads(line)[1:]
                n += 1
            elif line.startswith('{"h"'):
                if n == i:
                    return line.strip()
                n += 1
    return None


def run_mc(suite, job, tier, seed, work):
    consts = dict(job["consts"])
    consts.update(job.get("thorough", {}) if tier == "thorough" else {})
    simn = 0
    if "sim" in job:
        simn, depth = job["sim"] if tier == "quick" else job.get("sim_thorough", job["sim"])
        consts["SimDepth"] = depth
    cl = "CONSTANTS\n" + "\n".join(f"  {k} = {v}" for k, v in consts.items()) + "\n"
    if simn:
        cfg = "SPECIFICATION SimSpec\n" + cl + "INVARIANTS Inv SimEmit\nCHECK_DEADLOCK FALSE\n"
        extra = ["-simulate", f"num={simn}", "-depth", str(depth), "-seed", str(seed)]
    else:
        cfg = ("SPECIFICATION Spec\n" + cl + f"INVARIANT Inv\nACTION_CONSTRAINT {job.get('emit', 'Emit')}\n"
               "VIEW MCView\nCHECK_DEADLOCK FALSE\n")
        extra = []
    out, st = tlc(work, job["module"], cfg, extra, heap=job.get("heap", "3g"))
    if st["errors"] or (st["rc"] != 0):
        raise ToolError(f"{suite}: TLC failed on the specification: {st['errors']} (see {out})")
    if not st.get("lines"):
        raise ToolError(f"{suite}: TLC produced no behaviours")
    args = list(job.get("args", []))
    res = os.path.join(work, "res.json")
    p = harness(work, job["bin"], ["--in", out, "--out", res, "--progress", os.path.join(work, "rp.prog"),
                                   *args], 3600)
    divs = []
    if p.returncode == 0:
        r = json.load(open(res))
        divs = r["divergences"]
    elif p.returncode < 0 or p.returncode >= 128:
        r = {"behaviours": st["lines"], "runs": 0, "ops": 0, "abstained": 0, "opcount": {}}
        found = crash_lines(work, job["bin"], out, args, "rp")
        if not found:
            raise ToolError(f"{suite}: replayer died with {p.returncode}: {p.stderr[-800:]}")
        for i, c, rc, err in found:
            b = behaviour_at(out, i)
            op = json.loads(b)["h"][-1]["o"]
            divs.append({"class": "crash", "op": op, "cfg": c, "count": 1, "examples": [
                {"line": i, "cfg": c, "msg": f"process died ({rc}): {err}", "behaviour": b}]})
    else:
        raise ToolError(f"{suite}: replayer failed ({p.returncode}): {p.stderr[-2000:]}")
    sample = behaviour_at(out, min(st["lines"] - 1, 7 + seed % 50))
    return {"suite": suite, "kind": "replay", "module": job["module"], "bin": job["bin"],
            "args": args, "states": st["states"], "transitions": st["transitions"],
            "behaviours": r["behaviours"], "runs": r["runs"], "ops": r["ops"],
            "abstained": r["abstained"], "opcount": r["opcount"], "divs": divs, "sample": sample,
            "exhaustive": not simn, "consts": consts, "configs": r.get("configs", [])}


def run_trace(suite, job, tier, seed, work):
    tr = os.path.join(work, "trace.ndjson")
    mult = job.get("mult", 1) * (job.get("mult_thorough", 4) if tier == "thorough" else 1)
    args = list(job.get("args", []))
    p = harness(work, job["bin"], ["--record", tr, "--seed", seed, "--mult", mult, *args], 1800)
    base = {"suite": suite, "kind": "trace", "module": job["module"], "bin": job["bin"], "args": args,
            "divs": [], "behaviours": 0, "runs": 0, "abstained": 0, "opcount": {}, "exhaustive": False}
    if p.returncode != 0:
        if p.returncode < 0 or p.returncode >= 128:
            base.update(states=0, transitions=0, ops=0, sample="")
            base["divs"] = [{"class": "crash", "op": "record", "cfg": "", "count": 1, "examples": [
                {"msg": f"recording driver died ({p.returncode}): {p.stderr[-400:]}",
                 "behaviour": json.dumps({"record": args, "seed": seed, "mult": mult})}]}]
            return base
        raise ToolError(f"{suite}: recording failed ({p.returncode}): {p.stderr[-2000:]}")
    with open(tr) as f:
        events = f.read().splitlines()
    if not events:
        raise ToolError(f"{suite}: empty trace")
    cl = "".join(f"  {k} = {v}\n" for k, v in job.get("consts", {}).items())
    cfg = ("SPECIFICATION Spec\n" + ("CONSTANTS\n" + cl if cl else "") + "INVARIANT Accepted\n"
           "POSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n")
    out, st = tlc(work, job["module"], cfg, heap=job.get("heap", "3g"))
    opc = {}
    for e in events:
        o = re.match(r'.*?"o":"(\w+)"', e)
        if o:
            opc[o[1]] = opc.get(o[1], 0) + 1
    base.update(states=st["states"], transitions=st["transitions"], ops=len(events), opcount=opc,
                behaviours=opc.get("new", 1), runs=opc.get("new", 1), sample=" ".join(events[:6])[:1500])
    if st["rc"] == 0 and not st["errors"]:
        if st["states"] != len(events) + 1:
            raise ToolError(f"{suite}: TLC did not consume the whole trace")
        return base
    if st["bad"]:
        b = st["bad"][0]
        l = b["l"]
        ev = json.loads(events[l - 1])
        start = max(i for i in range(l) if '"o":"new"' in events[i])
        hist = events[start:l]
        for c in b["bad"]:
            base["divs"].append({"class": c, "op": ev["o"], "cfg": "trace", "count": 1, "examples": [
                {"msg": f"event {l - start} of a recorded history is not allowed by {job['module']}: "
                        f"{events[l - 1][:600]}",
                 "behaviour": json.dumps({"trace": [json.loads(x) for x in hist], "module": job["module"],
                                          "consts": job.get("consts", {})})}]})
        return base
    raise ToolError(f"{suite}: TLC failed on the trace specification: {st['errors'][:4]} (see {out})")


def run_suite(name, tier, seed, work):
    job = SUITES[name]
    w = os.path.join(work, name)
    os.makedirs(w, exist_ok=True)
    t0 = time.time()
    res = (run_trace if job["kind"] == "trace" else run_mc)(name, job, tier, seed, w)
    res["seconds"] = round(time.time() - t0, 2)
    return res


# --------------------------------------------------------------------------
# known findings

def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def relevant(prop, suite, d):
    return PROPS[prop]["match"](suite, d["class"], d["op"])


def check(prop, tier, seed):
    t0 = time.time()
    if prop not in PROPS:
        raise ToolError(f"unknown property {prop}")
    P = PROPS[prop]
    names = [s for s in P["suites"]] + (P.get("thorough_suites", []) if tier == "thorough" else [])
    build({SUITES[n]["bin"] for n in names})
    work = os.path.join(ROOT, "work", f"{prop}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    results, errors = [], []
    keep = False
    try:
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            futs = {ex.submit(run_suite, n, tier, seed, work): n for n in names}
            for f in cf.as_completed(futs):
                try:
                    results.append(f.result())
                except ToolError as e:
                    errors.append(str(e))
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    results.sort(key=lambda r: names.index(r["suite"]))
    viol, other = [], []
    for r in results:
        for d in r["divs"]:
            (viol if relevant(prop, r["suite"], d) else other).append((r, d))
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "open"]
    unknown, hit = [], []
    for r, d in viol:
        k = next((k for k in known if k["suite"] == r["suite"] and k["class"] == d["class"]
                  and k["op"] == d["op"] and re.search(k["match"], d["examples"][0]["msg"])), None)
        (hit if k else unknown).append((r, d, k))
    for k in {id(k): k for _, _, k in hit}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    # evidence
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["behaviours"] for r in results),
        "replayed_runs": sum(r["runs"] for r in results if r["kind"] == "replay"),
        "implementation_calls": sum(r["ops"] for r in results),
        "abstained": sum(r["abstained"] for r in results),
        "suites": [{k: r[k] for k in ("suite", "kind", "module", "states", "transitions", "behaviours",
                                      "runs", "ops", "abstained", "exhaustive", "opcount", "seconds")}
                   | {"constants": r.get("consts", {}), "configs": r.get("configs", [])}
                   for r in results],
        "samples": [r["sample"] for r in results if r["sample"]][:6],
        "divergences_of_other_properties": len(other),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(unknown),
          "assumptions": P.get("assumptions", [])}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in results:
        log(f"  {r['suite']}: states {r['states']} transitions {r['transitions']} behaviours "
            f"{r['behaviours']} runs {r['runs']} ops {r['ops']} abstained {r['abstained']} "
            f"divergences {len(r['divs'])} ({r['seconds']} s)")
    if unknown:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for n, (r, d, _) in enumerate(unknown[:5]):
            path = os.path.join(ROOT, "replays", f"{prop}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "suite": r["suite"], "bin": r["bin"], "args": r["args"],
                           "kind": r["kind"], "class": d["class"], "op": d["op"], "cfg": d["cfg"],
                           "example": d["examples"][0]}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {r['suite']}: {d['class']} after {d['op']} ({d['cfg']}, {d['count']}x): "
                  f"{d['examples'][0]['msg'][:500]}")
        return 1
    if errors:
        raise ToolError("; ".join(errors))
    print(f"property {prop} held: {cov['states']} states, {cov['transitions']} transitions, "
          f"{cov['traces_validated_against_impl']} behaviours, {ev['wall_s']} s")
    return 0


def suite_cmd(name, tier, seed):
    build({SUITES[name]["bin"]})
    work = os.path.join(ROOT, "work", f"suite-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        r = run_suite(name, tier, seed, work)
    except ToolError as e:
        log(e, "\nwork dir kept:", work)
        return 2
    shutil.rmtree(work, ignore_errors=True)
    for d in r.pop("divs"):
        props = [p for p in PROPS if name in PROPS[p]["suites"] + PROPS[p].get("thorough_suites", [])
                 and PROPS[p]["match"](name, d["class"], d["op"])]
        print(d["class"], d["op"], d["cfg"], d["count"], props, d["examples"][0]["msg"][:300])
        if os.environ.get("FULL"):
            print("   ", d["examples"][0]["behaviour"])
    r.pop("sample", None)
    print(r)
    return 0


def replay(path):
    v = json.load(open(path))
    build({v["bin"]})
    b = v["example"]["behaviour"]
    work = os.path.join(ROOT, "work", f"replay-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        if v["kind"] == "trace":
            print("recorded history (re-recorded by the check with the same seed):")
            print(b)
            return 0
        with open(os.path.join(work, "in"), "w") as f:
            f.write(b + "\n")
        p = harness(work, v["bin"], ["--in", "in", "--out", "res.json", "--cfg", v["cfg"], "--threads", 1,
                                     *v["args"]], 300)
        if p.returncode != 0:
            print("process ended with", p.returncode, p.stderr[-1000:])
            return 1
        r = json.load(open(os.path.join(work, "res.json")))
        for d in r["divergences"]:
            print(d["class"], d["op"], d["cfg"], d["examples"][0]["msg"])
        return 1 if r["divergences"] else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("--property", required=True)
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    r = sub.add_parser("replay")
    r.add_argument("file")
    sub.add_parser("build")
    s = sub.add_parser("suite")
    s.add_argument("name")
    s.add_argument("--tier", default="quick")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        if a.cmd == "check":
            return check(a.property, a.tier if a.tier in ("quick", "thorough") else "quick", seed)
        if a.cmd == "replay":
            return replay(a.file)
        if a.cmd == "build":
            build({j["bin"] for j in SUITES.values()})
            return 0
        return suite_cmd(a.name, a.tier, seed)
    except ToolError as e:
        log("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
