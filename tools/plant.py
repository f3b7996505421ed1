#!/usr/bin/env python3
"""Confirms a planted bug: plant.py ID [--check]

Applies seeded/ID/patch.diff in a scratch copy of /repo (/tmp/wt), runs the
repository's tests there, and the demonstration with and without the patch.
With --check the patch is applied to /repo itself, the quick check of its
property is run, and the patch is undone."""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"


def sh(cmd, cwd, timeout=1500):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def sync():
    if not os.path.exists(WT):
        subprocess.run(["cp", "-a", "/repo", WT], check=True)
    sh("git checkout -q -- . && git clean -fdq", WT)
    sh(f"git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", WT)


def confirm(i):
    d = os.path.join(ROOT, "seeded", i)
    sync()
    p = sh(f"bash {d}/demo.sh", WT, 300)
    if p.returncode != 0:
        return f"demo fails on the unchanged tree ({p.returncode}):\n{p.stdout[-1500:]}"
    p = sh(f"git apply {d}/patch.diff", WT)
    if p.returncode != 0:
        return "patch does not apply: " + p.stdout
    try:
        p = sh(f"bash {d}/demo.sh", WT, 300)
        if p.returncode == 0:
            return "demo passes with the patch"
        note = p.stdout[-300:]
        if "error[" in p.stdout or "could not compile" in p.stdout:
            return "does not compile: " + p.stdout[-3000:]
        for f in ("--all-features", "--no-default-features", "--all-features --release"):
            p = sh(f". /opt/vp/env.sh; cd {WT}; export CARGO_TARGET_DIR={WT}/target; timeout 600 cargo test --offline --workspace --no-fail-fast {f} 2>&1 "
                   "| grep -E '^(error|test .*FAILED|test result: F)'", WT)
            if p.stdout.strip():
                return f"tests fail with {f}: {p.stdout[:1000]}"
    finally:
        sh("git checkout -q -- .", WT)
    print(i, "confirmed;", note.strip().splitlines()[-1:] if note else "")
    return None


def check(i, props=None):
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    sh(f"git apply {d}/patch.diff", "/repo")
    try:
        for q in props or [prop]:
            p = sh(f"python3 run.py check --property {q}", ROOT)
            v = [l for l in p.stdout.splitlines() if "VIOLATION" in l]
            det = [l for l in p.stdout.splitlines() if l.startswith("  ") and " after " in l]
            print(i, q, "exit", p.returncode, "CAUGHT" if p.returncode == 1 and v else "MISSED", det[:1])
            if p.returncode not in (0, 1):
                print(p.stdout[-1500:])
    finally:
        sh("git checkout -q -- .", "/repo")


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if not ids:
        ids = sorted(os.listdir(os.path.join(ROOT, "seeded")))
    for i in ids:
        if "--check" in sys.argv:
            check(i)
        else:
            e = confirm(i)
            if e:
                print(i, "NOT CONFIRMED:", e)
