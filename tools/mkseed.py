"""Helper to write seeded/<id>/ from textual replacements: mk(id, property, edits, demo, needs, breaks)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plant


def mk(id, prop, edits, demo, needs, breaks, deps="", render=False):
    plant.sync()
    for f, old, new in edits:
        p = os.path.join(plant.WT, f)
        t = open(p).read()
        assert t.count(old) >= 1, (id, f, "text not found")
        assert t.count(old) == 1, (id, f, "text not unique", t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=plant.WT, stdout=subprocess.PIPE, text=True).stdout
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    t = open(os.path.join(ROOT, "tools", "demo_template.sh")).read().replace("DEPS", deps)
    if render:
        t = t.replace("[workspace]\nT", 'triple_arena_render = { path = "$repo/triple_arena_render" }\n[workspace]\nT')
    open(os.path.join(d, "demo.sh"), "w").write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    e = plant.confirm(id)
    if e:
        print(id, "NOT CONFIRMED:", e)
