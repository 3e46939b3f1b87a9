"""writes DESIGN.md from tools/DESIGN.in.md, the properties, the check modules and tools/seeds.json (which checks catch which planted bugs)"""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    out.append(f"### {p['id']} {p['title']}\n")
    if os.path.exists(os.path.join(V, "mc", p["id"].lower() + ".py")):
        m = importlib.import_module("mc." + p["id"].lower())
        doc = " ".join((m.__doc__ or "").split())
        out.append(f"*How*: {doc.split(': ', 1)[-1]}  \n*Enumerated*: {m.RULE}.  \n*Assumes*: {'; '.join(m.ASSUME)}.  \n*Quick cost*: {getattr(m, 'COST', 'under a minute')} on 8 cores.  \n*Beyond the tests*: {p['why_tests_cant']}.\n")
    else:
        out.append(f"*Planned*; not built yet. *Beyond the tests*: {p['why_tests_cant']}.\n")
res = {}
f = os.path.join(V, "tools", "seeds.json")
if os.path.exists(f):
    res = json.load(open(f))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    mf = os.path.join(V, "seeded", s, "meta.json")
    if os.path.exists(mf):
        m = json.load(open(mf))
        rows.append(f"| {s} | {m['property']} | {m['needs']} | {res.get(s, '?')} |")
t = open(os.path.join(V, "tools", "DESIGN.in.md")).read().replace("@@TABLE@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
