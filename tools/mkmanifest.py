"""writes MANIFEST.json from properties.jsonl and the check modules present in mc/"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "mc", p.lower() + ".py")):
        m = importlib.import_module("mc." + p.lower())
        kind = ("explicit-state model checking of the implementation (exhaustive enumeration of operation/answer sequences against a reference model)"
                if m.LEVEL == "model_checking" else
                "bounded exhaustive exploration of the real code over a finite behaviour space, judged by an independent reference model")
        checks.append(dict(property=p, quick_cmd=f"bash run.sh {p}", thorough_cmd=f"bash run.sh {p} --tier=thorough",
                           technique=getattr(m, "TECHNIQUE", kind), level=m.LEVEL,
                           level_note="Exhaustive within the stated bounds: " + m.RULE + ". Assumes: " + "; ".join(m.ASSUME) + "."))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash run.sh --selftest", checks=checks, not_applicable=na,
               notes="No hooks in /repo; the checks import /repo's working tree directly. See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
