"""Writes /verif/MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C21": "a function of the template text alone: no schedule, clock, I/O or fault for a simulated run to vary (static text and markup do appear in every simulated page and are compared, but the property is about all inputs of the HTML parser)",
    "C22": "a function of the template text alone (expression scanner); nothing for a scheduler or fault injector to vary",
    "C23": "a function of the template text alone (static scoping); nothing for a scheduler or fault injector to vary",
    "C24": "a function of the template text alone (rejection of malformed input); what loads do when a template is invalid is decided under C06 and C09",
    "C25": "a function of the template text alone (a second front end); nothing for a scheduler or fault injector to vary",
    "C26": "a function of the template text alone (constant folding); that merging keeps the order of evaluation is decided under C04",
}
NOTE = ("Seeded search over simulated runs of the real code, not exhaustive: a pass means no violation in the runs made. "
        "Trusted: the simulator's seams (tksim/core.py, boot.py), the reference model (tksim/tmpl.py) and CPython. ")
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    if not os.path.exists(os.path.join(V, "tksim", "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "no check built yet"})
        continue
    m = importlib.import_module("tksim.props." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": "./check " + pid,
        "thorough_cmd": "VERIF_TIER=thorough ./check " + pid,
        "technique": "deterministic simulation with fault injection: " + getattr(m, "TECHNIQUE", "seeded schedules and faults over real code, checked against a reference model"),
        "level": getattr(m, "LEVEL", "exploration"),
        "level_note": NOTE + getattr(m, "NOTE", "Real: %s. Simulated: %s." % (", ".join(m.REAL), ", ".join(m.STUBS))),
    })
man = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every seam is installed from outside (module attributes, sys.monitoring, builtins) before the code is imported."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    print("not validated (no jsonschema)")
print(len(checks), "checks", len(na), "not applicable")
