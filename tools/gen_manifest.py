"""writes MANIFEST.json from the checks present"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
NOTE = "The real Python source of hpelm is executed symbolically; the solver decides every check for all real-valued data, all option values and all schedules within the sizes listed in the evidence file (scenarios). Trusted: exact-real arithmetic, and the library models in symx/ (numpy, BLAS/LAPACK, cdist, PyTables, pickle, multiprocessing), which are validated on every run by replaying explored paths on the uninstrumented code."
EXTRA = {
 "C08": " The interleavings of the workers' recorded file operations are decided by a separate bounded model-checking query (z3, integer event times).",
 "C09": " Process schedules are symbolic; stuck states are searched by a separate bounded query over the recorded queue operations.",
 "C25": " The GPU libraries are replaced by stand-ins with their documented behaviour (no GPU here).",
}
NA = {}
checks = []
for i in ids:
    if os.path.exists(HERE + "/checks/%s.py" % i) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3-vt run.py %s --tier quick" % i, "thorough_cmd": "python3-vt run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "symbolic execution of the real Python source, checks decided by polynomial normal form and SMT (z3), counterexamples replayed on the real code",
                       "level": "model_checking", "level_note": NOTE + EXTRA.get(i, "")})
    elif i not in NA:
        NA[i] = "check not built yet"
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks,
           "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA.items())],
           "notes": "run.py PROP [--tier quick|thorough] [--only SCENARIO] [--strict] [-v]; see DESIGN.md"}, open(HERE + "/MANIFEST.json", "w"), indent=1)
