"""Writes MANIFEST.json from properties.jsonl and the rule modules present in sa/rules."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C31": "accuracy of iterative linear solvers is a statement about floating-point values of runtime matrices; no static argument over the source bounds it",
 "C32": "a probabilistic statement about random matrices and runtime dimensions; not decidable from the source",
 "C33": "equality of a float recursion with a combinatorial game value for all label/distance inputs is a numerical-algebraic proof, not a dataflow fact",
 "C34": "closeness of statistics to a matrix defined by runtime data and model; numerical, not decidable from the source",
 "C35": "empirical correlation between scores and retraining; needs training runs",
 "C36": "equality of a recursion with a derivative of a training trajectory; numerical identity over runtime tensors",
 "C37": "memory and time are runtime quantities of the allocator, the device and the disk; no bound follows from the source",
 "C38": "content of remote files; not visible in the source",
}
TECH = {
 "C01": "abstract interpretation with symbolic axis (sample-set) inference over result tensors and block stores",
}
DEF = "provenance-tracking abstract interpretation of the library source, with repository-specific rules over its events"
NOTE = ("Decides the stated rules on every path of the analysed scenarios (listed in the evidence); arithmetic inside tensors, "
        "user-supplied functions and third-party code are treated as opaque. Undecided obligations are reported, not counted.")
NOTES = {}
try:
    from manifest_extra import TECH as T2, NOTES as N2
    TECH.update(T2); NOTES.update(N2)
except ImportError:
    pass
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f"{H}/sa/rules/{i.lower()}.py"):
        checks.append({"property": i, "quick_cmd": f"python3 -m sa.run {i} --tier quick",
                       "thorough_cmd": f"python3 -m sa.run {i} --tier thorough",
                       "technique": TECH.get(i, DEF), "level": "other",
                       "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only; python3 (stdlib ast) reads /repo/dattri on every run and executes none of it."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
