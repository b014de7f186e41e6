"""MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V + "/checks"]
NA = {
    "N01": "needs the numbers of a run of the whole numeric pipeline on audio "
           "files; no static argument in reach bounds them",
    "N02": "a relation between scores of different runtime signals through a "
           "trained model; no static argument in reach decides it",
    "N05": "allocation sizes come from header values and durations known only "
           "at run time; no bound exists in the source to be checked",
}
NOTE = ("Decides the listed rules for every input on the value graph of the "
        "current source; rules whose values the analysis cannot express are "
        "counted as undecided and never reported. Trusts the clang front end, "
        "the models of std, absl, Armadillo, protobuf, libsvm, PFFFT and "
        "TFLite calls, mathematical (non-wrapping, non-rounding) numbers "
        "unless the rule says otherwise, and the stub headers standing in for "
        "libraries that are not installed.")
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists("%s/checks/%s.py" % (V, p.lower())):
        m = importlib.import_module(p.lower())
        checks.append(dict(
            property=p, quick_cmd="./check.sh %s" % p,
            thorough_cmd="./check.sh %s" % p,
            evidence_file="evidence/%s.json" % p,
            technique="static analysis: " + m.TECHNIQUE, level="other",
            level_note=getattr(m, "NOTE", NOTE)))
    else:
        na.append(dict(property=p, reason=NA.get(
            p, "no check has been built for it (yet)")))
json.dump(dict(version=1, setup_cmd="bash extract/build.sh", checks=checks,
               not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
