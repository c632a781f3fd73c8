#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a module in checks/."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "round trip over generated texts and programs",
    "C02": "differential against an independent decoder, metamorphic spellings",
    "C03": "generated programs against a reference machine model",
    "C04": "generated height histories against a layer model",
    "C05": "generated programs against a reference machine model, metamorphic rewritings",
    "C06": "additivity, metamorphic rewritings and a duration model over generated programs",
    "C07": "generated pairs of programs against a comparison model",
    "C08": "model-based generation of edit histories",
    "C09": "differential between batch, incremental and light loading of generated programs",
    "C10": "translated programs executed on a reference machine",
    "C11": "converted programs executed on a reference machine",
    "C12": "generated lines: word-by-word comparison of input and output",
    "C13": "metamorphic relations between compositions of modifications",
    "C14": "metamorphic inch/millimetre twins, executed on a reference machine",
    "C15": "generated height histories against a pause model",
    "C16": "generated programs against a visit model",
    "C17": "optimised programs executed on a reference machine, geometric invariants",
    "C18": "optimised programs executed on a reference machine, extrusion accounting",
    "C19": "alignment of input and output lines of generated programs",
    "C20": "constructed circular runs with known answer",
    "C21": "generated slicer programs with ground truth: line-by-line comparison",
    "C22": "generated slicer programs with ground truth: bounds and proportionality",
    "C23": "metamorphic relations (context, shift, rotation, start point, dialect) over generated loops",
    "C24": "generated slicer programs: metamorphic relations over metadata, command line against library",
    "C25": "generated towers and settings: insertion-only and safety invariants",
    "C26": "generated towers and settings against a gradient model",
    "C27": "command line against library over generated programs, options and stream kinds",
    "C28": "plugins run on scratch files against the library",
    "C29": "fuzzing with generated texts and programs: no exception, termination, no contamination",
    "C30": "algebraic laws over generated vectors",
    "C32": "printed figures against the library and a height model over generated programs",
    "C31": "generated loops and settings against an independent model of the stretch rule",
}
NOTE = ("Random structured generation with shrinking (Hypothesis, fixed seed from VERIF_SEED), judged by an independent oracle "
        "through the public interface only; no guarantee beyond the cases explored (counts and samples in the evidence file). ")
TRUST = {
    "exec": "Trusts the reference machine of pbt/machine.py.",
    "slicer": "Trusts the slicer model of pbt/slicer.py (which lines belong to which loop).",
}
WHICH = {"exec": "C03 C05 C06 C10 C11 C13 C14 C17 C18 C20", "slicer": "C21 C22 C23 C24 C31"}
REASON = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        note = NOTE + " ".join(TRUST[k] for k in sorted(TRUST) if i in WHICH[k].split())
        checks.append({"property": i, "quick_cmd": "./run %s --quick" % i, "thorough_cmd": "./run %s --thorough" % i,
                       "technique": "property-based testing: " + TECH[i], "level": "exploration", "level_note": note.strip()})
    else:
        na.append({"property": i, "reason": REASON.get(i, "no check built yet; property-based testing applies to it")})
m = {"version": 1,
     "setup_cmd": "/opt/veriftools/pyvenv/bin/python -c \"import hypothesis, sys; print(hypothesis.__version__)\" && chmod +x run",
     "checks": checks, "not_applicable": na,
     "notes": "Checks import gcodeutils from /repo's working tree (pure Python, nothing to build). Replay: ./run Cxx --replay FILE."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
