#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = "TLC model checking of the TLA+ runtime specification; every emitted transition replayed on, and random traces recorded from, real generated mocks, validated by TLC"
RTN = "Exhaustive for the model within its bounds; the implementation conforms on every transition of the bounded model graph sampled for it and on random histories over random headers. Trusts TLC, the C harness and its value tokens."
CMN = "Exhaustive for the model within its bounds; every situation of the bounded model is replayed on the real code, plus random larger ones. Trusts TLC and the recording harness."
CHECKS = {
    "C01": (RT, RTN), "C02": (RT, RTN), "C03": (RT, RTN), "C04": (RT, RTN), "C05": (RT, RTN),
    "C06": (RT, RTN), "C07": (RT, RTN), "C08": (RT, RTN), "C09": (RT, RTN), "C10": (RT, RTN),
    "C12": (RT + " (C and C++ mocks, with objects)", RTN),
    "C15": ("TLC model checking of CmdLine.tla; every argument vector of the model and random longer ones run through the real parser and the real tool, judged by TLC (TraceCmdLine.tla)", CMN),
    "C16": ("TLC model checking of Generate.tla; every situation of the model set up on disk for the real generator, recorded runs judged by TLC (TraceGenerate.tla)", CMN),
    "C17": ("TLC model checking of Selection.tla; every declaration history of the model packed into headers for the real generator, the mocked functions judged by TLC (TraceSelection.tla)", CMN),
    "C11": ("TLC model checking of CString.tla; every operation history of the model and random longer ones run on the real strings under AddressSanitizer, judged by TLC (TraceCString.tla)", CMN),
    "C14": ("TLC enumeration of the type shapes of Comparator.tla; comparators generated for every one of them and for random deeper types run on pairs of values, judged by TLC (TraceComparator.tla)", CMN),
    "C18": ("TLC enumeration of the C types of CType.tla and their laws; functions over every one of them and random headers mocked by the real generator, the types in the debug information of the compiled mocks judged by TLC (TraceCType.tla)", CMN),
    "C19": ("TLC enumeration of the records of Layout.tla and the macro histories of Macros.tla; headers with them and random ones generated by the real generator, the types in the debug information and the macros of what is generated judged by TLC (TraceLayout.tla, TraceMacros.tla)", CMN),
    "C20": ("TLC enumeration of the declaration histories of Attributes.tla and their laws; headers with them and random ones generated by the real generator with attributes asked for, what clang sees of every generated declaration judged by TLC (TraceAttributes.tla)", CMN),
    "C21": ("TLC exploration of TypeModel.tla (copies and wrappings of every kind of object with one change, and random walks of operations); the programs run on the real classes, every answer, equality and hash judged by TLC (TraceTypeModel.tla)", CMN),
    "C13": ("TLC enumeration of Matcher.tla (bit-exact value pairs of every type); the real matchers called on them under AddressSanitizer, judged by TLC (TraceMatcher.tla)", CMN),
}
EXTRA = os.path.join(V, "tools", "manifest_extra.json")
if os.path.exists(EXTRA):
    CHECKS.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/ (checked with TLC); see DESIGN.md. No hooks in /repo are needed."}
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
