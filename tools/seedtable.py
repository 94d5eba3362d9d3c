"""Prints the table of the planted bugs of DESIGN.md; the notes tell what a check that first missed a bug lacked."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "c08-many-errors": "missed first: histories had too few errors; long histories with hundreds of pending errors",
    "c09-output-at-expect": "missed first: the content of an object was hardly changed between expectation and call; `mut` weighted",
    "c14-first-element": "missed first: only one element of an array differed from its neighbours; every element in turn",
    "c02-big": "missed first: no large value; `huge_fn` (arguments and results of several kilobytes)",
    "c16-stale": "missed first: stale outputs were of other content; outputs are now tampered with (flipped, cut, appended, same size, same name, other times)",
    "c07-last-unload": "missed first: every program had static mocks, so the last file was never unloaded; half of C07's programs have shared objects only",
    "c21-enum-order": "missed first: only additions to an enumeration were compared; copies with one enumerator renamed, renumbered, left out, or in reverse",
    "c09-size16": "missed first: objects of 64 bytes only; objects beyond 64 KiB",
    "c01-wrap": "counts beyond 16 bits (`burst`, `SurplusCalls`) were added for it",
}
print("| change | check | what it breaks | |\n|---|---|---|---|")
for s in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, s)))
    print("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], NOTES.get(s, "caught")))
