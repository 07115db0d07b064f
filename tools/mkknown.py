#!/usr/bin/env python3
"""Rewrites the fixed: lines of KNOWN_FINDINGS from the fix commits of /repo (known: lines are kept)."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [("default scan","C01"),("Upsert folded","C01"),("keep the order","C01"),("fresh object","C01"),("keySuccessor","C06"),
 ("minimal int16","C12"),("OrderBytes","C12"),("Delete by primary","C02"),("duplicate IndexID","C15"),("ID 255","C15"),("ReIndex leaked","C24"),
 ("internal chunks","C27"),("nil batch","C06"),("upper end","C06"),("no points or ranges","C06"),("derived from a common","C05"),
 ("index scan looped","C26"),("key passed to","C26"),("concurrent adds","C16"),("Dump with indexes","C24"),("Restore picked","C17"),
 ("closing a batch","C10"),("failed to apply","C10"),("TableAnyScanner","C09"),("pooled buffers","C14"),("outside of the given batch","C05"),
 ("intersect query with After","C05"),("intersect query ignored","C05"),("large offset","C03"),("After returned","C04")]
log = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
path = os.path.join(ROOT,"KNOWN_FINDINGS")
known = [l for l in (open(path).read().splitlines() if os.path.exists(path) else []) if l.startswith("known:")]
EXTRA = os.path.join(ROOT,"tools/fixprops.txt")
if os.path.exists(EXTRA):
    PROP += [tuple(l.strip().split("\t")[::-1]) if False else tuple(l.rstrip("\n").split("\t")) for l in open(EXTRA) if l.strip()]
out = ["# Genuine defects of go-bond/bond found by the checks. A fixed: line suppresses nothing.",
       "# known: lines name the property and the case file known/<id>.json that fails."]
for l in log:
    h, s = l.split(" ",1)
    if not s.startswith("fix: "): continue
    ps = [p for k,p in PROP if k in s]
    assert len(ps)==1, (s, ps)
    out.append(f"fixed: property={ps[0]} {h} {s[5:]}")
open(path,"w").write("\n".join(out+known)+"\n")
