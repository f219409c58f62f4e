#!/usr/bin/env python3
"""Writes known_findings.jsonl (committed; never written by a check)."""
import json, subprocess
log = subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
def commit(sub):
    for l in log:
        h, s = l.split(" ",1)
        if s == sub: return h
    raise SystemExit("no commit: "+sub)
out=[]
def open_(prop, sig, what, contains=()):
    out.append(dict(property=prop,status="open",sig=sig,contains=list(contains),what=what))
def fixed(prop, sub, what):
    c=commit(sub)
    out.append(dict(property=prop,status="fixed",sig="-",contains=[],what=f"fixed: property={prop} {c} {what}",commit=c))
exec(open("/verif/tools/findings.py").read())
open("/verif/known_findings.jsonl","w").write("".join(json.dumps(o)+"\n" for o in out))
