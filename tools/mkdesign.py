#!/usr/bin/env python3
import json,os,glob
s=open("/verif/tools/DESIGN.in.md").read()
how=json.load(open("/verif/tools/how.json"))
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
o=""
for p in props:
    if p["id"] in how: o+=f"**{p['id']} {p['title']}.** {how[p['id']]}\n\n"
s=s.replace("@@PROPS@@",o.strip())
k=[json.loads(l) for l in open("/verif/known_findings.jsonl")]
s=s.replace("@@FIXED@@","\n".join(f"* {x['property']} `{x['commit']}`: {x['what'].split(' ',3)[3]}" for x in k if x["status"]=="fixed"))
seen=[];
for x in k:
    if x["status"]=="open": seen.append(f"* {x['property']} `{x['sig']}`: {x['what']}")
s=s.replace("@@OPEN@@","\n".join(seen))
t="| change | property | needs | caught by |\n|---|---|---|---|\n"
res=json.load(open("/verif/tools/caught.json")) if os.path.exists("/verif/tools/caught.json") else {}
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m=json.load(open(d)); n=d.split("/")[-2]
    t+=f"| {n} | {m['property']} | {m['needs']} | {res.get(n,'?')} |\n"
s=s.replace("@@SEEDED@@",t)
open("/verif/DESIGN.md","w").write(s)
