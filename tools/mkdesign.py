#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (property table, not-applicable list, seed table) between markers."""
import json, os, re
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man=json.load(open(H+"/MANIFEST.json")); rules=json.load(open(H+"/tools/rules.json"))
P={json.loads(l)["id"]:json.loads(l) for l in open(H+"/properties.jsonl")}
t=[]
for c in man["checks"]:
    i=c["property"]; r=rules[i]; t.append(f"| {i} {P[i]['title']} | {r['analysed']} | {r['rule']} |")
na=["Not decided here (`not_applicable`):",""]+[f"* **{n['property']} {P[n['property']]['title']}** — {n['reason']}." for n in man["not_applicable"]]
s=["| seed | property | needs | outcome |","|---|---|---|---|"]
res={}
if os.path.exists(H+"/tools/seed-results.txt"):
    for l in open(H+"/tools/seed-results.txt"):
        a=l.split(None,1)
        if len(a)==2: res[a[0]]=a[1].strip()
sd=H+"/seeded"
for d in sorted(os.listdir(sd)) if os.path.exists(sd) else []:
    m=json.load(open(f"{sd}/{d}/meta.json")); s.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d,'')} |")
x=open(H+"/DESIGN.md").read()
for k,v in (("TABLE",t),("NA",na),("SEEDS",s)):
    v="\n".join(v)
    if f"@@{k}@@" in x: x=x.replace(f"@@{k}@@",f"<!--{k}-->\n{v}\n<!--/{k}-->" if k!="TABLE" else v+"\n<!--/TABLE-->")
    elif k=="TABLE": x=re.sub(r"(\| id \| what[^\n]*\n\|---[^\n]*\n).*?(<!--/TABLE-->)",lambda m:m.group(1)+v+"\n"+m.group(2),x,flags=re.S)
    else: x=re.sub(f"<!--{k}-->.*?<!--/{k}-->",lambda m:f"<!--{k}-->\n{v}\n<!--/{k}-->",x,flags=re.S)
open(H+"/DESIGN.md","w").write(x)
