#!/usr/bin/env python3
# Assembles DESIGN.md.
import json, os, re, glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(R+'/tools/design/design.md').read()
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
spec={p['id']:p for p in json.load(open(R+'/spec.json'))}
why={}
if os.path.exists(R+'/tools/design/why.txt'):
    for l in open(R+'/tools/design/why.txt'):
        if ':' in l:
            k,v=l.split(':',1); why[k.strip()]=v.strip()
seeds=[]
for f in sorted(glob.glob(R+'/tools/seeds/*.seed')):
    n=os.path.basename(f)[:-5]; h=open(f).read().split('@@')[0]
    d=dict(re.findall(r'^(\w+): *(.*)$',h,re.M)); d['id']=n; seeds.append(d)
caught={}
cf=R+'/tools/design/caught.txt'
if os.path.exists(cf):
    for l in open(cf):
        k,v=l.split(None,1); caught[k]=v.strip()
o=[]
for p in props:
    s=spec[p['id']]
    o.append(f"### {p['id']} {p['title']}\n")
    if p['id'] in why: o.append(why[p['id']]+"\n")
    o.append("Bounds decided:\n")
    for h in s['harnesses']:
        o.append(f"* `{h['fn']}`: {h['bounds']}")
    ex=[x for x in s['assumptions'] if not x.startswith(('The transport','Standard library','Memory is','z3','Context switches'))]
    if ex: o.append("\nAssumes: "+" ".join(ex))
    ou=[x for x in s['outside'] if not x.startswith('Anything beyond')]
    if ou: o.append("\nOutside: "+" ".join(ou))
    sd=[d['id'] for d in seeds if d['property']==p['id']]
    if sd: o.append("\nPlanted bugs caught: "+", ".join(sd))
    o.append("")
t=t.replace('@@PROPS@@',"\n".join(o))
fx=[l for l in open(R+'/known_findings.txt') if l.startswith('fixed:')]
t=t.replace('@@FIXED@@',"| property | commit | what failed |\n|---|---|---|\n"+"\n".join("| %s | %s | %s |"%re.match(r'fixed: property=(\S+) (\S+) (.*)',l).groups() for l in fx))
t=t.replace('@@SEEDS@@',"| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"+"\n".join(f"| {d['id']} | {d['property']} | {d.get('breaks','')} | {d.get('needs','')} | {caught.get(d['id'],d['property'])} |" for d in seeds))
mf=R+'/tools/design/mut.txt'
t=t.replace('@@MUT@@',open(mf).read().strip() if os.path.exists(mf) else '')
open(R+'/DESIGN.md','w').write(t)
