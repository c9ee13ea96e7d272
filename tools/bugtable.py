#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
V='/verif/'
also={}
rows=[]
for d in sorted(glob.glob(V+'seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    by=m['property']+(', '+also[i] if i in also else '')
    rows.append(f"| {i} | {by} | {m['needs']} |")
t="\n".join(["## Planted bugs","",
"Each is caught by the check of its own property (quick tier, exit 1); most of the value-changing ones are also",
"caught by the formula check of their crate (S04, R04, A08). They are confirmed by `tools/mkseed.py` (existing tests",
"pass, demonstration fails with and passes without the change) and tried with `tools/ptry.sh`, which binds copies of",
"/repo and /verif over the originals in a mount namespace. `refactor/*.diff` are behaviour-preserving rewrites of all",
"three crates on which all checks were confirmed quiet. No check reads either folder.","",
"| id | caught by | what it needs to manifest |","|---|---|---|"]+rows)+"\n"
s=open(V+'DESIGN.md').read()
s=re.sub(r'\n## Planted bugs\n.*','',s,flags=re.S).rstrip()+"\n\n"+t
open(V+'DESIGN.md','w').write(s)
