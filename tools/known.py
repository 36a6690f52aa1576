#!/usr/bin/env python3
"""Writes known-findings.txt (development tool): one fixed: line per repaired defect."""
import subprocess,os
P={
'735ca78':'C01','8d76581':'C01','3c51aa4':'C01','69353de':'C16','dc64bd8':'C01','af6e777':'C21','fd900b7':'C20','a6afd1c':'C20',
'254460d':'C20','d298796':'C20','9d0f816':'C19','70ff8aa':'C19','f052b85':'C21','7aea238':'C03','159f88b':'C10','a3c8d99':'C06',
'6ece918':'C05','78520dd':'C16','ea71d7e':'C07','32091cd':'C06','d743c49':'C06','aa1e137':'C07','2253de1':'C14','87dbe15':'C16',
'b3cac0f':'C23','3353e63':'C15','56369b4':'C14','408cfcf':'C13','e07675d':'C22','cc07e4b':'C18','2b6e725':'C03','74f3d0a':'C03',
'd669dae':'C16','df9a53a':'C16','9ceec3f':'C03','7a0de9a':'C16','5a3eb8c':'C03','bc51c40':'C08','df5f425':'C02','7f3f215':'C08',
'7d8e013':'C01','eab2a26':'C08'}
also={'735ca78':'C08','8d76581':'C08','69353de':'C01','af6e777':'C01','fd900b7':'C01','254460d':'C08','d298796':'C01','f052b85':'C02',
'a3c8d99':'C10','78520dd':'C07','87dbe15':'C14','3353e63':'C16','d669dae':'C03','df9a53a':'C03','7a0de9a':'C03','df5f425':'C09',
'7f3f215':'C20','7d8e013':'C20'}
extra=open(os.path.join(os.path.dirname(__file__),'known-extra.txt')).read() if os.path.exists(os.path.join(os.path.dirname(__file__),'known-extra.txt')) else ''
for l in extra.splitlines():
    w=l.split()
    if len(w)>=2 and not l.startswith('#'):
        P[w[0]]=w[1]
        if len(w)>2: also[w[0]]=w[2]
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
out=["# Findings on msaf1980/go-matcher. A 'fixed:' line records a repaired defect and suppresses nothing.",
"# A 'known: property=<id> key=\"<input>\"' line names a defect that is recorded and not repaired: this input only.",""]
r=lambda s,n:s*n
G,T='Glob.Match','GlobTree.Match'
for o,g,x in [(G,r("{a*,aa}",40)+"{b,c}",r("a",90)+"d"),(G,"*"+r("{a?,a}*",40)+"{b,c}",r("a",120)+"d"),(G,r("{a,aa}",60)+"[bc]{b,c}",r("a",90)+"bd"),
  (T,r("*a",40)+"*b*c",r("a",120)+"c"),(T,r("{a,aa}",40)+"?b",r("a",60)+"cb"),(T,r("{a*,aa}",40)+"{b,c}",r("a",90)+"d")]:
    out.append(f'known: property=C16 key="{o} {g} ~ {x}" exponential backtracking: no answer after 5 s of CPU time')
for o,x,n,t in [(G,"{a,b}",5000000,""),(T,"?a",5000000,""),("GGlobTree.Match","?.",5000000,"a")]:
    out.append(f'known: property=C16 key="{o} of {n} times {x} then [{t}]" stack overflow: the matchers recurse per item of the pattern')
out.append('')
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    if h not in P: print('missing',h,s); continue
    for p in [P[h]]+([also[h]] if h in also else []):
        out.append(f"fixed: property={p} {h} {s[5:]}")
open(os.path.join(os.path.dirname(__file__),'..','known-findings.txt'),'w').write('\n'.join(out)+'\n')
