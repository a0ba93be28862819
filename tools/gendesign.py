#!/usr/bin/env python3
# DESIGN.md from tools/DESIGN.in.md, the contracts, the last evidence and the planted bugs.
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
P={};B={}
for f in sorted(glob.glob(V+'/contracts/**/*.go',recursive=True)):
    t=open(f).read()
    for m in re.finditer(r'((?:^//.*\n)*)^func prop_(C\d+)_(\w+)\(',t,re.M):
        b=re.search(r'//gov:bounded (.*)',m.group(1))
        if b: B.setdefault(m.group(2),[]).append((m.group(3),b.group(1)))
        else: P.setdefault(m.group(2),[]).append(m.group(3))
out=[]
for p in props:
    i=p['id']
    if i not in P and i not in B: continue
    out.append(f"**{i} {p['title']}**  ")
    ev=None
    try: ev=json.load(open(f'{V}/evidence/{i}.json'))['coverage']
    except Exception: pass
    if i in P:
        n=f" ({ev['obligations']} obligations)" if ev and ev.get('obligations') else ''
        out.append(f"P: {', '.join(P[i])}{n}.  ")
        if ev and ev.get('functions_under_contract'):
            fs=[re.sub(r'gofre/','',x) for x in ev['functions_under_contract'] if not re.search(r'\.(\(?\*?)?(spec|lemma_|new[S]pec|check[A-Z]|inv[A-Z]|same)',x) and not re.search(r'[Ss]pec|lemma_|checkCsrf|checkAuth|invAuth|sameMc|childOf',x) and '$' not in x]
            if fs: out.append('Functions: '+', '.join(f'`{x}`' for x in fs)+'.  ')
        if ev and ev.get('modular_contracts_used'):
            out.append('Modular contracts: '+', '.join(f'`{x}`' for x in ev['modular_contracts_used'])+'.  ')
    for n,b in B.get(i,[]): out.append(f"B: {n}: {b}.  ")
    if i not in P: out.append('Real code exercised: '+', '.join(f"`{m['name']}`" for m in (p.get('anchors') or p.get('where') or p)['mechanism'])+'.  ')
    out.append('')
seeds=['| bug | property | needs |','|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    seeds.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
t=open(V+'/tools/DESIGN.in.md').read()
t=t.replace('@@TABLE@@','\n'.join(out)).replace('@@SEEDS@@','\n'.join(seeds))
open(V+'/DESIGN.md','w').write(t)
