#!/usr/bin/env python3
"""Conditional mutants against the monitors: `run.py SCRATCH JOBS [C15 ...]`, after run.sh prepared SCRATCH. Appends to
SCRATCH/log one line per (file, operation, monitor, condition): exit code, how often the condition held, cases run.
rc=0 with hits>0 is either an equivalent change or a weak oracle, rc=0 with hits=0 a hole in the workload (or a
condition that cannot hold for the operation)."""
import subprocess,sys,re,json,os
from concurrent.futures import ThreadPoolExecutor
from conds import C
S=sys.argv[1]
OWN={'eval':'c01','eval_casteljau':'c01','split':'c03','distance_to_point':'c08','axis':'c05','dd':'c05','derivative':'c04','bounding_box':'c06','arclen':'c07','baseline':'c11','is_linear':'c10','is_a_point':'c10'}
BS={'eval':'c15','knot_domain':'c14','arclen':'c18','derivative':'c17'}
def own(f,fn): return BS[fn] if f=='bspline.rs' else 'c11' if f=='bezier_segment.rs' else 'c09' if f=='line.rs' and fn=='distance_to_point' else OWN[fn]
NP=['eval','eval_casteljau','split','derivative','arclen','distance_to_point','axis','dd','bounding_box']
W=[(b,'1e-5',lambda f,fn,b=b:own(f,fn)==b) for b in sorted(set(OWN.values())|set(BS.values())|{'c09'})]+[('c02','2',lambda f,fn:f!='bspline.rs' and fn in('eval','eval_casteljau')),
('c16','2',lambda f,fn:f=='bspline.rs' and fn=='eval'),
('c14','inf',lambda f,fn:f=='bspline.rs' and fn=='eval'),
('c23','inf',lambda f,fn:True),
('c11','1e-4',lambda f,fn:f not in('bspline.rs',) and fn in('eval','split','derivative','arclen')),
('c12','1e-5',lambda f,fn:fn in NP),
('c19','1e-5',lambda f,fn:f=='bspline.rs'),
('c30','1e-4',lambda f,fn:fn in('eval','split','derivative','arclen','bounding_box')),
]
sel=[x.lower() for x in sys.argv[3:]]
log=open(S+'/log','a')
done=set()
for l in open(S+'/log'):
    m=re.match(r'(\S+) (\S+) (\S+) \[(.*)\] rc=',l)
    if m: done.add((m[1],m[2],m[3],m[4]))
jobs=[]
for b,fac,ok in W:
  if sel and b not in sel: continue
  for l in open(S+'/table'):
    fid,f,fn,k=l.split(); fid=int(fid)
    if not ok(f,fn): continue
    if b=='c23' and k=='N': continue
    for i,(name,e) in enumerate(C):
        if (f,fn,b,name) in done: continue
        if name=='subnormal': continue
        if f!='bspline.rs' and re.search(r'\bb &&',e): continue
        if 'tt(' in e and not (fn in('eval','eval_casteljau','axis','dd') or fn=='split'): continue
        if e.startswith('steps') and fn!='arclen': continue
        if ('q.' in e or 'qd(' in e) and fn!='distance_to_point': continue
        if 'tol.' in e and not fn.startswith('is_'): continue
        if 'axis >' in e and fn not in('axis','dd'): continue
        n={'line.rs':2,'quadratic_bezier.rs':3,'cubic_bezier.rs':4,'bezier_segment.rs':4}.get(f)
        if n and re.match(r'n >= |n == ',e): continue
        if f=='bspline.rs' and ('n ' in e[:3]) : continue
        if n and n<4 and 'n > 3' in e: continue
        if n==2 and 'n > 2' in e: continue
        jobs.append((fid,f,fn,b,i,name,fac))
def go(j):
    fid,f,fn,b,i,name,fac=j
    o=S+f'/o-{b}-{fid}-{i}.json'
    p=subprocess.run([S+'/t/debug/'+b,'--out',o],env=dict(os.environ,MUT=str(fid*1000+i),FAC=fac),stdout=subprocess.DEVNULL,stderr=subprocess.PIPE)
    h=re.search(rb'HITS (\d+)',p.stderr); h=int(h.group(1)) if h else -1
    cases=0
    try: cases=json.load(open(o))['cases']; os.remove(o)
    except Exception: pass
    print(f'{f} {fn} {b} [{name}] rc={p.returncode} hits={h} cases={cases}',file=log,flush=True)
print(len(jobs),flush=True)
with ThreadPoolExecutor(int(sys.argv[2])) as ex: list(ex.map(go,jobs))
