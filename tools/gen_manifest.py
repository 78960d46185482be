#!/usr/bin/env python3
import json,os,subprocess
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
import glob,re
built=set(re.findall(r'\{"(C\d\d)",\{\{',''.join(open(f).read() for f in glob.glob(here+'/sim/props*.cpp'))))
NA={}
ex=here+'/tools/not_applicable.json'
if os.path.exists(ex): NA=json.load(open(ex))
notes={}
ex=here+'/tools/level_notes.json'
if os.path.exists(ex): notes=json.load(open(ex))
base="Seeded search over thread interleavings, network segmentation and injected faults of the real server code in one simulated process. It shows the property on every execution explored and proves nothing about the others. Trusts the simulated kernel, disk, libevent loop and allocator, the reference model, and sequentially consistent memory."
m={"version":1,"setup_cmd":"bash sim/build.sh build/setup","hooks":{"guard":"ARCUS_SIM","enable":"sim/build.sh compiles /repo's sources with -DARCUS_SIM=1","source_commits":[c for c in (open(here+'/tools/hook_commits.txt').read().split() if os.path.exists(here+'/tools/hook_commits.txt') else [])]},"checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in built and i not in NA: m['checks'].append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+i,"technique":"deterministic simulation with fault injection","level":"exploration","level_note":notes.get(i,base)})
    else: m['not_applicable'].append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks',[x['property'] for x in m['not_applicable']])
