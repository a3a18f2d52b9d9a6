#!/bin/bash
# dev.sh ID [runs] [trace lines]: development helper (build, search, show).
cd "$(dirname "$0")/.." && tools/build.sh $1 2>&1 | grep -E "error|warning: unused|\.\.\." | head -30
[ -x build/$1 ] || exit 2
O=/tmp/dev.$1.json
build/$1 run --seed ${4:-1} --runs ${2:-20000} --out $O --replays /tmp > /tmp/dev.$1.log 2>&1; echo "rc $?"; tail -3 /tmp/dev.$1.log
python3 - $O $1 ${3:-40} <<'P'
import json,sys,re,subprocess
d=json.load(open(sys.argv[1]))
print({k:d[k] for k in('runs','distinct','nontrivial','steps','search_s','error','calm_runs') if k in d})
print({k:v for k,v in d['faults'].items() if v[0]})
print(d['probes'])
if d['violation']:
    print(d['violation_class'],d['violation_msg'][:3000])
    t=open(d['violation']).read()
    i=t.find('schedule'); print(t[i:t.find('\nend',i)])
    print('\n'.join(t[t.find('--- trace'):].splitlines()[-int(sys.argv[3]):]))
    seen=[]
    for p in re.findall(r'0x4[0-9a-f]{5}\b',d['violation_msg']):
        if p not in seen: seen.append(p)
    o=subprocess.run(['addr2line','-Cfpe','build/'+sys.argv[2]]+seen[:24],capture_output=True,text=True).stdout
    for a,b in zip(seen,o.splitlines()): print(a,b[:230])
P
