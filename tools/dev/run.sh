# usage: run.sh tier props...
tier=$1; shift
for p in "$@"; do mkdir -p /tmp/sc/work/$p; s=$(date +%s.%N)
timeout 900 /tmp/sc/mon -prop $p -tier $tier -seed ${SEED:-1} -src /repo -work /tmp/sc/work/$p -cli /tmp/sc/r2p -out /tmp/sc/$p.json >/tmp/sc/$p.log 2>&1; rc=$?
e=$(date +%s.%N)
python3 - $p $rc $s $e <<'P'
import json,sys
p,rc,s,e=sys.argv[1:]
try: r=json.load(open(f'/tmp/sc/{p}.json'))
except Exception as x: print(p,'NO RESULT rc',rc,open(f'/tmp/sc/{p}.log').read()[-1500:]); sys.exit()
print(p,'rc',rc,f'{float(e)-float(s):.1f}s evals',r['evaluations'],'distinct',r['distinct'],'viol',r['violation_count'],'unmet',r['unmet'])
for v in (r['violations'] or [])[:4]: print('   ',v['stage'],v['index'],v['msg'][:600], (v.get('detail') or '')[:800])
P
rm -f /tmp/sc/$p.json
done
