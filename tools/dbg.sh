#!/bin/bash
# dbg.sh CONTRACT HARNESS [trace] : run one harness and print the result
cd /verif/engine
P=$(python3-vt -c "import extract,sys;print(extract.module(sys.argv[1])[0])" $1) || exit 1
rm -f /tmp/dbg.$1.$2.json
VC_TRACE=${3:-0} timeout ${T:-600} python3-vt worker.py $P $2 ${B:-300} /tmp/dbg.$1.$2.json
python3-vt - <<PY
import json
r=json.load(open('/tmp/dbg.$1.$2.json'))
print('error',r['error'],'gen',r.get('gen_s'),'total',r.get('s'),'loops',r.get('loops'),'steps',r.get('steps'),'auto',r.get('auto'))
print('notes',r['notes']); print('covers',r.get('covers'))
bad=[o for o in r['obls'] if o['status']!='proved']
print('obligations',len(r['obls']),'proved',len(r['obls'])-len(bad), 'smt',r.get('smt'))
for o in bad[:12]: print('  ',o['status'],o['kind'],o['label'],'|',o['where'][-120:],'|',o.get('why'),'\n       ',str(o.get('residue'))[:700], '\n       model',str(o.get('model'))[:300], '\n       facts', [f for f in o.get('facts',[])][:12] if $3+0 else '')
slow=sorted(r['obls'],key=lambda o:-o.get('s',0))[:3]
print('slowest',[(o['label'],o.get('s')) for o in slow])
PY
