#!/bin/bash
# Prints what a replay file says: tools/why.sh P06
python3 - "$1" <<'PY'
import json,sys,glob
d=json.load(open(sorted(glob.glob('/verif/evidence/replay/%s-*.json'%sys.argv[1]),key=__import__('os').path.getmtime)[-1]))
print(d['what'][:1500])
x=d['data']
print((x.get('log') or '')[-1800:])
if 'trace' in x:
    t=x['trace']; i=x['event_index']
    print({k:v for k,v in t.items() if k!='ev'})
    for e in t['ev'][max(0,i-int(12)):i]: print(str(e)[:600])
    print('INPUT',str(x.get('input'))[:2000])
PY
