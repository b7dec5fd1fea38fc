#!/bin/bash
# sum.sh MODULE PROP GROUP [budget] [tier]: deduplicated short summary
/verif/bounded/try.sh "$@" | python3 -c "
import sys,json
seen={}
for l in sys.stdin:
  if not l.startswith('@@'): continue
  d=json.loads(l[2:])
  if d.get('done'):
    print({k:v for k,v in d['stats'].items() if set(v)-{'ok','skip'}} or 'all ok', sum(sum(v.values()) for v in d['stats'].values()),'skips',{k:v['skip'] for k,v in d['stats'].items() if v.get('skip',0)*3>sum(v.values())}, 'wall',round(d['wall'],1)); continue
  k=(d['scenario'],d['message'][:60])
  seen[k]=seen.get(k,0)+1
  if seen[k]==1 and len(seen)<=12:
    print('*',d['scenario'],d['index'],d['status'],d['message'][:260],'| LOG',str(d['log'])[:300])
    if d['status']=='harness' or 'raised' in d['message']: print('     ',' / '.join(x.strip() for x in d.get('trace','').strip().splitlines()[-7:])[:700])
"
