#!/usr/bin/env python3
"""slack.py: for every evidence file, how far above the required minimum the run was (below 3x is shown)."""
import json,glob
for f in sorted(glob.glob('/verif/evidence/*.json')):
    c=json.load(open(f))['coverage']; ev=c['events']
    r=[(c['distinct_nontrivial']/max(1,c.get('nontrivial_required',0) or 1),'nontrivial')]
    r+=[(ev.get(k,0)/n,k) for k,n in (c.get('events_required') or {}).items()]
    print(f[-8:-5], *('%s %.1fx'%(k,x) for x,k in sorted(r) if x<3))
