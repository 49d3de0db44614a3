#!/usr/bin/env python3
# writes BOUNDS.md: every scenario of every property with its bounds, options and sources
import os,sys; H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'); sys.path.insert(0,H)
from scenarios import PROPS
o=['# Bounds of every scenario','','Generated by tools/make_bounds.py from scenarios.py. "thorough" lists what differs in the thorough tier. Inputs outside these bounds are not covered.','']
for p in sorted(PROPS):
    P=PROPS[p]; o+=['## '+p,'']
    for a in P.get('assumptions',[]): o.append('Assumption: %s.'%a); o.append('')
    for s in P['scenarios']:
        t=s.get('thorough'); d=' '.join(map(str,s.get('defs',[]))); op=' '.join(map(str,s.get('opts',[])))
        o.append('- **%s** (%s:%s%s%s)%s: %s'%(s['name'],s['harness'],s['entry'],'; '+d if d else '','; '+op if op else '','' if 'quick' in s.get('tiers',('quick','thorough')) else ' (thorough only)',s.get('bounds','')))
        if t: o.append('  - thorough: '+'; '.join('%s %s'%(k,' '.join(map(str,v)) if isinstance(v,(list,tuple)) else v) for k,v in t.items() if k!='time'))
    o.append('')
open(os.path.join(H,'BOUNDS.md'),'w').write('\n'.join(o))
