# Rewrites the "Planted bugs" section of DESIGN.md from seeded/*/meta.json.
import json,glob,os
p='/verif/DESIGN.md'
s=open(p).read().split('\n## Planted bugs')[0].rstrip()
out=['','## Planted bugs','',
'Each was written from the statement of a property and the code, in a scratch copy, and kept only when it compiles,',
'passes the stable tests and its demo fails with it and passes without. `tools/seedcheck.sh` applies each and runs the',
'quick check of its property. All listed are caught by the check of the property they break. Missed at first, and what was done: see below the table.','',
'| Planted bug | Caught by | What it needs in order to manifest |','|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); n=os.path.basename(os.path.dirname(f))
    out.append('| %s | %s | %s |'%(n,m['property'],' '.join(str(m['needs']).split()).replace('|','\\|')))
out+=['','### Strengthened because of a miss','']
out+=open('/verif/tools/missed.md').read().strip().split('\n')
open(p,'w').write(s+'\n'+'\n'.join(out)+'\n')
