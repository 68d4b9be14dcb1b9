# Writes DESIGN.md from DESIGN.in.md, seeded/*/meta.json and MANIFEST.json.
import json,glob,os
s=open('/verif/dev/DESIGN.in.md').read()
rows=['| change | caught by | what it breaks | needs |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*'),key=lambda d:(json.load(open(d+'/meta.json'))['property'],d)):
    m=json.load(open(d+'/meta.json'))
    rows.append('| %s | %s | %s | %s |'%(os.path.basename(d),m['property'],m['what_it_breaks'],m['needs']))
m=json.load(open('/verif/MANIFEST.json'))
na=['**%s** is not claimed: %s'%(x['property'],x['reason']) for x in m['not_applicable']]
s=s.replace('@@SEEDS@@','\n'.join(rows)).replace('@@NA@@','\n\n'.join(na))
open('/verif/DESIGN.md','w').write(s)
