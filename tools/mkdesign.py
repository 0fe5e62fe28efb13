"""DESIGN.md = head + properties + table generated from evidence + tail + seeded table."""
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); rd=lambda p:open(os.path.join(R,p)).read()
t='### Functions under contract and obligations (from the evidence of the last run, quick tier)\n\n| id | functions | obligations | bounded obl. | dynamic evaluations | s | bounded / trusted |\n|---|---|---|---|---|---|---|\n'
for f in sorted(os.listdir(R+'/evidence')):
    if not f.startswith('C'): continue
    e=json.load(open(R+'/evidence/'+f)); c=e['coverage']; fs=c['functions_under_contract']
    nm=sorted({k.split(':')[-1].split('/')[-1] for k in fs}); short=', '.join('`%s`'%n for n in nm[:14])+(' and %d more'%(len(nm)-14) if len(nm)>14 else '')
    t+='| %s | %s | %d | %d | %d | %.0f | %s |\n'%(f[:3],short or 'none (exploration only)',c['obligations'],c['bounded_obligations'],c['evaluations'],e['wall_s'],'; '.join(['bounded: '+b for b in c['bounded']]+c['trusted_base']).replace('|','/'))
s='## 4. Planted bugs\n\nEach was written from the property text, confirmed to build, to pass the stable tests and to be shown by its own demo; `tools/caught.json` holds the result of running the property\'s check against it.\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
cg=json.load(open(R+'/tools/caught.json')) if os.path.exists(R+'/tools/caught.json') else {}
if os.path.isdir(R+'/seeded'):
    for d in sorted(os.listdir(R+'/seeded')):
        m=json.load(open('%s/seeded/%s/meta.json'%(R,d))); s+='| %s | %s | %s | %s | %s |\n'%(d,m['property'],m['what_it_breaks'],m['needs'],cg.get(d,'not recorded'))
open(R+'/DESIGN.md','w').write(rd('tools/design_head.md')+rd('tools/design_props.md')+t+'\n'+rd('tools/design_tail.md')+s)
