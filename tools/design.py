# assembles DESIGN.md: static text + bounds taken from the checks + table of planted bugs
import importlib,sys,glob,json,os
sys.path.insert(0,'/verif'); os.chdir('/verif')
props={json.loads(l)['id']:json.loads(l) for l in open('properties.jsonl')}
man=json.load(open('MANIFEST.json'))
na={x['property']:x['reason'] for x in man['not_applicable']}
head=open('tools/design/head.md').read()
per=dict(x.split('\n',1) for x in open('tools/design/per.md').read().split('\n### ')[1:])
tail=open('tools/design/tail.md').read()
out=[head,'\n## Properties, one by one\n']
for id in sorted(props):
    p=props[id]
    out.append('### %s %s\n'%(id,p['title']))
    if id in na:
        out.append('Not applicable: %s.\n'%na[id].rstrip('.')); continue
    m=importlib.import_module('checks.'+id)
    out.append(per.get(id,'').strip()+'\n')
    out.append('- Harnesses: %s.'%', '.join(h['name'] for h in m.HARNESSES))
    out.append('- Bounds (quick): %s.'%m.BOUNDS)
    out.append('- Outside: %s.\n'%m.OUTSIDE)
out.append(tail)
if os.path.exists('tools/design/table.md'): out.append(open('tools/design/table.md').read())
open('DESIGN.md','w').write('\n'.join(out))
