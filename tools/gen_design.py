import re,ast,json
head=open('/verif/DESIGN.md').read().split('(per-property design')[0].rstrip()+'\n'
if '## Per property' in head: head=head.split('## How a case')[0].rstrip()+'\n'
EXTRA={}
exec(open('tools/design_extra.py').read())
out=[head,COMMON,'\n## Per property\n\nQuick budgets are upper limits: a check stops at its case count or its time, whichever is first. "Generator" and\n"Assumes" are the strings the evidence file carries.\n']
props={json.loads(l)['id']:json.loads(l) for l in open('properties.jsonl')}
for pid in sorted(props):
    t=ast.parse(open('checks/%s.py'%pid.lower()).read()); v={}
    for n in t.body:
        if isinstance(n,ast.Assign) and getattr(n.targets[0],'id','') in('RULE','ASSUMES','BUDGET'):
            v[n.targets[0].id]=eval(compile(ast.Expression(n.value),'','eval'),{k:w for k,w in v.items()}) if not ast.unparse(n.value).count('RULE') else ''
    out.append('### %s %s\n'%(pid,props[pid]['title']))
    out.append('*Generator, non-trivial rule.* %s.'%v['RULE'].strip('.'))
    out.append('*Oracle.* %s'%EXTRA[pid][0])
    out.append('*Reach beyond the tests.* %s'%EXTRA[pid][1])
    if v.get('ASSUMES'): out.append('*Assumes.* %s.'%'; '.join(v['ASSUMES']))
    b=v['BUDGET']; out.append('*Bounds.* quick: up to %d cases per shard, %d s; thorough: %d cases, %d s.\n'%(b['quick']['cases'],b['quick']['seconds'],b['thorough']['cases'],b['thorough']['seconds']))
out.append(TAIL)
import os
rows=[]
for d in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%d)); c=CAUGHT.get(d,m['property'])
    rows.append('| %s | %s | %s | %s |'%(d,m['property'],m['needs'].replace('|','/'),c))
out.append('\n## Planted bugs\n\nEach keeps the 55 tests passing and has a demonstration. "Caught by" names the checks known to report it at quick tier, seed 1\n(always at least the property\'s own; others were not all tried).\n\n| id | property | needs | caught by |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n')
open('DESIGN.md','w').write('\n\n'.join(x.strip('\n') for x in out)+'\n')
