#!/usr/bin/env python3
# writes DESIGN.md from tools/design.in.md, the claims, the known findings and the planted bugs
import json,os,glob,re,sys
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
ns={}; exec(open(here+'/claims.py').read(),ns)
t=open(here+'/design.in.md').read()
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
title={p['id']:p['title'] for p in props}
t=t.replace('@@PROPS@@','\n'.join('| %s | **%s.** %s |'%(p['id'],title[p['id']],ns['CLAIMED'][p['id']].replace('|','\\|')) for p in props if p['id'] in ns['CLAIMED']))
man=json.load(open(root+'/MANIFEST.json'))
t=t.replace('@@NA@@','\n'.join('* %s (%s): %s'%(n['id'] if 'id' in n else n['property'],title[n['id'] if 'id' in n else n['property']],n['reason']) for n in man['not_applicable']))
t=t.replace('@@FIXES@@','\n'.join('* '+re.sub(r'^fixed: property=(\S+) (\S+) ',r'\1 (\2): ',l.strip()) for l in open(root+'/known-findings.txt') if l.startswith('fixed:')))
rows=[]
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append('| %s | %s | %s (needs: %s) |'%(os.path.basename(os.path.dirname(d)),m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/').rstrip('.')))
t=t.replace('@@SEEDS@@','\n'.join(rows))
open(root+'/DESIGN.md','w').write(t)
