#!/usr/bin/env python3
"""Appends the property/seed tables to DESIGN.md (between markers), from properties.jsonl, MANIFEST.json, seeded/, known_findings.json."""
import json, glob, os, re
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
man=json.load(open(V+'/MANIFEST.json'))
out=[]
out.append('| id | property | check |\n|---|---|---|')
claimed={c['property']:c for c in man['checks']}
for p in sorted(props,key=lambda p:p['id']):
    out.append('| %s | %s | %s |'%(p['id'],p['title'], 'yes' if p['id'] in claimed else 'not applicable'))
tab='\n'.join(out)
seeds=['| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); sid=os.path.basename(os.path.dirname(d))
    f=lambda s: re.sub(r'\s+',' ',s).replace('|','\\|')
    seeds.append('| %s | %s | %s | %s | %s |'%(sid,m['property'],f(m['what_it_breaks']),f(m['needs']),m['property']))
fx=[]
for k in json.load(open(V+'/known_findings.json')):
    fx.append('* %s (%s, `%s`)'%(k['what'],k['status'],k['key']))
na=['* %s: %s'%(n.get('property') or n.get('id'),n['reason']) for n in man.get('not_applicable',[])]
s=open(V+'/DESIGN.md').read()
def put(name,txt):
    global s
    s=re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)'%(name,name),lambda m:m.group(1)+txt+'\n'+m.group(2),s,flags=re.S)
put('props',tab); put('seeds','\n'.join(seeds)); put('fixed','\n'.join(fx)); put('na','\n'.join(na) or 'None.')
open(V+'/DESIGN.md','w').write(s)
