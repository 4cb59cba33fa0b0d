import json,collections
for l in open('/tmp/o.json'):
    d=json.loads(l)
    c=collections.Counter(str(o.get('ret',o.get('unsup',o.get('panic',''))))[:140] for o in d['outcomes'])
    for k in c.most_common(10): print(k)
    for want in ['ret','unsup','panic']:
        os=[o for o in d['outcomes'] if want in o and o.get('ret')!=True and not str(o.get('unsup')).startswith('monitor')]
        for o in sorted(os,key=lambda o:len(o.get('text',[])))[:4]:
            print(want,str(o.get('ret'))[:50],str(o.get('unsup'))[:250],' '.join('%04X'%x for x in o['text'])[-200:])
