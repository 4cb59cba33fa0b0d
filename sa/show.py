import json
for l in open('/tmp/o.json'):
    d=json.loads(l)
    n=d['root'].split('::',1)[1]
    if 'error' in d: print(n,'ERR',d['error']); continue
    ks={}
    for o in d['outcomes']:
        k='ret' if 'ret' in o else 'panic' if 'panic' in o else 'unsup'
        ks[k]=ks.get(k,0)+1
    extra=set(str(o['ret'])[:40] for o in d['outcomes'] if 'ret' in o) if ks.get('ret',0)<=2 else ''
    print(n,d['ms'],d['steps'],ks,extra if len(str(extra))<160 else '',[(o.get('panic') or o.get('unsup'))[:150] for o in d['outcomes'] if 'ret' not in o][:2])

    import os
    if os.environ.get('TX'):
        seen=set()
        for o in d['outcomes']:
            if o.get('ret')==True: continue
            k=tuple(o.get('text',[])); 
            if k in seen: continue
            seen.add(k)
        for k in sorted(seen,key=lambda k:(len(k),k))[:int(os.environ['TX'])]: print('  '," ".join(()) if len(k)<60 else "LONG %d"%len(k), ' '.join('%04X'%x for x in k))
