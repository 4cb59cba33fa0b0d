import re,collections
c=collections.Counter()
L=open('/tmp/log.txt').read().split('[fix ')[1:]
for s in L:
    f=s.split('] ',1)[1].split(' n=')[0][-40:]
    t=re.search(r'text: (.*)',s)
    if not t: continue
    t=t.group(1)
    sh=re.sub(r'\[c s\d+ (.*?) len.*?\]',r'C',t); sh=re.sub(r'\(input.*?\)\*','I',sh); sh=re.sub(r'\(<(\d+) in.*?\)\*',r'R\1',sh); sh=re.sub(r'\(0-d7ff.*?\)\*','S',sh)
    c[f,sh]+=1
for k,v in c.most_common(30): print(v,k[0][-30:],len(k[1]),k[1][-160:])
