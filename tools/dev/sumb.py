import sys,collections
cls=collections.Counter(); ex={}; n=0; ctr=collections.Counter(); wall=0
cur=None
for l in sys.stdin:
    w=l.rstrip('\n').split(' ',1)
    if w[0]=='run': seed,t=w[1].split(); wall+=float(t); n+=1
    elif w[0]=='class': c=w[1]; cls[c]+=1
    elif w[0]=='msg':
        ex.setdefault(c,[]).append((seed,w[1]))
    elif w[0]=='count':
        a,b=w[1].rsplit(' ',1); ctr[a]+=int(b)
print(n,'runs','%.2f s'%wall,dict(cls))
for c in ex:
    if c!='-':
        for s,m in ex[c][:3]: print('  ',c,'seed',s,m[:400])
if '-c' in sys.argv: print(dict(ctr))
