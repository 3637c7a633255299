import sys; sys.path.insert(0,'/verif/checks'); import oracle as o, numpy as np
def runs(fn,conv):
    a=np.zeros(o.N,dtype=np.int64); L=[l.split() for l in open(fn)]
    for i,(c,v) in enumerate(L):
        e=int(L[i+1][0]) if i+1<len(L) else o.N
        a[int(c):e]=conv(v)
    return a
for p in 'gc sc blk ccc dt bc hst gcb wb insc age'.split():
    ids=o.value_ids(p)
    def conv(v):
        if p=='ccc': 
            m=o.raw('PropertyValueAliases')['ccc']; return ids[o.loose(m[v] if v in m else v)]
        if v=='V0_0': v='NA'
        return ids.get(o.loose(v),-5)
    a=runs('/tmp/icu.'+p,conv); d=np.nonzero(a!=o.enum(p))[0]; print(p,len(d),[(hex(x)) for x in d[:5]])
import os
for p in list(o.PROPLIST)+list(o.EMOJI)+'math alpha lower upper cased ci di gr_ext ids idc xids xidc comp_ex'.split():
    if not os.path.exists('/tmp/icu.'+p): print('no',p); continue
    a=runs('/tmp/icu.'+p,int).astype(bool); d=np.nonzero(a!=o.binary(p))[0]
    if len(d): print(p,len(d),[hex(x) for x in d[:5]])
na=[l.rstrip('\n') for l in open('/tmp/icu.na')]; d=[c for c in range(o.N) if na[c]!=o.names()[c]]; print('na',len(d),[(hex(c),na[c],o.names()[c]) for c in d[:4]])
for f in o.FORMS:
    m={}
    for l in open('/tmp/icu.'+f):
        x=[int(y) for y in l.split()]; m[x[0]]=tuple(x[1:])
    d=[c for c in range(o.N) if not 0xd800<=c<0xe000 and o.FORMS[f]((c,))!=m.get(c,(c,))]; print(f,len(d))
