#!/usr/bin/env python3
"""crw.inc: Canon CIFF. The trees are dcraw's (as in native/src/vendortab.rs)."""
import re
s=open('../native/src/vendortab.rs').read()
def arr(name):
    b=s[s.index('const %s:'%name):]; b=b[b.index('=')+1:]; b=b[:b.index(';')]
    return [[int(x,0) for x in re.findall(r'0x[0-9a-f]+|\d+',g)] for g in re.findall(r'\[([^\[\]]*)\]',b)]
F,S=arr('FIRST'),arr('SECOND')
o=open('crw.head').read()
o+='verus! {\n'
for nm,T in (('first',F),('second',S)):
    for k,v in enumerate(T):
        o+='pub open spec fn cw_%s%d() -> Seq<u8> { seq![%du8, %s] }\n'%(nm,k,v[0],', '.join(map(str,v[1:])))
        b=[0]+v[:16]; hf=[0,0]; hs=[0,0]
        for l in range(2,18): hf.append(2*(hf[l-1]+b[l-1])); hs.append(hs[l-1]+b[l-1])
        for l in range(1,17): assert hf[l]+b[l]<=2**l
        assert 16+hs[17]<=len(v)
        o+='''pub proof fn lemma_cw_%s%d()
    ensures cw_wf(cw_%s%d()),
{
    let s = cw_%s%d(); let b = cw_bits(s); lemma_p2_vals();
    assert(s.len() == %d);
    %s
    %s
    %s
}
'''%(nm,k,nm,k,nm,k,len(v)," ".join("assert(b[%d] == %d);"%(l,b[l]) for l in range(0,17))," ".join("assert(hfc(b, %d) == %d);"%(l,hf[l]) for l in range(1,17))," ".join("assert(hst(b, %d) == %d);"%(l,hs[l]) for l in range(1,18)))
o+='} // verus!\n'+open('crw.tail').read()
open('crw.inc','w').write(o)
