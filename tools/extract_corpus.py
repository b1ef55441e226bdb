#!/usr/bin/env python3
"""One-off: data/cll.txt (committed): the example sentences of the Lojban reference grammar, used as seeds for generators."""
import re
s=open('/repo/src/parse/cst/tests.rs').read()
s=s[s.index('assert_parse!['):]
s=re.sub(r'/\*.*?\*/','',s,flags=re.S); s=re.sub(r'^\s*//.*$','',s,flags=re.M)
out=[]
for m in re.finditer(r'"((?:[^"\\]|\\.)*)"',s):
    t=re.sub(r'\\\n\s*','',m.group(1))
    if '\\' in t or '\n' in t: continue
    if t not in out: out.append(t)
open('/verif/data/cll.txt','w').write('\n'.join(out)+'\n'); print(len(out))
