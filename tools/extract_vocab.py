#!/usr/bin/env python3
"""One-off: derive data/cmavo.tsv and data/selmaho.tsv (committed, reviewed) from the tables of the pinned tree."""
import re,sys
src=open('/repo/src/lex/selmaho/classify.rs').read()
cuhu=re.search(r'const CUHUHU_ETC: &str = "([^"]+)"',src).group(1)
body=src[src.index('match direct_cmavo_check'):src.index('_ => Self::classify_generally(word)')]
body=re.sub(r'//.*','',body)
mod=open('/repo/src/lex/selmaho/mod.rs').read()
i=mod.index('fn is_fundamentally_experimental'); arms=mod[mod.index('match self {',i):mod.index('=> true',i)]; fund=set(re.findall(r'Self::(\w+)',arms.split('=> false')[-1]))
out=[]
for m in re.finditer(r'((?:(?:"[^"]*"|CUHUHU_ETC)\s*\|?\s*)+)=>\s*(\{?\s*)(experimental!\()?\s*Self::(\w+)',body):
    words=re.findall(r'"([^"]*)"|(CUHUHU_ETC)',m.group(1))
    for w,c in words:
        w=w or cuhu
        cls=m.group(4); exp=bool(m.group(3)) or cls in fund
        out.append((w,cls,exp))
seen={}
for w,c,e in out:
    if w in seen: print('dup',w,c,seen[w],file=sys.stderr); continue
    seen[w]=(c,e)
with open('/verif/data/cmavo.tsv','w') as f:
    for w,(c,e) in sorted(seen.items(),key=lambda x:(x[1][0],x[0])): f.write(f"{w}\t{c}\t{int(e)}\n")
disp=open('/repo/src/lex/selmaho/display.rs').read()
rep=re.findall(r'Self::(\w+) => "([^"]+)"',disp)
with open('/verif/data/selmaho.tsv','w') as f:
    for n,r in rep: f.write(f"{n}\t{r}\t{int(n in fund)}\n")
with open('/verif/harness/src/selmaho_list.rs','w') as f:
    f.write("// generated by tools/extract_vocab.py\nuse sneturfahi::lex::Selmaho as S;\npub const SELMAHO: &[(S, &str, &str, bool)] = &[\n")
    for n,r in rep: f.write(f'\t(S::{n}, "{n}", "{r}", {str(n in fund).lower()}),\n')
    f.write("];\n")
print(len(seen),len(rep),len(fund))
