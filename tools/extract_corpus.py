#!/usr/bin/env python3
"""One-off: pulls the SQL texts out of the repository's parser tests (committed as corpus/base.json)."""
import re,glob,json
out=[];err=[]
def unq(s):
    # rust string literal body
    s=re.sub(r'\\\n\s*','',s)
    return s.replace('\\n','\n').replace('\\"','"').replace("\\'","'").replace('\\t','\t').replace('\\r','\r').replace('\\\\','\\')
for f in sorted(glob.glob('/repo/src/parser/tests/*.rs')):
    t=open(f).read()
    for m in re.finditer(r'(Success|Error)TestCase::new\(\s*(?:"((?:[^"\\]|\\.|\\\n)*)"|r(#*)"(.*?)"\3)\s*,',t,re.S):
        kind,a,h,b=m.groups()
        s=unq(a) if a is not None else b
        (out if kind=='Success' else err).append(s)
d=list(dict.fromkeys(out)); e=list(dict.fromkeys(err))
print(len(out),len(d),len(err),len(e),sum(map(len,d)))
json.dump(dict(ok=d,err=e),open('/verif/corpus/base.json','w'),indent=0,ensure_ascii=False)
