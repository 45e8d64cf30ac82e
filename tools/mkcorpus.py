#!/usr/bin/env python3
"""One-off: collects small ink! snippets (unit-test inputs) and whole fixture files into sim/corpus.json.
The result is committed; checks never run this."""
import re,sys,json,glob,textwrap
out=[];seen=set()
def add(kind,s):
    s=textwrap.dedent(s).strip('\n')+'\n' if '\n' in s else s
    if s.strip() and s not in seen and len(s)<30000:
        seen.add(s); out.append({"kind":kind,"text":s})
def balanced(src,i):
    d=0;j=i;n=len(src)
    while j<n:
        c=src[j]
        if c=='"':
            j+=1
            while j<n and src[j]!='"':
                j+=2 if src[j]=='\\' else 1
        elif src.startswith('//',j):
            while j<n and src[j]!='\n': j+=1
        elif c=='{': d+=1
        elif c=='}':
            d-=1
            if d==0: return j
        j+=1
    return None
for f in sorted(glob.glob('/repo/crates/*/src/**/*.rs',recursive=True)):
    src=open(f).read()
    k=src.find('#[cfg(test)]')
    for m in re.finditer(r'quote_as_(?:str|string|pretty_string)!\s*\{',src):
        e=balanced(src,m.end()-1)
        if e and '$' not in src[m.end():e] and '#(' not in src[m.end():e]:
            body=src[m.end():e]
            if re.search(r'(?<![#\w])#[a-z_]\w*',body): continue # quote interpolation
            add('snippet',body)
    if k<0: continue
    t=src[k:]
    for m in re.finditer(r'r#"(.*?)"#',t,re.S): add('snippet',m.group(1))
    for m in re.finditer(r'(?<!r#)"((?:[^"\\]|\\.)*)"',t):
        s=m.group(1)
        if ('#[' in s) and '{' not in s[:0]:
            try: s=json.loads('"'+s.replace("\\'","'")+'"')
            except Exception: continue
            add('attr',s)
for f in sorted(glob.glob('/repo/test-fixtures/**/*.rs',recursive=True)): add('fixture',open(f).read())
json.dump(out,open('/verif/sim/corpus.json','w'),indent=0,ensure_ascii=False)
from collections import Counter
print(Counter(o['kind'] for o in out), sum(len(o['text']) for o in out))
