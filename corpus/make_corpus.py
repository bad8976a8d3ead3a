#!/usr/bin/env python3
"""Authoring tool (not run by checks): packs the repository's spec examples and fixtures into corpus.txt."""
import json,glob,os
out=[]
R='/repo/tests/'
for f in sorted(glob.glob(R+'spec/*/*.json')):
    base=os.path.basename(f).split('_')[0]
    d=json.load(open(f))
    for i,e in enumerate(d):
        out.append((f"{base}-{e.get('example',i+1)}", e['markdown']))
for f in sorted(glob.glob(R+'source/**/*.md',recursive=True)+glob.glob(R+'target/**/*.md',recursive=True)):
    out.append((f[len(R):].replace('/','_'), open(f,newline='').read()))
out.append(('README', open('/repo/README.md').read()))
with open('/verif/corpus/corpus.txt','wb') as o:
    for n,t in out:
        b=t.encode()
        o.write(f"%%REC {n} {len(b)}\n".encode()+b+b"\n")
print(len(out))
