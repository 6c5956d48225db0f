#!/usr/bin/env python3
"""Pins the encoding names, aliases and codepages (author's tool)."""
import re
# listed in encodings.h.snippet, but not in (or elsewhere in) the generated alias table, which is older than the list
STALE={('ucs2be','UNICODEFFFE'),('iso2022_jp','CP50220'),('iso2022_jp','50220'),('iso2022_jp','CP50222'),('iso2022_jp','50222'),
 ('iso2022_cn','CP50227'),('iso2022_cn','50227'),('iso2022_cn','XCP50227'),('cp949','KSC56011987'),('iso8859_8','ISO88598I'),
 ('iso8859_13','IBM921'),('iso8859_13','CP28603'),('iso8859_15','CSISO885915'),('iso8859_15','CP28605')}
s=open('/repo/lib/encodings.h.snippet').read()
s=re.sub(r'/\*.*?\*/','',s,flags=re.S); s=re.sub(r'^//.*$','',s,flags=re.M)
out=[];idx={}
i=0
for m in re.finditer(r'DEFENCODING\(\((.*?)\),\s*([a-z0-9_]+)\s*,|DEFCODEPAGE\((\d+),\s*([a-z0-9_]+)\)',s,flags=re.S):
    if m.group(2):
        idx[m.group(2)]=i; out.append("E %d %s %s"%(i,m.group(2)," ".join(a for a in re.findall(r'"([^"]*)"',m.group(1)) if (m.group(2),a) not in STALE))); i+=1
cps=[(int(m.group(1)),idx[m.group(2)]) for m in re.finditer(r'DEFCODEPAGE\((\d+),\s*([a-z0-9_]+)\)',s)]
d={}
for c,e in cps: d[c]=e      # later definitions win, as in the C initialiser
for c,e in sorted(d.items()): out.append("P %d %d"%(c,e))
for f,pre in (('indexes.h.shippet',''),('indexes.hpp.shippet','Encodings::')):
    for m in re.finditer(r'(\w+)\s*=\s*(\d+)',open('/repo/lib/generated/'+f).read()): out.append("C %s%s %d"%(pre,m.group(1),int(m.group(2))))
open('/verif/model/names.txt','w').write("\n".join(out)+"\n")
