#!/usr/bin/env python3
"""addr2line of the racy program points in a C23_RACES file: tools/races.py FILE EXE"""
import sys,subprocess,re,collections
cnt=collections.Counter(); ex={}
base=0x0
for l in open(sys.argv[1]):
    m=re.findall(r' ([0-9a-f]{6,})',l)
    for x in m: cnt[int(x,16)]+=1; ex.setdefault(int(x,16),l.split(':')[0])
pcs=sorted(cnt)
if not pcs: sys.exit("no races")
off = 0x555555554000 if pcs[0]>>40==0x55 else 0
# PIE: derive the base from the lowest page by matching is unreliable; the harness is linked without PIE
out=subprocess.run(['addr2line','-f','-i','-p','-e',sys.argv[2]]+[hex(p-1) for p in pcs],capture_output=True,text=True).stdout
blocks=re.split(r'\n(?! \(inlined)',out.strip())
agg=collections.Counter()
for p,b in zip(pcs,blocks): agg[re.sub(r'\n \(inlined by\) ',' < ',b).replace('/tmp/r/c/src/','').replace('/repo/c/src/','')]+=cnt[p]
for k,v in agg.most_common(): print(v,k)
