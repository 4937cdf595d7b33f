#!/usr/bin/env python3
# Appends the per-harness bounds (from the //bound: lines) and the planted-bug table to DESIGN.md.
import re,glob,os,json
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=open(here+'/DESIGN.md').read().split('## 6. Bounds per harness')[0].rstrip()
out=[d,'','## 6. Bounds per harness','',"(generated by tools/gendesign.py from the `//bound:` lines)",'']
for f in sorted(glob.glob(here+'/harness/c*/*.go')):
    s=open(f).read()
    for m in re.finditer(r'((?:^//.*\n)+)func (Check_\w+)\(',s,re.M):
        b=re.findall(r'^//\s*bound:\s*(.*)$',m.group(1),re.M)
        out.append('* %s `%s`: %s'%(os.path.basename(os.path.dirname(f)).upper(),m.group(2),' '.join(b) or 'as in the code'))
open(here+'/DESIGN.md','w').write('\n'.join(out)+'\n')
