# usage: fixed.py PROP hash...   append fixed: lines
import sys,subprocess
p='/verif/known_findings.txt'; s=open(p).read()
prop=sys.argv[1]
for h in sys.argv[2:]:
    m=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h %s',h],text=True).strip()
    h,m=m.split(' ',1); assert m.startswith('fix: ')
    if h in s: continue
    s+='fixed: property=%s %s %s\n'%(prop,h,m[5:])
open(p,'w').write(s)
