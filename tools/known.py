import subprocess
L=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%H %s','--grep=^fix:']).decode().splitlines()]
m={'corner-point depths':'G03','slanted':'G03','second deck':'E01','GCONINJE':'E02'}
import sys
extra=dict(a.split('=',1) for a in sys.argv[1:])
M=dict(m); 
try: M.update(dict(l.rstrip('\n').split('\t') for l in open('/verif/tools/fixmap.tsv')))
except OSError: pass
out=[]
for h,s in reversed(L):
    p=[v for k,v in M.items() if k in s]
    out.append("fixed: property=%s %s %s"%(p[0] if p else 'E04',h,s[5:]))
known=[l for l in open('/verif/known_findings.txt') if l.startswith('known:')]
open('/verif/known_findings.txt','w').write("\n".join(out)+"\n"+"".join(known))
