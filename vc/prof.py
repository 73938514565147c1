import sys, tempfile, glob
sys.path.insert(0, '/verif/vc')
from engine import *
files = glob.glob(VERIF + '/spec/' + sys.argv[1])
work = tempfile.mkdtemp()
L = Load(files, work); shutil.rmtree(work)
h = [n for n in L.prog.funcs if n.endswith('.' + sys.argv[2])][0]
r = run_harness(L.prog, h)
facts=list(r.facts) + (r.end[1].pc if r.end else [])
out=facts
s=z3.Solver(); s.set('auto_config',False); s.set('mbqi',False); s.set('timeout',3000)
s.add(*out)
print(s.check(), s.reason_unknown())
z3.set_param('smt.qi.profile', True) if False else None
open('/tmp/q.smt2','w').write('(set-option :auto_config false)(set-option :smt.mbqi false)(set-option :smt.array.extensional false)\n'+s.to_smt2())
import subprocess
subprocess.run("z3-new smt.qi.profile=true smt.qi.max_instances=4000 -T:20 /tmp/q.smt2 > /tmp/o.txt 2>&1",shell=True)
cnt={}
for l in open("/tmp/o.txt").read().split('\n'):
    m=re.match(r'\[quantifier_instances\]\s+(.+?)\s+:\s+(\d+) :\s+(\d+) :\s+(\d+)',l)
    if m:
        c=cnt.setdefault(m.group(1),[0,0,0]); c[0]+=int(m.group(2)); c[1]+=1; c[2]=max(c[2],int(m.group(3)))
for q,c in sorted(cnt.items(),key=lambda x:-x[1][0])[:25]: print(q,c)
