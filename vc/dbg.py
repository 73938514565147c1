import sys, tempfile, glob, time, traceback
sys.path.insert(0, '/verif/vc')
from engine import *
files = glob.glob(VERIF + '/spec/' + sys.argv[1]) + glob.glob(VERIF+'/spec/**/contract_*.go', recursive=True) + glob.glob(VERIF+'/spec/**/lib_*.go', recursive=True)
pat = sys.argv[2]
budget = float(sys.argv[3]) if len(sys.argv) > 3 else 10
work = tempfile.mkdtemp()
L = Load(files, work)
print('dropped', L.dropped, L.error)
shutil.rmtree(work)
hs = sorted(n for n in L.prog.funcs if re.search(pat, n) and n.split('.')[-1].startswith(('P_','Contract_')) and '$' not in n)
for h in hs:
    print('==', h)
    try:
        r = run_harness(L.prog, h)
    except Exception as e:
        tb=traceback.format_exc().split('\n'); print('\n'.join(tb[-12:]))
        continue
    qs = to_queries(r, h)
    print('  exec %.2fs facts %d loops %d quick %d/%.1fs' % (r.time, len(r.facts), len(r.ex.allloops), r.ex.prover.nquick, r.ex.prover.tquick))
    v = dict(hyps=r.facts + (r.end[1].pc if r.end else []), goal=None, vacuity=True)
    rs = prove_all(qs + [v], budget)
    for q, x in zip(qs + [dict(name='VACUITY', kind='')], rs):
        if x.get('part'): print('      ', x['part'][:300])
        print('   %-60s %s %s %.2f %s' % (q['name'], x['status'], x['backend'], x['time'], x['tried'] if x['status'] != 'proved' else x.get('parts')))
