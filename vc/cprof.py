import sys, tempfile, glob, cProfile, pstats
sys.path.insert(0, '/verif/vc')
from engine import *
files = glob.glob(VERIF + '/spec/' + sys.argv[1])
work = tempfile.mkdtemp()
L = Load(files, work)
shutil.rmtree(work)
h=[n for n in L.prog.funcs if re.search(sys.argv[2], n) and '$' not in n][0]
pr=cProfile.Profile(); pr.enable(); run_harness(L.prog,h); pr.disable()
pstats.Stats(pr).sort_stats(sys.argv[3] if len(sys.argv)>3 else 'cumtime').print_stats(45)
