import sys, time, os; sys.path.insert(0, '/verif')
from tcv import run
mods = sys.argv[1]; pats = [a for a in sys.argv[2:] if not a.startswith('-')]
import importlib
us = []
for m in mods.split(','):
    mod, _, cfg = m.partition(':')
    M = importlib.import_module('tcv.' + mod)
    us += M.units(run.load_ir('/verif/build', cfg), cfg)
us = [u for u in us if all(p in u.name for p in pats)]
t = time.time()
def show(r):
    bad = [o for o in r['obls'] if o[3] != 'proved']
    if '-q' in sys.argv and not bad and r['status'] == 'ok': return
    print('%s%s: %s paths %d obl %d bad %d  %.1fs %s' % (r['unit'], r['cfg'], r['status'], r['paths'], len(r['obls']), len(bad), r['time'], r['error']))
    if r.get('trace') and '-t' in sys.argv: print(r['trace'])
    seen = set()
    for o in bad:
        if o[0] not in seen: seen.add(o[0]); print('      ', o[3], o[0], o[1], o[2], o[4][:200])
    sys.stdout.flush()
print(len(us), 'units')
for a in sys.argv:
    if a.startswith('-x'):      # -x<every>: sample for cvc5
        d = '/tmp/w/cross'; os.makedirs(d, exist_ok=True); [os.unlink(os.path.join(d, f)) for f in os.listdir(d)]; run.CROSS = (d, int(a[2:]))
P = [a[2:] for a in sys.argv if a.startswith('-p')]
res = run.run_all(us, '/verif/build', progress=show, props=P or None)
print('total %.1fs, obligations %d, unproved %d, not ok %d' % (time.time() - t, sum(len(r['obls']) for r in res), sum(o[3] != 'proved' for r in res for o in r['obls']), sum(r['status'] != 'ok' for r in res)))

if run.CROSS: t = time.time(); print(run.cross_check(run.CROSS[0], 10, 600), '%.1fs' % (time.time() - t))
