"""The same contracts for a second instantiation, ECS<H, B, G, A>: nothing may hold only because of the order of the
component types.  Runs in a process of its own because the order is fixed when tcv.spec is loaded (TCV_ORDER=2).
usage: TCV_ORDER=2 python3-vt -m tcv.second PROPERTY BUILD SECONDS RESULT MODULE..."""
import sys, json
from . import plan, run
def main():
    P, build, secs, out = sys.argv[1:5]
    errs = []
    us = plan.gather(P, build, errs, [(m, plan.O2) for m in sys.argv[5:]])
    res = run.run_all(us, build, limit=min(600, int(secs)), props=[P], budget=int(secs))
    json.dump({'res': res, 'errs': errs}, open(out, 'w'))
if __name__ == '__main__': main()
