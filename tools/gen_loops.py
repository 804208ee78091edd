"""Records the loops of the current tree, for which invariants are known to be found (run after build.sh)."""
import sys, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
from tcv import run, loops
out = set()
for cfg in ('', '-DTECS_UNCHECKED_MODE', '-DTECS_ENABLE_PERFORMANCE_TRACING'): out |= loops.all_loops(run.load_ir(os.path.join(HERE, 'build'), cfg))
json.dump(sorted(out), open(os.path.join(HERE, 'tcv', 'loops_known.json'), 'w'), indent=0)
print(len(out))
