"""Bounded runs of the real code: a cross-check of the proofs, the fallback for what the verifier cannot complete on a
changed tree, and the search for a failing run when an obligation fails.  Never counted as proof."""
import os, re, subprocess, hashlib, time, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = ['clang++', '-std=c++20', '-O1', '-w', '-pthread']
# harness -> (source, flags, link Tecs.cc)
HARNESS = {
    'seq': ('seq.cpp', ['-D_GLIBCXX_ASSERTIONS', '-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=4'], True),
    'seqasan': ('seq.cpp', ['-fsanitize=address', '-g1', '-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=4'], True),
    'unit': ('unit.cpp', ['-D_GLIBCXX_ASSERTIONS', '-DTECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD=9'], True),
    'wide': ('wide.cpp', ['-std=c++23', '-O0'], True),
    'wideall': ('wide.cpp', ['-std=c++23', '-O0', '-DALL_SIZES'], True),
    'trace': ('trace.cpp', ['-D_GLIBCXX_ASSERTIONS', '-DTECS_ENABLE_PERFORMANCE_TRACING', '-DTECS_PERFORMANCE_TRACING_MAX_EVENTS=256'], True),
    'sched': ('sched.cpp', ['-DTECS_SPINLOCK_RETRY_YIELD=1', '-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=4'], False),
    'race': ('race.cpp', ['-fsanitize=thread', '-g1', '-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=4'], True),
}
SEQ = ('C01', 'C02', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20')
def jobs(P, tier, scale):
    """-> [(harness, [args before the seed], rounds per process, processes, [args after the rounds])]"""
    th = tier == 'thorough'
    j = []
    if P in SEQ:
        j.append(('seq', [], 100, (8 if not th else 80) * scale, []))
        if th: j.append(('seqasan', [], 30, 32 * scale, []))
        elif P == 'C14' and scale > 1: j.append(('seqasan', [], 30, 8, []))
    if P in ('C14', 'C19', 'C20', 'C21', 'C22'):
        only = {'C14': ['views'], 'C22': ['views'], 'C21': ['handles'], 'C19': ['nesting'], 'C20': ['ids']}[P]
        j.append(('unit', [], 60 if not th else 400, 8 * scale, only))
    if P == 'C18': j.append(('wideall' if th else 'wide', [], 1, 1, []))
    if P == 'C23': j.append(('trace', [], 200 if not th else 2000, 8 * scale, []))
    if P in ('C04', 'C05', 'C08'): j.append(('sched', ['locks'], 3000 if not th else 100000, 8 * scale, []))
    if P in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08'): j.append(('sched', ['ecs'], 1500 if not th else 60000, 8 * scale, []))
    if P in ('C04', 'C05', 'C06', 'C07', 'C08'): j.append(('sched', ['table'], 1, 1, []))
    if P == 'C08': j.append(('race', [], 60 if not th else 2000, 4 * scale, []))
    return j
def digest(repo, src, flags):
    h = hashlib.sha256(repr((flags, BASE)).encode())
    for root in (os.path.join(repo, 'inc'), os.path.join(repo, 'src')):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs): h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    h.update(open(os.path.join(HERE, src), 'rb').read())
    return h.hexdigest()[:16]
def build_one(name, repo, out):
    src, flags, link = HARNESS[name]
    exe = os.path.join(out, '%s-%s' % (name, digest(repo, src, flags)))
    if os.path.exists(exe): return exe, '', []
    os.makedirs(out, exist_ok=True)
    cmd = BASE + flags + (['-DTECS_SOURCE="%s"' % os.path.join(repo, 'src', 'Tecs.cc')] if not link else []) + ['-I' + os.path.join(repo, 'inc'), os.path.join(HERE, src)] + ([os.path.join(repo, 'src', 'Tecs.cc')] if link else []) + ['-o', exe + '.tmp']
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=500)
    if r.returncode: return None, (r.stderr.splitlines() or ['?'])[0][:300], cmd
    for f in os.listdir(out):
        if f.startswith(name + '-') and not f.endswith('.tmp'): os.unlink(os.path.join(out, f))
    os.rename(exe + '.tmp', exe)
    return exe, '', cmd
class Builder:
    """compiles the harnesses of a property in the background, while the verifier runs"""
    def __init__(self, P, repo, out, tier):
        self.pool = ThreadPoolExecutor(3)
        self.repo, self.out, self.f = repo, out, {}
        for n in {j[0] for j in jobs(P, tier, 1)}: self.want(n)
    def want(self, n):
        if n not in self.f: self.f[n] = self.pool.submit(build_one, n, self.repo, self.out)
        return self.f[n]
    def get(self, n):
        try: return self.want(n).result()
        except Exception as e: return None, repr(e)[:300], []
def one(exe, name, args, limit):
    env = dict(os.environ, TSAN_OPTIONS='exitcode=66 halt_on_error=1 report_signal_unsafe=0', ASAN_OPTIONS='detect_leaks=0 exitcode=67 handle_abort=0 handle_segv=0')
    try: r = subprocess.run([exe] + args, capture_output=True, text=True, errors='replace', timeout=limit, env=env)
    except subprocess.TimeoutExpired: return 'inconclusive', '', 'time limit'
    out = r.stdout
    m = re.search(r'^FAIL (\S+) :: (.*)$', out, re.M)
    if m: return 'fail', m[1], out[m.start():][:20000]
    if name == 'race' and r.returncode == 66 and 'data race' in r.stderr: return 'fail', 'C08', 'FAIL C08 :: two threads access the same library data without synchronisation\n' + r.stderr[:12000]
    if name == 'seqasan' and r.returncode == 67: return 'fail', 'C14', 'FAIL C14 :: memory error\n' + r.stderr[:12000]
    if r.returncode == 0 and out.startswith('OK'): return 'ok', '', out
    return 'inconclusive', '', (out + r.stderr)[-300:]
def run(P, repo, out, tier, seed, focus=(), builder=None):
    t0 = time.time()
    builder = builder or Builder(P, repo, out, tier)
    st = {'runs': 0, 'ok': 0, 'inconclusive': 0, 'rounds': 0, 'deviations_of_other_properties': 0, 'harnesses': [], 'notes': []}
    viol = {}
    budget = 150 if tier == 'quick' else 1500
    for scale in ([1, 4] if focus else [1]):
        if viol: break
        todo = []
        for name, pre, rounds, procs, post in jobs(P, tier, scale):
            exe, err, cmd = builder.get(name)
            if not exe: st['notes'].append('%s does not build: %s' % (name, err)); continue
            if name not in st['harnesses']: st['harnesses'].append(name)
            for k in range(procs if scale == 1 else procs):
                first = 1 + (seed - 1) * 1000003 + (k + (10000 if scale > 1 else 0)) * rounds
                todo.append((exe, name, pre + [str(first), str(rounds)] + post, rounds))
        lock = threading.Lock()
        def go(t):
            exe, name, args, rounds = t
            if viol and len(viol) >= 3 or time.time() - t0 > budget: return
            kind, props, text = one(exe, name, args, 260)
            with lock:
                st['runs'] += 1
                if kind == 'ok': st['ok'] += 1; st['rounds'] += rounds
                elif kind == 'inconclusive': st['inconclusive'] += 1; st['notes'] = (st['notes'] + ['%s %s: %s' % (name, ' '.join(args), text.strip()[:150])])[:8]
                elif P in props.split(','):
                    what = re.sub(r'[0-9]+', 'N', text.splitlines()[0].split(' :: ', 1)[1])[:160]
                    viol.setdefault(what, text + '\nre-run: %s %s   (built from witness/%s with the flags in witness/run.py)\n' % (os.path.basename(exe), ' '.join(args), HARNESS[name][0]))
                else: st['deviations_of_other_properties'] += 1; st['notes'] = (st['notes'] + ['%s %s: %s' % (name, ' '.join(args), text.splitlines()[0][:150])])[:8]
        with ThreadPoolExecutor(8) as pool: list(pool.map(go, todo))
    st['wall_s'] = round(time.time() - t0, 1)
    return {'violations': [{'key': k, 'text': v} for k, v in viol.items()], 'stats': st}
if __name__ == '__main__':
    import sys, json
    r = run(sys.argv[1], os.environ.get('TECS_REPO', '/repo'), os.environ.get('WOUT', '/tmp/w/wit'), sys.argv[2] if len(sys.argv) > 2 else 'quick', int(os.environ.get('VERIF_SEED', '1')))
    print(json.dumps(r['stats'])[:1500])
    for v in r['violations']: print('VIOL', v['key']); print(v['text'][:int(os.environ.get('N', '400'))])
