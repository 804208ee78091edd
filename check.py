#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] : decides one property for /repo's current tree.

Deciding step: the verifier (extract/ + tcv/) regenerates every obligation of the property from the current source and
discharges it.  A failed obligation is a violation; witness/ then looks for a failing run of the real code.  What the
verifier cannot bring within reach on the current tree falls back to the bounded runs of witness/ (labelled bounded)."""
import sys, os, json, time, subprocess, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('TECS_REPO', '/repo')
from tcv import plan

def main():
    P = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    build = os.path.join(HERE, 'build')
    os.makedirs(build, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rep = os.path.join(build, 'replay'); os.makedirs(rep, exist_ok=True)
    notes = []
    from witness import run as wit
    wout = os.path.join(build, 'witness')
    builder = wit.Builder(P, REPO, wout, tier)
    # ---- proof
    res, missing, second = [], [], None
    r = subprocess.run(['bash', os.path.join(HERE, 'extract', 'build.sh'), build, REPO], capture_output=True, text=True)
    extracted = r.returncode == 0
    if not extracted: notes.append('extraction failed: ' + (r.stderr or r.stdout)[-300:])
    else:
        try: res, missing, errs, second = plan.prove(P, build, tier); notes += errs
        except Exception as e:
            import traceback
            notes.append('prover error: %r' % e); traceback.print_exc()
    failed, undecided, n, ok = [], [], 0, 0
    for u in res:
        if u['status'] != 'ok': undecided.append((u['unit'] + u['cfg'], u['status'] + ': ' + u['error']))
        for o in u['obls']:
            if o[0] == 'model' or o[1] == ('model',):
                if o[3] != 'proved': undecided.append((u['unit'] + u['cfg'], 'outside the model: ' + o[0]))
                continue
            n += 1
            if o[3] == 'proved': ok += 1
            elif o[3] == 'weak': undecided.append((u['unit'] + u['cfg'], 'not provable after a loop the verifier has not met before: ' + o[0]))
            elif o[3] == 'timeout': undecided.append((u['unit'] + u['cfg'], 'solver gave up: ' + o[0]))
            else: failed.append((u['unit'] + u['cfg'], o))
    # a unit outside the verifier's reach decides nothing
    und = {u['unit'] + u['cfg'] for u in res if u['status'] != 'ok'}
    bad = [x for x in failed if x[0] not in und]
    for u, o in failed:
        if u in und: undecided.append((u, 'failed in a unit that could not be completed: ' + o[0]))
    if second and second['contradicted']: undecided += [('second solver', 'cvc5 finds a model where z3 has a proof: ' + x) for x in second['contradicted']]
    # ---- permissions decided by the type checker
    static_bad, static_held = [], 0
    if P == 'C18':
        from tcv import static
        static_held, static_bad, sn = static.run(build, REPO)
        undecided += [('static permissions', x) for x in sn]
        n += static_held + len(static_bad); ok += static_held
    # ---- bounded runs of the real code
    w = wit.run(P, REPO, wout, tier, seed, focus=[o[0] for _, o in bad] + [b for _, b in undecided], builder=builder)
    viol = 0
    kf = known_findings()
    for v in [{'key': t, 'text': '%s\n\nprogram:\n%s' % (t, src)} for t, src in static_bad] + w['violations']:
        key = v['key']
        if (P, key) in kf:
            print('KNOWN-FINDING: property=%s %s' % (P, kf[P, key])); continue
        path = os.path.join(rep, '%s-%d.txt' % (P, viol)); viol += 1
        with open(path, 'w') as f:
            f.write('property %s is violated by this run of the real code\n\n%s\n' % (P, v['text']))
            if bad: f.write('\nfailed obligations:\n' + fmt(bad))
        print('VIOLATION property=%s replay=%s' % (P, path))
        if viol >= 5: break
    if bad and not viol:
        path = os.path.join(rep, '%s-obligation.txt' % P); viol += 1
        with open(path, 'w') as f:
            f.write('property %s: obligations that no longer hold for the current source\n\n%s' % (P, fmt(bad)))
            f.write('\nre-run: python3-vt /verif/check.py %s\n' % P)
        print('failed: ' + '; '.join(sorted({'%s: %s' % (u, o[0]) for u, o in bad})[:3])[:600])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (P, path))
    funcs = sorted({f for u in res for f in u['funcs']})
    ev = {'property': P, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 2), 'violations': viol,
          'assumptions': plan.assumptions(P),
          'coverage': {
              'obligations': n, 'discharged': ok, 'discharged_by_type_checker': static_held, 'units': len(res), 'units_complete': sum(u['status'] == 'ok' for u in res), 'paths': sum(u['paths'] for u in res),
              'checker_cmd': 'python3-vt /verif/check.py %s' % P,
              'trusted_base': plan.trusted(P),
              'back_end': 'z3 %s (E-matching, no MBQI)' % plan.z3v(), 'solver_queries': sum(u['queries'] for u in res), 'solver_time_s': round(sum(u['solver_time'] for u in res), 1),
              'functions_under_contract': [x for x in funcs][:400], 'functions': len(funcs),
              'obligations_of_other_properties_relied_upon': sum(u.get('skipped', 0) for u in res),
              'not_decided_by_proof': [{'unit': a, 'why': b} for a, b in undecided][:60], 'units_missing': missing[:60], 'notes': notes,
              'second_solver': second or 'thorough tier only',
              'bounded': w['stats'],
              'samples': [{'unit': u['unit'], 'obligation': o[0], 'at': o[2], 'status': o[3]} for u in res[::max(1, len(res) // 5)] for o in u['obls'][-1:]][:8]}}
    with open(os.path.join(HERE, 'evidence', P + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d units, %d undecided, bounded %s, %.1fs' % (P, n, ok, len(res), len(undecided), json.dumps(w['stats'])[:200], time.time() - t0))
    return 1 if viol else 0

def fmt(bad):
    out, seen = [], set()
    for u, o in bad:
        k = (u, o[0], o[2])
        if k in seen: continue
        seen.add(k)
        out.append('  unit        %s\n  obligation  %s\n  location    %s\n  solver      %s\n' % (u, o[0], o[2], o[4]))
    return '\n'.join(out[:40])
def known_findings():
    d = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) \[([^\]]*)\] (.*)', l)
            if m: d[m[1], m[2]] = m[3]
    return d

if __name__ == '__main__': sys.exit(main())
