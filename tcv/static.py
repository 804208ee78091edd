"""Lock permissions decided by the type checker: every conversion between lock types, the permission traits, the
constness of what access functions return, and the accesses that must not compile."""
import os, subprocess, itertools, re
from concurrent.futures import ThreadPoolExecutor
from .world import Perm

PRE = '''#include <Tecs.hh>
namespace v { struct A { int x = 0; }; struct B { int y = 0; }; struct G { int z = 0; }; }
TECS_GLOBAL_COMPONENT(v::G);
using namespace Tecs;
using E = ECS<v::A, v::G, v::B>;
'''
CN = ['v::A', 'v::G', 'v::B']   # the order of tcv.spec.COMPS
def lists():
    out = []
    for lv in itertools.product((0, 1, 2), repeat=3):
        r = [CN[i] for i in range(3) if lv[i] == 1]; w = [CN[i] for i in range(3) if lv[i] == 2]
        out.append((['Read<%s>' % ', '.join(r)] if r else []) + (['Write<%s>' % ', '.join(w)] if w else []))
    out += [['ReadAll'], ['WriteAll'], ['AddRemove'], ['ReadAll', 'Write<v::B>'], ['Write<v::A>', 'ReadAll'], ['WriteAll', 'Read<v::A>'], ['AddRemove', 'Read<v::B>'], ['Read<v::A>', 'Write<v::A>'],
            ['Read<v::A>', 'Read<v::B>', 'Write<v::G>'], ['Read<v::A>', 'AddRemove']]
    return out
def spec(l):
    p = Perm(['Tecs::' + x for x in l])
    p.r &= {0, 1, 2}; p.w &= {0, 1, 2}     # this program has the first three components only
    return p
def subset(d, s): return d.r <= s.r and d.w <= s.w and (s.ar or not d.ar)
def matrix():
    """-> source, [claims]"""
    ls = lists()
    ps = [spec(l) for l in ls]
    src, claims = [PRE], []
    def claim(expr, want, text):
        src.append('static_assert((%s) == %s, "#%d");' % (expr, 'true' if want else 'false', len(claims))); claims.append('%s (%s)' % (text, 'yes' if want else 'no'))
    nm = lambda l: '<%s>' % ', '.join(l).replace('v::', '')
    for i, l in enumerate(ls):
        src.append('using L%d = Lock<E%s>; using D%d = DynamicLock<E%s>;' % (i, ''.join(', ' + x for x in l), i, ''.join(', ' + x for x in l)))
    for i, p in enumerate(ps):
        for T in ('L%d', 'const L%d', 'D%d', 'const D%d'):
            t = T % i
            for c in range(3):
                claim('is_read_allowed<%s, %s>::value' % (CN[c], t), c in p.r, 'lock %s%s allows reading %s' % (t.rstrip('0123456789'), nm(ls[i]), CN[c]))
                claim('is_write_allowed<%s, %s>::value' % (CN[c], t), c in p.w, 'lock %s%s allows writing %s' % (t.rstrip('0123456789'), nm(ls[i]), CN[c]))
            claim('is_add_remove_allowed<%s>::value' % t, p.ar, 'lock %s%s allows adding and removing' % (t.rstrip('0123456789'), nm(ls[i])))
        # the read-only subset: reads what this lock reads, writes nothing
        src.append('using RO%d = decltype(std::declval<const L%d &>().ReadOnlySubset());' % (i, i))
        for c in range(3):
            claim('is_read_allowed<%s, RO%d>::value' % (CN[c], i), c in p.r, 'read-only subset of %s reads %s' % (nm(ls[i]), CN[c]))
            claim('is_write_allowed<%s, RO%d>::value' % (CN[c], i), False, 'read-only subset of %s writes %s' % (nm(ls[i]), CN[c]))
        claim('is_add_remove_allowed<RO%d>::value' % i, False, 'read-only subset of %s adds and removes' % nm(ls[i]))
    for i, s in enumerate(ps):
        for j, d in enumerate(ps):
            ok = subset(d, s)
            what = 'a lock %s is obtained from a lock %s' % (nm(ls[j]), nm(ls[i]))
            claim('std::is_constructible<L%d, const L%d &>::value' % (j, i), ok, what)
            # has_permissions answers no to a request for AddRemove even on an AddRemove lock (conservative: it grants nothing), so only "no" is claimed there
            if not (ok and d.ar): claim('L%d::has_permissions<%s>()' % (i, ', '.join(ls[j])), ok, 'has_permissions: ' + what)
            if not ok and j < 27: claim('L%d::has_permissions<L%d>()' % (i, j), False, 'the subset request is accepted: ' + what)
    # what access functions return
    for i, p in enumerate(ps):
        for c in (0, 2):
            if c in p.r:
                claim('std::is_const<std::remove_reference_t<decltype(std::declval<Entity>().Get<%s>(std::declval<const L%d &>()))>>::value' % (CN[c], i), c not in p.w, 'Get<%s> through %s is read-only' % (CN[c], nm(ls[i])))
                claim('std::is_const<std::remove_reference_t<decltype(std::declval<Entity>().Get<const %s>(std::declval<const L%d &>()))>>::value' % (CN[c], i), True, 'Get<const %s> through %s is read-only' % (CN[c], nm(ls[i])))
                claim('std::is_const<std::remove_reference_t<decltype(std::declval<Entity>().GetPrevious<%s>(std::declval<const L%d &>()))>>::value' % (CN[c], i), True, 'GetPrevious<%s> through %s is read-only' % (CN[c], nm(ls[i])))
        if 1 in p.r:
            claim('std::is_const<std::remove_reference_t<decltype(std::declval<const L%d &>().Get<v::G>())>>::value' % i, 1 not in p.w, 'global Get through %s is read-only' % nm(ls[i]))
            claim('std::is_const<std::remove_reference_t<decltype(std::declval<const L%d &>().Get<const v::G>())>>::value' % i, True, 'global Get<const> through %s is read-only' % nm(ls[i]))
    return '\n'.join(src) + '\n', claims

# (permissions that suffice, permissions that must not, statement)
RULES = [
    (['Write<v::A>'], ['Read<v::A>'], 'v::A a; e.Set<v::A>(lock, a);', 'setting a component without write permission'),
    (['Write<v::A>'], ['ReadAll', 'Write<v::B>'], 'e.Set<v::A>(lock);', 'setting a component without write permission for it'),
    (['Read<v::A>'], ['Write<v::B>'], 'e.Get<const v::A>(lock);', 'reading a component without read permission'),
    (['Read<v::A>'], ['Read<v::B>'], 'e.GetPrevious<v::A>(lock);', 'reading the previous value without read permission'),
    (['Write<v::A>'], ['Read<v::A>'], 'v::A &a = e.Get<v::A>(lock); (void)a;', 'a mutable reference from a read lock'),
    (['AddRemove'], ['WriteAll'], 'e.Unset<v::A>(lock);', 'removing a component without add/remove permission'),
    (['AddRemove'], ['WriteAll'], 'e.Destroy(lock);', 'destroying an entity without add/remove permission'),
    (['AddRemove'], ['WriteAll'], 'lock.NewEntity();', 'creating an entity without add/remove permission'),
    (['AddRemove'], ['WriteAll'], 'lock.Unset<v::G>();', 'removing a global component without add/remove permission'),
    (['AddRemove'], ['WriteAll'], 'auto o = lock.Watch<EntityEvent>(); lock.StopWatching(o);', 'observing without add/remove permission'),
    (['Write<v::G>'], ['Read<v::G>'], 'v::G g; lock.Set<v::G>(g);', 'setting a global component without write permission'),
    (['Write<v::G>'], ['ReadAll'], 'lock.Set<v::G>();', 'setting a global component without write permission'),
    (['Read<v::G>'], ['Write<v::A>'], 'lock.Get<const v::G>();', 'reading a global component without read permission'),
    (['Read<v::G>'], ['Read<v::A>'], 'lock.GetPrevious<v::G>();', 'reading the previous global value without read permission'),
    (['WriteAll'], ['Write<v::A>'], 'auto s = lock.Subset<Write<v::B>>(); (void)s;', 'a subset with a permission that is not held'),
    (['AddRemove'], ['WriteAll'], 'auto s = lock.Subset<AddRemove>(); (void)s;', 'an add/remove subset of a lock without it'),
    (['Write<v::A>'], ['Read<v::A>'], 'DynamicLock<E, Write<v::A>> d(lock);', 'a dynamic lock with a permission that is not held'),
]
def rule_src(perms, stmt):
    return PRE + 'void f(const Lock<E, %s> &lock, Entity &e) { (void)e; %s }\n' % (', '.join(perms), stmt)

def clang(path, repo):
    return subprocess.run(['clang++', '-fsyntax-only', '-w', '-std=c++17', '-I' + os.path.join(repo, 'inc'), '-ferror-limit=0', '-ftemplate-backtrace-limit=1', path], capture_output=True, text=True)
def run(build, repo):
    """-> (number of claims decided to hold, [(text, program)] violated, [notes])"""
    d = os.path.join(build, 'static'); os.makedirs(d, exist_ok=True)
    held, bad, notes = 0, [], []
    src, claims = matrix()
    jobs = []
    mp = os.path.join(d, 'matrix.cpp'); open(mp, 'w').write(src)
    for k, (good, ill, stmt, text) in enumerate(RULES):
        for kind, perms in (('ok', good), ('bad', ill)):
            p = os.path.join(d, 'rule%d_%s.cpp' % (k, kind)); open(p, 'w').write(rule_src(perms, stmt)); jobs.append(p)
    with ThreadPoolExecutor(8) as pool: res = dict(zip([mp] + jobs, pool.map(lambda p: clang(p, repo), [mp] + jobs)))
    r = res[mp]
    fails = set()
    other = []
    for l in r.stderr.splitlines():
        if ' error: ' not in l: continue
        m = re.search(r'static assertion failed[^#]*#(\d+)', l)
        if m: fails.add(int(m[1]))
        else: other.append(l)
    if other: notes.append('permission matrix does not compile: ' + other[0][:200])
    else:
        held += len(claims) - len(fails)
        for k in sorted(fails): bad.append(('the types say otherwise: ' + claims[k], [l for l in src.splitlines() if '"#%d"' % k in l][0]))
    for k, (good, ill, stmt, text) in enumerate(RULES):
        g, b = (res[os.path.join(d, 'rule%d_%s.cpp' % (k, kind))] for kind in ('ok', 'bad'))
        if g.returncode != 0:
            notes.append('rule "%s": the permitted use does not compile: %s' % (text, g.stderr[:200])); continue
        if b.returncode == 0: bad.append(('the compiler accepts ' + text, rule_src(ill, stmt)))
        else: held += 1
    return held, bad, notes
if __name__ == '__main__':
    import time; t = time.time()
    h, b, n = run('/tmp/w/st', '/repo'); print(h, len(b), n, time.time() - t)
    for x in b[:10]: print(x)
