"""C23: the C++ interface against the C interface; C24: Python; C25: Java (in suite_bind)."""
import json, math, hashlib, copy
import build, adapt, gen
import suite_hdb, suite_an, suite_life
from suite_hdb import chk
from suite_rel import digest, PIPE, ANA

# ------------------------------------------------------------------ two recordings side by side
def close(a, b, rel=1e-9, ab=1e-9):
    if a != a or b != b: return a != a and b != b
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))
def degenerate(v): return not (v[2] > 0 and v[1] > 1e-6 * abs(v[0]))          # mean, sd, variance, max, kurtosis, skewness
def align(a, b, st):
    """events of both recordings without what may differ: the order of groups, of ties, rounding of sums over another order"""
    k = a['e']
    if k != b['e']: return a, b
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    for e in (a, b):
        e.pop('tsize', None)
        if k in ('cmap', 'minmax', 'mkdm', 'conf') and 'm' in e: e['m'] = sorted(e['m'])
    if k in ('sort', 'qsort'):
        for e in (a, b): e['out'] = sorted(map(json.dumps, e['out']))
    if k == 'stats':
        for f in ('cr', 'dr'):
            x, y = a[f], b[f]; dg = degenerate(x) or degenerate(y)
            st[f] = dg or min(abs(x[4]), abs(x[5]), abs(y[4]), abs(y[5])) < 1e-7
            for i in range(6):
                if dg and i in (1, 2, 4, 5): y[i] = x[i] = 0.0 if (x[i] == x[i]) == (y[i] == y[i]) or abs(x[1]) < 1e-6 * abs(x[0]) or abs(y[1]) < 1e-6 * abs(y[0]) else x[i]
                elif close(x[i], y[i]): y[i] = x[i]
    elif k in ('minmax', 'conf', 'mkdm') and len(a.get('m', [])) == len(b.get('m', [])):
        for x, y in zip(a['m'], b['m']):
            for i in (5, 6):
                if close(x[i], y[i]): y[i] = x[i]
    elif k == 'analyse' and (st.get('cr') or st.get('dr')): a['v'] = b['v'] = 0
    return a, b
def name(e): return e['e'] + (' ' + e['op'] if 'op' in e else '')
def beside(ref, raw, sid):
    st = {}; A, B = [], []
    for i in range(max(len(ref['ev']), len(raw['ev']))):
        x = ref['ev'][i] if i < len(ref['ev']) else None; y = raw['ev'][i] if i < len(raw['ev']) else None
        if x and y: x, y = align(x, y, st)
        if x: A.append([name(x), digest(x)])
        if y: B.append([name(y), digest(y)])
    return dict(id=sid, a=A, b=B, acrash=int(ref['end'] != 'ok'), bcrash=int(raw['end'] != 'ok'))

def conform_beside(c, scens, pid, refbin, binary, **kw):
    ref = c.run(scens, refbin)
    scens = [s for s in scens if ref[s['id']]['end'] == 'ok']
    c.conform('Same', scens, lambda raw, s: beside(ref[s['id']], raw, s['id']), chk(pid), binary=binary, **kw)
    return scens

# ------------------------------------------------------------------ C23
def steps(r, tag, count, nmax):
    """the stages of a run one by one, after other operations"""
    out = []
    for j in range(count):
        n = r.randint(1, nmax); pts = gen.rnd_points(r, n, gen.dims(r, 1, 3), r.choice(gen.KINDS)); r.shuffle(pts); mp = r.randint(2, 5)
        s = gen.hdb('%s%d' % (tag, j), pts, mp)
        L = s['lines']; i = L.index('obj 0 run 0')
        L[i] = 'obj 0 steps 0 0'
        if r.random() < .3: L.insert(i, 'obj 0 run 0')
        if r.random() < .3: L.insert(len(L) - 1, 'obj 0 rerun %d' % r.randint(2, 5)); L.insert(len(L) - 1, 'obj 0 dump cmhtls')
        out.append(s)
    return out
def lives(r, tag, count, objs, nmax):
    """random histories of several objects with analyses, without expectations"""
    out = []
    for j in range(count):
        g = suite_life.Group(None, '%s%d' % (tag, j), r, 2, 2, nmax); g.base = {}
        if r.random() < .4: g.mps[0] = 3
        out.append(suite_life.scen(g, '%s%d' % (tag, j), suite_life.text(suite_life.rnd_hist(r, objs, 2, 2, r.choice([6, 10, 18])), g.mps)))
    return out
def empties(tag):
    """sorts of nothing"""
    return [dict(id=tag + 'len', lines=['labs 0 1 0', 'cmaparr 0 0 0 0', 'sort len 0 0 null', 'sortfree 0', 'mapfree 0', 'mem'], mode='exact', data=[], base={}),
            dict(id=tag + 'sim', lines=['mkdm 0', 'sort sim0 0 0 null', 'sortfree 0', 'sort sim1 0 0 null', 'sortfree 0', 'dmfree 0', 'mem'], mode='exact', data=[], base={})]
def c23(c):
    r = c.rng; C = build.hx(); X = build.hx(cpp=True); A = build.hx(san='asan', cpp=True)
    hs = suite_life.lives(c, 1, 2, 2, ('heap', 'st'), False, True, 4 if c.quick else 5) + suite_life.lives(c, 1, 1, 2, ('heap', 'st'), True, True)
    rnd = 0
    while True:
        f = 1 if c.quick else 4; T = 'q%d_' % rnd
        pipe = suite_hdb.randoms(r, T + 'r', 120 * f, 30, modes=('exact', 'exact', 'rank')) + suite_hdb.big(r, T + 'b', [(80, 'clus'), (110, 'nest')]) + steps(r, T + 's', 60 * f, 25)
        ana = (suite_an.maps(r, T + 'm', 40 * f) + suite_an.rnd(r, T + 'a', 120 * f, 30) + suite_an.dmaps(r, T + 'd', 60 * f) + suite_an.qsorts(r, T + 'q', 100 * f, 4 if rnd == 0 else 0)
               + suite_an.sortmaps(r, T + 'o', 40 * f) + (suite_an.grades(T + 'g') + suite_an.exh_maps(T + 'e', (1, 2, 3), 3) + empties(T + '_em') if rnd == 0 else []))
        liv = lives(r, T + 'l', 80 * f, 2, 20)
        if rnd == 0:
            gs = [suite_life.Group(c, 'g%d' % i, r, 2, 2, 20, mps=[3, 2] if i % 2 else None) for i in range(12)]
            for g in gs: g.base = {}
            liv += [suite_life.scen(g, 'h%d' % i, suite_life.text(h, g.mps)) for i, h in enumerate(r.sample(hs, min(len(hs), 400 if c.quick else 4000))) for g in [r.choice(gs)]]
        conform_beside(c, pipe + ana + liv, 'C23', C, X)
        if c.viol: return
        # orders up to ties, and what C++ holds is released
        good = c.sound('AnTrace', [s for s in ana if '_em' not in s['id']], suite_an.an, ANA, C)
        c.conform('AnTrace', good, lambda raw, s: suite_an.an(raw, s), ANA.replace('"C2', '"C2'), binary=X)
        if c.viol: return
        mem = [dict(s, id=s['id'] + '_m', base={}, lines=s['lines'] + ['mem']) for s in r.sample(liv + ana, min(len(liv + ana), 150 * f))]
        mem = c.sound('LifeTrace', mem, suite_life.life, chk('C10'), C)
        c.conform('LifeTrace', mem, suite_life.life, chk('C10'), binary=X)
        if c.viol: return
        san = [dict(s, id=s['id'] + '_s', base={}) for s in r.sample(liv + ana + pipe, min(len(liv + ana + pipe), 120 * f))]
        san = c.sound('LifeTrace', san, suite_life.life, chk('C10'), C)
        c.conform('LifeTrace', san, suite_life.life, chk('C10'), binary=A, env=suite_life.SANENV, cpu=40)
        rnd += 1
        if c.viol or c.quick or c.left() < 150: return

CHECKS = {'C23': c23}
