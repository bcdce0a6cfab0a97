"""Checks of the analyses of a clustering against AnBase (C19-C22)."""
import math, random
import build, adapt, gen
from suite_hdb import chk
BAD, NANL = adapt.BAD, adapt.NANL

def near(x, scale=0.0):
    if x != x: return NANL
    if abs(x) > 2**31 - 1: return BAD
    r = round(x)
    return r if abs(x - r) <= 1e-9 * max(scale, abs(x)) + 1e-9 else BAD

def moments(v, n):
    mean, sd, var, mx, kurt, skew = v
    g = 1.0 if n and abs(mean - round(mean if mean == mean and abs(mean) < 1e9 else 0)) <= 1e-9 else float(n)    # deviations from an integer mean as they are
    s3 = skew * n * (g * sd) ** 3; s4 = (kurt + 3) * n * g ** 4 * var * var
    return dict(max=near(mx), s1=near(mean * n), s2=near(var * g * g * (n - 1)) if n else BAD,
                sd=NANL if sd != sd else 1 if abs(sd * sd - var) <= 1e-12 * abs(var) else 0,
                s3=near(s3, n * (g * sd) ** 3 if sd == sd else 0), s4=near(s4, n * g ** 4 * var * var if var == var else 0))
def sign(x): return 2 if x != x else (x > 0) - (x < 0)

def an(raw, scen):
    """the abstraction of analysis events; levels as in adapt.hdb"""
    out = adapt.hdb(raw, scen)
    L = adapt.Levels(scen['mode'], scen.get('scale', 1.0))
    if scen['mode'] == 'rank':
        for e in raw['ev']:
            if e['e'] == 'dist':
                for r in e['d']: L.learn(r)
            elif e['e'] == 'core': L.learn(e['c'])
    L.close()
    lv = L.lv
    confs = sorted({x for e in raw['ev'] if e['e'] in ('minmax', 'mkdm', 'conf') for m in e['m'] for x in m[5:7] if x == x})
    rk = {x: i for i, x in enumerate(confs)}
    qk = sorted({m[1] for e in raw['ev'] if e['e'] == 'qsort' for m in e['in'] + e['out']})
    last = None
    for o, e in zip(out['ev'], raw['ev']):
        k = e['e']
        if k in ('minmax', 'mkdm', 'conf'):
            o['m'] = []
            for m in e['m']:
                c6 = c7 = BAD
                if k == 'conf' and last:
                    c6 = near(m[5] * last['cr'][3] / 100, last['cr'][3]); c7 = near(m[6] * last['dr'][3] / 100, last['dr'][3])
                o['m'].append([m[0]] + [lv(x) for x in m[1:5]] + [c6, c7] + [rk.get(x, NANL) for x in m[5:7]])
        elif k == 'stats':
            last = e
            for f in ('cr', 'dr'): o[f] = moments(e[f], e['count'])
            o['sg'] = [sign(e['cr'][5]), sign(e['cr'][4]), sign(e['dr'][5]), sign(e['dr'][4])]
        elif k == 'validity': o['g'] = [sign(e['sc']), sign(e['kc']), sign(e['sd']), sign(e['kd'])]; [o.pop(f, None) for f in ('sc', 'kc', 'sd', 'kd')]
        elif k == 'qsort':
            qr = {x: i for i, x in enumerate(qk)}
            for f in ('in', 'out'): o[f] = [[m[0], qr[m[1]]] for m in e[f]]
    return out

# ------------------------------------------------------------------ scenarios
def analyses(r, sid, pts, mp, labels=None, begin=0, end=None, scale=1.0, mode='exact', sorts=True):
    """a run, its groups (by its own labels or by given ones), extremes, statistics, validity and sorts"""
    n = len(pts)
    lines = [gen.data_line(0, 'd', pts, 1, scale), 'obj 0 init %d' % mp, 'obj 0 run 0'] + (['obj 0 dump d'] if mode == 'rank' else [])
    if mode == 'rank': lines.append('obj 0 dump c')
    if labels is None: lines += ['obj 0 dump l', 'cmap 0 0']; ls = None
    else: lines += ['labs 0 %d %s' % (n, ' '.join(map(str, labels))), 'cmaparr 0 0 %d %d' % (begin, n if end is None else end)]; ls = sorted(set(labels[begin:end]))
    lines += ['minmax 0 0 0', 'stats 0 0', 'analyse 0']
    if sorts and ls is not None:
        for w in ('len', 'sim0', 'sim1'):
            lines.append('sort %s 0 0 null' % w); lines.append('sortfree 0')
            sub = [r.choice(ls) for _ in range(r.randint(1, 2 * len(ls)))] if r.random() < .5 else r.sample(ls, r.randint(1, len(ls)))
            lines.append('sort %s 0 0 list %s' % (w, ' '.join(map(str, sub)))); lines.append('sortfree 0')
    elif sorts:
        for w in ('len', 'sim0', 'sim1'): lines += ['sort %s 0 0 null' % w, 'sortfree 0', 'sort %s 0 0 list' % w, 'sortfree 0']
    lines += ['dmfree 0', 'mapfree 0', 'obj 0 destroy']
    return dict(id=sid, lines=lines, mode=mode, scale=scale, data=[[list(p) for p in pts] if mode == 'exact' else None])

def labelling(r, n):
    k = r.randint(0, 5)
    pool = r.choice([[0, 1, 2, 3], [0, 2, 3], [5], [0], list(range(12)), [0, 37, 74, 111, 148], [1, 2**31 - 1, 2**31 - 2, 0], [r.randint(0, 10**6) for _ in range(6)], list(range(0, 1000, 7))])
    if k == 0: return [r.choice(pool) for _ in range(n)]
    if k == 1: return sorted(r.choice(pool) for _ in range(n))
    if k == 2: return [pool[i % len(pool)] for i in range(n)]
    if k == 3: return sorted((r.choice(pool) for _ in range(n)), reverse=True)
    return [r.choice(pool[:2]) if r.random() < .7 else r.choice(pool) for _ in range(n)]

def rnd(r, p, count, nmax=30):
    out = []
    for j in range(count):
        n = r.randint(1, nmax); kind = r.choice(gen.KINDS); dim = r.choice([1, 1, 1, 2, 3])
        pts = gen.rnd_points(r, n, dim, kind); r.shuffle(pts)
        mp = r.randint(2, 5); sc = 2.0 ** r.choice([0, 0, 0, -4, 6, -40, 50, -110])
        if r.random() < .15:
            re = [[v + r.gauss(0, .4) for v in q] for q in pts] if r.random() < .6 else gen.rnd_near(r, [list(q) for q in {tuple(q) for q in pts}])
            n = len(re); r.shuffle(re); out.append(analyses(r, '%s%d_re' % (p, j), re, mp, None if r.random() < .5 else labelling(r, n), mode='rank')); continue
        if r.random() < .35: out.append(analyses(r, '%s%d_own' % (p, j), pts, mp, None, scale=sc)); continue
        lab = labelling(r, n); b = r.choice([0, 0, 0, r.randint(0, n - 1)]); e = r.choice([n, n, n, r.randint(b + 1, n)])
        if r.random() < .4:
            k = r.randint(1, max(1, n // 3)); lab = [i % k for i in range(n)]; r.shuffle(lab)
        out.append(analyses(r, '%s%d_lab' % (p, j), pts, mp, lab, b, e, scale=sc))
    return out

def maps(r, p, count):
    """groupings of label arrays alone, any sub-range"""
    out = []
    for j in range(count):
        lines = []
        n = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 20, 33, 60, 150])
        for s in range(r.randint(1, 3)):
            lab = labelling(r, n) if r.random() < .6 else [r.randint(0, n) for _ in range(n)]
            lines.append('labs %d %d %s' % (s, n, ' '.join(map(str, lab))))
            for q in range(r.randint(1, 3)):
                b = r.choice([0, 0, r.randint(0, n)]); e = r.choice([n, n, r.randint(b, n)])
                lines += ['cmaparr %d %d %d %d' % (s, s, b, e)]
                lines += ['sort len %d 0 null' % s, 'sortfree 0', 'sort len %d 0 list' % s, 'sortfree 0']
                lines.append('mapfree %d' % s)
        out.append(dict(id='%s%d' % (p, j), lines=lines, mode='exact', data=[]))
    return out

def exh_maps(p, ns, k):
    import itertools
    out = []; j = 0
    for n in ns:
        for lab in itertools.product(range(k), repeat=n):
            out.append(dict(id='%s%d' % (p, j), lines=['labs 0 %d %s' % (n, ' '.join(map(str, lab))), 'cmaparr 0 0 0 %d' % n, 'sort len 0 0 null', 'sortfree 0', 'mapfree 0'], mode='exact', data=[])); j += 1
    return out

def whole(r, n, top):
    """n ratios from 1 to top whose sum is a multiple of n"""
    v = [r.randint(1, top) for _ in range(n)]; i = 0
    if r.random() < .5: v = [1 + (x > top - 1) * (top - 1) for x in v]
    while sum(v) % n:
        if v[i % n] < top: v[i % n] += 1
        i += 1
    r.shuffle(v); return v

def dmaps(r, p, count):
    """statistics of given distance maps with integer ratios"""
    out = []
    for j, n in enumerate([300, 513, 64, 130, 257][:5 if count > 200 else 2]):       # many clusters, ratios whose mean is an integer
        lines = []
        for q in range(2):
            keys = r.sample(range(0, 5000), n) if q else list(range(n)); ent = []
            A, B = whole(r, n, 12), whole(r, n, r.choice([3, 25]))
            for i in range(n):
                u, v = 2 ** r.randint(0, 4), 2 ** r.randint(0, 4)
                ent.append('%d %d %d %d %d 0 0' % (keys[i], u, u * A[i], v, v * B[i]))
            lines += ['mkdm %d %s' % (q, ' '.join(ent)), 'stats %d %d' % (q, q), 'analyse %d' % q]
            for w in ('sim0', 'sim1'): lines += ['sort %s %d 0 null' % (w, q), 'sortfree 0']
            lines.append('dmfree %d' % q)
        out.append(dict(id='%sbig%d' % (p, j), lines=lines, mode='exact', data=[]))
    for j in range(count):
        lines = []
        for q in range(r.randint(1, 3)):
            n = r.choice([1, 2, 3, 4, 5, 6, 8, 10]); top = max(1, 120 // n); same = r.random() < .15
            keys = r.sample(range(0, 60), n); ent = []
            def rs():
                k = r.randint(0, 3)
                if same: return [top // 2 or 1] * n
                if k == 0: return [r.randint(1, top) for _ in range(n)]
                if k == 1: return [1] * (n - 1) + [top]
                if k == 2: return [r.choice([1, top]) for _ in range(n)]
                return [r.randint(1, min(top, 3)) for _ in range(n)]
            A, B = rs(), rs()
            for i in range(n):
                u, v = 2 ** r.randint(0, 4), 2 ** r.randint(0, 4)
                ent.append('%d %d %d %d %d %d %d' % (keys[i], u, u * A[i], v, v * B[i], 0, 0))
            lines += ['mkdm %d %s' % (q, ' '.join(ent)), 'stats %d %d' % (q, q), 'analyse %d' % q]
            for w in ('sim0', 'sim1'):
                lines += ['sort %s %d 0 null' % (w, q), 'sortfree 0', 'sort %s %d 0 list %s' % (w, q, ' '.join(map(str, r.sample(keys, r.randint(1, n))))), 'sortfree 0']
            if r.random() < .5: lines += ['stats %d %d' % (q, q)]     # again on the same map
            lines.append('dmfree %d' % q)
        out.append(dict(id='%s%d' % (p, j), lines=lines, mode='exact', data=[]))
    return out

def grades(p):
    import itertools
    v = ['-1.5', '-1e-300', '0', '-0.0', '1e-300', '2.5', 'nan']
    lines = ['validity ' + ' '.join(q) for q in itertools.product(v, repeat=4)]
    return [dict(id='%s%d' % (p, i), lines=lines[i::8], mode='exact', data=[]) for i in range(8)]

def qsorts(r, p, count, exh=5):
    import itertools
    out = []; j = 0; lines = []
    for n in range(0, exh + 1):
        for keys in itertools.product(range(min(n, 4) or 1), repeat=n): lines.append('qsort %d %s %s' % (n, ' '.join(str(10 + i) for i in range(n)), ' '.join(map(str, keys))))
    for _ in range(count):
        n = r.randint(2, 80); k = r.choice([2, 5, n, 10 * n]); keys = [r.randint(-k, k) / 4.0 for _ in range(n)]
        if r.random() < .3: keys.sort(reverse=r.random() < .5)
        lines.append('qsort %d %s %s' % (n, ' '.join(str(r.randint(0, 9)) for i in range(n)), ' '.join('%g' % x for x in keys)))
    m = max(8, len(lines) // 40)
    return [dict(id='%s%d' % (p, i), lines=lines[i::m], mode='exact', data=[]) for i in range(m)]

def sortmaps(r, p, count):
    """sorting by given confidences, with ties"""
    out = []
    for j in range(count):
        n = r.randint(1, 25); keys = r.sample(range(100), n); k = r.choice([1, 3, 100])
        lines = ['mkdm 0 ' + ' '.join('%d 1 2 1 2 %g %g' % (x, r.randint(0, k) / 2.0, r.randint(-k, k) / 4.0) for x in keys)]
        for w in ('sim0', 'sim1'):
            for _ in range(2):
                sub = [r.choice(keys) for _ in range(r.randint(1, 2 * n))] if r.random() < .5 else r.sample(keys, r.randint(1, n))
                lines += ['sort %s 0 0 list %s' % (w, ' '.join(map(str, sub))), 'sortfree 0']
            lines += ['sort %s 0 0 null' % w, 'sortfree 0', 'sort %s 0 0 list' % w, 'sortfree 0']
        lines.append('dmfree 0')
        out.append(dict(id='%s%d' % (p, j), lines=lines, mode='exact', data=[]))
    return out

CFG = 'SPECIFICATION Spec\nINVARIANTS ExtOk SortOk InBounds\nPROPERTY Ends\nCONSTANTS Vals = {%s}\nMaxN = %d\nWhat = "%s"\nCHECK_DEADLOCK FALSE\n'
def model(c, what):
    v, n = {('ext', 1): ('0, 1, 3', 3), ('ext', 0): ('0, 1, 2, 5', 3), ('sort', 1): ('0, 1, 2, 3', 5), ('sort', 0): ('0, 1, 2, 3, 4', 6)}[(what, int(c.quick))]
    c.model('AnModel', CFG % (v, n, what), '%s: values {%s}, up to %d elements' % (what, v, n), timeout=600)

def check(c, pid, parts):
    r = c.rng
    if pid == 'C20': model(c, 'ext')
    if pid == 'C22': model(c, 'sort')
    def suite(i, f):
        out = []
        if 'map' in parts: out += maps(r, 'm%d_' % i, 150 * f)
        if 'run' in parts: out += rnd(r, 'r%d_' % i, 300 * f, 30 if i < 1 else 45) + rnd(r, 'R%d_' % i, 16 * f, 150)
        if 'dm' in parts: out += dmaps(r, 'd%d_' % i, 200 * f)
        if 'q' in parts: out += qsorts(r, 'q%d_' % i, 400 * f, 5 if i < 1 else 0) + sortmaps(r, 's%d_' % i, 120 * f)
        return out
    sc = suite(0, 1)
    if 'map' in parts:
        sc += exh_maps('e', (1, 2, 3, 4) if c.quick else (1, 2, 3, 4, 5), 4 if c.quick else 5)
        n = 5200; lab = [(i * 7919) % 13 if i % 3 else 4 for i in range(n)]     # more buckets than the table of primes covers
        sc.append(dict(id='long', lines=['labs 0 %d %s' % (n, ' '.join(map(str, lab))), 'cmaparr 0 0 0 %d' % n, 'mapfree 0'], mode='exact', data=[]))
    if 'q' in parts:
        sc.append(dict(id='empty', lines=['labs 0 1 0', 'cmaparr 0 0 0 0', 'mkdm 0'] + [l for w in ('len', 'sim0', 'sim1') for x in ('null', 'list') for l in ('sort %s 0 0 %s' % (w, x), 'sortfree 0')] + ['mapfree 0', 'dmfree 0'], mode='exact', data=[]))
    if 'grade' in parts: sc += grades('g')
    c.conform('AnTrace', sc, an, chk(pid))
    i = 1
    while not c.quick and c.left() > 90 and not c.viol and i < 60:
        c.conform('AnTrace', suite(i, 4), an, chk(pid)); i += 1

CHECKS = {
    'C19': lambda c: check(c, 'C19', ('map', 'run')),
    'C20': lambda c: check(c, 'C20', ('run', 'dm')),
    'C21': lambda c: check(c, 'C21', ('run', 'dm', 'grade')),
    'C22': lambda c: check(c, 'C22', ('run', 'dm', 'q')),
}
