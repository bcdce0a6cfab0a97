"""Checks of the clustering pipeline against HdbBase (C01-C09, C13, C14, C28)."""
import json, random, subprocess, os
import build, adapt, gen, tlc

MODEL_CFG = 'SPECIFICATION Spec\nINVARIANTS TypeOK %s\nCONSTANTS Ns = {%s}\nCoords = {%s}\nMPs = {%s}\nReruns = %d\nCompact = %s\nCHECK_DEADLOCK FALSE\n'
INV = {'C02': 'InvCore', 'C03': 'InvMst InvMinimax', 'C04': 'InvHierarchy InvRows InvEnd', 'C05': 'InvTree',
       'C06': 'InvOptimal', 'C07': 'InvLabels', 'C08': 'InvScores', 'C31': 'InvCompact InvHierarchy InvTree InvOptimal InvLabels InvScores', 'C09': 'InvFresh InvEnd InvHierarchy InvLabels InvScores'}

def design(c, pid):
    """the operational model within small constants"""
    if pid not in INV: return
    if pid == 'C02': import suite_parts; suite_parts.core_model(c)
    if pid == 'C09':
        cfgs = [('3, 4', '0, 1, 2', '2, 3', 1)] if c.quick else [('3, 4', '0, 1, 2, 4', '2, 3, 4', 2), ('5', '0, 1, 3', '2, 3', 1)]
    elif c.quick: cfgs = [('1, 2, 3, 4, 5', '0, 1, 2, 4', '2, 3', 0)]
    else: cfgs = [('1, 2, 3, 4, 5', '0, 1, 2, 4, 5', '2, 3, 4', 0), ('6', '0, 1, 3, 4, 8', '2, 3', 0)]
    for i, (ns, co, mp, rr) in enumerate(cfgs):
        c.model('HdbModel', MODEL_CFG % (INV[pid], ns, co, mp, rr, 'TRUE' if pid == 'C31' else 'FALSE'), 'n in {%s}, coordinates in {%s}, minimum points in {%s}, %d reruns' % (ns, co, mp, rr),
                timeout=500, optional=(i > 0))

def chk(*p): return 'Chk = {%s}' % ', '.join('"%s"' % x for x in p)

def exhaustive(prefix, ns, gaps, mps, dump='dcmhtls', **kw):
    out = []; i = 0
    for n in ns:
        for pts in gen.line_sets(n, gaps):
            for mp in mps:
                out.append(gen.hdb('%s%d' % (prefix, i), pts, mp, dump=dump, **kw)); i += 1
    return out

def randoms(r, prefix, count, nmax, dump='dcmhtls', kinds=gen.KINDS, reruns=True, modes=('exact', 'rank'), mpmax=6, nmin=1, types='dfilsc'):
    out = []
    for j in range(count):
        n = r.randint(nmin, nmax); k = r.choice(kinds); dim = gen.dims(r, 1, 4, .04, 300); mp = r.randint(2, mpmax)
        pts = gen.rnd_points(r, n, dim, k); r.shuffle(pts)
        rr = [r.randint(2, mpmax) for _ in range(r.choice([0, 0, 1, 2]))] if reruns else []
        mode = r.choice(modes)
        if mode == 'rank':
            if r.random() < .35: pts = gen.rnd_near(r, [list(q) for q in {tuple(p) for p in pts}])
            else: pts = [[v + r.gauss(0, .3) for v in p] for p in pts]
            if r.random() < .2: pts = [[v * 10.0 ** r.choice([-6, 5]) for v in p] for p in pts]
            out.append(gen.hdb('%s%d_%s' % (prefix, j, k), pts, mp, reruns=rr, mode='rank', dump=dump if 'd' in dump else 'd' + dump))
            continue
        typ = r.choice([t for t in types if gen.ok_for(t, pts)])
        sc = gen.rnd_scale(r, typ, pts)
        rw = 1 if r.random() < .9 else 0
        if not rw: pts = [p[:4] for p in pts[:max(1, nmax // 4)]]
        out.append(gen.hdb('%s%d_%s%s' % (prefix, j, k, typ), pts, mp, typ=typ, scale=sc, rowwise=rw, reruns=rr, dump=dump, off=r.choice([0, 0, 1, 3])))
    return out

def big(r, prefix, sizes, dump='dcmhtls', mps=(3, 5, 8, 12)):
    return [gen.hdb('%s%d_%d' % (prefix, i, n), gen.rnd_points(r, n, r.randint(1, 3), k), r.choice(mps), dump=dump)
            for i, (n, k) in enumerate(sizes)]
def larger(r, prefix, count, lo, hi, dump='dcmhtls', types='dfilsc', kinds=gen.KINDS, reruns=True):
    """larger data of every kind, also of other types, near ties and with reruns"""
    out = []
    for i in range(count):
        n = r.randint(lo, hi); k = kinds[i % len(kinds)]; dim = r.choice([1, 1, 2, 3, 5, 12]); pts = gen.rnd_points(r, n, dim, k)
        mp = r.choice([2, 2, 3, 4, 5, 8, 13, 30, 30, n // 2 + 2]); rr = [r.choice([2, 3, 6, 17])] if reruns and r.random() < .3 else []
        if r.random() < .25:
            pts = gen.rnd_near(r, [list(q) for q in {tuple(p) for p in pts}]) if r.random() < .5 else [[v + r.gauss(0, .3) for v in p] for p in pts]
            r.shuffle(pts); out.append(gen.hdb('%s%d_%s' % (prefix, i, k), pts, mp, reruns=rr, mode='rank', dump=dump if 'd' in dump else 'd' + dump)); continue
        typ = r.choice([t for t in types if gen.ok_for(t, pts)])
        out.append(gen.hdb('%s%d_%s%s' % (prefix, i, k, typ), pts, mp, typ=typ, scale=gen.rnd_scale(r, typ, pts), reruns=rr, dump=dump))
    return out

def std(c, pid, dump):
    """the common suite of the pipeline properties"""
    r = c.rng
    design(c, pid)
    if c.quick:
        sc = exhaustive('x', (1, 2, 3, 4, 5), (0, 1, 2, 4), (2, 3), dump) + exhaustive('y', (5, 6), (1, 2, 5), (2, 3, 4), dump)
        if len(sc) > 900: sc = r.sample(sc, 900)
        sc += randoms(r, 'r', 420, 36, dump) + big(r, 'b', [(60, 'clus'), (64, 'nest'), (70, 'grid'), (90, 'clus')], dump)
        c.conform('HdbTrace', sc + larger(r, 'L', 32, 60, 240, dump) + gen.ties(r, 't', 120, dump), adapt.hdb, chk(pid))
    else:
        c.conform('HdbTrace', exhaustive('x', (1, 2, 3, 4, 5), (0, 1, 2, 4), (2, 3, 4), dump) + exhaustive('y', (6,), (0, 1, 2, 4), (2, 3), dump)
                  + exhaustive('z', (7,), (0, 1, 3), (2, 3), dump) + gen.ties(r, 't', 1000, dump), adapt.hdb, chk(pid))
        i = 0
        while c.left() > 120 and not c.viol and i < 40:
            c.conform('HdbTrace', randoms(r, 'r%d_' % i, 700, 44, dump, mpmax=9) + big(r, 'b%d_' % i, [(r.randint(60, 150), r.choice(gen.KINDS)) for _ in range(6)], dump)
                      + larger(r, 'L%d_' % i, 16, 60, 330, dump), adapt.hdb, chk(pid))
            i += 1

def c01(c):
    r = c.rng
    def suite(k, count):
        out = []
        for j in range(count):
            typ = r.choice('dfilsc'); kind = r.choice(gen.KINDS)
            n = r.choice([1, 2, 3, 5, 8, 13, 20]); dim = r.randint(1, 7)
            pts = gen.rnd_points(r, n, dim, kind)
            while not gen.ok_for(typ, pts): pts = gen.rnd_points(r, n, dim, r.choice(['grid', 'dup', 'wide']))
            if r.random() < .5: pts = [[-v for v in p] for p in pts]
            rw = 1 if r.random() < .7 else 0
            sc = gen.rnd_scale(r, typ, pts)
            out.append(gen.hdb('d%d_%d%s' % (k, j, typ), pts, r.randint(2, 4), typ=typ, scale=sc, rowwise=rw, dump='d', off=r.choice([0, 1, 2, 5]), reruns=[2] if r.random() < .2 else [], inf=False))
        return out
    def wide(k, count):
        """points of many coordinates"""
        out = []
        for j in range(count):
            typ = r.choice('dfilsc'); n = r.choice([2, 3, 4, 7]); dim = r.choice(gen.WIDE + [r.randint(8, 80)] * 12 + [4099, 9001])
            pts = gen.rnd_points(r, n, dim, r.choice(['grid', 'dup', 'wide', 'clus']))
            if r.random() < .4:                  # all but one coordinate the same
                base = pts[0]; w = r.choice([0, 1, dim - 1, dim - 1, dim - 2, dim // 2, r.randrange(dim)])
                pts = [[v if q != w else p[q] + i for q, v in enumerate(base)] for i, p in enumerate(pts)]
            out.append(gen.hdb('w%d_%d%s' % (k, j, typ), pts, 2, typ=typ, scale=gen.rnd_scale(r, typ, pts), dump='d', off=r.choice([0, 1, 2, 5]), inf=False))
        return out
    def extremes():
        """coordinates at the ends of the integer types"""
        out = []
        for typ, hi, s in (('c', 127, 1), ('s', 32767, 1), ('i', 2**31 - 1, 2**20), ('l', 2**53, 2**45)):
            u = hi // s
            for j, pts in enumerate(([[u], [-u], [0], [1], [-1]], [[u, u], [-u, -u], [u, -u], [-u, u], [0, 0], [1, u]],
                                     [[u - 1, 0, 3], [-u + 2, 1, 4], [5, u, -u], [0, 0, 0]])):
                out.append(gen.hdb('ext_%s%d' % (typ, j), pts, 2, typ=typ, scale=float(s), dump='d', inf=False))
        for j, pts in enumerate(([[-2], [1], [0], [-1]], [[-2, 0], [1, 1], [0, -1], [-1, -2]])):
            out.append(gen.hdb('ext_l62_%d' % j, pts, 2, typ='l', scale=2.0**62, dump='d', inf=False))
            out.append(gen.hdb('ext_f127_%d' % j, [[(v + 1) // 2 for v in q] for q in pts], 2, typ='f', scale=2.0**127, dump='d', inf=False))
        return [s for s in out if max(max((a - b) ** 2 for a, b in zip(p, q)) for p in s['data'][0] for q in s['data'][0]) < 2**27]
    large(c, 'C01')
    if c.viol: return
    sc = suite(0, 1500) + wide(0, 250) + extremes() + exhaustive('x', (1, 2, 3, 4), (0, 1, 5), (2,), 'd')
    for s in sc: s['lines'] = [l for l in s['lines']]
    c.conform('HdbTrace', sc, adapt.hdb, chk('C01'))
    # real-valued data: symmetry, zero diagonal and agreement with the definition up to rounding are checked in HdbReal
    i = 0
    while not c.quick and c.left() > 60 and not c.viol and i < 40:
        i += 1
        c.conform('HdbTrace', suite(i, 3000) + wide(i, 600) + big(r, 'b%d' % i, [(120, 'wide'), (200, 'clus')], 'd'), adapt.hdb, chk('C01'))

def memfree():
    for l in open('/proc/meminfo'):
        if l.startswith('MemAvailable'): return int(l.split()[1]) * 1024
    return 0
def large(c, pid):
    """points on a line in numbers whose matrix of distances outgrows 32 (16) bits"""
    r = c.rng
    c.model('LineModel', 'SPECIFICATION Spec\nINVARIANTS DistOk CoreOk PlaceOk WordOk\nCONSTANTS MaxN = %d\nW = 5\nCHECK_DEADLOCK FALSE\n' % (8 if c.quick else 11), 'up to %d points, words of 5 bits' % (8 if c.quick else 11))
    U, S = 'unsigned int', 'unsigned short'
    sc = []
    def add(n, mp, index, q=300):
        if (n * (n - 1) // 2) * 4 * 1.25 + 2**30 > memfree(): c.notes.append('%d points left out: not enough memory' % n); return
        m = next(m for m in range(r.randint(1, 30000) if n > 1 else 1, 2**20) if __import__('math').gcd(m, n) == 1)
        sc.append(dict(id='line%d_%d_%d' % (len(sc), n, mp), lines=['line %d %d %d %d %d' % (n, m, mp, q, r.randint(1, 10**6))], index=index, p=(n, m, mp)))
    for _ in range(60): add(r.choice([1, 2, 3, 5, 8, 30, 100, 181, 182, 183, 255, 256, 257, 1000, 3000]), r.choice([2, 3, 4, 7, 20, 200, 256, 257, 258, 400, 1025, 1500]), r.choice([U, S]), 60)
    if pid == 'C02':
        for n in (300, 700, 1100, 3000) + (() if c.quick else (5000, 9000)):
            for mp in [2, 5, 50, 128, 129, 255, 256, 257, 258, 300, 511, 513, 1000, 1024, 1025, 1026, n // 2, n - 1, n, n + 1, r.randint(2, n)]:
                if mp <= n + 1: add(n, mp, r.choice([U, S]), 120)
    else: add(65537 + r.randint(1, 20), 70000, U); add(46341 + r.randint(1, 20), 50000, S)
    if not c.quick and pid == 'C01': add(65537 + r.randint(1, 300), r.choice([3, 6]), U, 2000); add(46341 + r.randint(1, 18000), r.choice([2, 5]), S, 2000)
    def run(scens, binary=None, **kw):
        out = {}; c.execs += len(scens); slow = 0
        for s in scens:
            if slow >= 2: out[s['id']] = dict(id=s['id'], x=None, end='skip'); continue
            try: p = subprocess.run([build.line(s['index'])] + s['lines'][0].split()[1:], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20 if s['p'][0] < 5000 else 60 if s['p'][0] < 20000 else 300, env=dict(os.environ, OMP_NUM_THREADS='8' if s['p'][0] > 2000 else '1'))
            except subprocess.TimeoutExpired: slow += 1; out[s['id']] = dict(id=s['id'], x=None, end='crash', sig=-14); continue
            try: x = json.loads(p.stdout.decode()) if p.returncode == 0 else None
            except ValueError: x = None
            if x is None and p.returncode == -9: raise RuntimeError('the system ended the driver')
            out[s['id']] = dict(id=s['id'], x=x, end='ok' if x else 'crash', sig=p.returncode)
        return out
    def rec(raw, s):
        n, m, mp = s['p']; x = raw['x'] or {'q': [], 'c': []}
        w = lambda v: -1 if v > 1e38 else int(v) if v == int(v) else -2
        return dict(id=raw['id'], n=n, m=m, mp=mp, crash=raw['x'] is None, q=[[i, j, w(d)] for i, j, d in x['q']], c=[[i, w(d)] for i, d in x['c']], ev=[{'e': 'crash'}] if raw['x'] is None else [])
    old = c.run; c.run = run
    try: c.conform('LineTrace', sc, rec, chk(pid))
    finally: c.run = old

def c02(c):
    """also many neighbours"""
    r = c.rng
    large(c, 'C02')
    if c.viol: return
    sc = []
    for j in range(10 if c.quick else 40):
        n = r.choice([140, 270, 300, 400]); k = r.choice(['grid', 'wide', 'clus', 'pow']); pts = gen.rnd_points(r, n, r.randint(1, 3), k); r.shuffle(pts)
        mp = r.choice([100, 129, 200, 257, 258, n - 1, n, n + 1]); typ = r.choice([t for t in 'dfils' if gen.ok_for(t, pts)])
        sc.append(gen.hdb('nn%d_%d' % (j, n), pts, mp, typ=typ, reruns=[r.choice([2, 90, 256, n])], dump='c', inf=False))
    c.conform('HdbTrace', sc, adapt.hdb, chk('C02'))
    if not c.viol: std(c, 'C02', 'c')
def c08(c):
    import itertools
    v = ['0', '0.25', '0.5', '1', '5e-324', '0.30000000000000004']; q = ['0', '1', '1e-300', '1.7976931348623157e308']; ids = ['0', '1', '7', '2000000000']
    L = ['oscmp %s %s' % (' '.join(a), ' '.join(b)) for a in itertools.product(v, q, ids) for b in c.rng.sample(list(itertools.product(v, q, ids)), 12)] 
    L += ['oscmp %s %s %s %s %s %s' % (x, y, i, x, y, j) for x in v for y in q for i in ids for j in ids]
    c.conform('HdbTrace', [dict(id='cmp%d' % i, lines=L[i::16], mode='exact', scale=1.0, data=[]) for i in range(16)], adapt.hdb, chk('C08'))
    if not c.viol: std(c, 'C08', 'hs')
def c31(c):
    """hierarchies that leave out the levels nothing depends on"""
    r = c.rng
    design(c, 'C31')
    def compact(sc):
        for s in sc:
            L = s['lines']; i = L.index('obj 0 run 0'); L[i] = 'obj 0 steps 0 1'
            if r.random() < .25: L.insert(i, 'obj 0 run 0')
            if s['mode'] == 'exact' and r.random() < .15: L[-1:-1] = ['obj 0 steps 0 %d' % r.randint(0, 1), 'obj 0 dump htls']
            if s['mode'] == 'exact' and r.random() < .15: L[-1:-1] = ['obj 0 rerun %d' % r.randint(2, 5), 'obj 0 dump htls']
        return sc
    D = 'htls'; i = 0
    while i == 0 or (not c.quick and c.left() > 120 and not c.viol and i < 40):
        f = 1 if c.quick else 3
        sc = exhaustive('x', (1, 2, 3, 4, 5), (0, 1, 2, 4), (2, 3), D) + exhaustive('y', (5, 6), (1, 2, 5), (2, 3, 4), D) if i == 0 else []
        if c.quick: sc = r.sample(sc, 500)
        sc += randoms(r, 'r', 300 * f, 36, D, reruns=False) + big(r, 'b', [(60, 'clus'), (64, 'nest'), (90, 'many'), (90, 'deep')] * f, D) + larger(r, 'L', 24 * f, 60, 240, D, reruns=False) + gen.ties(r, 't', 60 * f, D)
        c.conform('HdbTrace', compact(sc), adapt.hdb, chk('C31')); i += 1
CHECKS = {
    'C31': c31,
    'C01': c01,
    'C02': c02,
    'C03': lambda c: std(c, 'C03', 'm'),
    'C04': lambda c: std(c, 'C04', 'h'),
    'C05': lambda c: std(c, 'C05', 'ht'),
    'C06': lambda c: std(c, 'C06', 'htl'),
    'C07': lambda c: std(c, 'C07', 'htl'),
    'C08': c08,
}
