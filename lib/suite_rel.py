"""C13: the same points in another order, moved and scaled; C14: other types of labels, indices and distances."""
import random, math, copy, json, hashlib
import build, adapt, gen
import suite_hdb
from suite_hdb import chk

# ------------------------------------------------------------------ C13
LEN = ('dist', 'core', 'mst', 'rows', 'tree', 'scores')
def unscale(e, f):
    """recording of the scaled points, in the units of the original ones (f is a power of two)"""
    dmax = 1.7976931348623157e308
    u = lambda x: x if x == dmax or x != x or abs(x) == math.inf else x / f
    e = copy.deepcopy(e); k = e['e']
    if k == 'dist': e['d'] = [[u(x) for x in r] for r in e['d']]
    elif k == 'core': e['c'] = [u(x) for x in e['c']]
    elif k == 'mst': e['m'] = [[m[0], m[1], u(m[2])] for m in e['m']]
    elif k == 'rows':
        for r in e['r']: r['w'] = u(r['w'])
    elif k == 'tree':
        for t in e['t']:
            if t['l']:
                for q in ('b', 'd', 'ld'): t[q] = u(t[q])
                for q in ('s', 'ps'): t[q] = t[q] * f
    elif k == 'scores': e['s'] = [[s[0], u(s[1]), s[2]] for s in e['s']]
    return e
def relate(raw, scen):
    ok = raw['end'] == 'ok'
    ev = [unscale(e, scen['factor']) if e.get('h') == 1 else e for e in raw['ev']]
    out = adapt.hdb(dict(raw, ev=ev), scen)
    z = [{}, {}]
    for e in out['ev']:
        if e['e'] == 'dist': z[e['h']]['d'] = e['d']
        elif e['e'] == 'core': z[e['h']]['c'] = e['c']
        elif e['e'] == 'rows': z[e['h']]['r'] = e['r']
        elif e['e'] == 'tree': z[e['h']]['t'] = e['t']
        elif e['e'] == 'labels': z[e['h']]['l'] = e['l']
        elif e['e'] == 'scores': z[e['h']]['s'] = e['s']
        elif e['e'] in ('run', 'rerun') and e['ret'] != 1: ok = False
    tie = 0
    for e in ev:
        if e['e'] != 'tree': continue
        lv = {t['b'] for t in e['t'] if t['l']} | {t['d'] for t in e['t'] if t['l']}
        if scen['mode'] == 'exact' and scen.get('pow'): continue          # sums of powers of two are exact
        for t in e['t'][2:]:
            if t['ch'] and abs(t['s']) < math.inf and abs(t['ps']) < math.inf and abs(t['s'] - t['ps']) <= 1e-9 * max(abs(t['s']), abs(t['ps'])): tie = 1
    return {'id': raw['id'], 'a': z[0] if ok else {}, 'b': z[1] if ok else {}, 'p': scen['perm'], 'tie': tie, 'crash': 0 if ok else 1, 'ev': []}

def pair(sid, pts, other, perm, mp, mode, factor, typ='d', typ2='d', scale=1.0, rr=None, rw=1, pw=False):
    """other: the transformed points in the order of a; perm[i]: 1-based place of point i in b"""
    b = [None] * len(pts)
    for i, q in enumerate(perm): b[q - 1] = other[i]
    lines = [gen.data_line(0, typ, pts, rw, scale), gen.data_line(1, typ2, b, rw, scale), 'obj 0 init %d' % mp, 'obj 0 run 0', 'obj 1 init %d st' % mp, 'obj 1 run 1']
    if rr: lines += ['obj 0 rerun %d' % rr, 'obj 1 rerun %d' % rr]
    lines += ['obj 0 dump dchtls', 'obj 1 dump dchtls', 'obj 0 destroy', 'obj 1 clean']
    return dict(id=sid, lines=lines, mode=mode, scale=scale, data=[pts if mode == 'exact' else None, b if mode == 'exact' else None], perm=perm, factor=factor, pow=pw)
def rel_random(r, tag, count, nmax):
    out = []
    for j in range(count):
        n = r.choice([1, 2, 3, r.randint(3, nmax), r.randint(3, nmax), r.randint(3, nmax)]); dim = gen.dims(r, 1, 3); kind = r.choice(gen.KINDS); real = r.random() < .4
        pts = gen.rnd_points(r, n, dim, kind); r.shuffle(pts); mp = r.randint(2, 6)
        if real: pts = [[v + r.gauss(0, .3) for v in p] for p in pts]
        perm = list(range(1, n + 1)); other = [list(p) for p in pts]; f = 1.0
        what = r.sample(['perm', 'perm', 'mirror', 'scale', 'move', 'axes'], r.randint(1, 4))
        if 'perm' in what:
            k = r.random()
            if k < .2: perm.reverse()
            elif k < .4 and n > 1: i = r.randrange(n); perm[i], perm[-1] = perm[-1], perm[i]
            else: r.shuffle(perm)
        if 'mirror' in what: s = [r.choice([1, -1]) for _ in range(dim)]; other = [[a * b for a, b in zip(p, s)] for p in other]
        if 'axes' in what and not real: ax = list(range(dim)); r.shuffle(ax); other = [[p[a] for a in ax] for p in other]
        if 'move' in what and not real: t = [r.randint(-1000, 1000) for _ in range(dim)]; other = [[a + b for a, b in zip(p, t)] for p in other]
        if 'scale' in what: f = 2.0 ** r.choice([-30, -3, -1, 1, 2, 10, 40]); other = [[v * f for v in p] for p in other]
        typ = typ2 = 'd'
        if not real and f == 1.0 and r.random() < .5: typ, typ2 = (r.choice([t for t in 'dfilsc' if gen.ok_for(t, q)]) for q in (pts, other))
        out.append(pair('%s%d_%s' % (tag, j, kind), pts, other, perm, mp, 'rank' if real else 'exact', f, typ, typ2, rr=r.choice([None, None, r.randint(2, 5)]), pw=kind == 'pow' and False))
    return out
def rel_small(r, tag, ns, gaps, mps, cap):
    import itertools
    out = []; j = 0
    for n in ns:
        for pts in gen.line_sets(n, gaps):
            for mp in mps:
                for perm in itertools.permutations(range(1, n + 1)):
                    out.append((pts, mp, perm))
    if len(out) > cap: out = r.sample(out, cap)
    return [pair('%s%d' % (tag, i), p, [list(q) for q in p], list(pm), mp, 'exact', 1.0) for i, (p, mp, pm) in enumerate(out)]
REL = 'SPECIFICATION Spec\nINVARIANT Same\nCONSTANTS Ns = {%s}\nCoords = {%s}\nMPs = {%s}\nShifts = {%s}\nFactors = {%s}\nCHECK_DEADLOCK FALSE\n'
def c13(c):
    r = c.rng
    for a in ([('1, 2, 3, 4', '0, 1, 2, 4', '2, 3', '0, 5', '1, 2')] if c.quick else [('1, 2, 3, 4', '0, 1, 2, 4, 7', '2, 3', '0, 5', '1, 2'), ('5', '0, 1, 3, 4', '2, 3', '0', '1')]):
        c.model('RelModel', REL % a, 'n in {%s}, coordinates {%s}, minima {%s}, shifts {%s}, factors {%s}, every permutation' % a)
    c.conform('Relate', rel_small(r, 'p', (2, 3, 4, 5), (0, 1, 2, 4), (2, 3), 500 if c.quick else 6000) + rel_random(r, 'r', 450, 26), relate, chk('C13'))
    i = 0
    while not c.quick and c.left() > 60 and not c.viol and i < 60:
        i += 1; c.conform('Relate', rel_random(r, 'r%d_' % i, 1500, 45), relate, chk('C13'))

# ------------------------------------------------------------------ C14
import itertools, threading
import suite_an, suite_life
CONF = list(itertools.product(('unsigned int', 'unsigned short', 'unsigned long'), ('double', 'float'), ('unsigned int', 'unsigned short', 'unsigned long')))
SH = {'unsigned int': 'u', 'unsigned short': 's', 'unsigned long': 'l', 'double': 'd', 'float': 'f'}
PIPE = chk('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08')
def builds(confs, opt):
    """one interpreter per configuration, built side by side"""
    out = {}; err = []
    def go(cf):
        try: out[cf] = build.hx(cf[0], cf[1], cf[2], opt=opt)
        except Exception as e: err.append(e)
    q = list(confs)
    while q:
        ts = [threading.Thread(target=go, args=(cf,)) for cf in q[:6]]; q = q[6:]
        for t in ts: t.start()
        for t in ts: t.join()
    if err: raise err[0]
    return out
def fits_float(s):
    """single precision tells the squared distances apart, and the recorder reads them back"""
    for d in s['data']:
        if d and d[0]:
            if any(abs(v) * s['scale'] >= 2**60 for p in d for v in p): return False
            if sum((max(x) - min(x)) ** 2 for x in zip(*d)) >= 2**20: return False
    return True
ANA = chk('C19', 'C20', 'C21', 'C22')
def differ(c, scens, pid, strip=lambda e: e):
    """every result of a scenario in its own build equals that of the reference build (Same)"""
    ref = c.run([dict(s, binary=s['ref']) for s in scens])
    def pairup(raw, s):
        f = lambda R: [[e['e'] + (' ' + e['op'] if 'op' in e else ''), digest(strip(e))] for e in R['ev']]
        return dict(id=s['id'], a=f(ref[s['id']]), b=f(raw), acrash=int(ref[s['id']]['end'] != 'ok'), bcrash=int(raw['end'] != 'ok'))
    c.conform('Same', scens, pairup, chk(pid))
def digest(e): return hashlib.md5(json.dumps(e, sort_keys=True).encode()).hexdigest()[:12]
def c14(c):
    r = c.rng; hxs = builds(CONF, '-O0' if c.quick else None)
    rnd = 0
    while True:
        nb = 24 if c.quick else 60
        small = suite_hdb.randoms(r, 'r%d_' % rnd, nb, 26, modes=('exact', 'exact', 'rank')) + r.sample(suite_hdb.exhaustive('x%d_' % rnd, (2, 3, 4, 5), (0, 1, 2, 4), (2, 3)), nb)
        small = [s for s in small if s['mode'] == 'rank' or fits_float(s)]
        big = [dict(id='big%d_%d' % (rnd, i), lines=[gen.data_line(0, 'd', gen.rnd_points(r, n, 2, k)), 'obj 0 init %d' % mp, 'obj 0 run 0', 'obj 0 dump dcmhtls'] + suite_life.ALL + ['obj 0 destroy'])
               for i, (n, k, mp) in enumerate(((130, 'clus', 4), (300, 'wide', 3)) if c.quick else ((400, 'clus', 5), (300, 'nest', 3), (700, 'grid', 4)))]
        ana = suite_an.maps(r, 'm%d_' % rnd, 12 if c.quick else 40) + suite_an.qsorts(r, 'q%d_' % rnd, 20, 3) + suite_an.sortmaps(r, 's%d_' % rnd, 8) + suite_an.rnd(r, 'a%d_' % rnd, 12 if c.quick else 60, 20)
        ana = [s for s in ana if all(int(w) <= 65535 for l in s['lines'] if l.startswith('labs') for w in l.split()[3:])]
        # what the usual configuration gets wrong says nothing about configurations
        default = hxs[CONF[0]]
        small = c.sound('HdbTrace', small, adapt.hdb, PIPE, default)
        ana = c.sound('AnTrace', ana, suite_an.an, ANA, default)
        H, A, S = [], [], []
        for cf in CONF:
            fl = cf[1] == 'float'; tag = ''.join(SH[x] for x in cf)
            bn = dict(binary=hxs[cf], dist=cf[1], ref=hxs[(CONF[0][0], cf[1], CONF[0][2])])
            # distances of the narrower type are other numbers: real-valued data only where they are the same type
            h = [s for s in small if not (fl and s['mode'] == 'rank')]
            a = [s for s in ana if not fl or s['id'][0] in 'mqs']
            if cf[1:] == ('double', CONF[0][2]) and cf[0] == CONF[0][0]: continue
            H += [dict(s, id='%s_%s' % (tag, s['id']), **bn) for s in h]
            A += [dict(s, id='%s_%s' % (tag, s['id']), **bn) for s in a]
            S += [dict(s, id='%s_%s' % (tag, s['id']), **bn) for s in big + small + ana]
        c.conform('HdbTrace', H, adapt.hdb, PIPE)
        if not c.viol: c.conform('AnTrace', A, suite_an.an, ANA)
        if not c.viol: differ(c, S, 'C14')
        if c.viol: return
        rnd += 1
        if c.quick or c.left() < 150: return

CHECKS = {'C13': c13, 'C14': c14}
