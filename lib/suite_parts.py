"""C27: graphs; C30: clusters and their propagation, on their own."""
import re, json, random, math, itertools
import build, gen, adapt as AD
from suite_hdb import chk

# ------------------------------------------------------------------ C27
GM = 'SPECIFICATION Spec\nINVARIANTS StackOk RangesOk Kept Symmetric\n%s%sCONSTANTS NV = %d\nMaxE = %d\nWs = {%s}\nEmit = %s\nOps = {%s}\nCHECK_DEADLOCK FALSE\n'
def gmodel(c, nv, me, ws, ops, emit, live=False, cap=None):
    R = c.model('GraphModel', GM % ('PROPERTY Finishes\n' if live else '', '' if live else 'VIEW core\n', nv, me, ws, 'TRUE' if emit else 'FALSE', ', '.join('"%s"' % o for o in ops)),
                '%d vertices, up to %d edges, weights {%s}, operations %s%s' % (nv, me, ws, ' '.join(ops), ', one history per transition' if emit else ''), workers=1 if emit else 8)
    return [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SEQ (.*)"', R.out)]
def ginit(k, nv, es): return 'graph %d init %d %d %s' % (k, nv, len(es), ' '.join('%d %d %.17g' % tuple(e) for e in es))
def gscen(sid, nv, es, ops):
    lines = [ginit(0, nv, es)] + ['graph 0 ' + o for o in ops] + ['graph 0 destroy', 'graph 1 empty', 'mem']
    return dict(id=sid, lines=lines, want=[dict(nv=nv, es=[list(e) for e in es])])
def gop(o): return o['op'] + ''.join(' %d' % o[f] for f in ('a', 'b') if f in o)
def gadapt(raw, scen):
    ws = sorted({e[2] for w in scen['want'] for e in w['es']} | {e[2] for v in raw['ev'] for e in v.get('es', []) if e[2] == e[2]})
    rk = {w: i for i, w in enumerate(ws)}; f = lambda es: [[e[0], e[1], rk.get(e[2], -1)] for e in es]
    out = []; q = 0
    for e in raw['ev']:
        e = dict(e)
        if 'es' in e: e['es'] = f(e['es'])
        if e.get('op') == 'init' and e['e'] == 'graph': w = scen['want'][q]; q += 1; e['want'] = dict(nv=w['nv'], es=f(w['es']))
        out.append(e)
    if raw['end'] != 'ok': out.append({'e': 'crash', 'sig': raw['sig']})
    return {'id': raw['id'], 'ev': out}
def grandom(r, tag, count, big=60):
    out = []
    for j in range(count):
        nv = r.randint(1, 12); m = r.choice([0, 1, 2, 3, r.randint(2, 12), r.randint(2, 12), r.randint(10, big)]); es = []; own = set()
        kind = r.random(); fin = 1.7976931348623157e308
        for _ in range(m):
            a, b = r.randrange(nv), r.randrange(nv)
            if a == b and a in own: continue
            if a == b: own.add(a)
            w = r.choice([0.0, 1.0, 2.0]) if kind < .4 else r.choice([0.0, 1e-300, 0.1, 1 / 3, 1.0, 1e300, fin, math.inf]) if kind < .6 else r.uniform(0, 10)
            es.append((a, b, w))
        if kind > .9: es.sort(key=lambda e: e[2], reverse=r.random() < .5)
        m = len(es); ops = []
        for _ in range(r.randint(1, 12)):
            o = r.choice(['sort', 'rsort', 'range', 'swap', 'remove', 'remove', 'remove', 'part', 'pivot'])
            if o in ('range', 'part', 'pivot', 'swap') and m == 0: continue
            if o == 'range': a = r.randrange(m); ops.append('rsort %d %d' % (a, r.randint(a, m - 1)))
            elif o == 'swap': ops.append('swap %d %d' % (r.randrange(m), r.randrange(m)))
            elif o in ('part', 'pivot'): a = r.randrange(m); b = r.randint(a, m - 1); ops.append('%s %d %d' % (o, a, b) + (' %d' % r.randint(a, b) if o == 'part' else ''))
            elif o == 'remove':
                if es and r.random() < .8: e = r.choice(es); a, b = (e[0], e[1]) if r.random() < .5 else (e[1], e[0])
                else: a, b = r.randrange(nv), r.randrange(nv)
                ops.append('remove %d %d' % (a, b))
            else: ops.append(o)
        out.append(gscen('%s%d' % (tag, j), nv, es, ops))
    return out
def gsorts(r, tag, m, k=None):
    """every arrangement of m weights out of k (of m different ones), sorted in both ways"""
    out = []; lines = []; want = []; j = 0
    for ws in itertools.product(range(k), repeat=m) if k else itertools.permutations(range(m)):
        es = [(i % 4, (i * 3 + 1) % 5, float(w)) for i, w in enumerate(ws)]
        for s in ('sort', 'rsort'):
            lines += [ginit(0, 5, es), 'graph 0 ' + s, 'graph 0 destroy']; want.append(dict(nv=5, es=[list(e) for e in es]))
        if len(want) >= 16: out.append(dict(id='%s%d' % (tag, j), lines=lines, want=want)); j += 1; lines = []; want = []
    if want: out.append(dict(id='%s%d' % (tag, j), lines=lines, want=want))
    return out
def gdeep(r, tag, count, m):
    """long arrangements for which the quicksort of the specification leaves many short ranges pending: found by running
    its partition (Graph.tla) on places whose weights are chosen as it goes"""
    out = []
    for j in range(count):
        n = r.randint(m // 3, m); pos = list(range(n)); v = {}; lo, hi = 0, n - 1; low = 0; q0 = r.choice([2, 2, 2, 3, 0])
        while hi - lo >= 3:
            q = q0 or r.choice([1, 2, 3, 2])
            q = min(q, hi - lo)
            p = pos[lo]; pos[lo], pos[hi] = pos[hi], pos[lo]          # pivot: the first, kept at the end meanwhile
            for i in range(lo, lo + q): v[pos[i]] = low; low += 1      # q smaller ones, found where they are
            v[p] = low; low += 1
            pos[lo + q], pos[hi] = pos[hi], pos[lo + q]; lo += q + 1
        for i in range(n):
            if pos[i] not in v: v[pos[i]] = low; low += 1
        es = [(i % 7, (i * 3 + 1) % 7, float(v[i])) for i in range(n)]
        out.append(gscen('%s%d' % (tag, j), 8, es, [r.choice(['sort', 'rsort'])]))
    return out
def gbig(r, tag, count, lo=257, hi=700):
    """more edges (and at times more vertices) than fit a byte, in many orders, sorted both ways and in part"""
    out = []
    for j in range(count):
        m = r.randint(lo, hi); nv = r.choice([3, 12, 60, 300, 520]); ws = {0: lambda i: r.uniform(0, 10), 1: lambda i: float(r.randrange(3)), 2: lambda i: float(i), 3: lambda i: float(m - i), 4: lambda i: float(i % 2), 5: lambda i: 1.0}
        kind = j % 6; es = []; own = set()
        for i in range(m):
            a, b = r.randrange(nv), r.randrange(nv)
            if a == b and a in own: b = (a + 1) % nv
            if a == b: own.add(a)
            es.append((a, b, ws[kind](i)))
        ops = []; a = r.choice([0, r.randrange(m // 2)]); k = r.randint(a, m - 1)
        if r.random() < .5: ops.append('rsort %d %d' % (a, k))
        if r.random() < .5: a = r.randrange(256, m); ops.append('swap %d %d' % (a, r.randrange(m)))
        if r.random() < .5: e = r.choice(es[256:]); ops.append('remove %d %d' % e[:2])
        ops.append(['sort', 'rsort'][(j // 6 + j) % 2])
        out.append(gscen('%s%d' % (tag, j), nv, es, ops))
    return out
def c27(c):
    r = c.rng; A = build.hx(san='asan')
    if c.quick:
        gmodel(c, 2, 4, '0, 1, 2', ['sort'], False); gmodel(c, 3, 2, '1', ['remove', 'swap'], False)
        gmodel(c, 2, 3, '0, 1, 2', ['sort'], False, live=True)
        H = gmodel(c, 3, 3, '1', ['remove'], True) + gmodel(c, 2, 3, '0, 1', ['sort', 'swap', 'remove'], True)
    else:
        gmodel(c, 2, 5, '0, 1, 2', ['sort'], False); gmodel(c, 3, 3, '0, 1', ['remove', 'swap', 'sort'], False); gmodel(c, 1, 3, '0, 1, 2', ['sort'], False, live=True)
        gmodel(c, 2, 3, '0, 1, 2, 3', ['sort'], False, live=True)
        H = gmodel(c, 3, 3, '0, 1', ['remove'], True) + gmodel(c, 2, 3, '0, 1, 2', ['sort', 'swap', 'remove'], True)
    cap = 1500 if c.quick else 20000
    if len(H) > cap: H = r.sample(H, cap)
    sc = [gscen('h%d' % i, 3, [tuple(e) for e in h[0]['es']], [gop(o) for o in h[1:]]) for i, h in enumerate(H)]
    sc += gsorts(r, 'x4_', 4, 3) + gsorts(r, 'x5_', 5, 3) + grandom(r, 'r', 500) + grandom(r, 'b', 10, 400) + gbig(r, 'g', 12)
    c.conform('GraphTrace', sc, gadapt, chk('C27'))
    if not c.viol: c.conform('GraphTrace', grandom(r, 'c', 200), gadapt, chk('C27'), binary=build.hx(cpp=True))
    # the same in a build that stops at an access outside an object
    SAN = dict(binary=A, env={'HX_NOAS': '1'}, cpu=40)
    if not c.viol: c.conform('GraphTrace', gsorts(r, 'p5_', 5) + gsorts(r, 'p6_', 6) + grandom(r, 'a', 120) + gdeep(r, 'd', 60, 60) + gdeep(r, 'e', 4, 900), gadapt, chk('C27'), **SAN)
    i = 0
    while not c.quick and c.left() > 60 and not c.viol and i < 60:
        i += 1; c.conform('GraphTrace', (gsorts(r, 'x6_', 6, 4) + gsorts(r, 'x7_', 7, 3) if i == 1 else []) + grandom(r, 'r%d_' % i, 3000) + grandom(r, 'b%d_' % i, 60, 600), gadapt, chk('C27'))
        if not c.viol: c.conform('GraphTrace', (gsorts(r, 'p7_', 7) if i == 1 else []) + grandom(r, 'a%d_' % i, 800) + gdeep(r, 'd%d_' % i, 200, 200), gadapt, chk('C27'), **SAN)

CHECKS = {'C27': c27}

# ------------------------------------------------------------------ C30
CM = 'SPECIFICATION Spec\nINVARIANTS Best Lowest\nPROPERTY Ends\nCONSTANTS N = %d\nStabs = {%s}\nCons = {%s}\nDeaths = {%s}\nEmit = %s\nCHECK_DEADLOCK FALSE\n'
def cmodel(c, n, st, co, de, emit):
    R = c.model('CluModel', CM % (n, st, co, de, 'TRUE' if emit else 'FALSE'), 'trees of %d clusters, stabilities {%s}, constraints {%s}, levels {%s}' % (n, st, co, de), workers=1 if emit else 8)
    return [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SEQ (.*)"', R.out)]
def tree_ops(t, r):
    """a tree of the model built with the operations: stability from points detached at half the level of birth"""
    out = []; n = len(t)
    for i, (p, s, q, d) in enumerate(t):
        out.append('cl %d init %d %d 1 %d' % (i, i + 1, p - 1 if p > 0 else -1, s + 1))
    for i in r.sample(range(n), n):
        p, s, q, d = t[i]
        if s: out.append('cl %d detach %d 0.5' % (i, s))
        out.append('cl %d detach 1 1' % i)           # dies at its level of birth: adds nothing
        if q: out.append('cl %d addc %d' % (i, q))
    # dying at other levels: one more point each
    for i in range(n, 0, -1): out.append('cl %d propagate' % (i - 1))
    return out
def cl_random(r, tag, count):
    out = []
    for j in range(count):
        n = r.randint(1, 9); lines = []; size = {}; rel = set()
        labs = r.sample(range(0, 60), n) if r.random() < .5 else list(range(1, n + 1)); par = {}
        for i in range(n):
            p = r.randrange(i) if i and r.random() < .9 else -1; size[i] = r.choice([1, 2, 5, 9, 40]); par[i] = p
            lines.append('cl %d init %d %d %.17g %d' % (i, labs[i], p, 2.0 ** r.randint(-3, 6), size[i]))
        def some(k):
            for _ in range(r.randint(0, k)):
                i = r.randrange(n); o = r.choice(['detach', 'detach', 'detach', 'addvc', 'hasvc', 'addvcc', 'addc', 'release', 'cmp', 'cmp0'])
                if o == 'detach':
                    m = r.choice([size[i], r.randint(0, max(size[i], 1)), r.randint(1, 3), size[i] + r.choice([0, 1, 50])])
                    if m == 0 and size[i] == 0: continue
                    lines.append('cl %d detach %d %.17g' % (i, m, 2.0 ** r.randint(-4, 6))); size[i] -= m if m <= size[i] else 0
                elif o == 'addvc' and i not in rel: lines.append('cl %d addvc %s' % (i, ' '.join(str(r.choice([0, 1, 2, 3, 5, 1000, 2**31 - 1])) for _ in range(r.randint(0, 6)))))
                elif o == 'hasvc' and i not in rel: lines.append('cl %d hasvc %d' % (i, r.choice([0, 1, 2, 3, 5, 1000, 2**31 - 1])))
                elif o in ('addvcc', 'addc'): lines.append('cl %d %s %d' % (i, o, r.choice([0, 1, 1, 2, 7])))
                elif o == 'release': lines.append('cl %d release' % i); rel.add(i)
                elif o == 'cmp': lines.append('cl %d cmp %d' % (i, r.randrange(n)))
                elif o == 'cmp0': lines.append('cl %d cmp -1' % i)
        some(14)
        order = list(range(n - 1, -1, -1))
        if r.random() < .2: order = [i for i in order if r.random() < .8]
        for i in order: lines.append('cl %d propagate' % i); some(1)
        some(3)
        for i in r.sample(range(n), n): lines.append('cl %d destroy' % i); 
        out.append(dict(id='%s%d' % (tag, j), lines=lines))
    return out
def cl_adapt(raw, scen):
    INF, ZERO, BAD = AD.INF, -1000, -7777
    def lv(x):
        if x == 1.7976931348623157e308: return INF
        if x == 0: return ZERO
        m, e = math.frexp(x) if x == x and abs(x) != math.inf else (0, 0)
        return e - 1 if m == .5 else BAD
    def st(x):
        if x != x or abs(x) > 60000: return BAD
        y = x * 32768
        return int(y) if y == int(y) else BAD
    out = []
    for e in raw['ev']:
        e = dict(e)
        if e['e'] == 'cl':
            if 'lv' in e: e['lv'] = lv(e['lv'])
            slot = {x['l']: x['k'] for x in e['all']}; a = []
            for x in e['all']:
                # a parent may be gone already: the field is then not looked at
                a.append(dict(x, b=lv(x['b']), d=lv(x['d']), ld=lv(x['ld']), s=st(x['s']), ps=st(x['ps'])))
            e['all'] = a
        out.append(e)
    if raw['end'] != 'ok': out.append({'e': 'crash', 'sig': raw['sig']})
    return {'id': raw['id'], 'ev': out}
def c30(c):
    r = c.rng
    if c.quick: cmodel(c, 4, '0, 1, 2', '0, 1', '0, 1', False); T = cmodel(c, 4, '0, 1, 2', '0, 1', '0', True)
    else: cmodel(c, 5, '0, 1, 2', '0, 1', '0', False); cmodel(c, 4, '0, 1, 2, 3', '0, 1, 2', '0, 1', False); T = cmodel(c, 5, '0, 1, 2', '0, 1', '0', True)
    cap = 900 if c.quick else 12000
    if len(T) > cap: T = r.sample(T, cap)
    sc = [dict(id='t%d' % i, lines=tree_ops(t, r)) for i, t in enumerate(T)] + cl_random(r, 'r', 700)
    c.conform('CluTrace', sc, cl_adapt, chk('C30'))
    i = 0
    while not c.quick and c.left() > 60 and not c.viol and i < 60:
        i += 1; c.conform('CluTrace', cl_random(r, 'r%d_' % i, 4000), cl_adapt, chk('C30'))
CHECKS['C30'] = c30

# ------------------------------------------------------------------ C32
DM = 'SPECIFICATION Spec\nINVARIANT Owned\nPROPERTY Apart\nVIEW View\nCONSTANTS Objs = {%s}\nDatas = {%s}\nNNs = {%s}\nEmit = TRUE\nCHECK_DEADLOCK FALSE\n'
CO = 'SPECIFICATION Spec\nINVARIANTS InBuf Smallest\nPROPERTY Done\nCONSTANTS MaxN = %d\nLevels = {%s}\nNNs = {%s}\nCHECK_DEADLOCK FALSE\n'
def core_model(c):
    n, l, k = (5, '0, 1, 2, 3', '0, 1, 2, 3') if c.quick else (7, '0, 1, 2, 3', '0, 1, 2, 3, 4, 5')
    c.model('CoreModel', CO % (n, l, k), 'rows of up to %d distances of levels {%s}, neighbours {%s}' % (n, l, k))
def dinit(r, k, typ, cpp):
    return 'dobj %d init %s %s%s' % (k, typ, r.choice('sh'), r.choice('012' if typ == 'd' else '2') if cpp else '')
def ddata(r, typ, nmax, kinds=gen.KINDS):
    while True:
        n = r.choice([0, 1, 2, r.randint(1, nmax), r.randint(1, nmax)]); pts = gen.rnd_points(r, n, gen.dims(r, 1, 4, .04, 140) if nmax <= 12 else r.randint(1, 4), r.choice(kinds)) if n else []
        if n == 0 or gen.ok_for(typ, pts): break
    rw = 1 if r.random() < .8 else 0
    line = lambda k: gen.data_line(k, typ, pts, rw, 1.0, r.choice([0, 1])) if pts else 'data %d %s 0 2 1 0' % (k, typ)
    return line, ([list(p) for p in pts] if rw else [[v] for p in pts for v in p])
def dlives(r, tag, count, nmax, cpp):
    out = []
    for j in range(count):
        objs = r.randint(1, 4); ty = [r.choice('dfilsc') for _ in range(objs)]; L = []; D = []; of = {}
        for t in set(ty):
            for _ in range(r.randint(1, 3)):
                ln, tp = ddata(r, t, nmax); of.setdefault(t, []).append(len(D)); L.append(ln(len(D))); D.append(tp)
        st = ['none'] * objs
        for _ in range(r.randint(3, 25)):
            k = r.randrange(objs)
            if st[k] == 'none': L.append(dinit(r, k, ty[k], cpp)); st[k] = 'fresh'; continue
            o = r.choice(['compute', 'compute', 'cores', 'cores', 'clean', 'destroy']) if st[k] == 'full' else r.choice(['compute', 'compute', 'clean', 'destroy'])
            if o == 'compute': d = r.choice(of[ty[k]]); L.append('dobj %d compute %d %d' % (k, d, r.choice([0, 1, 2, 3, max(len(D[d]) - 1, 0), len(D[d]), 200, 255, 256, 300]))); st[k] = 'full'
            elif o == 'cores': L.append('dobj %d cores %d' % (k, r.choice([0, 1, 2, 3, 5, nmax - 1, nmax, 100, 254, 255, 256, 257, 60000])))
            else: L.append('dobj %d %s' % (k, o)); st[k] = 'none' if o == 'destroy' else 'fresh'
        for k in r.sample(range(objs), objs):
            if st[k] != 'none': L.append('dobj %d destroy' % k)
        if r.random() < .2 and not cpp: L.append('dobj 0 null destroy')
        out.append(dict(id='%s%d' % (tag, j), lines=L + ['mem'], mode='exact', scale=1.0, data=D))
    return out
def dmany(r, sid, cpp):
    """a few calls with many neighbours"""
    typ = r.choice('dfil'); L = []; D = []
    for k in (0, 1):
        pts = gen.rnd_points(r, r.choice([258, 300, 310]), 1, r.choice(['grid', 'wide', 'pow'] if k else ['wide', 'clus']))
        while not gen.ok_for(typ, pts): pts = gen.rnd_points(r, 300, 1, 'wide')
        L.append(gen.data_line(k, typ, pts)); D.append(pts)
    L += [dinit(r, 0, typ, cpp), 'dobj 0 compute 0 %d' % r.choice([2, 255, 256]), 'dobj 0 cores %d' % r.choice([254, 256, 257, 290]), 'dobj 0 compute 1 %d' % r.choice([255, 256, 257]), 'dobj 0 destroy']
    return dict(id=sid, lines=L + ['mem'], mode='exact', scale=1.0, data=D)
def dreplay(r, tag, H, cpp):
    out = []
    for j, h in enumerate(H):
        typ = r.choice('dfilsc'); L = []; D = []
        for k in (0, 1):
            ln, tp = ddata(r, typ, 6); L.append(ln(k)); D.append(tp)
        st = {}
        for o in h:
            k = o['h'] - 1
            if o['op'] == 'init': L.append(dinit(r, k, typ, cpp)); st[k] = 1
            elif o['op'] == 'compute': L.append('dobj %d compute %d %d' % (k, o['k'] - 1, o['nn']))
            elif o['op'] == 'cores': L.append('dobj %d cores %d' % (k, o['nn']))
            else: L.append('dobj %d %s' % (k, o['op'])); st[k] = 1 if o['op'] == 'clean' else 0
        L += ['dobj %d destroy' % k for k in st if st[k]]
        out.append(dict(id='%s%d' % (tag, j), lines=L + ['mem'], mode='exact', scale=1.0, data=D))
    return out
def c32(c):
    r = c.rng
    SAN = dict(binary=build.hx(san='asan'), env={'HX_NOAS': '1'}, cpu=40)
    core_model(c)
    o, d, n = ('1, 2', '1, 2', '0, 1, 3') if c.quick else ('1, 2, 3', '1, 2', '0, 1, 2')
    R = c.model('DistModel', DM % (o, d, n), 'objects {%s}, data sets {%s}, neighbours {%s}, one history per transition' % (o, d, n), workers=1)
    H = [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SEQ (.*)"', R.out)]
    if len(H) > (700 if c.quick else 6000): H = r.sample(H, 700 if c.quick else 6000)
    i = 0
    while i == 0 or (not c.quick and c.left() > 60 and not c.viol and i < 40):
        f = 1 if c.quick else 4
        for cpp in (False, True):
            b = dict(binary=build.hx(cpp=True)) if cpp else {}
            c.conform('DistTrace', (dreplay(r, 'm', H, cpp) if i == 0 else []) + dlives(r, 'r', 250 * f, 12, cpp) + dlives(r, 'b', 12 * f, 60, cpp) + [dmany(r, 'n%d' % q, cpp) for q in range(2)], AD.hdb, chk('C32'), **b)
            if c.viol: return
        c.conform('DistTrace', dlives(r, 's', 150 * f, 9, False), AD.hdb, chk('C32'), **SAN); i += 1
CHECKS['C32'] = c32

# ------------------------------------------------------------------ C33
import suite_coll
UM = 'SPECIFICATION Spec\nINVARIANTS Right Within\nPROPERTY Ends\nCONSTANTS Count = %d\nMax = %d\nCHECK_DEADLOCK FALSE\n'
UT = 'ilscdf'
def uadapt(raw, scen):
    evs = [dict(e) for e in raw['ev']]; s = {}
    for e in evs:
        for f in ('a', 'b'):
            if f in e and 't' in e: s.setdefault(e['t'], set()).add(e[f])
    rk = {t: {v: i + 1 for i, v in enumerate(sorted(x for x in v if x == x))} for t, v in s.items()}      # -0.0 = 0.0
    for e in evs:
        if e['e'] in ('ucmp', 'uhash'):
            for f in ('a', 'b'):
                if f in e: e[f] = rk[e['t']].get(e[f], 0)
        for f in ('want', 'got'):
            if f in e: e[f] = json.dumps(e[f])
        for f in ('r', 'live', 'n'):
            if f in e: e[f] = max(-2**31 + 1, min(2**31 - 1, e[f]))
    if raw['end'] != 'ok': evs.append({'e': 'crash', 'sig': raw['sig']})
    return {'id': raw['id'], 'ev': evs}
def uvals(r, t, n):
    v = list(suite_coll.pick(r, t, n))
    if t in 'df' and 0.0 in v: v.append(-0.0)
    if t in 'df' and r.random() < .3: v += [math.inf, -math.inf]
    if t == 'd' and r.random() < .3: v += [1.0 + 2**-52, 1.0 - 2**-53, 5e-324, -5e-324, 0.7, 0.9, 1e16, 1e16 + 2]
    if t == 'f' and r.random() < .3: v += [1.0 + 2**-23, 1.0 - 2**-24, 2.0**-149, -2.0**-149, 16777216.0, 16777218.0]
    return v
def upairs(r, tag, count):
    out = []
    for j in range(count):
        t = r.choice(UT + 'p') ; v = uvals(r, t, r.randint(2, 8)); f = suite_coll.fmt
        out.append(dict(id='%s%d' % (tag, j), lines=['util cmp %s %s %s' % (t, f(t, a), f(t, b)) for a in v for b in v]))
    return out
def uhashes(r, tag, count):
    out = []
    for j in range(count):
        L = []
        for t in r.sample(UT + 't', 3):
            v = uvals(r, t, r.randint(2, 9)); bs = [r.choice([1, 2, 3, 5, 7, 37, 64, 100, 997, 1213, 2**20, 2**31 - 1]) for _ in range(3)]
            L += ['util hash %s %s %d' % (t, suite_coll.fmt(t, x), b) for b in bs for x in v + v]
        r.shuffle(L); out.append(dict(id='%s%d' % (tag, j), lines=L))
    return out
def uobjs(r, tag, count):
    out = []
    D = [0.0, 0.25, 1.0, -1.0, 1e300, 5e-324, 1.7976931348623157e308, 0.1]
    for j in range(count):
        L = []; own = {}
        for _ in range(r.randint(1, 14)):
            k = r.randrange(6); w = r.choice(['os', 'cons'])
            if (w, k) in own and r.random() < .7: L.append('util %sfree %d' % (w, k)); del own[w, k]; continue
            if (w, k) in own: continue
            g = r.choice('gn')
            if w == 'os': L.append('util os %d %s %.17g %.17g %d' % (k, g, r.choice(D), r.choice(D), r.choice([0, 1, 7, 65535, 2**31, 2**32 - 1])))
            else: L.append('util cons %d %s %d %d %d' % (k, g, r.choice([0, 1, 5, 2**31 - 1, -1]), r.choice([0, 2, 9, 70000]), r.randint(0, 2)))
            if g == 'n': own[w, k] = 1
        L += ['util %sfree %d' % x for x in own]
        out.append(dict(id='%s%d' % (tag, j), lines=L + ['mem']))
    return out
def uprimes(lo, hi, tag, step=60, ops=('prime', 'next', 'pow2')):
    return [dict(id='%s%s%d' % (tag, o, a), lines=['util %s %d' % (o, n) for n in range(a, min(a + step, hi)) if o != 'pow2' or n > 0]) for o in ops for a in range(lo, hi, step)]
def c33(c):
    r = c.rng
    n, m = (40, 260) if c.quick else (198, 1400)
    c.model('UtilModel', UM % (n, m), 'a table of %d prime numbers, arguments -2..%d' % (n, m))
    sz = [dict(id='sz', lines=['util size %s' % t for t in UT + 'tp'])]
    ends = [dict(id='ends', lines=['util prime %d' % x for x in (-2**31, -1, 2**31 - 1, 2**31 - 2, 2**30, 10**6, 10**6 + 3, 10**6 + 4)] + ['util next %d' % x for x in (-2**31, 2**31 - 1, 2**31 - 2, 2**31 - 20, 2**30, 10**6)]
                 + ['util pow2 %d' % x for x in [1, 2**30 - 1] + [2**k + d for k in range(1, 30) for d in (-1, 0, 1)]])]
    bk = [dict(id='bk%d' % j, lines=x) for j in range(40) for x in [sum((['ht 0 %s i i %d' % (r.choice(['init', 'initsize']), r.choice([0, 1, 2, 3, 4, 5, r.randint(1, 1300), r.randint(1, 1300), r.randint(1200, 60000)])), 'ht 0 destroy 0'] for _ in range(20)), [])]]
    sc = sz + ends + bk + uprimes(-3, 1400, 'p') + upairs(r, 'c', 150) + uhashes(r, 'h', 100) + uobjs(r, 'o', 150)
    c.conform('UtilTrace', sc, uadapt, chk('C33'))
    SAN = dict(binary=build.hx(san='asan'), env={'HX_NOAS': '1'}, cpu=40)
    if not c.viol: c.conform('UtilTrace', uhashes(r, 'sh', 60) + uobjs(r, 'so', 60) + upairs(r, 'sc', 60) + uprimes(-3, 20, 'sp') + uprimes(1190, 1230, 'sq'), uadapt, chk('C33'), **SAN)
    i = 0
    while not c.quick and c.left() > 60 and not c.viol and i < 40:
        i += 1; b = 1400 + 20000 * (i - 1)
        c.conform('UtilTrace', uprimes(b, b + 20000, 't%d_' % i, 300) + upairs(r, 'c%d_' % i, 1500) + uhashes(r, 'h%d_' % i, 1000) + uobjs(r, 'o%d_' % i, 1500), uadapt, chk('C33'))
        if not c.viol: c.conform('UtilTrace', uhashes(r, 'sh%d_' % i, 400) + uobjs(r, 'so%d_' % i, 400) + upairs(r, 'sc%d_' % i, 400), uadapt, chk('C33'), **SAN)
CHECKS['C33'] = c33
