"""Lives of clustering objects: C09 (results are a function of data and minimum), C10 (memory),
C12 (objects are independent), C28 (every well-formed data set is clustered)."""
import re, json, random, hashlib, math
import build, adapt, gen
import suite_hdb, suite_coll
from suite_hdb import chk

LIFE = """SPECIFICATION Spec
INVARIANTS NoLeak Gone Fresh
PROPERTY Apart
%sCONSTANTS Objs = {%s}
Datas = {%s}
MPs = {%s}
Mems = {%s}
Maps = %s
Cons = %s
Emit = %s
Depth = %d
CONSTRAINT Short
CHECK_DEADLOCK FALSE
"""
def lives(c, objs, datas, mps, mems, maps, emit, depth=0, cons=False):
    cfg = LIFE % ('' if depth else 'VIEW core\n', ', '.join(map(str, range(objs))), ', '.join(map(str, range(datas))), ', '.join(map(str, range(mps))),
                  ', '.join('"%s"' % m for m in mems), 'TRUE' if maps else 'FALSE', 'TRUE' if cons else 'FALSE', 'TRUE' if emit else 'FALSE', depth)
    R = c.model('Life', cfg, '%d objects, %d data sets, %d minima, %s, %s, %s' % (objs, datas, mps, '/'.join(mems), ('with analyses' if maps else 'no analyses') + (', constraints' if cons else ''),
                'all histories of length %d' % depth if depth else 'one history per transition' if emit else 'exhaustive'), workers=1 if emit else 8)
    return [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SEQ (.*)"', R.out)]

# ------------------------------------------------------------------ the abstraction of recorded lives
PARTS = {'dist': ('distances', 'o', ('n', 'd')), 'core': ('core distances', 'o', ('c',)), 'mst': ('spanning tree', 'o', ('m', 'nv', 'sz')), 'rows': ('hierarchy', 'o', ('r', 'size')),
         'tree': ('cluster tree', 'o', ('t',)), 'labels': ('labels', 'o', ('l',)), 'scores': ('outlier scores', 'o', ('s',)),
         'cmap': ('groups', 'o', ('m', 'size')), 'minmax': ('distance extremes', 'o', ('m', 'size')), 'stats': ('statistics', 'd', ('cr', 'dr', 'count')),
         'conf': ('confidences', 'd', ('m',)), 'sort': ('order', None, ('out',)), 'analyse': ('validity', None, ('v',))}
def digest(e):
    f = PARTS[e['e']][2]
    return hashlib.md5(json.dumps([e.get(x) for x in f]).encode()).hexdigest()[:12]
def part(e):
    p = PARTS[e['e']][0]
    return p + ' by ' + e['what'] if e['e'] == 'sort' else p
def src(e):
    k = e['e']
    if k in ('stats',): return 'd%d' % e['dm']
    if k == 'conf': return 'd%d' % e['c']
    if k == 'sort': return ('c%d' if e['what'] == 'len' else 'd%d') % e['m']
    if k == 'analyse': return 'd%d' % e['s']           # statistics s are always those of distance map s
    return 'o%d' % e['h']
def base_of(raw):
    return {part(e): digest(e) for e in raw['ev'] if e['e'] in PARTS}
def shared_only(o, seen):
    k = json.dumps(o['acc'])
    if k in seen: return False
    seen.add(k); return True
def compress(accs):
    """intervals of addresses of the threads of a region to intervals of ranks"""
    pts = sorted({x for a in accs for i in a for x in (i[0], i[1])})
    rk = {x: i for i, x in enumerate(pts)}
    return [[[rk[i[0]], rk[i[1]], i[2], i[3]] for i in a] for a in accs]
def life(raw, scen):
    out = []; res = bool(scen.get('base')); seen = set()
    for e in raw['ev']:
        k = e['e']; o = {'e': k}
        for f in ('h', 'k', 'c', 'o', 'mp', 'ret', 'where', 'op', 'live', 'bad', 'over'):
            if f in e: o[f] = min(e[f], 2**31 - 1) if isinstance(e[f], int) else e[f]
        if k == 'region':
            o['acc'] = compress(e['acc'])
            if not shared_only(o, seen): continue       # the same accesses again
        if k not in PARTS or k in ('cmap', 'minmax', 'sort'): out.append(o)
        if k in PARTS and res: out.append({'e': 'result', 'p': part(e), 'src': src(e), 'dg': digest(e)})
    if raw['end'] != 'ok': out.append({'e': 'crash', 'sig': raw['sig']})
    return {'id': raw['id'], 'base': scen.get('base', {}), 'ev': out}

# ------------------------------------------------------------------ scenarios
REUSE = {'VMEM_REUSE': '1'}
def text(hist, mps, dump='dcmhtls', mem=False, end=True):
    """operations of a history of Life as lines for the interpreter; finally everything held is released"""
    out = []; objs = {}; maps = {}
    for o in hist:
        h = o['h']; op = o['op']
        if op == 'init': out.append('obj %d init %d %s' % (h, mps[o['mp']], 'st' if o['mem'] == 'st' else '')); objs[h] = o['mem']
        elif op == 'run': out.append('obj %d run %d' % (h, o['k'])); out += ['obj %d dump %s' % (h, dump)] if dump else []
        elif op == 'rerun': out.append('obj %d rerun %d' % (h, mps[o['mp']])); out += ['obj %d dump %s' % (h, dump)] if dump else []
        elif op == 'clean': out.append('obj %d clean' % h)
        elif op == 'cons': out.append('obj %d cons %d' % (h, o.get('n', 1)))
        elif op == 'destroy': out.append('obj %d destroy' % h); del objs[h]
        elif op == 'abandon': del objs[h]
        elif op == 'cmap': out.append('cmap %d %d' % (h, h)); maps.setdefault(h, set()).add('c')
        elif op == 'dmap': out += ['minmax %d %d %d' % (h, h, h), 'stats %d %d' % (h, h), 'analyse %d' % h]; maps.setdefault(h, set()).add('d')
        elif op == 'sort': out.append('sort %s %d %d null' % ('sim%d' % (len(out) % 2), h, h)); maps.setdefault(h, set()).add('s')
        elif op == 'cfree': out.append('mapfree %d' % h); maps[h].discard('c')
        elif op == 'dfree': out.append('dmfree %d' % h); maps[h].discard('d')
        elif op == 'sfree': out.append('sortfree %d' % h); maps[h].discard('s')
        if mem: out.append('mem')
    if end:
        for h, s in maps.items():
            for w, z in (('c', 'mapfree'), ('d', 'dmfree'), ('s', 'sortfree')):
                if w in s: out.append('%s %d' % (z, h))
        for h, m in objs.items(): out.append('obj %d %s' % (h, 'clean' if m == 'st' else 'destroy'))
        if mem: out.append('mem')
    return out

def rnd_data(r, k, nmax=24, types='ddfilsc', nmin=1):
    n = r.choice([1, 2, 3, r.randint(3, nmax), r.randint(3, nmax), r.randint(3, nmax)]); n = max(n, nmin)
    kind = r.choice(gen.KINDS); dim = r.randint(1, 3)
    pts = gen.rnd_points(r, n, dim, kind); r.shuffle(pts)
    typ = r.choice([t for t in types if gen.ok_for(t, pts)])
    rw = 1 if r.random() < .85 else 0
    if typ == 'd' and r.random() < .3: return gen.data_line(k, 'd', [[v + r.gauss(0, .3) for v in p] for p in pts], rw)
    return gen.data_line(k, typ, pts, rw, gen.rnd_scale(r, typ, pts), r.choice([0, 0, 1]))

ALL = ['cmap 0 0', 'minmax 0 0 0', 'stats 0 0', 'analyse 0', 'sort sim0 0 0 null', 'sortfree 0', 'sort sim1 0 0 null', 'sortfree 0', 'sort len 0 0 null', 'sortfree 0', 'dmfree 0', 'mapfree 0']
class Group:
    """data sets and minima with the results a new object computes from each, every one in a process of its own"""
    def __init__(self, c, gid, r, ndata, nmp, nmax=24, binary=None, datas=None, mps=None):
        self.gid = gid; self.data = datas or [rnd_data(r, k, nmax) for k in range(ndata)]
        self.mps = mps or r.sample([2, 2, 3, 4, 5, 7, 60][:max(4, nmp + 1)] if r.random() < .8 else [2, 3, 30, 8, 5], nmp)
    def scens(self):
        for k in range(len(self.data)):
            for mp in sorted(set(self.mps)):
                yield (k, mp), dict(id='base_%s_%d_%d' % (self.gid, k, mp), lines=self.data + ['obj 0 init %d' % mp, 'obj 0 run %d' % k, 'obj 0 dump dcmhtls'] + ALL + ['obj 0 destroy'])
def bases(c, groups, binary=None, **kw):
    todo = [(g, key, s) for g in groups for key, s in g.scens()]
    res = c.run([s for _, _, s in todo], binary, **kw)
    for g in groups: g.base = {}
    for g, key, s in todo:
        raw = res[s['id']]
        if raw['end'] == 'ok': g.base['%d_%d' % key] = base_of(raw)
    # a group whose single runs do not finish says nothing about histories
    return [g for g in groups if len(g.base) == sum(1 for x, _, _ in todo if x is g)]

def scen(g, sid, lines): return dict(id=sid, lines=g.data + lines, base=g.base)

def rnd_hist(r, objs, datas, nmp, nops, maps=True, mems=('heap', 'st'), cons=False):
    """a random behaviour of Life"""
    o = {h: None for h in range(objs)}; out = []
    while len(out) < nops:
        h = r.randrange(objs); x = o[h]
        if x is None:
            m = r.choice(mems); x = o[h] = dict(mem=m, res=None, dist=0, cm=None, dm=None, sl=None, mp=r.randrange(nmp)) if not isinstance(x, dict) else x
            out.append(dict(op='init', h=h, mp=x['mp'], mem=m)); continue
        ops = ['run', 'run']
        if x['mem'] == 'none': ops = ['init']
        else:
            if x['res']: ops += ['rerun', 'rerun', 'rerun']
            ops += ['clean'] if r.random() < .4 else []
            if cons and not x.get('cs') and r.random() < .4: ops += ['cons', 'cons']
            if r.random() < .2 and (x['mem'] == 'heap' or not x['res'] and not x.get('cs')): ops += ['destroy' if x['mem'] == 'heap' else 'abandon']
        if maps:
            if x['res'] and not x['cm']: ops += ['cmap', 'cmap']
            if x['res'] and x['cm'] == x['res'] and not x['dm']: ops += ['dmap', 'dmap']
            if x['dm'] and not x['sl']: ops += ['sort']
            for f, w in (('cm', 'cfree'), ('dm', 'dfree'), ('sl', 'sfree')):
                if x[f]: ops.append(w)
        op = r.choice(ops); d = dict(op=op, h=h)
        if op == 'init': x['mem'] = d['mem'] = r.choice(mems); x['mp'] = d['mp'] = r.randrange(nmp)
        elif op == 'run': d['k'] = r.randrange(datas); x['res'] = (d['k'], x['mp'])
        elif op == 'rerun': x['mp'] = d['mp'] = r.randrange(nmp); x['res'] = (x['res'][0], x['mp'])
        elif op == 'clean': x['res'] = None
        elif op == 'cons': d['n'] = r.choice([0, 1, 2, 5])
        elif op in ('destroy', 'abandon'): x['mem'] = 'none'; x['res'] = None
        elif op == 'cmap': x['cm'] = x['res']
        elif op == 'dmap': x['dm'] = x['cm']
        elif op == 'sort': x['sl'] = x['dm']
        else: x[{'cfree': 'cm', 'dfree': 'dm', 'sfree': 'sl'}[op]] = None
        if op in ('run', 'rerun', 'clean', 'destroy', 'cons'): x['cs'] = op == 'cons'
        out.append(d)
    return out

def histories(c, pid, objs, model_hists, mems, nrand, ngroups, nmax=24, datas=2, nmp=2, binary=None, tag='', mem=False, maps=True, **kw):
    r = c.rng
    gs = bases(c, [Group(c, '%s%d' % (tag, i), r, datas, nmp, nmax) for i in range(ngroups)], binary, **kw)
    sc = []
    for i, h in enumerate(model_hists):
        g = r.choice(gs); sc.append(scen(g, '%sm%d' % (tag, i), text(h, g.mps, mem=mem)))
    for i in range(nrand):
        g = r.choice(gs); sc.append(scen(g, '%sr%d' % (tag, i), text(rnd_hist(r, objs, datas, nmp, r.choice([6, 10, 18, 30]), maps, mems), g.mps, mem=mem)))
    return sc

def two_lives(r, hs, count):
    """histories of one object that ends, followed by one of another object that finds itself in the same place"""
    out = []
    hs = [h for h in hs if sum(o['op'] in ('run', 'rerun') for o in h) >= 1]
    def tail(h):
        m = [o['mem'] for o in h if o['op'] == 'init']; live = h[-1]['op'] not in ('destroy', 'abandon')
        return ([dict(op='clean', h=0), dict(op='abandon', h=0)] if m[-1] == 'st' else [dict(op='destroy', h=0)]) if live else []
    def life(mem):
        """a life with a rerun, its minima and data at random"""
        h = [dict(op='init', h=0, mp=r.randrange(3), mem=mem), dict(op='run', h=0, k=r.randrange(2))]
        for _ in range(r.choice([0, 1, 1, 2])): h.append(dict(op='rerun', h=0, mp=r.randrange(3)) if r.random() < .8 else dict(op='run', h=0, k=r.randrange(2)))
        return h
    for _ in range(count):
        if r.random() < .5: mem = r.choice(['heap', 'st']); parts = [life(mem) for _ in range(r.choice([2, 2, 3]))]
        else: parts = [[dict(o) for o in r.choice(hs)] for _ in range(2)]
        h = []
        for p in parts[:-1]: h += p + tail(p)
        out.append(h + parts[-1])
    return out
def far(c, r, tag, ngroups, count):
    """minima which need more than one byte, or two, to say: of hundreds of points, and of few"""
    gs = []
    for i in range(ngroups):
        if i % 2: g = Group(c, '%sg%d' % (tag, i), r, 2, 3, 24, mps=[2 + r.randrange(3), 65536 + r.randint(2, 5), r.choice([1000, 70000, 2**31 - 1])])
        else:
            n = r.randint(290, 330); pts = gen.rnd_points(r, n, 2, r.choice(gen.KINDS)); r.shuffle(pts)
            g = Group(c, '%sg%d' % (tag, i), r, 1, 3, mps=[r.randint(2, 4), 256 + r.randint(2, 4), r.choice([128, 255, 256, 257, n - 1, n, n + 1, 512 + 2])], datas=[gen.data_line(0, 'd', pts, 1)])
        gs.append(g)
    gs = bases(c, gs); sc = []
    for i in range(count):
        g = gs[i % len(gs)]
        sc.append(scen(g, '%sr%d' % (tag, i), text(rnd_hist(r, 1, len(g.data), 3, 6, False), g.mps)))
        if i < len(gs): sc.append(scen(g, '%ss%d' % (tag, i), text([dict(op='init', h=0, mp=0, mem='heap'), dict(op='run', h=0, k=0), dict(op='rerun', h=0, mp=1), dict(op='rerun', h=0, mp=2), dict(op='run', h=0, k=0), dict(op='rerun', h=0, mp=0)], g.mps)))
    return sc
def c09(c):
    r = c.rng
    suite_hdb.design(c, 'C09')
    hs = lives(c, 1, 2, 2, ('heap', 'st'), False, True, 5 if c.quick else 6)
    hs += lives(c, 1, 1, 2, ('heap', 'st'), True, True)
    cap = 1500 if c.quick else 20000
    if len(hs) > cap: hs = r.sample(hs, cap)
    c.conform('LifeTrace', histories(c, 'C09', 1, hs, ('heap', 'st'), 300, 24, tag='a'), life, chk('C09'))
    if not c.viol: c.conform('LifeTrace', far(c, r, 'far', 6, 18), life, chk('C09'))
    # memory that comes back: an object may find itself where another one was
    pl = [h for h in hs if not any(o['op'] in ('cmap', 'dmap', 'sort') for o in h)]
    if not c.viol: c.conform('LifeTrace', histories(c, 'C09', 1, two_lives(r, pl, 450 if c.quick else 4000), ('heap', 'st'), 150, 24, nmp=3, tag='z'), life, chk('C09'), env=REUSE)
    i = 0
    while not c.quick and c.left() > 60 and not c.viol and i < 60:
        i += 1
        c.conform('LifeTrace', histories(c, 'C09', 1, [], ('heap', 'st'), 1500, 40, nmax=50, datas=3, nmp=3, tag='t%d_' % i), life, chk('C09'))
        if not c.viol: c.conform('LifeTrace', far(c, r, 'far%d_' % i, 8, 40), life, chk('C09'))
        if not c.viol: c.conform('LifeTrace', histories(c, 'C09', 1, two_lives(r, pl, 1200), ('heap', 'st'), 600, 40, nmax=40, nmp=3, tag='z%d_' % i), life, chk('C09'), env=REUSE)

SANENV = {'HX_NOAS': '1'}

def graphs(r, sid, nops=12):
    n = r.randint(1, 6); m = r.randint(0, 10)
    es = [(r.randrange(n), r.randrange(n), r.randint(0, 5)) for _ in range(m)]
    out = ['graph 0 init %d %d %s' % (n, m, ' '.join('%d %d %d' % e for e in es))]
    for _ in range(nops):
        op = r.choice(['sort', 'rsort', 'swap', 'remove'])
        if op == 'swap' and m: out.append('graph 0 swap %d %d' % (r.randrange(m), r.randrange(m)))
        elif op == 'remove' and m: e = r.choice(es); out.append('graph 0 remove %d %d' % (e[0], e[1]))
        elif op in ('sort', 'rsort'): out.append('graph 0 ' + op)
    return dict(id=sid, lines=out + ['graph 0 destroy', 'mem'])
def clusters(r, sid, nops=14):
    k = r.randint(1, 5); out = []
    for i in range(k): out.append('cl %d init %d %d %g %d' % (i, i + 1, r.randint(-1, i - 1) if i else -1, r.choice([1, 2, 4]), r.randint(1, 9)))
    n = {i: 9 for i in range(k)}
    for _ in range(nops):
        i = r.randrange(k)
        op = r.choice(['addvc', 'addvc', 'addc', 'hasvc'])
        if op == 'addvc': out.append('cl %d addvc %s' % (i, ' '.join(map(str, r.sample(range(40), r.randint(0, 6))))))
        elif op == 'addc': out.append('cl %d addc %d' % (i, r.randint(0, 3)))
        else: out.append('cl %d hasvc %d' % (i, r.randint(0, 40)))
    for i in range(k):
        if r.random() < .5: out.append('cl %d release' % i)
    for i in reversed(range(k)): out.append('cl %d destroy' % i)
    return dict(id=sid, lines=out + ['mem'])
def colls(r, tag, count):
    out = []
    for i in range(count):
        k = r.choice(['al', 'set', 'll', 'ht', 'htp'])
        s = suite_coll.rnd_hash(r, '%s%d' % (tag, i), r.choice([20, 60, 120]), k == 'htp') if k[:2] == 'ht' else suite_coll.rnd_list(r, '%s%d' % (tag, i), k, r.choice([20, 60, 120]))
        if k == 'htp':       # everything handed over is released
            s['lines'] = [re.sub(r'(clear|destroy) \d', r'\1 3', l) for l in s['lines']] + ['mem']
        out.append(s)
    return out
def c10(c):
    r = c.rng
    hs = lives(c, 1, 2, 2, ('heap', 'st'), False, True, 4 if c.quick else 6, cons=True) + lives(c, 1, 1, 2, ('heap', 'st'), True, True)
    lives(c, 2, 1, 2, ('heap',), True, False)
    h2 = lives(c, 2, 1, 2, ('heap', 'st'), False, True, cons=True)
    def part(hists, nr, tag, san, objs=1, nmax=24):
        b = build.hx_if(san=san) if san else None
        if san and not b: c.assumptions.append('the %s build was left out' % san); return
        kw = dict(binary=b, env=SANENV, cpu=40) if san else {}
        g = [Group(c, tag + '%d' % i, r, 2, 2, nmax) for i in range(20)]
        for x in g: x.base = {}
        sc = []
        for i, h in enumerate(hists): x = r.choice(g); sc.append(scen(x, '%sm%d' % (tag, i), text(h, x.mps, dump='' if r.random() < .5 else 'dcmhtls', mem=not san)))
        for i in range(nr): x = r.choice(g); sc.append(scen(x, '%sr%d' % (tag, i), text(rnd_hist(r, objs, 2, 2, r.choice([6, 10, 18]), cons=True), x.mps, mem=not san)))
        m = nr // 2
        sc += colls(r, tag + 'c', m) + [graphs(r, '%sg%d' % (tag, i)) for i in range(m // 3)] + [clusters(r, '%sk%d' % (tag, i)) for i in range(m // 3)]
        c.conform('LifeTrace', sc, life, chk('C10'), **kw)
    cap = 900 if c.quick else 10**6
    samp = lambda l, k: r.sample(l, k) if len(l) > k else l
    part(samp(hs, cap) + samp(h2, cap // 3), 250, 'v', None)
    if not c.viol: part(samp(hs, cap // 3), 130, 'a', 'asan')
    if not c.viol: part(samp(hs, cap // 3), 130, 'u', 'msan')
    i = 0
    while not c.quick and c.left() > 120 and not c.viol and i < 60:
        i += 1
        part([], 900, 'v%d_' % i, None, 2, 50)
        if not c.viol: part([], 500, 'a%d_' % i, 'asan', 2, 40)
        if not c.viol: part([], 500, 'u%d_' % i, 'msan', 2, 40)

# ------------------------------------------------------------------ C28
def wellformed(r, tag, count, nmax):
    out = []
    for j in range(count):
        n = r.choice([1, 1, 2, 3, 4, 5, r.randint(1, nmax), r.randint(1, nmax)]); dim = gen.dims(r, 1, 1) if r.random() < .4 else r.choice([2, 3, 5, 8])
        t = r.choice('dfilsc'); rw = r.choice([1, 1, 1, 0]); kind = r.choice(gen.KINDS + ['same', 'ends', 'real'])
        if rw == 0 and n * dim > nmax: dim = 1
        hi = {'c': 127, 's': 32767, 'i': 2**31 - 1, 'l': 2**63 - 1}.get(t)
        if kind == 'same': v = [r.choice([0, 1, hi or 1e30, -(hi or 1e30)]) for _ in range(dim)]; pts = [list(v) for _ in range(n)]
        elif kind == 'ends':
            e = [hi, -hi - 1, hi - 1, 0, -1, 1, -hi] if hi else [0.0, -0.0, 1e-300, -1e-300, 1e140, -1e140, 5e-324, 1.0] if t == 'd' else [0.0, 3.4e38, -3.4e38, 1e-38, 1e-45, 1.0, -1.0]
            pts = [[r.choice(e) for _ in range(dim)] for _ in range(n)]
        elif kind == 'real' and not hi: pts = [[r.gauss(0, 10.0 ** r.choice([-9, 0, 9])) for _ in range(dim)] for _ in range(n)]
        else:
            pts = gen.rnd_points(r, n, dim, kind if kind != 'real' else 'clus')
            if not gen.ok_for(t, pts): t = 'd'
        vals = ' '.join(('%.17g' if t in 'df' else '%d') % v for p in pts for v in p)
        mps = [2, 2, 3, 4, n, n + 1, max(2, n - 1), r.randint(2, 12), 10**6, 2**31, 2**32 - 1]
        mp = max(2, r.choice(mps))
        lines = ['data 0 %s %d %d %d %d %s' % (t, n, dim, rw, r.choice([0, 0, 1, 3]), vals), 'obj 0 init %d %s' % (mp, r.choice(['', 'st'])), 'obj 0 run 0', 'obj 0 dump z']
        for _ in range(r.choice([0, 0, 1, 2])): lines += ['obj 0 rerun %d' % max(2, r.choice(mps)), 'obj 0 dump z']
        if r.random() < .2: lines += ['obj 0 run 0', 'obj 0 dump z']
        lines.append('obj 0 clean' if lines[1].endswith('st') else 'obj 0 destroy')
        out.append(dict(id='%s%d_%s%s' % (tag, j, kind, t), lines=lines, mode='exact', scale=1.0, data=[[]], ns=[n if rw else n * dim]))
    return out
def c28(c):
    r = c.rng
    suite_hdb.design(c, 'C28')
    ex = suite_hdb.exhaustive('x', (1, 2, 3, 4, 5), (0, 1, 2), (2, 3, 4, 7), 'z', inf=False)
    sc = r.sample(ex, min(len(ex), 250)) + wellformed(r, 'w', 650, 60) + wellformed(r, 'b', 12, 400)
    for i in (300, 900): sc.append(gen.hdb('big%d' % i, gen.rnd_points(r, i, 2, 'clus'), 5, dump='z', inf=False))
    sc.append(gen.hdb('same400', [[3, 3]] * 400, 4, dump='z', inf=False))
    sc.append(gen.hdb('line500', [[i] for i in range(500)], 2, dump='z', inf=False))
    c.conform('HdbTrace', sc, adapt.hdb, chk('C28'), cpu=60)
    asan = build.hx(san='asan')
    if not c.viol: c.conform('HdbTrace', wellformed(r, 's', 200, 30), adapt.hdb, chk('C28'), binary=asan, env=SANENV, cpu=60)
    i = 0
    while not c.quick and c.left() > 90 and not c.viol and i < 60:
        i += 1
        c.conform('HdbTrace', wellformed(r, 'w%d_' % i, 1500, 150) + wellformed(r, 'b%d_' % i, 16, 700), adapt.hdb, chk('C28'), cpu=60)
        if not c.viol: c.conform('HdbTrace', wellformed(r, 's%d_' % i, 500, 60), adapt.hdb, chk('C28'), binary=asan, env=SANENV, cpu=60)

# ------------------------------------------------------------------ C11, C12
PAR = 'SPECIFICATION Spec\nINVARIANTS Deterministic NoConflictNoLocks Sections Exclusive\nCONSTANTS Locs = {%s}\nLen1 = %d\nLen2 = %d\nWithLocks = %s\nCHECK_DEADLOCK FALSE\n'
def par_model(c):
    for a in ([('1, 2', 3, 2, 'FALSE'), ('1', 2, 2, 'TRUE')] if c.quick else [('1, 2', 3, 3, 'FALSE'), ('1, 2', 2, 2, 'TRUE')]):
        c.model('ParModel', PAR % a, 'all programs of two threads with %d and %d accesses to locations {%s}, locks %s' % (a[1], a[2], a[0], a[3]))

def whole(r, g, sid, sched, nr=2):
    """runs and reruns with every analysis under a schedule"""
    out = ['sched %d %d %d' % sched, 'obj 0 init %d' % g.mps[0]]
    for _ in range(nr):
        if r.random() < .6 or len(out) == 2: out.append('obj 0 run %d' % r.randrange(len(g.data)))
        else: out.append('obj 0 rerun %d' % r.choice(g.mps))
        out.append('obj 0 dump dcmhtls'); out += ALL[:5] + ['sortfree 0', 'sort len 0 0 null', 'sortfree 0'] + ALL[-2:]
        if r.random() < .3: out.insert(-2, 'sort sim1 0 0 null'); out.insert(-2, 'sortfree 0')
    out.append('obj 0 destroy')
    s = scen(g, sid, out)
    return s
def deep(r, k):
    """data with several levels, splits and noise, so that the regions of the code have something to do"""
    n = r.randint(6, 22); kind = r.choice(['nest', 'clus', 'pow', 'nest', 'grid', 'dup'])
    pts = gen.rnd_points(r, n, r.randint(1, 2), kind); r.shuffle(pts)
    return gen.data_line(k, 'd', pts)
def orders(c, r, tag, count, P, bases_):
    """clusters put in order, from lists of the caller too, in C and in C++, by any number of threads"""
    sc = []
    for i in range(count):
        keys = r.sample(range(90), r.randint(1, 14)); w = r.choice(['sim0', 'sim1', 'len']); k = r.choice([1, 3, 100])
        labs = r.choices(keys, k=r.randint(1, 40)) + keys
        first = ['labs 0 %d %s' % (len(labs), ' '.join(map(str, labs))), 'cmaparr 0 0 0 %d' % len(labs)] if w == 'len' else \
                ['mkdm 0 ' + ' '.join('%d 1 2 1 2 %g %g' % (x, r.randint(0, k) / 2.0, r.randint(-k, k) / 4.0) for x in keys)]
        lines = []
        for _ in range(3):
            sub = r.sample(keys, r.randint(1, len(keys))) if r.random() < .6 else r.choices(keys, k=r.randint(1, 20))
            lines += ['sort %s 0 0 %s' % (w, r.choice(['null', 'list', 'list ' + ' '.join(map(str, sub)), 'list ' + ' '.join(map(str, sub))])), 'sortfree 0']
        sc.append(dict(id='%s%d' % (tag, i), first=first, lines=lines + ['mapfree 0' if w == 'len' else 'dmfree 0']))
    dg = lambda raw: [hashlib.md5(json.dumps(e['out']).encode()).hexdigest()[:12] for e in raw['ev'] if e['e'] == 'sort']
    for q in range(2):
        if c.viol: return
        if not P[q]: continue
        todo = [dict(s, id=s['id'] + 'cx'[q], lines=s['first'] + s['lines']) for s in sc]
        ref = {k: dg(v) for k, v in c.run(todo, bases_[q], threads=1).items()}
        def ad(raw, s):
            out = dict(life(raw, s), base={}); a = ref[s['id']]; b = dg(raw); head = []
            for i, x in enumerate(b):
                out['base']['%d_1' % i] = {'order': a[i] if i < len(a) else ''}
                head += [{'e': 'init', 'h': i, 'mp': 1, 'where': 'st'}, {'e': 'run', 'h': i, 'k': i, 'ret': 1}, {'e': 'result', 'p': 'order', 'src': 'o%d' % i, 'dg': x}]
            out['ev'] = head + out['ev']
            return out
        for s in todo: s['lines'] = ['sched %d %d %d' % (r.randint(2, 6), r.randrange(10**6), r.randint(0, 5))] + s['lines']
        c.conform('LifeTrace', todo, ad, chk('C11'), binary=P[q])
def c11(c):
    r = c.rng
    par_model(c)
    P = build.hx_if(san='prt'); B = build.hx()
    PX = build.hx_if(san='prt', cpp=True); BX = build.hx(cpp=True)
    def go(i, f, nmax):
        if not P: c.assumptions.append('controlled schedules were left out')
        gs = bases(c, [Group(c, 'p%d_%d' % (i, j), r, 2, 2, datas=[deep(r, 0), deep(r, 1)], mps=r.sample([2, 3, 4], 2)) for j in range(10 * f if P else 0)], P)
        sc = [whole(r, r.choice(gs), 's%d_%d' % (i, j), (r.randint(2, 6), r.randrange(10**6), r.randint(0, 5))) for j in range(90 * f if P else 0)]
        if sc: c.conform('LifeTrace', sc, life, chk('C11'), binary=P)
        if not c.viol: orders(c, r, 'o%d_' % i, 60 * f, (P, PX), (B, BX))
        if c.viol: return
        gs = bases(c, [Group(c, 'q%d_%d' % (i, j), r, 2, 2, nmax, datas=[deep(r, 0), rnd_data(r, 1, nmax)]) for j in range(10 * f)], B, threads=1)
        sc = [whole(r, r.choice(gs), 't%d_%d' % (i, j), (r.choice([2, 3, 4, 5, 8, 8, 13]), 0, 0), 3) for j in range(120 * f)]
        c.conform('LifeTrace', sc, life, chk('C11'), binary=B, threads=1)
    go(0, 1, 60)
    i = 0
    while not c.quick and c.left() > 90 and not c.viol and i < 60:
        i += 1; go(i, 4, 120)

def parallel(r, g, sid, nth, sched):
    """several objects, each used by a thread of its own"""
    out = ['sched %d %d %d' % sched]; th = []
    for t in range(nth):
        h = rnd_hist(r, 1, len(g.data), len(g.mps), r.choice([3, 5, 8]), True, ('heap', 'st'))
        lines = text(h, g.mps)
        th.append(['T%d %s' % (t, re.sub(r'^(obj|cmap|mapfree|dmfree|sortfree) 0', r'\1 %d' % t, l)) for l in lines])
    fix = lambda l: l
    for t in range(nth):
        for j, l in enumerate(th[t]):
            w = l.split()
            if w[1] == 'cmap': l = 'T%d cmap %d %d' % (t, t, t)
            elif w[1] == 'minmax': l = 'T%d minmax %d %d %d' % (t, t, t, t)
            elif w[1] == 'stats': l = 'T%d stats %d %d' % (t, t, t)
            elif w[1] == 'analyse': l = 'T%d analyse %d' % (t, t)
            elif w[1] == 'sort': l = 'T%d sort %s %d %d null' % (t, w[2], t, t)
            th[t][j] = l
    out.append('par')
    for t in th: out += t
    return scen(g, sid, out + ['endpar'])
def c12(c):
    r = c.rng
    hs = lives(c, 2, 2, 2, ('heap', 'st'), False, True)
    lives(c, 2, 1, 2, ('heap', 'st'), True, False)
    par_model(c)
    if not c.quick: lives(c, 3, 1, 2, ('heap', 'st'), False, False)
    if c.quick: hs = r.sample(hs, 500)
    P = build.hx_if(san='prt'); B = build.hx(); BX = build.hx(cpp=True)
    c.conform('LifeTrace', histories(c, 'C12', 3, hs, ('heap', 'st'), 150, 16, tag='a'), life, chk('C12'))
    def go(i, f):
        if c.viol: return
        gs = bases(c, [Group(c, 'p%d_%d' % (i, j), r, 2, 2, 14) for j in range(8 * f)], P) if P else []
        if P: c.conform('LifeTrace', [parallel(r, r.choice(gs), 's%d_%d' % (i, j), r.choice([2, 2, 3]), (1, r.randrange(10**6), r.choice([2, 3, 4, 5, 5]))) for j in range(60 * f)], life, chk('C12'), binary=P)
        if c.viol: return
        gs = bases(c, [Group(c, 'q%d_%d' % (i, j), r, 2, 2, 60) for j in range(8 * f)], B)
        c.conform('LifeTrace', [parallel(r, r.choice(gs), 't%d_%d' % (i, j), r.choice([2, 3, 5]), (r.choice([1, 1, 3]), 0, 0)) for j in range(100 * f)], life, chk('C12'), binary=B)
        if c.viol: return
        gs = bases(c, [Group(c, 'v%d_%d' % (i, j), r, 2, 2, 30) for j in range(6 * f)], BX)
        c.conform('LifeTrace', [parallel(r, r.choice(gs), 'u%d_%d' % (i, j), r.choice([2, 3, 5]), (r.choice([1, 1, 3]), 0, 0)) for j in range(40 * f)], life, chk('C12'), binary=BX)
    go(0, 1)
    i = 0
    while not c.quick and c.left() > 90 and not c.viol and i < 60:
        i += 1; go(i, 4)
        if not c.viol: c.conform('LifeTrace', histories(c, 'C12', 3, [], ('heap', 'st'), 800, 30, nmax=40, datas=3, tag='h%d_' % i), life, chk('C12'))

CHECKS = {'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C28': c28}
