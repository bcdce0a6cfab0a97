"""C26: printed tables and exported files."""
import re, json, os, shutil, tempfile, math
import build, adapt, gen
import suite_hdb, suite_an, suite_life
from suite_hdb import chk

NUM = r'[-+]?(?:\d+(?:\.\d*)?|nan|inf)'
def fmt(p):
    def f(x):
        if x != x: return 'nan'
        return '%.*f' % (p, x)
    return f
f5, f6, f15 = fmt(5), fmt(6), fmt(15)
def clean(t): return t[1:] if t in ('-nan', '+nan') else t
def bodies(txt):
    """lines without rulers, blank ones and dated messages' prefix"""
    out = []
    for l in txt.split('\n'):
        l = re.sub(r'^\[[\d-]+ [\d:]+\] INFO: ', '', l)
        if not l.strip() or re.match(r'^\s*/{4,}', l): continue
        out.append(l)
    return out
def words(l): return [clean(w) for w in re.findall(NUM + r'|\S+', l)]
def nums(l):
    """the numbers of a line; anything unexpected stays visible"""
    return [clean(w) for w in re.sub(r'[\[\](),]|->|:(?=\s)', ' ', l).split()]
def tab(kind, txt):
    L = bodies(txt)
    if kind == 'phier':
        out = []
        for l in L:
            m = re.match(r'^hierarchy size = (\d+)$', l)
            out.append(['size', m.group(1)] if m else nums(l))
        return out
    if kind in ('pscores', 'pcmap', 'pcsizes', 'pdist'): return [nums(l) for l in L]
    if kind == 'pdmap': return [nums(re.sub(r'[{}]', '', l)) for l in L if l.strip() != '}']
    if kind == 'pstats':
        return [[' '.join(l.split(':')[0].split()), clean(l.split(':')[1].strip())] if l.count(':') == 1 else ['?', l] for l in L]
    if kind in ('pgraph', 'pugraph'):
        m = re.match(r'^numVertices: (\d+), verticesA.length: (\d+),\s+verticesB.length: (\d+), edgeWeights.length: (\d+), edges.length: (\d+)\n\nVertices A\n(.*)\n\nVertices B\n(.*)\n\nn?edgeWeights\n(.*)\n\nEdges\n(.*)$', txt, re.S)
        if not m: return [['?', txt[:80]]]
        return [['n', m.group(1)], ['A', m.group(2)], ['B', m.group(3)], ['W', m.group(4)], ['E', m.group(5)]] + [nums(m.group(i)) for i in (6, 7, 8)] + [nums(l) for l in m.group(9).split('\n') if l]
    return [['?']]
def short(n): return n.split('/vpexp.')[-1].split('/', 2)[-1] if '/vpexp.' in n else n
S = lambda xs: [str(x) for x in xs]
def pr(raw, scen):
    out = []
    for e in raw['ev']:
        k = e['e']; o = {'e': k}
        for f in ('h', 'c', 's', 'k', 'o', 'ok'):
            if f in e and not isinstance(e[f], list): o[f] = e[f]
        if k == 'rows': o['v'] = [dict(k=str(i), w=f15(r['w']), l=S(r['l'])) for i, r in enumerate(e['r'])]
        elif k == 'scores': o['v'] = [[str(s[0]), f6(s[1]), f6(s[2])] for s in e['s']]
        elif k == 'dist': o['v'] = [[f6(x) for x in r] for r in e['d']]
        elif k in ('mgraph', 'graph'): o['v'] = dict(nv=e['nv'], es=[[str(a), str(b), f6(w)] for a, b, w in e['es']], adj=[S(a) for a in e['adj']]) if 'nv' in e else {}
        elif k == 'cmap': o['v'] = [[str(a), S(b)] for a, b in e['m']]
        elif k in ('minmax', 'mkdm', 'conf'): o['v'] = [[str(m[0])] + [f6(x) for x in m[1:7]] for m in e['m']]
        elif k == 'stats': o['v'] = dict(n=e['count'], cr=[f5(x) for x in e['cr']], dr=[f5(x) for x in e['dr']])
        elif k == 'log':
            m = re.match(r'^\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\] (\w+): (.*)$', e['txt'], re.S)
            o['type'] = e['type']; o['text'] = e['text']
            o['t'] = ['date', m.group(1), m.group(2)] if m and e['type'] != 'NONE' else [e['txt']]
        elif k == 'hexport': o['shut'] = int('/none/' in e['name']); o['name'] = short(e['name'])
        elif k == 'hread':
            o['name'] = short(e['name'])
            o['csv'] = [l.rstrip(',').split(',') for l in e['csv'].split('\n')[:-1]]; o['vis'] = [[l] for l in e['vis'].split('\n')[:-1]]
        elif k[0] == 'p' and 'txt' in e: o['t'] = tab(k, e['txt'])
        out.append(o)
    if raw['end'] != 'ok': out.append({'e': 'crash', 'sig': raw['sig']})
    return {'id': raw['id'], 'ev': out}

def data(r, n, k, wide):
    kind = r.choice(gen.KINDS); pts = gen.rnd_points(r, n, r.randint(1, 3), kind); r.shuffle(pts)
    sc = 10.0 ** r.choice([-12, -3, 0, 0, 0, 4, 9, 150, 152] if wide else [0, -2, 3])
    if r.random() < .5: pts = [[v + r.gauss(0, .3) for v in p] for p in pts]
    return gen.data_line(k, 'd', [[v * sc for v in p] for p in pts])
def tables(r, tag, count, nmax, cpp=False):
    out = []
    for j in range(count):
        n = r.choice([1, 2, 3, r.randint(3, nmax), r.randint(3, nmax)]); mp = r.choice([2, 2, 3, 4, n + 1 if n > 1 else 2])
        L = [data(r, n, 0, True), 'obj 0 init %d' % mp, 'obj 0 run 0']
        def show(): return ['obj 0 dump dhsg'] + r.sample(['print hier 0', 'print scores 0', 'print dist 0', 'print graph 0'], r.randint(2, 4))
        L += show()
        if r.random() < .4: L += ['obj 0 rerun %d' % r.choice([2, 3, 5, n + 2])] + show()
        L += ['cmap 0 0', 'print cmap 0', 'print csizes 0', 'minmax 0 0 0', 'print dmap 0', 'stats 0 0', 'print stats 0', 'print dmap 0', 'dmfree 0', 'mapfree 0', 'obj 0 destroy']
        if cpp: L = [l for l in L if l[:6] != 'print ' or l.split()[1] in ('cmap', 'csizes', 'dmap', 'stats')]
        out.append(dict(id='%s%d' % (tag, j), lines=L))
    for j in range(count // 2):
        L = []
        for q in range(2):
            lab = suite_an.labelling(r, r.choice([1, 3, 9, 40])); L += ['labs %d %d %s' % (q, len(lab), ' '.join(map(str, lab))), 'cmaparr %d %d 0 %d' % (q, q, len(lab)), 'print cmap %d' % q, 'print csizes %d' % q]
        v = lambda: '%.17g' % r.choice([r.random(), r.gauss(0, 1e6), 1.7976931348623157e308, 5e-324, 0, -1.7976931348623157e308, 123456789.5])
        L += ['mkdm 0 ' + ' '.join('%d %s' % (k, ' '.join(v() for _ in range(6))) for k in r.sample(range(10**9 if r.random() < .3 else 200), r.randint(1, 9))), 'print dmap 0', 'print csizes 0', 'mapfree 0', 'mapfree 1']
        out.append(dict(id='%sg%d' % (tag, j), lines=L))
    for j in range(1 + count // 100):       # groups of thousands, and thousands of groups
        n = r.randint(2500, 4000); lab = [r.choice([1, 7, 12345678]) for _ in range(n)] if j % 2 == 0 else list(range(1, n // 2)) * 2
        out.append(dict(id='%sw%d' % (tag, j), lines=['labs 0 %d %s' % (len(lab), ' '.join(map(str, lab))), 'cmaparr 0 0 0 %d' % len(lab), 'print cmap 0', 'print csizes 0', 'mapfree 0']))
    if not cpp:
        pts = gen.rnd_points(r, 260, 2, 'clus')
        out.append(dict(id=tag + 'v0', lines=[gen.data_line(0, 'd', pts), 'obj 0 init 4', 'obj 0 run 0', 'obj 0 dump dhsg', 'print hier 0', 'print scores 0', 'print dist 0', 'print graph 0', 'obj 0 destroy']))
        for j in range(count // 3):
            s = suite_life.graphs(r, '%su%d' % (tag, j), 6); L = []
            for l in s['lines']: L += [l] + (['print ugraph 0'] if 'destroy' not in l and l != 'mem' else [])
            out.append(dict(id=s['id'], lines=L))
    return out
def logs(r, tag, count):
    out = []
    for j in range(count):
        L = []
        for _ in range(8):
            n = r.choice([1, 5, 40, 99, 100, 101, 500, 3000])
            L.append('print log %s %s' % (r.choice(['FATAL', 'ERROR', 'INFO', 'WARN', 'NONE']), ''.join(r.choice('abcXYZ 019_-.,%dsn') for _ in range(n)).strip() + '%s'))
        out.append(dict(id='%s%d' % (tag, j), lines=L))
    return out
def exports(r, tag, hists, d, long=False):
    out = []
    names = ['a', 'ab', 'none/a', 'x' * (150 if long else 60)]      # there is no directory none
    for j, h in enumerate(hists):
        base = os.path.join(d, '%s%d' % (tag, j)); os.makedirs(base, exist_ok=True)
        dat = {v: data(r, r.choice([1, 4, 9, 15]), v, False) for v in (0, 1, 2)}
        L = [dat[v] for v in sorted(dat)]; made = set()
        for e in h:
            if e['op'] == 'compute':
                if e['o'] not in made: L.append('obj %d init %d' % (e['o'], r.choice([2, 3]))); made.add(e['o'])
                L += ['obj %d run %d' % (e['o'], e['v']), 'obj %d dump h' % e['o']]
            else:
                nm = os.path.join(base, names[e['n']])
                L.append('print hierfile %d %s' % (e['o'], nm) if e['op'] == 'export' else 'print read %s' % nm)
        for n in (0, 1, 2): L.append('print read %s' % os.path.join(base, names[n]))
        for o in sorted(made): L.append('obj %d destroy' % o)
        out.append(dict(id='%s%d' % (tag, j), lines=L, base=base))
    return out
CFG = 'SPECIFICATION Spec\nINVARIANTS Agree Done\nCONSTRAINT Short\nCONSTANTS Objs = {%s}\nVersions = {%s}\nNames = {%s}\nShut = {%s}\nDepth = %d\nEmit = %s\nCHECK_DEADLOCK FALSE\n'
def c26(c):
    r = c.rng
    R = c.model('PrintModel', CFG % ('0, 1', '0, 1', '0, 1, 2', '2', 4 if c.quick else 5, 'TRUE'), 'two objects, two versions, two names and one that can not be opened, histories of %d operations' % (4 if c.quick else 5), workers=1)
    hs = [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SEQ (.*)"', R.out)]
    hs = [h for h in hs if any(e['op'] == 'export' for e in h)]
    X = build.hx(cpp=True); A = build.hx(san='asan'); AX = build.hx(san='asan', cpp=True)
    d = tempfile.mkdtemp(prefix='vpexp.')
    try:
        def go(i, f):
            h = r.sample(hs, min(len(hs), 220 * f))
            def rnd():
                out = []; have = set()
                for _ in range(r.choice([8, 14])):
                    k = r.random()
                    if k < .4 or not have: o = r.randrange(2); have.add(o); out.append(dict(op='compute', o=o, v=r.randrange(3)))
                    elif k < .75: out.append(dict(op='export', o=r.choice(sorted(have)), n=r.randrange(4)))
                    else: out.append(dict(op='read', o=0, n=r.randrange(4)))
                return out
            ex = exports(r, 'e%d_' % i, h + [rnd() for _ in range(40 * f)], d, True)
            def clear(raw, s): return pr(raw, s)
            def go2(sc, b, **kw):
                if c.viol: return
                for s in sc:
                    if 'base' in s: shutil.rmtree(s['base'], ignore_errors=True); os.makedirs(s['base'])
                c.conform('PrintTrace', sc, pr, chk('C26'), binary=b, **kw)
            go2(ex + tables(r, 't%d_' % i, 120 * f, 24) + logs(r, 'l%d_' % i, 12 * f), None)
            go2(tables(r, 'x%d_' % i, 60 * f, 16, True), X)
            go2(exports(r, 'ea%d_' % i, [rnd() for _ in range(15 * f)], d, True) + tables(r, 'a%d_' % i, 60 * f, 14) + logs(r, 'm%d_' % i, 6), A, env=suite_life.SANENV, cpu=40)
            go2(tables(r, 'y%d_' % i, 30 * f, 14, True), AX, env=suite_life.SANENV, cpu=40)
        go(0, 1); i = 0
        while not c.quick and c.left() > 100 and not c.viol and i < 60: i += 1; go(i, 4)
    finally: shutil.rmtree(d, ignore_errors=True)

CHECKS = {'C26': c26}
