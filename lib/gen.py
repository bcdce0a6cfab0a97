"""Scenario generators. A scenario is a dict with id, lines (text for the interpreter), mode, scale, data."""
import itertools, math, random

def data_line(k, typ, pts, rowwise=1, scale=1.0, off=0):
    rows, cols = len(pts), len(pts[0])
    if typ in 'df': vals = ['%.17g' % (v * scale) for p in pts for v in p]
    else: vals = ['%d' % int(v * scale) for p in pts for v in p]
    if not rowwise:   # every element is a point of its own
        return 'data %d %s %d %d 0 %d %s' % (k, typ, rows, cols, off, ' '.join(vals))
    return 'data %d %s %d %d 1 %d %s' % (k, typ, rows, cols, off, ' '.join(vals))

def hdb(sid, pts, mp, typ='d', scale=1.0, rowwise=1, dump='dcmhtls', reruns=(), mode='exact', tail=('mem0',), off=0, where='', inf=True):
    """run (and rerun) one data set and dump the results"""
    lines = [data_line(0, typ, pts, rowwise, scale, off), 'obj 0 init %d %s' % (mp, where), 'obj 0 run 0', 'obj 0 dump ' + dump]
    for m in reruns: lines += ['obj 0 rerun %d' % m, 'obj 0 dump ' + dump]
    if inf and 'h' in dump: lines.append('obj 0 inf')
    lines.append('obj 0 destroy')
    tp = [list(p) for p in pts] if rowwise else [[v] for p in pts for v in p]
    return dict(id=sid, lines=lines, mode=mode, scale=scale, data=[tp if mode == 'exact' else None], ns=[len(tp)])

WIDE = [7, 8, 9, 11, 15, 16, 17, 23, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 131, 255, 256, 257, 259, 300, 511, 513, 1000, 1025, 1031]
def dims(r, lo, hi, p=.06, most=1031):
    """numbers of coordinates, now and then many"""
    return r.choice([w for w in WIDE if w <= most]) if r.random() < p else r.randint(lo, hi)
def line_sets(n, gaps):
    for g in itertools.product(gaps, repeat=n - 1):
        x = [0]
        for d in g: x.append(x[-1] + d)
        yield [[v] for v in x]

def rnd_points(r, n, dim, kind):
    """kinds: grid (many ties), dup (many duplicates), wide, clus (separated groups), pow (distances powers of two), chain"""
    if kind == 'grid': return [[r.randint(0, 6) for _ in range(dim)] for _ in range(n)]
    if kind == 'dup': return [[r.randint(0, 2) * 3 for _ in range(dim)] for _ in range(n)]
    if kind == 'wide': return [[r.randint(-40, 40) for _ in range(dim)] for _ in range(n)]
    if kind == 'clus':
        cs = [[r.randint(-60, 60) for _ in range(dim)] for _ in range(r.randint(2, 4))]
        out = []
        for _ in range(n):
            if r.random() < .1: out.append([r.randint(-80, 80) for _ in range(dim)])
            else:
                c = r.choice(cs); s = r.choice([1, 2, 4, 8]); out.append([v + r.randint(-s, s) for v in c])
        return out
    if kind == 'pow':
        x = 0; out = []
        for _ in range(n): out.append([x] + [0] * (dim - 1)); x += r.choice([1, 1, 1, 2, 2, 4, 8, 16])
        r.shuffle(out); return out
    if kind == 'nest':   # nested groups: deep cluster trees
        out = []
        def rec(x, s, k):
            if k <= 4 or s < 2:
                for i in range(k): out.append([x + (i if s < 2 else i * r.choice([1, 1, 2]))] + [r.randint(0, 1) for _ in range(dim - 1)])
                return
            m = r.randint(k // 3, 2 * k // 3); rec(x, s // 4, m); rec(x + s, s // 4, k - m)
        rec(0, 2048, n); r.shuffle(out); return out
    if kind == 'many':   # many groups that part at one level
        m = r.randint(2, 7); gap = m + r.choice([3, 9, 30]); shape = [[0] * dim] + [[r.randint(0, m)] + [r.randint(0, 1) for _ in range(dim - 1)] for _ in range(m - 1)]
        same = r.random() < .5
        out = [[(i // m) * gap + (shape[i % m][0] if same else r.randint(0, m))] + [shape[i % m][q] for q in range(1, dim)] for i in range(n)]
        r.shuffle(out); return out
    if kind == 'deep':   # every level takes one group off the rest
        m = r.randint(2, 5); x = 0; out = []; g = n // m + 2
        for i in range(n):
            out.append([x] + [r.randint(0, 1) for _ in range(dim - 1)])
            x += 1 if i % m != m - 1 else 3 + (g - i // m) * (1 if r.random() < .9 else 2)
        return out
    raise ValueError(kind)
def rnd_near(r, pts):
    """points of which some differ from the grid by next to nothing"""
    e = 2.0 ** r.choice([-30, -38, -44, -48])
    return [list(p) if r.random() < .4 else [v + e * r.choice([-2, -1, 0, 1, 3]) for v in p] for p in pts]
KINDS = ['grid', 'dup', 'wide', 'clus', 'pow', 'nest', 'many', 'deep']
LIM = {'c': 120, 's': 30000, 'i': 2**31 - 1, 'l': 2**52, 'd': 2**52, 'f': 2**22}

def rnd_scale(r, typ, pts):
    m = max(1, max(abs(v) for p in pts for v in p))
    if typ in 'df': return 2.0 ** r.choice([0, 0, 0, -3, 4, -10, 20, -36, 40])
    hi = 0
    while m * 2 ** (hi + 1) <= LIM[typ]: hi += 1
    if typ in 's': hi = min(hi, 8)
    return 2.0 ** r.choice([0, 0, min(1, hi), hi])

def ok_for(typ, pts): return max(abs(v) for p in pts for v in p) <= LIM[typ]

def tie_lines(n, gaps):
    """gap sequences of points on a line for which, with two points as the minimum, some cluster is exactly as stable
    as the best selection below it (only a choice of inputs: the specification judges what is made of them)"""
    from fractions import Fraction as F
    def go(g, birth, top):
        """(best stability, own is tied somewhere)"""
        own = F(0); cur = list(g); b = F(1, birth) if birth else None
        while True:
            if not cur: return own, False
            G = max(cur); parts = [[]]
            for x in cur:
                if x == G: parts.append([])
                else: parts[-1].append(x)
            big = [p for p in parts if p]; lost = len(parts) - len(big)
            if len(big) == 1:
                if b is not None: own += lost * (F(1, G) - b)
                cur = big[0]; continue
            if b is not None: own += (len(cur) + 1) * (F(1, G) - b)
            if not big: return own, False
            sub = [go(p, G, False) for p in big]
            tot = sum(s[0] for s in sub); tied = any(s[1] for s in sub) or (not top and own == tot)
            return max(own, tot), tied
    return [g for g in itertools.product(gaps, repeat=n - 1) if go(g, 0, True)[1]]
_ties = []
def ties(r, prefix, count, dump):
    if not _ties: _ties.extend([g for n in (5, 6, 7, 8) for g in tie_lines(n, (1, 2, 4, 8))] + [g for n in (6, 7) for g in tie_lines(n, (1, 2, 3, 4, 6))])
    out = []
    for i, g in enumerate(r.sample(_ties, min(count, len(_ties)))):
        x = [0]
        for d in g: x.append(x[-1] + d)
        if r.random() < .3: x += [x[-1] + max(g) * 2 + y for y in x]
        pts = [[v] for v in x]
        if r.random() < .7: r.shuffle(pts)
        out.append(hdb('%s%d' % (prefix, i), pts, 2, scale=2.0 ** r.choice([0, 0, -4, 9]), dump=dump))
    return out
