"""The abstraction function: recorded values (doubles) to the integers of the specification."""
import math, struct
INF = 2147483647; NANL = -8; BAD = -7; NONF = -9; STINF = 2147483646; STNAN = -2147483646; DMINL = -5
SCALE = 32768

def key(x):
    """order-preserving key of a double as three limbs"""
    if x != x: return [-1, 0, 0]
    if x == 0: x = 0.0
    b = struct.unpack('<Q', struct.pack('<d', x))[0]
    b = (~b) & (2**64 - 1) if b >> 63 else b | (1 << 63)
    return [b >> 44, (b >> 22) & 0x3fffff, b & 0x3fffff]

class Levels:
    def __init__(self, mode, scale=1.0, dmax=1.7976931348623157e308, dmin=2.2250738585072014e-308, eps=2.2e-16):
        self.mode, self.scale, self.dmax, self.dmin, self.eps = mode, scale, dmax, dmin, eps
        self.rank = {}; self.vals = []; self.unit = 1.0
    def learn(self, xs):
        self.vals.extend(xs)
    def close(self):
        if self.mode == 'rank':
            v = sorted({x for x in self.vals if x == x and abs(x) != math.inf and x > 0 and x != self.dmax and x != self.dmin})
            self.rank = {x: i + 1 for i, x in enumerate(v)}
            self.unit = v[0] if v else 1.0
            self.rc = [int(round(SCALE * self.unit / x)) for x in v]
        else: self.rc = []
    def lv(self, x):
        if x != x: return NANL
        if x == self.dmax: return INF
        if abs(x) == math.inf: return NONF
        if x < 0: return BAD
        if x == self.dmin: return DMINL
        if self.mode == 'rank': return 0 if x == 0 else self.rank.get(x, BAD)
        q = x / self.scale
        if q > 40000: return BAD
        r = round(q * q)
        return r if abs(math.sqrt(r) - q) <= 4 * self.eps * max(q, 1e-300) else BAD
    def st(self, x):
        """stability in fixed point"""
        if x != x: return STNAN
        if abs(x) == math.inf: return STINF if x > 0 else STNAN
        u = self.unit if self.mode == 'rank' else self.scale
        y = x * u * SCALE
        return int(round(y)) if abs(y) < 2**30 else (2**30 if y > 0 else -2**30)

def hdb(raw, scen):
    """scen: dict(mode, scale, data=[points or None], dist='double'|'float'); raw: harness result"""
    fl = scen.get('dist', 'double') == 'float'
    L = Levels(scen['mode'], scen.get('scale', 1.0),
               *( (3.4028234663852886e38, 1.1754943508222875e-38, 1.2e-7) if fl else () ))
    evs = raw['ev']
    if scen['mode'] == 'rank':
        for e in evs:
            k = e['e']
            if k == 'dist':
                for r in e['d']: L.learn(r)
            elif k == 'core': L.learn(e['c'])
            elif k == 'mst': L.learn([m[2] for m in e['m']])
            elif k == 'rows': L.learn([r['w'] for r in e['r']])
            elif k == 'tree':
                for t in e['t']:
                    if t['l']: L.learn([t['b'], t['d'], t['ld']])
            elif k == 'scores': L.learn([s[1] for s in e['s']])
            elif k in ('minmax', 'conf'):
                for m in e['m']: L.learn(m[1:5])
    L.close()
    lv = L.lv; out = []
    for idx, e in enumerate(evs):
        k = e['e']; o = {'e': k}
        for f in ('h', 'mp', 'rm', 'ret', 'np', 'size', 'nv', 'r', 'n'):
            if f in e and not isinstance(e[f], list): o[f] = min(e[f], 2**31 - 1) if isinstance(e[f], int) else e[f]
        if k == 'run':
            o['k'] = e['k'] + 1; o['inp'] = e['in']; o['compact'] = e.get('compact', 0)
            if scen['mode'] == 'rank':
                for f in evs[idx + 1:]:
                    if f['e'] == 'dist' and f['h'] == e['h']: o['D'] = [[lv(x) for x in r] for r in f['d']]; break
        elif k == 'dist': o['d'] = [[lv(x) for x in r] for r in e['d']]
        elif k == 'core': o['c'] = [lv(x) for x in e['c']]
        elif k == 'mst': o['m'] = [[m[0] + 1, m[1] + 1, lv(m[2])] for m in e['m']]
        elif k == 'rows': o['r'] = [{'w': lv(r['w']), 'l': r['l']} for r in e['r']]
        elif k == 'tree':
            o['t'] = [{'l': 0, 'sk': [0, 0, 0], 'pk': [0, 0, 0]} if not t['l'] else
                      dict(l=t['l'], p=t['p'], b=lv(t['b']), d=lv(t['d']), n=t['n'], o=t['o'], sf=L.st(t['s']), sk=key(t['s']),
                           pf=L.st(t['ps']), pk=key(t['ps']), ld=lv(t['ld']), nc=t['nc'], pc=t['pc'], ch=t['ch'], vc=[v + 1 for v in t['vc']], de=t['de'])
                      for t in e['t']]
        elif k == 'dobj': o.update(k=e['k'], op=e['op'], d=e['d'], nn=e['nn'], inp=e['inp'], all=[dict(a, d=[[lv(v) for v in q] for q in a['d']], c=[lv(v) for v in a['c']]) for a in e['all']])
        elif k == 'labels': o['l'] = e['l']
        elif k == 'scores':
            def q(x):
                if x != x or abs(x) == math.inf: return BAD
                y = (1 - x) * SCALE
                return int(round(y)) if abs(y) < 2**20 else BAD
            o['s'] = [[s[0] + 1, lv(s[1]), q(s[2]), key(s[2])] for s in e['s']]
        elif k == 'oscmp':
            o['a'] = [key(e['s1']), key(e['c1']), e['i1']]; o['b'] = [key(e['s2']), key(e['c2']), e['i2']]; o['r'] = e['r']; o['rr'] = e['rr']
        else:
            for f, v in e.items():
                if f not in o: o[f] = v
        out.append(o)
    if raw['end'] != 'ok': out.append({'e': 'crash', 'sig': raw['sig']})
    return {'id': raw['id'], 'mode': scen['mode'], 'rc': L.rc, 'data': [d if d is not None else [] for d in scen['data']], 'ns': scen.get('ns', []), 'ev': out}
