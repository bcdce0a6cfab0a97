"""Checks of the collections against Coll (C15-C18, C29): one history per transition of the
storage models, plus long random histories, replayed in the code and validated by CollTrace."""
import re, json, random

POOL = {'i': [-2**31, -2**31 + 1, -70000, -257, -2, -1, 0, 1, 2, 3, 127, 128, 255, 256, 65536, 99991, 2**30, 2**31 - 2, 2**31 - 1],
        'l': [-2**62, -2**33, -2**32 - 1, -2**31, -1, 0, 1, 2, 255, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**40, 2**62],
        's': [-32768, -32767, -300, -128, -1, 0, 1, 2, 127, 128, 255, 256, 300, 32766, 32767],
        'c': [-128, -127, -64, -2, -1, 0, 1, 2, 5, 10, 64, 100, 126, 127],
        'd': [-1e300, -2.5e9, -1.5, -1.25, -1e-300, 0.0, 1e-300, 0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 3e9, 1e18, 1e300],
        'f': [-1e30, -2.5, -1.5, -1.25, -2.0**-40, 0.0, 2.0**-40, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.0**33, 2.0**80],
        'p': [1, 2, 3, 5, 8, 13, 1000, 2**33, 2**33 + 1, 2**40],
        't': [0, 1, 2, 3, 5, 8, 13, 1000, 99999, 2**33, 2**33 + 1, 2**40]}
def fmt(t, v): return '%.17g' % v if t in 'df' else '%d' % v
def pick(r, t, n):
    """n distinct values of a type in ascending order"""
    base = list(POOL[t])
    if n > len(base) or r.random() < .3:
        lo, hi = {'i': (-2**31, 2**31 - 1), 'l': (-2**62, 2**62), 's': (-32768, 32767), 'c': (-128, 127), 'd': (-10**6, 10**6), 'f': (-10**6, 10**6), 'p': (1, 2**40), 't': (0, 2**40)}[t]
        if r.random() < .5: lo = max(lo, -n); hi = min(hi, 2 * n)
        s = set()
        while len(s) < n: s.add(r.randint(lo, hi) / (8.0 if t in 'df' else 1)) if t in 'df' else s.add(r.randint(lo, hi))
        return sorted(s)
    return sorted(r.sample(base, n))

ARGS = {'al': {'append': 'v', 'insert': 'va', 'replace': 'va', 'at': 'a', 'removeat': 'a', 'remove': 'v', 'find': 'va', 'clear': 'a'},
        'set': {'insert': 'v', 'remove': 'v', 'find': 'v', 'at': 'a', 'removeat': 'a'},
        'll': {'front': 'v', 'tail': 'v', 'nfront': 'v', 'ntail': 'v', 'lookup': 'v', 'take': 'v', 'remove': 'v', 'at': 'a'},
        'ht': {'insert': 'kv', 'lookup': 'k', 'remove': 'k', 'clear': 'a', 'destroy': 'a'}}

def scenario(sid, kind, hist, types, vals, keys=None, slot=0, end=True, mem=True):
    """hist: operations with abstract values 1.. (keys 0..); vals/keys: concrete values"""
    out = []
    for o in hist:
        op = o['op']
        if op == 'init' and kind == 'al': out.append('al %d init %s %d' % (slot, types[0], o['a'])); continue
        if op == 'init' and kind != 'ht': out.append('%s %d init %s' % (kind, slot, types[0])); continue
        if op in ('init', 'initsize'): out.append('ht %d %s %s %s %d' % (slot, op, types[0], types[1], o['a'])); continue
        w = ['%s %d %s' % (kind, slot, op)]
        for a in ARGS[kind].get(op, ''):
            if a == 'v': w.append(fmt(types[-1], vals[o['v'] - 1]))
            elif a == 'k': w.append(fmt(types[0], keys[o['key']]))
            else: w.append('%d' % o['a'])
        out.append(' '.join(w))
    if end:
        if kind == 'ht':
            a = (1 if types[0] in 'pt' else 0) + (2 if types[1] == 'p' else 0)
            out.append('ht %d destroy %d' % (slot, a))
        else: out.append('%s %d delete' % (kind, slot))
        if mem: out.append('mem')
    return dict(id=sid, lines=out)

def adapt(raw, scen):
    """ranks values in the order of the type, so that they fit the integers of TLC"""
    evs = [dict(e) for e in raw['ev']]
    fields = ('v', 'got', 'key'); lists = ('x', 'fw', 'bw', 'ks', 'dk', 'dv')
    s = set()
    for e in evs:
        for f in fields:
            if f in e: s.add(e[f])
        for f in lists:
            if f in e: s.update(e[f])
        for x in e.get('vs', ()): s.update(x) if isinstance(x, list) else s.add(x)
    rank = {v: i + 1 for i, v in enumerate(sorted(x for x in s if x == x))}
    g = lambda x: rank.get(x, 0)
    for e in evs:
        for f in fields:
            if f in e: e[f] = g(e[f])
        for f in lists:
            if f in e: e[f] = [g(x) for x in e[f]]
        if 'vs' in e: e['vs'] = [[g(y) for y in x] if isinstance(x, list) else g(x) for x in e['vs']]
        for f in ('r', 'a'):
            if f in e and not -2**31 < e[f] < 2**31: e[f] = -99999
    if raw['end'] != 'ok': evs.append({'e': 'crash', 'sig': raw['sig']})
    return {'id': raw['id'], 'ev': evs}

def model(c, module, consts, name, emit):
    cfg = 'SPECIFICATION Spec\nINVARIANT Inv\nVIEW core\nCONSTANTS %s Emit = %s\nCHECK_DEADLOCK FALSE\n' % (consts, 'TRUE' if emit else 'FALSE')
    R = c.model(module, cfg, name, workers=1 if emit else 8)
    return [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SEQ (.*)"', R.out)]

LT = 'ilscdfp'
def rnd_list(r, sid, kind, nops):
    t = r.choice(LT); nv = r.choice([2, 3, 6, 12, 40]); nv = min(nv, 200)
    vals = pick(r, t, nv)
    h = [{'op': 'init', 'a': r.choice([1, 1, 2, 3, 4, 7, 8, 16, 100])}]
    n = 0; srt = False; cont = []
    grow = r.choice([.35, .5, .7])
    for _ in range(nops):
        v = r.randint(1, nv)
        if kind == 'al':
            if r.random() < grow:
                if r.random() < .6: h.append({'op': 'append', 'v': v}); cont.append(v)
                else:
                    p = r.choice([0, len(cont), r.randint(0, len(cont))]); h.append({'op': 'insert', 'v': v, 'a': p}); cont.insert(p, v)
                continue
            op = r.choice(['replace', 'at', 'removeat', 'remove', 'find', 'find', 'pop', 'sort', 'empty', 'size', 'clear' if r.random() < .15 else 'at'])
            p = r.choice([0, len(cont) - 1 if cont else 0, len(cont), r.randint(0, len(cont) + 3)])
            if op == 'replace' and p < len(cont): cont[p] = v
            elif op == 'removeat' and p < len(cont): del cont[p]
            elif op == 'remove' and v in cont: cont.remove(v)
            elif op == 'pop' and cont: cont.pop()
            elif op == 'sort': cont.sort()
            elif op == 'clear': cont = []; p = r.randint(0, 1)
            elif op == 'find': p = r.randint(0, 1) if cont == sorted(cont) else 0
            h.append({'op': op, 'v': v, 'a': p})
        elif kind == 'set':
            op = 'insert' if r.random() < grow else r.choice(['insert', 'remove', 'find', 'at', 'removeat', 'size', 'empty', 'sort', 'clear' if r.random() < .1 else 'find'])
            h.append({'op': op, 'v': v, 'a': r.randint(0, nv)})
        else:
            op = r.choice(['front', 'tail', 'nfront', 'ntail']) if r.random() < grow else r.choice(['lookup', 'take', 'remove', 'gethead', 'gettail', 'at', 'notempty', 'clear' if r.random() < .1 else 'remove'])
            h.append({'op': op, 'v': v, 'a': r.randint(-1, nops // 2)})
    return scenario(sid, kind, h, t, vals)

def rnd_hash(r, sid, nops, rel=False):
    kt, dt = (r.choice('pt'), 'p') if rel else (r.choice('ilscdf' + 'pt'), r.choice('ilscdf' + 'p'))
    nk = r.choice([3, 8, 30]); keys = pick(r, kt, nk); nv = 6; vals = pick(r, dt, nv)
    if kt in 'df' and 0.0 in keys: keys.append(-0.0); nk += 1         # the same key
    h = [{'op': r.choice(['init', 'initsize']), 'a': r.choice([0, 1, 2, 3, 5, 7, 20, 37, 100, 1000, 3000])}]
    grow = r.choice([.3, .5])
    for _ in range(nops):
        k = r.randint(0, nk - 1)
        if r.random() < grow: h.append({'op': 'insert', 'key': k, 'v': r.randint(1, nv)})
        else:
            op = r.choice(['lookup', 'lookup', 'remove', 'remove', 'size', 'empty', 'clear' if r.random() < (.5 if rel else .15) else 'lookup'])
            h.append({'op': op, 'key': k, 'a': r.randint(0, 3) if rel else 0})
    h += [{'op': 'lookup', 'key': k} for k in range(nk)]
    if rel:
        h.append({'op': 'destroy', 'a': r.randint(0, 3)})
        return scenario(sid, 'ht', h, kt + dt, vals, keys, end=False)
    return scenario(sid, 'ht', h, kt + dt, vals, keys)

BULK = {'i': 10**9 + 7, 'l': 2**61 - 1, 's': 32749, 'd': 10**9 + 7, 'f': 8388593, 'p': 10**9 + 7, 't': 10**9 + 7}
def bulk(r, t, n, wide=True):
    """n distinct values lo + i*step mod m: in some order, ascending or descending"""
    m = BULK[t] if wide and r.random() < .6 else n + r.choice([0, 1, 7])
    m = max(m, n); p = r.random()
    if m <= n + 7:
        while any(m % q == 0 for q in range(2, int(m ** .5) + 1)): m += 1
    st = 1 if p < .25 else m - 1 if p < .5 else r.choice([7, 31, 4099, 65537, 777767777]) % m or 1
    lo = 0 if t in 'pt' else r.choice([0, -m // 2])
    if t == 's': lo = -m // 2
    return lo, st, m, [lo + i * st % m for i in range(n)]
def large(r, sid, kind, n, nops, every, rel=False):
    """operations on a collection with many elements, whose contents are recorded now and then"""
    t = r.choice('pt' if kind == 'ht' and (rel or r.random() < .5) else 'ildsf' if n < 30000 else 'ildf')
    lo, st, m, vs = bulk(r, t, n)
    out = ['every %d' % every]
    f = lambda v: fmt(t, v) if kind != 'ht' or t not in 'pt' else '%d' % v
    vt = r.choice('ilsd') if t not in 'pt' else 'p'
    if kind == 'ht': out.append('ht 0 %s %s %s %d' % (r.choice(['init', 'initsize']), t, vt, r.choice([0, 3, 20, 300, 1000, 5000]) if n < 3000 else r.choice([5000, 70001])))
    elif kind == 'al': out.append('al 0 init %s %d' % (t, r.choice([1, 3, 10, 255, 256, 1000])))
    else: out.append('%s 0 init %s' % (kind, t))
    cont = []
    if nops > n:                              # one operation at a time
        for v in vs:
            if kind == 'al' and r.random() < .4: a = r.randint(0, len(cont)); out.append('al 0 insert %s %d' % (f(v), a)); cont.insert(a, v)
            else: out.append('%s 0 %s %s%s' % (kind, {'al': 'append', 'll': r.choice(['tail', 'ntail'])}.get(kind, 'insert'), f(v), ' %d' % r.randint(1, 5) if kind == 'ht' else '')); cont.append(v)
    else: out.append('%s 0 bulk %d %d %d %d' % (kind, lo, st, m, n)); cont = list(vs)
    if kind == 'set': cont.sort()
    srt = kind == 'set'
    for _ in range(nops - n if nops > n else nops):
        have = r.random() < .75
        k = len(cont); edge = [0, k - 1, k // 2, k // 2 - 1, k, k + 1, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537]
        i = r.choice([x for x in edge if have <= (x < k) and x >= 0] or [0]) if r.random() < .7 else r.randint(0, k - 1 if k else 0)
        v = cont[i] if i < k and have else r.choice([lo + m, lo + m + 1, lo + r.randint(0, m)] if t != 's' else [32767, 32766])
        if kind == 'ht':
            q = r.choice(['lookup'] * 3 + ['remove', 'insert', 'size'])
            if q == 'size': out.append('ht 0 size')
            elif q == 'insert': out.append('ht 0 insert %s %d' % (f(v), r.randint(1, 5)))
            else: out.append('ht 0 %s %s' % (q, f(v)))
            if q == 'insert' and v not in cont[:1] and not have: cont.append(v)
            continue
        if kind == 'al':
            q = r.choice(['find', 'find', 'at', 'at', 'removeat', 'remove', 'replace', 'insert', 'append', 'pop', 'sort' if n < 5000 else 'at'])
            if q == 'find': out.append('al 0 find %s %d' % (f(v), srt and r.random() < .8))
            elif q in ('at', 'removeat'):
                out.append('al 0 %s %d' % (q, i))
                if q == 'removeat' and i < k: del cont[i]
            elif q == 'remove':
                out.append('al 0 remove %s' % f(v))
                if v in cont: cont.remove(v)
            elif q in ('replace', 'insert') and i <= k:
                out.append('al 0 %s %s %d' % (q, f(v), i))
                if q == 'insert': cont.insert(i, v); srt = False
                elif i < k: cont[i] = v; srt = False
            elif q == 'append': out.append('al 0 append %s' % f(v)); cont.append(v); srt = False
            elif q == 'pop' and k: out.append('al 0 pop'); cont.pop()
            elif q == 'sort': out.append('al 0 sort'); cont.sort(); srt = True
        elif kind == 'set':
            q = r.choice(['find', 'find', 'find', 'insert', 'insert', 'remove', 'removeat', 'at', 'at'])
            if q in ('at', 'removeat'):
                out.append('set 0 %s %d' % (q, i))
                if q == 'removeat' and i < k: del cont[i]
            else:
                out.append('set 0 %s %s' % (q, f(v)))
                if q == 'insert' and v not in cont: cont.append(v); cont.sort()
                if q == 'remove' and v in cont: cont.remove(v)
        else:
            q = r.choice(['lookup', 'at', 'at', 'take', 'remove', 'front', 'tail', 'gettail', 'gethead'])
            if q == 'at': out.append('ll 0 at %d' % i)
            elif q in ('gettail', 'gethead'): out.append('ll 0 ' + q)
            else:
                out.append('ll 0 %s %s' % (q, f(v)))
                if q in ('take', 'remove') and v in cont: cont.remove(v)
                elif q == 'front': cont.insert(0, v)
                elif q == 'tail': cont.append(v)
    out.append('every 1')
    if kind == 'ht': out += ['ht 0 size', 'ht 0 %s %d' % (r.choice(['clear', 'destroy']), 3 if t in 'pt' else 0)]
    else: out.append('%s 0 %s' % (kind, {'al': 'size', 'set': 'size', 'll': 'notempty'}[kind]))
    if kind == 'ht' and 'clear' in out[-1]: out.append('ht 0 destroy %d' % (3 if t in 'pt' else 0))
    if kind != 'ht': out.append('%s 0 delete' % kind)
    return dict(id=sid, lines=out + ['mem'])
def larges(c, kind, tag='', rel=False):
    r = c.rng
    sc = [large(r, 'g%s%d' % (tag, i), kind, r.choice([257, 300, 520, 1100]), 200, 40, rel) for i in range(6 if c.quick else 16)]
    sc += [large(r, 'gs%s%d' % (tag, i), kind, r.choice([260, 400]), 700, 60, rel) for i in range(3 if c.quick else 8)]
    return sc
def huge(c, kind, tag='', rel=False): return [large(c.rng, 'gh%s%d' % (tag, i), kind, c.rng.choice([66000, 70000]), 25, 10**6, rel) for i in range(2 if c.quick else 6)]

def chk(p): return 'Chk = {"%s"}' % p
SPECS = {'C15': ('al', 'ListModel', 'Vals = {1, 2}\nMaxLen = 4\nCaps = {1, 2, 3}', 'Vals = {1, 2, 3}\nMaxLen = 5\nCaps = {1, 2, 3, 4}'),
         'C16': ('set', 'SetModel', 'Vals = {1, 2, 3, 4, 5}', 'Vals = {1, 2, 3, 4, 5, 6, 7, 8}'),
         'C18': ('ll', 'LinkModel', 'Vals = {1, 2}\nMaxLen = 4', 'Vals = {1, 2, 3}\nMaxLen = 5')}
NV = {'C15': (2, 3), 'C16': (5, 8), 'C18': (2, 3)}

def seq(pid):
    def f(c):
        kind, mod, q, t = SPECS[pid]; r = c.rng
        hs = model(c, mod, q, 'one history per transition: ' + q.replace('\n', ', '), True)
        model(c, mod, q if c.quick else t, 'exhaustive: ' + (q if c.quick else t).replace('\n', ', '), False)
        c.level = 'model_checking'
        cap = 3000 if c.quick else 10**9
        if len(hs) > cap: hs = r.sample(hs, cap)
        nv = NV[pid][0]; sc = []
        for i, h in enumerate(hs):
            ty = r.choice(LT)
            sc.append(scenario('m%d' % i, kind, h, ty, pick(r, ty, nv)))
        sc += [rnd_list(r, 'r%d' % i, kind, r.choice([20, 60, 150])) for i in range(120 if c.quick else 400)]
        sc += [rnd_list(r, 'l%d' % i, kind, 600) for i in range(4 if c.quick else 12)]
        c.conform('CollTrace', sc, adapt, chk(pid))
        if not c.viol: c.conform("CollTrace", larges(c, kind) + huge(c, kind), adapt, chk(pid), cpu=60)
        i = 0
        while not c.quick and c.left() > 150 and not c.viol and i < 20:
            i += 1
            c.conform('CollTrace', larges(c, kind, '%d_' % i), adapt, chk(pid))
            c.conform('CollTrace', [rnd_list(r, 'r%d_%d' % (i, j), kind, r.choice([20, 60, 150, 400])) for j in range(500)], adapt, chk(pid))
    return f

HM = 'Keys = {0, 1, 2, 3}\nVals = {1, 2}\nB = 2'
def hash_(pid):
    def f(c):
        r = c.rng; rel = pid == 'C29'
        hs = model(c, 'HashModel', HM, 'one history per transition: ' + HM.replace('\n', ', '), True)
        big = 'Keys = {0, 1, 2, 3, 4}\nVals = {1, 2}\nB = 2' if c.quick else 'Keys = {0, 1, 2, 3, 4, 5}\nVals = {1, 2}\nB = 3'
        model(c, 'HashModel', big, 'exhaustive: ' + big.replace('\n', ', '), False)
        sc = []
        for i, h in enumerate(hs):
            h = list(h)
            if rel:
                if h[-1]['op'] not in ('clear', 'remove', 'insert'): continue
                kt = r.choice('pt'); dt = 'p'
                h += [{'op': 'insert', 'key': r.randint(0, 3), 'v': 1}] if h[-1]['op'] == 'clear' and r.random() < .6 else []
                h.append({'op': 'destroy', 'a': r.randint(0, 3)})
            else:
                kt, dt = r.choice('ilscptdf'), r.choice(LT)
                h = [dict(o, a=0) if o['op'] == 'clear' else o for o in h] + [{'op': 'lookup', 'key': k} for k in range(4)]
            base = r.choice([0, 0, 2, 10, 64]); keys = [base + k for k in range(4)]
            sc.append(scenario('m%d' % i, 'ht', h, kt + dt, pick(r, dt, 2), keys, end=not rel))
        sc += [rnd_hash(r, 'r%d' % i, r.choice([20, 60, 150]), rel) for i in range(150 if c.quick else 500)]
        c.conform('CollTrace', sc, adapt, chk(pid))
        if not c.viol: c.conform("CollTrace", larges(c, "ht", rel=rel) + huge(c, "ht", rel=rel), adapt, chk(pid), cpu=60)
        i = 0
        while not c.quick and c.left() > 150 and not c.viol and i < 20:
            i += 1
            c.conform('CollTrace', larges(c, 'ht', '%d_' % i, rel), adapt, chk(pid))
            c.conform('CollTrace', [rnd_hash(r, 'r%d_%d' % (i, j), r.choice([20, 60, 150, 400]), rel) for j in range(500)], adapt, chk(pid))
    return f
CHECKS = {'C15': seq('C15'), 'C16': seq('C16'), 'C18': seq('C18'), 'C17': hash_('C17'), 'C29': hash_('C29')}
