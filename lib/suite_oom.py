"""C35: collections which are denied memory. One history per transition of OomModel, and random
histories with denials strewn in, replayed in the code and validated by OomTrace."""
import re, json
from suite_coll import fmt, pick, scenario, adapt, rnd_list, rnd_hash, LT

KINDS = ('al', 'set', 'ht', 'll')
def model(c, kind, vals, n, emit):
    k = 'Kind = "%s"\nVals = {%s}\nMaxOps = %d' % (kind, ', '.join(map(str, range(1, vals + 1))), n)
    cfg = 'SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Kept\nVIEW core\nCONSTANTS %s\nEmit = %s\nCHECK_DEADLOCK FALSE\n' % (k, 'TRUE' if emit else 'FALSE')
    R = c.model('OomModel', cfg, ('one history per transition: ' if emit else 'exhaustive: ') + k.replace('\n', ', '), workers=1 if emit else 8)
    return [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SEQ (.*)"', R.out)]

OPS = {'al': {'add': ('append', 'insert'), 'drop': ('remove',)}, 'set': {'add': ('insert',), 'drop': ('remove',)},
       'll': {'add': ('front', 'tail', 'nfront', 'ntail'), 'drop': ('remove', 'take')}, 'ht': {'add': ('insert',), 'drop': ('remove',)}}
def concrete(r, kind, hist, sid):
    """the history in terms of the API, each denial before the operation it is for"""
    t = r.choice('ilsdf'); kt = r.choice('ilsdf'); nv = max([o['v'] for o in hist if 'v' in o] + [1])
    vals = pick(r, t, nv); keys = [0] + pick(r, kt, nv); cap = r.choice([1, 1, 2, 3])
    n = 0; out = []
    for o in hist:
        if o['op'] == 'init' and out:      # should there be one after all, it can be used
            out += scenario('', kind, [{'op': OPS[kind]['add'][0], 'v': 1, 'key': 0, 'a': 0}], kt + t if kind == 'ht' else t, vals, keys, end=False)['lines'] + [fin(kind)[0]]
        if o['den']: out.append('deny %d %d' % (o['den'], o['on']))
        op = o['op']
        if op in ('add', 'drop'): op = r.choice(OPS[kind][op])
        q = {'op': op, 'a': 0, 'v': o.get('v', 1), 'key': o.get('v', 1)}
        if kind == 'ht' and 'v' in o: q['v'] = r.randint(1, nv)
        if op == 'init': q['a'] = cap if kind == 'al' else r.choice([0, 1, 3, 20])
        if kind == 'ht' and op == 'init': q['op'] = r.choice(['init', 'initsize'])
        if op == 'clear' and kind == 'al': q['a'] = 1
        if op == 'insert' and kind == 'al': q['a'] = 0 if n == 0 else r.choice([0, n])
        if op == 'destroy' and kind != 'ht': q['op'] = 'delete'
        if kind == 'al' and op in ('append', 'insert') and not o['den']: n += 1
        if kind == 'al' and op == 'remove' and not o['den']: n -= 1
        if op in ('clear', 'destroy', 'init'): n = 0
        out += scenario('', kind, [q], kt + t if kind == 'ht' else t, vals, keys, end=False)['lines']
    return dict(id=sid, lines=out + fin(kind))
def fin(kind): return ['ht 0 destroy 0' if kind == 'ht' else '%s 0 delete' % kind, 'mem']

def random(r, sid, kind, n):
    """denials strewn into a random history, whose first constructions may be denied too"""
    while True:
        s = rnd_hash(r, sid, n) if kind == 'ht' else rnd_list(r, sid, kind, n)
        w = s['lines'][0].split()
        if kind != 'ht' or not set(w[3] + w[4]) & set('pt'): break
    use = [l for l in s['lines'][1:] if l != 'mem' and l.split()[2] in ('append', 'insert', 'front', 'tail', 'lookup', 'remove', 'find', 'size')] if len(s['lines']) > 3 else []
    use = [l if kind != 'al' or ' insert ' not in l and ' find ' not in l else 'al 0 %s %s 0' % tuple(l.split()[2:4]) for l in use]
    first = s['lines'][0]; out = []; p = r.choice([.1, .3, .6])
    if r.random() < .5:
        for _ in range(r.randint(1, 3)): out += ['deny %d %d' % (r.randint(1, 6), r.randint(0, 1)), first.replace(' 0 ', ' 1 ', 1)] + [l.replace(' 0 ', ' 1 ', 1) for l in r.sample(use, min(2, len(use)))] + [fin(kind)[0].replace(' 0 ', ' 1 ', 1)]
    out.append(first)
    for l in s['lines'][1:]:
        w = l.split()
        if l == 'mem' or w[2] in ('delete', 'destroy'): out.append(l); continue
        if w[2] == 'insert' and kind == 'al': l = 'al 0 insert %s 0' % w[3]      # a position which exists whatever was denied
        if w[2] == 'find' and kind == 'al': l = 'al 0 find %s 0' % w[3]
        if r.random() < p: out.append('deny %d %d' % (r.choice([1, 1, 1, 2, 3, 4, r.randint(1, 9)]), r.randint(0, 1)))
        if kind == 'al' and r.random() < .04 and out.count('al 0 grow') < 5: out.append('al 0 grow'); continue      # it doubles each time
        out.append(l)
    if kind == 'ht' and r.random() < .5: out[-2:-2] = ['deny %d %d' % (r.randint(1, 3), r.randint(0, 1)), out[-2], 'ht 0 size']
    return dict(id=sid, lines=out)

def c35(c):
    r = c.rng; c.level = 'model_checking'; sc = []
    for k in KINDS:
        hs = model(c, k, 2, 4 if c.quick else 5, True)
        model(c, k, 3, 6 if c.quick else 8, False)
        cap = 700 if c.quick else 6000
        if len(hs) > cap: hs = r.sample(hs, cap)
        sc += [concrete(r, k, h, '%s%d' % (k, i)) for i, h in enumerate(hs)]
        sc += [random(r, 'r%s%d' % (k, i), k, r.choice([10, 30, 80])) for i in range(60 if c.quick else 400)]
    ok = ' Chk = {"C35"}'
    c.conform('OomTrace', sc, adapt, ok)
    i = 0
    while not c.quick and c.left() > 150 and not c.viol and i < 20:
        i += 1
        c.conform('OomTrace', [random(r, 'r%s%d_%d' % (k, i, j), k, r.choice([10, 30, 80, 200])) for k in KINDS for j in range(200)], adapt, ok)
CHECKS = {'C35': c35}
