"""C24: the Python module; C25: the Java class."""
import os, re, json, subprocess, threading, tempfile, shutil, resource
import build, gen, harness
from ctx import Fail
from suite_hdb import chk

CFG = 'SPECIFICATION Spec\nINVARIANT Own\nPROPERTIES Apart Kept\nVIEW View\nCONSTRAINT Short\nCONSTANTS Objs = {%s}\nDatas = {%s}\nMPs = {%s}\nLang = "%s"\nDepth = 0\nCHECK_DEADLOCK FALSE\n'
def histories(c, lang, objs, datas, mps):
    R = c.model('BindModel', CFG % (objs, datas, mps, lang), '%s: objects {%s}, data {%s}, minima {%s}, one history per transition' % (lang, objs, datas, mps), workers=1)
    return [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SEQ (.*)"', R.out)]

# ------------------------------------------------------------------ data sets and what C gives for them
PYBAD = ['none', 'list', 'int', 'str', 'empty', 'empty2', 'cols0', 'zero', 'three', 'complex', 'bool', 'u8', 'obj', 'half', 'text', 'long', 'u32', 'dict']
JBAD = ['null', 'empty', 'ragged', 'longer', 'nullrow', 'nullfirst']
HOW = ['c', 'c', 'f', 'rev', 'step', 'swap', 'ro', 'sub', 'off', 'odd']
class Data:
    """a data set in the module's layout, and the table of what C gives for it"""
    def __init__(s, r, lang, nmax, n=None):
        s.n = n or r.choice([1, 2, 3, r.randint(4, nmax), r.randint(4, nmax), r.randint(4, nmax)]); s.d = gen.dims(r, 1, 3)
        s.nd = 1 if s.d == 1 and r.random() < .6 else 2
        s.t = 'd' if lang == 'java' else r.choice('ddfils'); s.how = r.choice(HOW) if lang == 'py' else 'c'
        pts = gen.rnd_points(r, s.n, s.d, r.choice(gen.KINDS)); r.shuffle(pts)
        if s.t in 'df' and r.random() < .5: pts = [[v + r.choice([0, .25, .5, .125]) for v in p] for p in pts]
        if s.t == 'd' and r.random() < .3: pts = [[v * .1 for v in p] for p in pts]
        s.vals = ['%.17g' % v if s.t in 'df' else '%d' % v for p in pts for v in p]
    def line(s, k): return 'data %d %s %d %d %d %s %s' % (k, s.t, s.nd, s.n, s.d, s.how, ' '.join(s.vals))
    def hx(s, k): return 'data %d %s %d %d 1 0 %s' % (k, s.t, s.n, s.d, ' '.join(s.vals))
def many(r, lang, pairs):
    """that many small groups, all apart at one level: more labels than a byte counts"""
    d = Data(r, lang, 24, n=2); d.n = 2 * pairs; d.d = 1; d.nd = 1 if lang == 'py' else 2; d.t = 'd'; d.how = 'c'
    v = [10 * i + j for i in range(pairs) for j in (0, 1)]; r.shuffle(v); d.vals = ['%d' % x for x in v]
    return d
MPS = (2, 3, 4, 5, 65539)
def references(c, datas):
    """data set -> minimum -> labels and levels, from the C functions"""
    sc = []
    for i, d in enumerate(datas):
        for m in MPS: sc.append(dict(id='%d_%d' % (i, m), lines=[d.hx(0), 'obj 0 init %d' % m, 'obj 0 run 0', 'obj 0 dump lh', 'obj 0 destroy']))
    res = c.run(sc)
    for i, d in enumerate(datas):
        d.ref = {}
        for m in MPS:
            R = res['%d_%d' % (i, m)]
            ev = {e['e']: e for e in R['ev']}
            if R['end'] == 'ok' and 'labels' in ev and 'rows' in ev: d.ref[m] = dict(l=ev['labels']['l'], r=[x['l'] for x in ev['rows']['r']])
    good = [d for d in datas if len(d.ref) == len(MPS)]
    return good

# ------------------------------------------------------------------ scenarios
def scenario(r, lang, sid, hist, datas, extra=True):
    """datas: {1: Data, 2: Data}; a history of the specification as lines for the driver"""
    L = [datas[k].line(k) for k in sorted(datas)] + ['bad 1 %s' % r.choice(PYBAD if lang == 'py' else JBAD), 'bad 2 %s' % r.choice(PYBAD if lang == 'py' else JBAD)]
    mp = {1: lambda: r.choice([1, 1, 0, -3]), 2: lambda: r.choice([2, 2, 4]), 3: lambda: r.choice([3, 3, 3, 5, 65539])}
    held, alive = {}, set()
    for e in hist:
        op, h = e['op'], e['h']
        if op in ('new', 'raw'): alive.add(h)
        if op == 'new' and (e['mp'] < 2 or not e.get('args', True)): alive.discard(h)
        a = e.get('args', True)
        if op in ('new', 'reinit', 'rerun'):
            l = '%s %d %d' % (op, h, mp[e['mp']]() if a else e['mp'])
            if lang == 'py':
                if not a: l += ' ' + r.choice(['noarg', 'text', 'float'] + (['two', 'wrong'] if op != 'rerun' else []))
                elif op != 'rerun' and r.random() < .3: l += ' kw'
        elif op == 'run':
            l = 'run %d %d' % (h, e['k'] if e['k'] > 0 else -r.choice([1, 2]))
            if lang == 'py' and not a: l += ' ' + r.choice(['noarg', 'two'])
            if e['k'] > 0 and a: held[h] = e['k']
        elif op == 'groups':
            n = datas[held[h]].n if h in held else 5
            b, t = e['b'], e['e']
            if (b, t) == (0, 5): b, t = 0, n
            elif (b, t) == (1, 3): b = r.randint(0, n); t = r.randint(b, n)
            elif (b, t) == (2, 2): b = t = r.randint(0, n)
            elif (b, t) == (3, 2): t = r.randint(0, n); b = t + r.choice([1, 1, 2])
            elif (b, t) == (-1, 2): b, t = r.choice([-1, -5]), r.randint(0, n)
            else: b, t = r.randint(0, n), n + r.choice([1, 1, 2, 1000, 2**31 - 1 - n])
            l = 'groups %d %d %d' % (h, b, t)
            if lang == 'py' and r.random() < .1: l += ' ' + r.choice(['noarg', 'one', 'text'])
        elif op == 'poke':
            m = r.choice(['rows', 'rows', 'cols', 'minPoints', 'clusterMap', 'hierarchy'])
            l = 'poke %d %s %s' % (h, m, r.choice([0, 1, 7, 1000, 2**31 - 1, -1]) if m in ('rows', 'cols', 'minPoints') else r.choice(['none', 'int', 'list']))
        else: l = '%s %d' % (op, h)
        if op == 'del': alive.discard(h); held.pop(h, None)
        L.append(l)
    if extra:
        for h in sorted(alive):
            if lang == 'py' and r.random() < .5: L.append('hier %d' % h)
            L.append('labels %d' % h)
            n = datas[held[h]].n if h in held else 5
            L.append('groups %d 0 %d' % (h, n))
            L.append('labels %d' % h)
        L += ['kept'] + ['del %d' % h for h in sorted(alive)] + ['kept', 'mem']
    return dict(id=sid, lines=L, datas={k: v for k, v in datas.items()}, lang=lang)
def rnd_hist(r, lang, objs, length, bad=.2):
    """a random history; usually what is called can be served"""
    out, st = [], {}
    for _ in range(length):
        h = r.randrange(objs); x = st.get(h)
        no = lang == 'py' and r.random() < bad / 2
        if x is None:
            if lang == 'py' and r.random() < bad / 2: out.append(dict(op='raw', h=h)); st[h] = dict(m=0, ran=False, rdy=False)
            else:
                m = r.choice([2, 3]) if r.random() > bad / 2 else 1
                if no: m = 2
                out.append(dict(op='new', h=h, mp=m, args=not no))
                if m > 1 and not no: st[h] = dict(m=m, ran=False, rdy=True)
            continue
        k = r.random()
        if k < .3 or not x['ran'] and k < .6:
            d = r.choice([1, 2]) if r.random() > bad else -1
            out.append(dict(op='run', h=h, k=d, args=not no)); x['ran'] |= d > 0 and not no and x['rdy']
        elif k < .45: out.append(dict(op='rerun', h=h, mp=2 if no else r.choice([2, 3, 3, 2, 1]), args=not no))
        elif k < .65: out.append(dict(op='groups', h=h, **dict(zip('be', r.choice([(0, 5), (0, 5), (1, 3), (1, 3), (2, 2), (3, 2), (-1, 2), (0, 6)] if lang == 'py' else [(0, 5)])))))
        elif k < .75 and lang == 'py': out.append(dict(op='hier', h=h))
        elif k < .78 and lang == 'py' and bad: out.append(dict(op=r.choice(['poke', 'poke', 'drop']), h=h))
        elif k < .88: out.append(dict(op='labels', h=h))
        elif k < .94:
            if lang == 'py': out.append(dict(op='reinit', h=h, mp=2 if no else r.choice([2, 3, 1]), args=not no)); x['rdy'] = True
            else: out.append(dict(op='clean', h=h)); x['ran'] = False
        else: out.append(dict(op='del', h=h)); del st[h]
    return out
def rec(raw, s):
    ev = list(raw['ev'])
    if raw['end'] != 'ok': ev.append({'e': 'crash', 'sig': raw.get('sig', 0)})
    for i, e in enumerate(ev):                   # the driver itself stumbles over what the module made of its objects
        if not isinstance(e, dict) or e.get('e') not in ('call', 'kept', 'grow', 'mem', 'crash'): ev[i:] = [{'e': 'crash', 'sig': 0}]; break
    ref = {'%d_%d' % (k, m): d.ref[m] for k, d in s['datas'].items() for m in MPS}
    return dict(id=raw['id'], lang=s['lang'], ref=ref, data={str(k): dict(n=d.n, d=d.d, good=1) for k, d in s['datas'].items()}, ev=ev)

# ------------------------------------------------------------------ execution
def pyrun(scens):
    d = build.pymod(); n = max(1, min(harness.NPROC, (len(scens) + 3) // 4)); outs = [None] * n
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONMALLOC='malloc')
    def go(i):
        txt = ''.join('S %s\n%s\nE\n' % (s['id'], '\n'.join(s['lines'])) for s in scens[i::n])
        p = subprocess.run(['/usr/bin/python3', os.path.join(build.VERIF, 'harness', 'bind.py'), d], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        outs[i] = (p.returncode, p.stdout, p.stderr)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    res = {}
    for rc, o, e in outs:
        if rc: raise RuntimeError('the Python driver failed: %s' % e.decode()[-600:])
        for l in o.decode().splitlines():
            x = json.loads(l); res[x['id']] = x
    if len(res) != len(scens): raise RuntimeError('lost scenarios')
    return res
def javarun(scens):
    d = build.javamod(); n = max(1, min(harness.NPROC, (len(scens) + 7) // 8)); res = {}; errs = []
    w = tempfile.mkdtemp(prefix='vpjava.')
    def go(i):
        todo = scens[i::n]; rnd = 0
        while todo:
            f, o = os.path.join(w, 'in%d' % i), os.path.join(w, 'out%d' % i)
            open(f, 'w').write(''.join('S %s\n%s\nE\n' % (s['id'], '\n'.join(s['lines'])) for s in todo))
            if os.path.exists(o): os.unlink(o)
            try:
                p = subprocess.run([os.path.join(build.JAVA_HOME, 'bin', 'java'), '-Xcheck:jni', '-Xmx512m', '-XX:-CreateCoredumpOnCrash', '-XX:ErrorFile=/dev/null', '-Djava.library.path=' + d, '-cp', d, 'BindMain', f, o],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, OMP_NUM_THREADS='1'), cwd=w, timeout=60 + len(todo), preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30)))
                rc, txt = p.returncode, p.stdout.decode('latin-1')
            except subprocess.TimeoutExpired: rc, txt = -9, 'no answer'
            cur = None; evs = []; k = 0
            for l in (open(o).read().split('\n') if os.path.exists(o) else []):
                if l.startswith('S '): cur = l[2:]; evs = []
                elif l == 'E': res[cur] = dict(id=cur, ev=evs, end='ok'); cur = None; k += 1
                elif l.startswith('{') and l.endswith('}'): evs.append(json.loads(l))
            if k == len(todo): return
            if cur is None: errs.append('the Java driver ended with %d: %s' % (rc, txt[-600:])); return
            res[cur] = dict(id=cur, ev=evs, end='crash', sig=rc); todo = todo[k + 1:]; rnd += txt == 'no answer' or rc == -9
            if rnd >= 2:
                for s in todo: res[s['id']] = dict(id=s['id'], ev=[], end='skip')
                return
    try:
        ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
        for t in ts: t.start()
        for t in ts: t.join()
    finally: shutil.rmtree(w, ignore_errors=True)
    if errs: raise RuntimeError(errs[0])
    return res

def conform(c, pid, scens):
    runner = pyrun if pid == 'C24' else javarun
    def run(sc, binary=None, **kw):
        c.execs += len(sc)
        return runner(sc)
    old = c.run; c.run = run
    try: c.conform('BindTrace', scens, rec, chk(pid))
    finally: c.run = old

def bind(c, lang, pid):
    r = c.rng
    hs = histories(c, lang, '0, 1', '0, 1, 2', '1, 2, 3') + histories(c, lang, '0', '0, 1', '1, 2, 3')
    rnd = 0
    while True:
        f = 1 if c.quick else 4; T = 'b%d_' % rnd
        ds = references(c, [Data(r, lang, 24) for _ in range(40 * f)] + [Data(r, lang, 130, n=r.randint(80, 130)) for _ in range(2)] + [many(r, lang, 280 + r.randrange(40)), many(r, lang, 620)])
        big = [d for d in ds if d.n > 60]; small = [d for d in ds if d.n <= 60]
        pair = lambda: {1: r.choice(small), 2: r.choice(small)}
        sc = [scenario(r, lang, '%sh%d' % (T, i), h, pair()) for i, h in enumerate(r.sample(hs, min(len(hs), (500 if lang == 'py' else 700) * f)))]
        sc += [scenario(r, lang, '%sr%d' % (T, i), rnd_hist(r, lang, r.choice([1, 2, 3]), r.choice([8, 14, 25])), pair()) for i in range(250 * f)]
        sc += [scenario(r, lang, '%sB%d' % (T, i), rnd_hist(r, lang, 2, 12, 0), {1: r.choice(big), 2: r.choice(small)}) for i in range(3 * f)] if big else []
        sc += [scenario(r, lang, '%sN%d' % (T, i), [dict(op='new', h=0, mp=2), dict(op='run', h=0, k=1), dict(op='labels', h=0), dict(op='rerun', h=0, mp=3), dict(op='labels', h=0), dict(op='rerun', h=0, mp=2)], {1: b}) for i, b in enumerate(b for b in big if b.n > 500)]
        if lang == 'py':
            for i, how in enumerate(sorted(set(HOW))):
                for t in 'dfils':
                    d = Data(r, lang, 24, n=r.randint(5, 20)); d.how = how; d.t = t; d.vals = [str(int(float(v))) for v in d.vals]
                    ds.append(d); sc.append((d, how, t))
            lay = [x for x in sc if isinstance(x, tuple)]; sc = [x for x in sc if not isinstance(x, tuple)]
            ok = set(map(id, references(c, [x[0] for x in lay])))
            for d, how, t in lay:
                if id(d) in ok: sc.append(scenario(r, lang, '%sy_%s_%s' % (T, how, t), [dict(op='new', h=0, mp=2), dict(op='run', h=0, k=1), dict(op='labels', h=0), dict(op='rerun', h=0, mp=3), dict(op='hier', h=0)], {1: d}))
            for i in range(4):
                d = r.choice(small) if i else min((b for b in big if b.n > 500), key=lambda b: b.n, default=small[0]); s = scenario(r, lang, '%sg%d' % (T, i), [], {1: d}); s['lines'] = [d.line(1), 'grow 1', 'mem']; sc.append(s)
            for i, b in enumerate(PYBAD):
                s = scenario(r, lang, '%sk%d' % (T, i), [dict(op='new', h=0, mp=2), dict(op='run', h=0, k=-1), dict(op='labels', h=0), dict(op='run', h=0, k=1), dict(op='run', h=0, k=-1), dict(op='run', h=0, k=-1)], pair())
                s['lines'] = [('bad %s %s' % (l.split()[1], b)) if l[:4] == 'bad ' else l for l in s['lines']]; sc.append(s)
        else:
            for i, b in enumerate(JBAD):
                s = scenario(r, lang, '%sk%d' % (T, i), [dict(op='new', h=0, mp=2), dict(op='run', h=0, k=-1), dict(op='labels', h=0), dict(op='run', h=0, k=1), dict(op='run', h=0, k=-1), dict(op='run', h=0, k=-1)], pair())
                s['lines'] = [('bad %s %s' % (l.split()[1], b)) if l[:4] == 'bad ' else l for l in s['lines']]; sc.append(s)
        conform(c, pid, sc)
        rnd += 1
        if c.viol or c.quick or c.left() < 120 or rnd > 40: return
CHECKS = {'C24': lambda c: bind(c, 'py', 'C24'), 'C25': lambda c: bind(c, 'java', 'C25')}
