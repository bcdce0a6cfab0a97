"""Executes scenarios on the Python module: python3 bind.py DIR_OF_MODULE. One forked process per scenario."""
import sys, os, json, gc, ctypes, resource, signal
d = sys.argv[1]; sys.path.insert(0, d)
import numpy as np, tracemalloc
out = os.dup(1); nul = os.open(os.devnull, os.O_WRONLY); os.dup2(nul, 1)
import PyHdbscan as M
lib = ctypes.CDLL(M.__file__)
class St(ctypes.Structure): _fields_ = [(n, ctypes.c_long) for n in ('live', 'bytes', 'badfree', 'overrun', 'nalloc')]
T = {'d': np.float64, 'f': np.float32, 'i': np.int32, 'l': np.int64, 's': np.int16}
class Sub(np.ndarray): pass
def layout(a, how):
    """the same values stored in another way"""
    if how == 'c': return a
    if how == 'f': return np.asfortranarray(a)
    if how == 'rev': b = a[::-1].copy(); return b[::-1]
    if how == 'step':
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype); s = tuple(slice(None, None, 2) for _ in a.shape); b[s] = a; return b[s]
    if how == 'swap': return a.astype(a.dtype.newbyteorder())
    if how == 'ro': a.flags.writeable = False; return a
    if how == 'sub': return a.view(Sub)
    if how == 'off': b = np.zeros(a.size + 3, a.dtype); c = b[3:].reshape(a.shape); c[...] = a; return c
    if how == 'odd':                 # not aligned to the size of the elements
        b = np.zeros(a.nbytes + 1, np.uint8); c = b[1:].view(a.dtype).reshape(a.shape); c[...] = a; return c
    raise ValueError(how)
BAD = {'none': lambda: None, 'list': lambda: [[1.0, 2.0]], 'int': lambda: 3, 'str': lambda: 'x', 'empty': lambda: np.zeros(0), 'empty2': lambda: np.zeros((0, 3)),
       'cols0': lambda: np.zeros((4, 0)), 'zero': lambda: np.array(1.5), 'three': lambda: np.zeros((2, 2, 2)), 'complex': lambda: np.zeros(4, complex),
       'bool': lambda: np.zeros(4, bool), 'u8': lambda: np.zeros(4, np.uint8), 'obj': lambda: np.array([1, 'a', None], object), 'half': lambda: np.zeros(4, np.float16),
       'text': lambda: np.array(['a', 'b']), 'long': lambda: np.zeros(4, np.longdouble), 'u32': lambda: np.zeros(5, np.uint32), 'dict': lambda: {}}
def ints(l): return [int(v) for v in l]
def run(lines, emit):
    D, H, kept, poked = {}, {}, [], set()
    def members(h, e):
        if h in poked: return
        try: e['n'], e['d'], e['min'] = int(H[h].rows), int(H[h].cols), int(H[h].minPoints)
        except Exception: e['n'] = e['d'] = e['min'] = -1
    def keep(what, v, copy): kept.append((what, v, copy))
    def same(what, v, copy):
        try: return still(what, v, copy)
        except Exception: return False          # a value that is not what it was
    def still(what, v, copy):
        if what == 'labels': return ints(v) == copy
        return sorted([int(k), ints(a)] for k, a in v.items()) == copy
    def step(l):
        w = l.split(); op = w[0]
        if op == 'data':
            k, t, nd, rows, cols, how = int(w[1]), w[2], int(w[3]), int(w[4]), int(w[5]), w[6]
            a = np.array([float(v) if t in 'df' else int(v) for v in w[7:]], T[t])
            D[k] = layout(a.reshape((rows, cols)) if nd == 2 else a, how); return
        if op == 'bad': D[-int(w[1])] = BAD[w[2]](); return
        if op == 'mem':
            gc.collect(); s = St(); lib.vmem_get(ctypes.byref(s)); emit(dict(e='mem', live=s.live, bad=s.badfree, over=s.overrun)); return
        if op == 'kept':
            emit(dict(e='kept', same=int(all(same(*x) for x in kept)))); return
        if op == 'grow':                 # repeat calls, see whether Python memory grows
            H['g'] = M.PyHdbscan(3); a = D[int(w[1])]; n = a.shape[0]
            def once():
                o = H['g']; o.run(a); o.rerun(2); o.getClusterMap(0, n); o.getHierarchies()
                for f in (lambda: o.run(3), lambda: o.rerun(0), lambda: o.getClusterMap(0, n + 9), lambda: o.nothing):
                    try: f()
                    except Exception: pass
                q = M.PyHdbscan(4); q.run(a); q.getHierarchies(); q.getClusterMap(0, n); del q; o.labels; o.clusterMap; o.hierarchy; o.__init__(3); o.run(a)
            tracemalloc.start()
            for _ in range(6): once()
            gc.collect(); x = tracemalloc.get_traced_memory()[0]
            for _ in range(24): once()
            gc.collect(); y = tracemalloc.get_traced_memory()[0]; tracemalloc.stop(); del H['g']
            emit(dict(e='grow', per=max(0, (y - x) // 24))); return
        h = int(w[1]); e = dict(e='call', op=op, h=h, intact=1, args=1)
        arr = None
        try:
            if op == 'new' or op == 'reinit':
                e['mp'] = int(w[2]); kind = w[3] if len(w) > 3 else 'pos'
                a, kw = {'pos': ((e['mp'],), {}), 'kw': ((), {'minPoints': e['mp']}), 'noarg': ((), {}), 'text': (('x',), {}), 'float': ((2.5,), {}), 'two': ((e['mp'], 4), {}), 'wrong': ((), {'minpts': 3})}[kind]
                e['args'] = int(kind in ('pos', 'kw'))
                if op == 'new': H[h] = M.PyHdbscan(*a, **kw)
                else: H[h].__init__(*a, **kw)
            elif op == 'raw': H[h] = M.PyHdbscan.__new__(M.PyHdbscan)
            elif op == 'run':
                e['k'] = int(w[2]); kind = w[3] if len(w) > 3 else 'pos'; e['args'] = int(kind == 'pos')
                arr = D[e['k']]; before = arr.copy() if isinstance(arr, np.ndarray) else None; rc = sys.getrefcount(arr)
                o = H[h]
                try:
                    if kind == 'pos': r = o.run(arr)
                    elif kind == 'noarg': r = o.run()
                    else: r = o.run(arr, 3)
                    e['ret'] = int(r)
                finally:
                    if before is not None:
                        ok = np.array_equal(before, arr) and sys.getrefcount(arr) == rc if arr.dtype != object else True
                        e['intact'] = int(bool(ok))
                if e['ret'] != 0: raise ValueError('not successful')
                members(h, e)
            elif op == 'rerun':
                e['mp'] = int(w[2]); kind = w[3] if len(w) > 3 else 'pos'; e['args'] = int(kind == 'pos')
                r = H[h].rerun(*{'pos': (e['mp'],), 'noarg': (), 'text': ('x',), 'float': (3.5,)}[kind]); e['ret'] = int(r)
                if e['ret'] != 0: raise ValueError('not successful')
                members(h, e)
            elif op == 'groups':
                e['b'], e['to'] = int(w[2]), int(w[3]); kind = w[4] if len(w) > 4 else 'pos'; e['args'] = int(kind == 'pos')
                m = H[h].getClusterMap(*{'pos': (e['b'], e['to']), 'noarg': (), 'one': (e['b'],), 'text': ('a', 'b')}[kind])
                e['m'] = sorted([int(k), ints(v)] for k, v in m.items()); keep('groups', m, e['m'])
                if H[h].clusterMap is not m: raise ValueError('another map')
            elif op == 'hier':
                r = H[h].getHierarchies(); m = H[h].hierarchy; e['r'] = [ints(m[k]) for k in sorted(m)]
                if sorted(m) != list(range(len(m))): raise ValueError('levels')
                keep('hier', m, sorted([int(k), ints(a)] for k, a in m.items()))
            elif op == 'labels': v = H[h].labels; e['l'] = ints(v); keep('labels', v, list(e['l']))
            elif op == 'drop': del H[h].labels
            elif op == 'poke': poked.add(h); setattr(H[h], w[2], int(w[3]) if w[2] in ('rows', 'cols', 'minPoints') else {'none': None, 'int': 7, 'list': [1]}[w[3]])
            elif op == 'del': del H[h]; poked.discard(h)
            e['out'] = 'ok'; e['exc'] = ''
        except Exception as x:
            e['out'] = 'err'; e['exc'] = type(x).__name__
        emit(e)
    for l in lines: step(l)

def main():
    txt = sys.stdin.read().split('\n'); i = 0; slow = 0
    while i < len(txt):
        if not txt[i].startswith('S '): i += 1; continue
        sid = txt[i][2:]; j = i + 1
        while txt[j] != 'E': j += 1
        lines = txt[i + 1:j]; i = j + 1
        if slow >= 3: os.write(out, (json.dumps(dict(id=sid, ev=[], end='skip', sig=0)) + '\n').encode()); continue
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(r); resource.setrlimit(resource.RLIMIT_CPU, (20, 21)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30)); signal.alarm(90)
                def emit(e): os.write(w, (json.dumps(e) + '\n').encode())
                run(lines, emit); os.write(w, b'END\n')
            except BaseException as x: os.write(w, (json.dumps(dict(e='driver', x=repr(x))) + '\n').encode())
            os._exit(0)
        os.close(w); buf = b''
        while True:
            b = os.read(r, 65536)
            if not b: break
            buf += b
        os.close(r); _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL, signal.SIGALRM): slow += 1
        ls = buf.decode().split('\n'); ok = 'END' in ls
        evs = [json.loads(l) for l in ls if l.startswith('{') and l.endswith('}')]
        os.write(out, (json.dumps(dict(id=sid, ev=evs, end='ok' if ok else 'crash', sig=os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0)) + '\n').encode())
main()
