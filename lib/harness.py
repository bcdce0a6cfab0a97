"""Runs scenarios in the real code, several interpreter processes in parallel."""
import os, json, re, subprocess, threading
NPROC = int(os.environ.get('VP_JOBS', '8'))

def run(binary, scens, threads=1, env=None, jobs=None, cpu=10):
    """scens: list of (id, [lines]); returns {id: result dict}"""
    jobs = jobs or NPROC
    n = max(1, min(jobs, (len(scens) + 3) // 4))
    chunks = [scens[i::n] for i in range(n)]
    e = dict(os.environ); e['OMP_NUM_THREADS'] = str(threads); e['HX_CPU'] = str(cpu); e['OMP_WAIT_POLICY'] = 'passive'
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:halt_on_error=1:max_allocation_size_mb=2500'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1'
    if env: e.update(env)
    outs = [None] * n
    def go(i):
        txt = ''.join('S %s\n%s\nE\n' % (sid, '\n'.join(lines)) for sid, lines in chunks[i])
        p = subprocess.run([binary], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
        outs[i] = (p.returncode, p.stdout)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    res = {}
    for rc, out in outs:
        if rc != 0: raise RuntimeError('scenario interpreter failed with %d' % rc)
        for line in out.decode('latin-1').split('\n'):
            if not line: continue
            try: r = json.loads(line)
            except ValueError:        # the scenario wrote over the recorder's own memory
                m = re.match(r'\{"id":"([^"]*)"', line)
                if not m: continue
                r = {'id': m.group(1), 'ev': [], 'end': 'crash', 'sig': -1}
            res[r['id']] = r
    for sid, _ in scens:
        if sid not in res: res[sid] = {'id': sid, 'ev': [], 'end': 'crash', 'sig': -1}
    return res
