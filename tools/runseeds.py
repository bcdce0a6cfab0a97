"""Runs the check of every planted change (or of those named) on a scratch copy of the repository:
python3 tools/runseeds.py [ID ...] [--also C01,C02]   prints which checks report it."""
import sys, os, subprocess, json, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; also = []
if '--also' in a: i = a.index('--also'); also = a[i + 1].split(','); del a[i:i + 2]
ids = a or sorted(os.listdir(V + '/seeded'))
for s in ids:
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        subprocess.run('cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s/seeded/%s/patch.diff' % (d, d, V, s), shell=True, check=True)
        p = json.load(open('%s/seeded/%s/meta.json' % (V, s)))['property']
        for c in [p] + [x for x in also if x != p]:
            t = time.time()
            r = subprocess.run([V + '/bin/check', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VP_REPO=d, VP_BUILD='/tmp/seedbuild', VP_EVIDENCE=d + '/ev'))
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            print('%-18s %s rc=%d %5.1fs %s' % (s, c, r.returncode, time.time() - t, (v or r.stdout.split('\n')[-2:])[0][:110]), flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
shutil.rmtree('/tmp/seedbuild', ignore_errors=True)
