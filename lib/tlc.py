"""Runs TLC on a specification; classifies the outcome."""
import os, re, subprocess, tempfile, shutil, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.rejected = re.findall(r'<<\s*"REJECTED",\s*"([^"]*)",\s*(-?\d+),\s*(-?\d+),\s*"([^"]*)"\s*>>', out)
        self.ok = rc == 0
        self.violated = rc in (10, 11, 12, 13, 14)

def run(module, cfg, workers=8, heap='6g', timeout=800, extra=(), env=None, specdir=None, deadlock=True, simulate=None):
    """cfg: text of the configuration"""
    d = tempfile.mkdtemp(prefix='tlc.')
    try:
        sd = specdir or os.path.join(VERIF, 'spec')
        for f in os.listdir(sd):
            if f.endswith('.tla'): shutil.copy(os.path.join(sd, f), d)
        open(os.path.join(d, 'run.cfg'), 'w').write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + d, '-cp', CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', 'run.cfg']
        if not deadlock: cmd.append('-deadlock')
        if simulate: cmd += ['-simulate', simulate]
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        if env: e.update(env)
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
            return TlcResult(p.returncode, p.stdout)
        except subprocess.TimeoutExpired as x:
            return TlcResult(-1, (x.stdout or b'').decode('latin-1') if isinstance(x.stdout, bytes) else (x.stdout or ''))
    finally:
        shutil.rmtree(d, ignore_errors=True)
