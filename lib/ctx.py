"""One run of one check: model runs, conformance of recorded behaviours, evidence."""
import os, sys, json, time, random, hashlib, tempfile, shutil, threading
import build, harness, adapt, tlc
VERIF = build.VERIF
EVID = os.environ.get('VP_EVIDENCE', os.path.join(VERIF, 'evidence'))

class Fail(Exception): pass          # machinery error: exit 2

def known(pid):
    """entries 'finding: property=<id> key=<scenario key> <what>' of the known-findings file"""
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            if line.startswith('finding:') and ('property=%s ' % pid) in line:
                out.append(line.split('finding:', 1)[1].strip())
    return out

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random('%s/%d/%s' % (pid, seed, tier))
        self.t0 = time.time(); self.odd = set()
        self.states = self.transitions = self.traces = self.execs = 0
        self.models = []; self.samples = []; self.distinct = set(); self.notes = []; self.assumptions = []
        self.viol = []
        self.level = 'model_checking'
    @property
    def quick(self): return self.tier == 'quick'
    def left(self, total=None):
        """seconds left of the time this tier may take"""
        return (total or (60 if self.quick else 780)) - (time.time() - self.t0)

    # -------------------------------------------------------- design models
    def model(self, module, cfg, name, timeout=600, workers=8, optional=False, extra=(), simulate=None):
        r = tlc.run(module, cfg, timeout=timeout, workers=workers, extra=extra, simulate=simulate)
        if r.rc != 0 and not (simulate and r.rc == -1) and not (optional and r.rc == -1):
            raise Fail('model %s (%s): TLC exit %d\n%s' % (module, name, r.rc, r.out[-3000:]))
        self.states += r.distinct; self.transitions += r.generated
        self.models.append({'model': module, 'config': name, 'distinct_states': r.distinct, 'states_generated': r.generated,
                            'completed': r.rc == 0})
        return r

    # -------------------------------------------------------- executions
    def run(self, scens, binary=None, **kw):
        """runs scenarios in the real code; returns {id: raw}"""
        ids = [s['id'] for s in scens]
        if len(set(ids)) != len(ids): raise Fail('duplicate scenario ids')
        res = {}
        for b in sorted({s.get('binary') or binary or build.hx() for s in scens}):       # a scenario may name its own build
            mine = [s for s in scens if (s.get('binary') or binary or build.hx()) == b]
            res.update(harness.run(b, [(s['id'], s['lines']) for s in mine], **kw))
        self.execs += len(scens)
        return res

    # -------------------------------------------------------- conformance
    def check_traces(self, module, recs, consts='', inv='Accepted', workers=8, timeout=700, heap='8g'):
        """one TLC run over recorded traces; returns list of (id, pos, sub, why) rejected"""
        if not recs: return []
        d = tempfile.mkdtemp(prefix='vptr.')
        try:
            f = os.path.join(d, 'traces.ndjson')
            with open(f, 'w') as fh:
                for r in recs: fh.write(json.dumps(r) + '\n')
            cfg = 'SPECIFICATION Spec\nINVARIANT %s\nCONSTANTS TraceFile = "%s"\n%s\n' % (inv, f, consts)
            R = tlc.run(module, cfg, workers=workers, timeout=timeout, heap=heap, deadlock=True)
            if R.rc == 0:
                self.states += R.distinct; self.transitions += R.generated
                return []
            if R.rejected: return [(a, int(b), int(c), w) for a, b, c, w in R.rejected]
            if 'Parsing or semantic' in R.out or 'OutOfMemory' in R.out or 'StackOverflow' in R.out or R.rc in (1, 137, 150, 255): raise Fail('TLC failed (%d) on %s: %s' % (R.rc, module, R.out[-1500:]))
            if R.rc == -1: raise Fail('TLC timed out on %d traces of %s' % (len(recs), module))
            # the specification could not even be evaluated on some trace: find it
            if len(recs) == 1: return [(recs[0]['id'], -1, -1, 'malformed: ' + tail_error(R.out))]
            h = len(recs) // 2
            return (self.check_traces(module, recs[:h], consts, inv, workers, timeout, heap)
                    or self.check_traces(module, recs[h:], consts, inv, workers, timeout, heap))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def sound(self, module, scens, adapter, consts='', binary=None):
        """the scenarios whose behaviour in the reference build the specification accepts"""
        res = self.run(scens, binary)
        recs = [adapter(res[s['id']], s) for s in scens if res[s['id']]['end'] != 'skip']
        d = tempfile.mkdtemp(prefix='vptr.')
        try:
            f = os.path.join(d, 'traces.ndjson')
            with open(f, 'w') as fh:
                for r in recs: fh.write(json.dumps(r) + '\n')
            R = tlc.run(module, 'SPECIFICATION Spec\nCONSTANTS TraceFile = "%s"\n%s\n' % (f, consts), workers=8, timeout=700, heap='8g', deadlock=False)
            if R.rc != 0:
                if os.environ.get('VP_DBG'): print(len(recs), tail_error(R.out), recs[0]['id'])
                if len(recs) <= 1: return []
                h = len(scens) // 2       # a record the specification cannot be evaluated on
                return self.sound(module, scens[:h], adapter, consts, binary) + self.sound(module, scens[h:], adapter, consts, binary)
            self.states += R.distinct; self.transitions += R.generated
            bad = {x[0] for x in R.rejected}
            return [s for s in scens if s['id'] not in bad and res[s['id']]['end'] == 'ok']
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def conform(self, module, scens, adapter, consts='', binary=None, keyf=None, **kw):
        """run scenarios, check their traces, confirm and report rejections.
        adapter(raw, scen) -> trace record (dict with id)"""
        rkw = {k: kw.pop(k) for k in ('threads', 'env', 'cpu', 'jobs') if k in kw}
        by = {s['id']: s for s in scens}
        if len(by) != len(scens): raise Fail('duplicate scenario ids')
        res = self.run(scens, binary, **rkw)
        recs = []
        for s in scens:
            raw = res[s['id']]
            if raw['end'] == 'skip': continue
            recs.append(adapter(raw, s))
        for s in scens:
            self.distinct.add(hashlib.md5(('\n'.join(s['lines'])).encode()).hexdigest())
        if not self.samples and scens:
            self.samples.append({'scenario': by[recs[0]['id']]['lines'][:12], 'first_events': json.dumps(recs[0].get('ev', ''))[:600]})
        while True:
            rej = self.check_traces(module, recs, consts, **kw)
            if not rej: break
            bad = sorted({r[0] for r in rej})
            for b in bad[:3]:
                why = [r for r in rej if r[0] == b][0]
                self.confirm(module, by[b], adapter, consts, binary, why, rkw, kw, [r for r in recs if r['id'] == b][0])
            if self.viol: break
            # all rejected traces were known findings: check the rest
            recs = [r for r in recs if r['id'] not in bad]
        self.traces += len(recs)
        return res

    def confirm(self, module, scen, adapter, consts, binary, why, rkw, kw, rec):
        again = None
        crash = rec.get('ev') and isinstance(rec['ev'], list) and rec['ev'] and rec['ev'][-1].get('e') == 'crash'
        for _ in range(12 if crash else 3):
            raw = self.run([scen], binary, **rkw)[scen['id']]
            rej = self.check_traces(module, [adapter(raw, scen)], consts, **kw)
            if rej: again = rej[0]; break
        if again is None:
            if crash:
                # once may be the machine (a limit met under load); again and again it is the code
                self.odd.add(scen['id'])
                sys.stderr.write('scenario %s ended with %s once and not again\n' % (scen['id'], rec['ev'][-1]))
                if len(self.odd) < 3: return
            # the recorded behaviour is real, e.g. a read of memory that was never written
            again = why
            note = 'not repeated when run alone'
        else: note = 'repeated when run alone'
        for k in known(self.pid):
            key = [w for w in k.split() if w.startswith('key=')]
            if key and scen.get('key') and key[0] == 'key=' + scen['key']:
                if k not in self.notes: print('KNOWN-FINDING: ' + k); self.notes.append(k)
                return
        self.violation({'kind': 'trace', 'module': module, 'consts': consts, 'scenario': {k: v for k, v in scen.items()},
                        'rejected_at': again, 'note': note, 'trace': rec}, again[3])

    def violation(self, replay, why):
        d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
        txt = json.dumps({'property': self.pid, 'why': why, 'tier': self.tier, 'seed': self.seed, 'replay': replay}, indent=1, default=str)
        f = os.path.join(d, '%s-%s.json' % (self.pid, hashlib.md5(txt.encode()).hexdigest()[:10]))
        open(f, 'w').write(txt)
        self.viol.append((f, why))

    # -------------------------------------------------------- end
    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'executions_of_the_real_code': self.execs, 'distinct_scenarios': len(self.distinct),
               'design_models': self.models, 'samples': self.samples[:6] or ['none']}
        if self.level == 'exploration' or self.level == 'fault_enumeration':
            cov['evaluations'] = self.execs; cov['distinct_nontrivial'] = len(self.distinct)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.%d' % (self.pid, os.getpid()))
        json.dump(ev, open(tmp, 'w'), indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, self.pid + '.json'))
        for f, why in self.viol[:3]:
            print('  ' + why)
            print('VIOLATION property=%s replay=%s' % (self.pid, f))
        return 1 if self.viol else 0

def tail_error(out):
    k = out.find('Error:')
    return out[k:k + 400].replace('\n', ' ') if k >= 0 else out[-300:]
