"""C34: the log. Histories of LogModel and random ones, written by one or several threads, into the
stream and (a DEBUG build) into the file; what is found is taken apart by LogTrace."""
import re, json
import build

CHK = 'Chk = {"C34"}'
MODEL = 'SPECIFICATION Spec\nINVARIANT Inv\n%sCONSTANTS Threads = {%s} N = %d Sessions = %d Kinds = {%s} Emit = %s\nCHECK_DEADLOCK FALSE\n'
def model(c, th, n, ses, kinds, emit):
    R = c.model('LogModel', MODEL % ('' if emit else 'VIEW core\n', th, n, ses, kinds, 'TRUE' if emit else 'FALSE'), 'threads %s, %d messages, %d openings, kinds %s' % (th, n, ses, kinds), workers=1 if emit else 8)
    return [json.loads(x.replace('\\"', '"')) for x in re.findall(r'"SEQ (.*)"', R.out)]
def message(r, tag, size=None):
    """bytes: letters, signs of formats, ends of lines, bytes beyond 127"""
    n = size if size is not None else r.choice([0, 0, 1, 5, 20, 60, 90, 100, 101, 128, 200, 255, 256, 300])
    a = r.choice(['abcxyz', '%', '%sdn%5.2f ', 'ab\n', '\n', '\t\\"[]:-0123456789', '\x80\xff\xc3\xa9', 'abc %d\n['])
    b = (tag + ''.join(r.choice(a) for _ in range(n))).encode('latin-1')
    return b.hex() or '-'
def adapt(raw, scen):
    ev = [dict(e) for e in raw['ev']]
    if raw['end'] != 'ok': ev.append({'e': 'crash', 'sig': raw['sig']})
    return {'id': raw['id'], 'ev': [e for e in ev if e['e'] != 'region' or any(e['acc'])]}
def single(r, sid, hist, debug, big=0):
    out = ['log begin']; k = 0
    if not debug and not any(o['op'] == 'init' for o in hist): out.append('log init')
    for o in hist:
        if o['op'] == 'write':
            k += 1; ty = o.get('k', r.randrange(5))
            out.append('log write 0 %d %s' % (ty, message(r, '', r.choice([1000, 4095, 4096, 4097, 9000]) if big and r.random() < .3 else None)))
        else: out.append('log ' + o['op'])
    if hist and hist[-1]['op'] != 'close': out.append('log close')
    return dict(id=sid, lines=out + ['log out', 'mem'])
def rnd(r, sid, debug, nops, big=0):
    h = []; o = False
    for _ in range(nops):
        if not o: h.append({'op': 'init'}); o = True
        elif r.random() < .1: h.append({'op': 'close'}); o = False
        else: h.append({'op': 'write'})
    return single(r, sid, h, debug, big)
def threads(r, sid, nth, each, sched=None):
    out = ['sched %d %d %d' % sched] if sched else []
    out += ['log begin', 'log init', 'par']
    for t in range(nth):
        for i in range(each): out.append('T%d log write %d %d %s' % (t, t, r.randrange(5) if r.random() < .7 else 4, message(r, '<%d.%d>' % (t, i), r.choice([0, 3, 30, 80, 300]))))
    return dict(id=sid, lines=out + ['endpar', 'log close', 'log out', 'mem'])
def c34(c):
    r = c.rng
    hs = model(c, '0', 2, 2, '0, 1, 2, 3, 4', True)
    model(c, '0, 1, 2' if c.quick else '0, 1, 2, 3', 2, 1, '0', False)
    dbg = build.hx(extra=('-DDEBUG',)); prt = build.hx_if(san='prt')
    for d, b in ((False, None), (True, dbg)):
        if c.viol: return
        t = 'd' if d else 's'
        sc = [single(r, t + 'm%d' % i, h, d) for i, h in enumerate(r.sample(hs, min(len(hs), 400 if c.quick else 10**6)))]
        sc += [rnd(r, t + 'r%d' % i, d, r.choice([5, 20, 60])) for i in range(60 if c.quick else 300)] + [rnd(r, t + 'b%d' % i, d, 20, 1) for i in range(6 if c.quick else 30)]
        sc += [threads(r, t + 't%d' % i, r.randint(2, 4), r.choice([5, 40, 120])) for i in range(20 if c.quick else 100)]
        c.conform('LogTrace', sc, adapt, CHK, binary=b)
    if prt and not c.viol:
        c.conform('LogTrace', [threads(r, 'p%d' % i, r.randint(2, 3), r.randint(1, 3), (2, r.randrange(1000), r.choice([0, 2, 10]))) for i in range(40 if c.quick else 300)], adapt, CHK, binary=prt)
CHECKS = {'C34': c34}
