"""C09: each response depends on its own request only; retained state is bounded."""
import gc
import sys
import weakref

from .. import work
from ..core import Clock, Violation
from ..stream import PlanError
from ..body import Spool

PROP = 'C09'
RUNS = {'quick': 4800, 'thorough': 90000}

TIME_UNIT = 'requests served plus framework-visible operations of their handlers'
STATES = '(kind and outcome of the earlier request, kind and outcome of the later one)'
RULE = ('A history of requests of all kinds through one application on one thread; each response, and everything its handler saw, must equal the same '
        'request served by a fresh application in a fresh process image. The first runs are retention runs: a short cycle of request kinds served '
        'over and over (1500-4000 requests), watching environ and input objects by weak reference and the number of allocated blocks. '
        'Non-trivial: at least one earlier request failed or set response state.')
REAL = ['ombott (whole package)', 'CPython reference counting and gc']
STUB = ['WSGI server and clients', 'connections', 'spool disk (real unnamed files)']
PROBES = ['undecodable path', 'malformed body', 'oversized body', 'handler crash', 'retention run', 'read error', 'client went away', '405', 'shared response']
ASSUMPTIONS = ['retention is judged after gc.collect(); caches that stop growing are not growth']


def gen(rng, tier):
    idx = rng.random()
    n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8])
    app = work.gen_app(rng)
    pool = [work.gen_req(rng, 'T%d' % k, faults=True) for k in range(min(n, rng.choice([2, 3, 4, 8])))]
    if rng.random() < .1:
        work.share(rng, app, pool)
    order = [rng.randrange(len(pool)) for _ in range(n)]
    p = dict(app=app, pool=pool, order=order, big=0)
    if rng.random() < .4:
        # the wall clock moves (or is set back) between the requests
        p['jumps'] = [rng.choice([0, 0, 0.2, 1, 2, 61, 3600, 86400, 1e7, -1, -3600]) for _ in order]
    if rng.random() < (0.006 if tier == 'quick' else 0.0012):
        p['big'] = rng.choice([1500, 2000, 3000])
        p['vary'] = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 7])
    return p


def valid(p):
    return bool(p['pool']) and all(isinstance(k, int) and 0 <= k < len(p['pool']) for k in p['order']) \
        and all(isinstance(q['tok'], str) and q['tok'] for q in p['pool']) and (p['big'] or 0) in (0, 1500, 2000, 3000)


def kind(slot, spec):
    return (spec.get('path') or 'h', (spec.get('body') or ['none'])[0], slot.ex.code, bool(slot.ex.header_all('Set-Cookie')))


def run(p, r):
    if not valid(p):
        raise PlanError('shape')
    with Spool([]) as disk:
        if p['big']:
            return big(p, r, disk)
        want = {}
        jumps = [j if isinstance(j, (int, float)) else 0 for j in p.get('jumps') or []]
        jumps += [0] * (len(p['order']) - len(jumps))
        at = 0
        times = []
        for j in jumps:
            at += j
            times.append(at)
        for k, at in sorted(set(zip(p['order'], times))):
            Clock.now = Clock.T0 + at
            w = work.World([p['app']])
            s = w.serve(p['pool'][k], 0, 'fresh')
            if s.bad:
                raise Violation('foreign-state', '%s (fresh application)' % s.bad[0])
            want[k, at] = work.summary(s)
        Clock.now = Clock.T0
        w = work.World([p['app']])
        prev = None
        for n, k in enumerate(p['order']):
            spec = p['pool'][k]
            Clock.now = Clock.T0 + times[n]
            if jumps[n]:
                r.fault('clock set back' if jumps[n] < 0 else 'clock jump')
            s = w.serve(spec, 0, 'r%d' % n)
            r.simtime += 1 + len(s.obs) + len(s.hookobs)
            if s.bad:
                raise Violation('foreign-state', 'request %d of the history: %s' % (n, s.bad[0]))
            got = work.summary(s)
            account(r, s, spec)
            r.note(n, got['status'], got['body'][:60], len(got['obs']))
            if prev:
                r.states.append((prev, kind(s, spec)))
                if prev[2] != 200 or prev[3]:
                    r.nontrivial = True
            prev = kind(s, spec)
            d = work.diff(want[k, times[n]], got, ('fresh', 'here'))
            if d:
                raise Violation('carry-over', 'request %d of the history (%s %s) differs from the same request served by a fresh application: %s' % (
                    n, spec.get('method'), spec.get('path'), d[1]), 'carry-over:' + d[0])


def account(r, s, spec):
    r.probe('undecodable path', spec.get('path') == 'bad')
    r.probe('malformed body', (spec.get('body') or [0])[0] in ('badjson', 'badmp', 'badchunk'))
    r.probe('oversized body', s.ex.code == 413)
    r.probe('handler crash', s.ex.code == 500)
    r.probe('405', s.ex.code == 405)
    r.probe('shared response', ((spec.get('h') or {}).get('ret') or [0])[0] in ('shared', 'shared_err'))
    if s.inp.failed:
        r.probe('read error')
        r.fault('read error (%s)' % s.inp.fail[1])
    if spec.get('abort') is not None:
        r.probe('client went away')
        r.fault('client goes away')
    if s.inp.short:
        r.fault('short read', s.inp.short)


def big(p, r, disk):
    """Serve the cycle thousands of times; what is alive must not grow with the number of requests."""
    r.probe('retention run')
    r.nontrivial = True
    n = p['big']
    w = work.World([p['app']])
    order = p['order'] or [0]
    vary = int(p.get('vary') or 0)
    refs = []
    marks = []
    gc.collect()
    steps = 6
    i = 0
    for part in range(steps):
        for _ in range(n // steps):
            spec = p['pool'][order[i % len(order)]]
            if vary:
                # distinct requests: another token, path, host, cookie each time
                spec = dict(spec, tok='%s%d' % (spec.get('tok') or 't', i), host='h%d.sim' % i)
                k = vary if vary > 1 else 0
                if k == 7:
                    spec['method'] = 'M%d' % i
                elif k == 2:
                    spec['hdrs'] = [['X-H%d' % i, 'v'], ['Accept', 'text/x%d' % i], ['If-Modified-Since', 'date %d' % i]]
                elif k == 3:
                    spec['query'] = 'q%d=1&r=%d' % (i, i)
                elif k == 4:
                    spec['cookies'] = [['n%d' % i, 'v%d' % i]]
                elif k == 5:
                    spec['ctype'] = 'multipart/form-data; boundary=b%d' % i
                elif k == 6:
                    spec['hdrs'] = [['X-Forwarded-Host', 'f%d.sim' % i], ['X-Forwarded-Proto', 'p%d' % i], ['Authorization', 'Basic %d' % i], ['X-Forwarded-For', '10.%d.%d.1' % (i // 250, i % 250)]]
            s = w.serve(spec, 0, 'r%d' % i)
            refs.append((weakref.ref(s.env), weakref.ref(s.inp)))
            i += 1
            del s
            del disk.files[:]
        gc.collect()
        alive = [sum(1 for a in refs if a[x]() is not None) for x in (0, 1)]
        refs = [a for a in refs if a[0]() is not None or a[1]() is not None]
        marks.append((i, alive[0], alive[1], sys.getallocatedblocks(), sum(len(o) for o in gc.get_objects() if type(o) in (list, dict, set))))
    r.simtime += i
    r.note([m[:3] for m in marks])
    last = marks[-1]
    if last[1] > 64 or last[2] > 64:
        raise Violation('retention', 'after %d requests %d environs and %d request streams are still alive (%s)' % (
            last[0], last[1], last[2], ', '.join('%d after %d' % (max(m[1], m[2]), m[0]) for m in marks)), 'retention:objects')
    # blocks: growth per request over each of the last three stretches
    per = [(marks[k + 1][3] - marks[k][3]) / (marks[k + 1][0] - marks[k][0]) for k in range(steps - 1)]
    if min(per[-3:]) > 0.5:
        raise Violation('retention', 'allocated blocks keep growing: %s per request in successive stretches' % ', '.join('%.2f' % x for x in per),
                        'retention:blocks')
    per = [(marks[k + 1][4] - marks[k][4]) / (marks[k + 1][0] - marks[k][0]) for k in range(steps - 1)]
    if min(per[-3:]) > 0.5:
        raise Violation('retention', 'lists, dicts and sets keep growing: %s entries per request in successive stretches' % ', '.join('%.2f' % x for x in per),
                        'retention:entries')
