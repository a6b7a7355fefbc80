"""C08: concurrent requests on one application never see each other."""
from .. import work, sched
from ..core import Violation
from ..stream import PlanError
from ..body import Spool

PROP = 'C08'
RUNS = {'quick': 5200, 'thorough': 90000}
TIME_UNIT = 'scheduler steps (lines or instructions of the framework, handler operations)'
STATES = 'framework locations where a request thread was preempted, per preempting pair'
RULE = ('One application, 2-3 request threads. Every request is first served alone by the same application in a fresh process image, then all '
        'of them concurrently under a seeded schedule (random preemption points, bursts, round robin; line or instruction granularity). '
        'Non-trivial: at least one preemption happened inside the framework.')
REAL = ['ombott (whole package)', 'threading.local, generators, threads of CPython']
STUB = ['WSGI server and clients', 'thread scheduler (baton passing, decided by the plan)', 'connections', 'spool disk (real unnamed files)']
PROBES = ['preempted inside the framework', 'error page', 'body parsed', 'three threads', 'cookies set', 'instruction granularity', 'second request of a thread']
ASSUMPTIONS = ['threads are CPython threads under a global interpreter lock: a switch happens between bytecode instructions']


def gen(rng, tier):
    n = rng.choice([2, 2, 2, 3])
    app = work.gen_app(rng)
    toks = ['Ta', 'Ub', 'Vc']
    reqs = []
    for t in range(n):
        lst = []
        for q in range(rng.choice([1, 1, 1, 2])):
            lst.append(work.gen_req(rng, toks[t] + ('' if not q else 'x'), faults=True))
        reqs.append(lst)
    if rng.random() < 0.3:
        # same work for everybody: collisions of everything
        import copy
        for t in range(1, n):
            reqs[t] = copy.deepcopy(reqs[0])
            for q in reqs[t]:
                q['tok'] = q['tok'].replace(toks[0], toks[t])
    if rng.random() < 0.08:
        work.share(rng, app, [q for lst in reqs for q in lst])
    return dict(app=app, reqs=reqs, mode=sched.gen_mode(rng, n), gran='ins' if rng.random() < 0.25 else 'line')


def valid(p):
    return 2 <= len(p['reqs']) <= 3 and all(p['reqs']) and p['gran'] in ('line', 'ins') and len(set(q['tok'] for l in p['reqs'] for q in l)) == sum(map(len, p['reqs'])) \
        and all(isinstance(q['tok'], str) and q['tok'] for l in p['reqs'] for q in l)


def solo(p):
    """every request alone; -> {(thread, i): summary}, steps per thread"""
    out, steps = {}, []
    for t, lst in enumerate(p['reqs']):
        tot = 0
        for q, spec in enumerate(lst):
            w = work.World([p['app']])
            box = []
            s = sched.Sched([lambda: box.append(w.serve(spec, 0, '%d.%d' % (t, q)))], ['solo'], p['gran']).run()
            if s.errors[0]:
                raise s.errors[0]
            if box[0].bad:
                raise Violation('foreign-state', '%s (served alone)' % box[0].bad[0])
            out[t, q] = work.summary(box[0])
            tot += s.steps[0]
        steps.append(tot)
    return out, steps


def concurrent(p, mode, steps):
    w = work.World([p['app']])
    slots = {}

    def client(t):
        def run():
            for q, spec in enumerate(p['reqs'][t]):
                slots[t, q] = w.serve(spec, 0, '%d.%d' % (t, q))
        return run
    s = sched.Sched([client(t) for t in range(len(p['reqs']))], sched.resolve(mode, steps), p['gran'])
    s.run()
    for e in s.errors:
        if e:
            raise e
    return slots, s


def settle(p):
    with Spool([]), sched.locks():
        _, steps = solo(p)
        _, s = concurrent(p, p['mode'], steps)
    return dict(p, mode=['at', [list(x) for x in s.switches], s.first])


def run(p, r):
    if not valid(p):
        raise PlanError('shape')
    with Spool([]), sched.locks():
        want, steps = solo(p)
        slots, s = concurrent(p, p['mode'], steps)
    r.simtime += s.total
    r.fault('preemption', len(s.switches))
    inside = [x for x in s.locs]
    if inside:
        r.nontrivial = True
        r.probe('preempted inside the framework')
    for x in s.locs:
        r.states.append(x)
    r.probe('three threads', len(p['reqs']) == 3)
    r.probe('instruction granularity', p['gran'] == 'ins')
    for (t, q), slot in sorted(slots.items()):
        if slot.bad:
            raise Violation('foreign-state', 'request %d.%d: %s' % (t, q, slot.bad[0]))
        got = work.summary(slot)
        r.note((t, q), got['status'], got['body'][:60], len(got['obs']))
        r.probe('error page', (slot.ex.code or 0) >= 400)
        r.probe('cookies set', bool(slot.ex.header_all('Set-Cookie')))
        r.probe('body parsed', slot.inp.pos > 0)
        r.probe('second request of a thread', q > 0)
        if slot.inp.failed:
            r.fault('read error (%s)' % slot.inp.fail[1])
        d = work.diff(want[t, q], got, ('alone', 'concurrently'))
        if d:
            raise Violation('interference', 'request %d.%d (tok %s) differs from the same request served alone: %s' % (
                t, q, p['reqs'][t][q]['tok'], d[1]), 'interference:' + d[0])
