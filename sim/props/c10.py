"""C10: application objects in one process are independent of each other."""
import copy as cp

from .. import work, sched
from ..core import Violation
from ..stream import PlanError
from ..body import Spool

PROP = 'C10'
RUNS = {'quick': 5200, 'thorough': 90000}
TIME_UNIT = 'scheduler steps (lines or instructions of the framework, handler operations)'
STATES = '(arrangement, applications involved, framework location of a preemption)'
RULE = ('2-3 applications (one may be the module-level default one) serve requests nested inside each other\'s handlers, alternating, or on several '
        'threads under a seeded schedule; handlers also copy requests, build applications, Request and Response objects. Every request is first '
        'served alone, by its own application in a fresh process image in which nothing of that happens; handlers, hooks and responses must not '
        'notice a difference. Non-trivial: something of another application happened while a request was being served.')
REAL = ['ombott (whole package)', 'threading.local']
STUB = ['WSGI server and clients', 'thread scheduler', 'connections', 'spool disk (real unnamed files)']
PROBES = ['nested call', 'nested twice', 'default application', 'request copied', 'application built while serving', 'foreign Request/Response built',
          'threads', 'alternating', 'three applications', 'preempted inside the framework']
ASSUMPTIONS = ['one application is not called again on the thread on which it is serving (that is one application, not several)']


def gen_inter(rng, napps, here, depth, tok, stack):
    """an interfering operation"""
    k = rng.random()
    others = [j for j in range(napps) if j not in stack]
    if k < 0.5 and others and depth < 2:
        j = rng.choice(others)
        sub = work.gen_req(rng, '%sn%d' % (tok, rng.randint(0, 9)), default_app=False, faults=True)
        spice(rng, sub, napps, j, depth + 1, stack + [j])
        return ['nest', j, sub]
    if k < 0.7:
        return ['copy', [[rng.choice(['PATH_INFO', 'QUERY_STRING', 'HTTP_X_A', 'HTTP_COOKIE', 'REQUEST_METHOD', 'sim.own']),
                          rng.choice(['/changed', 'a=changed', 'sid=changed'])] for _ in range(rng.randint(0, 3))]]
    return rng.choice([['newapp'], ['newapp', 2], ['newreq'], ['newresp'], ['copyread']])


def spice(rng, spec, napps, here, depth, stack, n=None):
    """put interfering operations into a handler program"""
    ops = spec['h']['ops']
    for _ in range(n or rng.choice([0, 1, 1, 2])):
        ops.insert(rng.randint(0, len(ops)), gen_inter(rng, napps, here, depth, spec['tok'], stack))
    ret = spec['h']['ret']
    if ret[0] == 'gen' and rng.random() < 0.3:
        ret[1].insert(rng.randint(0, len(ret[1])), gen_inter(rng, napps, here, depth, spec['tok'], stack))


def gen(rng, tier):
    n = rng.choice([2, 2, 3])
    apps = [work.gen_app(rng) for _ in range(n)]
    if rng.random() < 0.5:
        apps[rng.randrange(n)]['default'] = 1
    how = rng.choice(['nest', 'nest', 'alt', 'threads', 'threads'])
    p = dict(apps=apps, how=how, lanes=[], gran='line', mode=['solo'])
    if how == 'nest':
        a = rng.randrange(n)
        q = work.gen_req(rng, 'T', default_app=bool(apps[a].get('default')), faults=True)
        spice(rng, q, n, a, 0, [a], rng.choice([1, 2, 3]))
        p['lanes'] = [[[a, q]]]
    elif how == 'alt':
        lane = []
        for k in range(rng.randint(2, 6)):
            a = rng.randrange(n)
            q = work.gen_req(rng, 'T%d' % k, default_app=bool(apps[a].get('default')), faults=True)
            if rng.random() < 0.4:
                spice(rng, q, n, a, 0, [a])
            lane.append([a, q])
        p['lanes'] = [lane]
    else:
        m = rng.choice([2, 2, 3])
        for t in range(m):
            lane = []
            for k in range(rng.choice([1, 1, 2])):
                a = rng.randrange(n)
                q = work.gen_req(rng, 'TUV'[t] + (str(k) if k else ''), default_app=bool(apps[a].get('default')), faults=True)
                spice(rng, q, n, a, 1, [a])
                lane.append([a, q])
            p['lanes'].append(lane)
        p['mode'] = sched.gen_mode(rng, m)
        p['gran'] = 'ins' if rng.random() < 0.2 else 'line'
    if how != 'threads' and rng.random() < 0.3:
        # hooks interfere as well
        conf = rng.choice(apps)
        ph = rng.choice(['before', 'after'])
        conf.setdefault(ph, []).append([rng.choice([['newreq'], ['newresp'], ['newapp'], ['copy', [['QUERY_STRING', 'a=changed']]]])])
    return p


def specs(p):
    for lane in p['lanes']:
        for a, q in lane:
            yield a, q


def valid(p):
    n = len(p['apps'])
    return 1 <= n <= 3 and 1 <= len(p['lanes']) <= 3 and all(p['lanes']) and p['gran'] in ('line', 'ins') \
        and sum(1 for c in p['apps'] if c and c.get('default')) <= 1 \
        and all(isinstance(a, int) and 0 <= a < n and isinstance(q['tok'], str) and q['tok'] for a, q in specs(p)) \
        and len(set(q['tok'] for a, q in specs(p))) == len(list(specs(p)))


def strip(spec):
    """the request without the interference of its handler (for the reference)"""
    return spec


def alone(p, a, spec):
    """-> (summary, steps)"""
    conf = [{} for _ in p['apps']]
    w = work.World([p['apps'][a]], interfere=False)
    box = []
    s = sched.Sched([lambda: box.append(w.serve(spec, 0, 'alone'))], ['solo'], p['gran']).run()
    if s.errors[0]:
        raise s.errors[0]
    if box[0].bad:
        raise Violation('foreign-state', '%s (alone)' % box[0].bad[0])
    return work.summary(box[0]), s.steps[0]


def flat(slot):
    yield slot
    for sub in slot.nested:
        yield from flat(sub)


def arrange(p, mode):
    w = work.World(p['apps'])
    slots = {}

    def client(t):
        def run():
            for q, (a, spec) in enumerate(p['lanes'][t]):
                slots[t, q] = w.serve(spec, a, '%d.%d' % (t, q))
        return run
    s = sched.Sched([client(t) for t in range(len(p['lanes']))], mode, p['gran'])
    s.run()
    for e in s.errors:
        if e:
            raise e
    return slots, s


def settle(p):
    with Spool([]), sched.locks():
        steps = [sum(alone(p, a, q)[1] for a, q in lane) for lane in p['lanes']]
        _, s = arrange(p, sched.resolve(p['mode'], steps))
    return dict(p, mode=['at', [list(x) for x in s.switches], s.first])


def run(p, r):
    if not valid(p):
        raise PlanError('shape')
    with Spool([]), sched.locks():
        want, steps = {}, []
        for t, lane in enumerate(p['lanes']):
            tot = 0
            for q, (a, spec) in enumerate(lane):
                want[t, q], k = alone(p, a, spec)
                tot += k
            steps.append(tot)
        slots, s = arrange(p, sched.resolve(p['mode'], steps))
        r.simtime += s.total
        r.fault('preemption', len(s.switches))
        r.probe('preempted inside the framework', bool(s.locs))
        r.probe(p['how'] if p['how'] == 'threads' else 'alternating', p['how'] in ('threads', 'alt'))
        r.probe('three applications', len(p['apps']) == 3)
        r.probe('default application', any(c.get('default') for c in p['apps'] if c))
        for loc in s.locs:
            r.states.append((p['how'], loc))
        for (t, q), top in sorted(slots.items()):
            a, spec = p['lanes'][t][q]
            for slot in flat(top):
                if slot.bad:
                    raise Violation('foreign-state', 'request %s of application %d: %s' % (slot.tag, slot.app_i, slot.bad[0]))
                got = work.summary(slot)
                r.note(slot.tag, got['status'], got['body'][:60], len(got['obs']))
                if slot is not top:
                    r.probe('nested call')
                    r.probe('nested twice', slot.tag.count('/') > 1)
                    ref = alone(p, slot.app_i, slot.spec)[0]
                else:
                    ref = want[t, q]
                inter = [o[0] for o in ops_of(slot.spec) if o[0] in ('nest', 'copy', 'newapp', 'newreq', 'newresp')]
                if inter or len(p['lanes']) > 1 or p['how'] == 'alt':
                    r.nontrivial = True
                r.states.append((p['how'], slot.app_i, tuple(inter), slot.ex.code))
                r.probe('request copied', 'copy' in inter)
                r.probe('application built while serving', 'newapp' in inter)
                r.probe('foreign Request/Response built', 'newreq' in inter or 'newresp' in inter)
                if slot.inp.failed:
                    r.fault('read error (%s)' % slot.inp.fail[1])
                d = work.diff(ref, got, ('alone', 'here'))
                if d:
                    raise Violation('interference', 'request %s of application %d differs from the same request served by its application alone: %s' % (
                        slot.tag, slot.app_i, d[1]), 'interference:' + d[0])


def ops_of(spec):
    h = spec.get('h') or {}
    for o in h.get('ops') or []:
        if o:
            yield o
    ret = h.get('ret') or []
    if ret and ret[0] == 'gen':
        for it in ret[1]:
            if isinstance(it, list) and it:
                yield it
