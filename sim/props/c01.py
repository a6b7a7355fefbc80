"""C01  Route resolution equals the plain rule-by-rule semantics."""
from .. import world, wsgi, routes, sched
from ..stream import PlanError

PROP = 'C01'
RUNS = {'quick': 26000, 'thorough': 300000}
RULE = ('one run = 1-9 related rules (shared and split prefixes, literal and wildcard siblings, every syntax flavour, several rules on one pattern) registered in a '
        'seeded order, with requests in between; every accepted set of rules is probed with paths built from the rules (accepted and refused values, empty segments, '
        'CR and LF, non-ASCII) through WSGI and through RadiRouter.resolve, and every answer compared with matching each rule on its own. A share of the runs builds '
        'and probes two applications in two threads under a seeded schedule. Non-trivial: at least two rules match a probed path, or a wildcard is bound.')
TIME_UNIT = 'registrations and lookups (scheduler steps in two-thread runs)'
STATES = 'distinct (shape of the selected rule, shapes of the other matching rules, number of accepted rules)'
REAL = ['ombott (whole package)', 'CPython re']
STUB = ['WSGI server and clients', 'thread scheduler in two-thread runs']
PROBES = ['several rules match', 'literal beats wildcard late', 'not found', 'int or float converted', 'path filter', 'rex with selector', 'rex without selector', 'rule shares the pattern of another',
          'CR in path', 'empty segment bound', 'registration refused', 'anonymous wildcard dropped', 'two threads', 'request between registrations', 'trailing slash rule']
ASSUMPTIONS = ['a wildcard that would have to bind the empty text at the very end of the path may match or not (either answer is accepted)',
               'wildcards are matched once at the cursor, as the filters define it: a rule is not retried with a shorter value',
               'paths are compared without their leading and trailing slashes, rules without the leading one',
               'between a rule with a selector and one with literal text at the same place either answer is accepted']
METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'M1', 'M2', 'M3']


def gen_one(rng):
    rules, words = routes.universe(rng, rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9]), combs=0.008)
    ops = []
    for i, r in enumerate(rules):
        ops.append(['add', r])
        if rng.random() < 0.25:
            ops.append(['get', routes.gen_path(rng, rules, words)])
    for _ in range(rng.randint(3, 9)):
        ops.append(['get', routes.gen_path(rng, rules, words)])
    return ops


def gen(rng, tier):
    if rng.random() < 0.04:
        return dict(apps=[gen_one(rng), gen_one(rng)], mode=sched.gen_mode(rng, 2), gran='ins' if rng.random() < 0.3 else 'line')
    return dict(apps=[gen_one(rng)], mode=None, gran='line')


def valid(p):
    if not p['apps'] or not all(p['apps']) or p['gran'] not in ('line', 'ins') or (len(p['apps']) > 1) != bool(p['mode']):
        return False
    for ops in p['apps']:
        for op in ops:
            if op[0] == 'add':
                if not routes.usable(op[1]):
                    return False
                ns = [n for n in routes.names(op[1]) if n]
                if len(ns) != len(set(ns)):
                    return False
            elif op[0] != 'get' or not isinstance(op[1], str):
                return False
    return True


def shape(rule):
    return ''.join(('l' if len(s[1]) < 2 else 'L') if s[0] == 'l' else {None: 'w', 'int': 'i', 'float': 'f', 're': 'r', 'rex': 'x', 'path': 'p'}[s[2]] + ('s' if s[4] else '')
                   for s in routes.normal(rule))


class One:
    """One application with its rules."""

    def __init__(self, ombott, r):
        self.app = ombott.Ombott()
        self.r = r
        self.rules = []            # (number, rule) accepted
        self.meth = {}             # number -> method
        self.hits = []
        self.n = 0
        self.bad = None

    def add(self, rule):
        k = self.n
        self.n += 1
        t = routes.tokens(rule)
        same = sum(1 for _, o in self.rules if routes.tokens(o) == t)
        m = METHODS[same % len(METHODS)]

        def handler(*a, **kw):
            self.hits.append((k, a, kw))
            return 'h%d' % k
        try:
            self.app.route(routes.text_of(rule), method=m, callback=handler)
        except Exception as e:
            self.r.probe('registration refused')
            self.r.note('refused', type(e).__name__)
            return
        if same:
            self.r.probe('rule shares the pattern of another')
        self.r.probe('trailing slash rule', bool(rule) and rule[-1][0] == 'l' and rule[-1][1].endswith('/'))
        self.rules.append((k, rule))
        self.meth[k] = m

    def expected(self, path):
        return routes.select(self.rules, path, False), routes.select(self.rules, path, True)

    def describe(self, path):
        return 'rules %s, path %r' % (', '.join('%d: %r (%s)' % (k, routes.text_of(o), self.meth[k]) for k, o in self.rules), path)

    def get(self, path):
        r = self.r
        p = path.strip('/')
        a, b = self.expected(p)
        strict = a == b
        alts = a if strict else a + [g for g in b if g not in a]
        if not alts:
            r.probe('not found')
            self.ask(path, 'GET', None)
            return
        matching = [k for k, o in self.rules if routes.match(o, p) is not None]
        byk = dict(self.rules)
        if len(matching) > 1:
            r.probe('several rules match')
        # any rule of the selected pattern decides which methods exist
        for g in alts:
            for k, vals, ends in g:
                self.ask(path, self.meth[k], alts, can404=not strict and not (a and b))
        k, vals, ends = alts[0][0]
        r.states.append((shape(byk[k]), tuple(sorted(shape(byk[o]) for o in matching if o != k)), len(self.rules)))

    def ask(self, path, method, alts, can404=False):
        r = self.r
        what = None
        for how in ('resolve', 'wsgi'):
            del self.hits[:]
            if how == 'resolve':
                try:
                    ep, err = self.app.router.resolve(path, [method])
                except Exception as e:
                    r.fail('lookup-crash', '%s, %s: resolve raises %r' % (self.describe(path), method, e))
                if ep:
                    got = ep[0].handler, (), dict(ep[1])
                    got[0](**got[2])
                    code = 200
                else:
                    code = err[0]
            else:
                ex = wsgi.call(self.app, wsgi.make_environ(method, path))
                code = ex.code
                if ex.escaped or code not in (200, 404, 405):
                    # kwargs that do not fit the handler cannot happen: it takes anything
                    r.fail('lookup-crash', '%s, %s: %s\n%s' % (self.describe(path), method, ex.brief(), ex.errlog[-400:]))
            what = '%s, %s %s' % (self.describe(path), method, how)
            if alts is None:
                if code != 404:
                    r.fail('matched-nothing', '%s: no rule matches, answer %s %s' % (what, code, self.hits))
                continue
            if code == 404 and can404:
                continue
            ok = []
            for g in alts:
                e = [(k, v) for k, v, _ in g if self.meth[k] == method]
                if not e:
                    ok.append(405)
                    if code == 405:
                        break
                    continue
                k, vals = e[0]
                kw = {n: v for n, v in zip(routes.names(dict(self.rules)[k]), vals) if n is not None}
                ok.append((k, kw))
                if code == 200 and len(self.hits) == 1 and self.hits[0][0] == k and not self.hits[0][1] and same(self.hits[0][2], kw):
                    self.account(k, kw, path)
                    break
            else:
                if code == 404:
                    r.fail('not-found', '%s: 404, but %s' % (what, ok))
                if code == 405:
                    r.fail('wrong-route', '%s: 405, expected %s' % (what, ok))
                hit = self.hits[0]
                right = [x for x in ok if x != 405 and x[0] == hit[0]]
                r.fail('parameters' if right else 'wrong-route', '%s: handler %d called with %r, expected %s' % (what, hit[0], hit[2], right or ok))

    def account(self, k, kw, path):
        r = self.r
        rule = dict(self.rules)[k]
        if kw:
            r.nontrivial = True
        r.probe('int or float converted', any(type(v) in (int, float) for v in kw.values()))
        for s in rule:
            if s[0] == 'w':
                r.probe('path filter', s[2] == 'path')
                r.probe('rex with selector', s[2] == 'rex' and s[4] is not None)
                r.probe('rex without selector', s[2] == 'rex' and s[4] is None)
                r.probe('anonymous wildcard dropped', s[1] is None)
        r.probe('CR in path', '\r' in path)
        r.probe('empty segment bound', '' in kw.values())
        ms = [o for o, x in self.rules if routes.match(x, path.strip('/')) is not None and routes.tokens(x) != routes.tokens(rule)]
        if ms:
            r.nontrivial = True
        for o in ms:
            a, b = routes.tokens(rule), routes.tokens(dict(self.rules)[o])
            first = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
            r.probe('literal beats wildcard late', first > 1)

    def play(self, ops):
        seen = False
        for op in ops:
            self.r.simtime += 1
            if op[0] == 'add':
                if seen:
                    self.r.probe('request between registrations')
                self.add(op[1])
            else:
                seen = True
                self.get(op[1])


def same(a, b):
    return a.keys() == b.keys() and all(type(a[k]) is type(b[k]) and (a[k] == b[k] or a[k] != a[k] and b[k] != b[k]) for k in a)


def run(p, r):
    if not valid(p):
        raise PlanError('shape')
    ombott = world.fresh()
    ones = [One(ombott, r) for _ in p['apps']]
    if len(ones) == 1:
        ones[0].play(p['apps'][0])
    else:
        with sched.locks():
            s = sched.Sched([lambda o=o, ops=ops: o.play(ops) for o, ops in zip(ones, p['apps'])], sched.resolve(p['mode'], [4000, 4000]), p['gran']).run()
        for e in s.errors:
            if e:
                raise e
        r.simtime += s.total
        r.fault('preemption', len(s.switches))
        r.probe('two threads')
    r.note([o.meth for o in ones])
