"""C02  Method dispatch: verb, ANY and HEAD fallbacks, 405 with exact Allow."""
import threading

from .. import world, wsgi, routes, sched
from ..stream import PlanError

PROP = 'C02'
RUNS = {'quick': 14000, 'thorough': 200000}
RULE = ('one run = 1-6 related rules (rules sharing one pattern among them) whose method tables are built, overwritten, refused and cut down by a seeded history through every '
        'registration interface (route(), verb shortcuts, add_route, router.add, Route.set_method/add_method/remove_method, RouteMethod.remove; any spelling), with requests and '
        'resolve() calls of all methods in between; answers are compared with a model of the tables over rule-by-rule path matching. A share of the runs sends requests of two '
        'threads to one application under a seeded schedule. Non-trivial: a fallback or a 405 was decided.')
TIME_UNIT = 'table edits and lookups (scheduler steps in two-thread runs)'
STATES = 'distinct (methods registered on the selected route, method asked, answer)'
REAL = ['ombott (whole package)']
STUB = ['WSGI server and clients', 'thread scheduler in two-thread runs']
PROBES = ['exact method', 'HEAD by GET', 'HEAD by ANY', 'other by ANY', '405', '405 with one method', '405 of a route without methods', '404', 'registration refused', 'overwritten', 'method removed',
          'lower-case request', 'lower-case registration', 'two rules of one pattern', 'several rules match', 'other matching rule has the method', 'method ANY asked', 'error handler for 405',
          'two threads', 'any rule refused partly']
ASSUMPTIONS = ['a refused registration registers nothing', 'a route without methods is still a route: 405 with an empty or missing Allow',
               'a wildcard that would have to bind the empty text at the very end of the path may match or not']
VERBS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'ANY', 'TRACE', 'CONNECT', 'MOVE', 'M-SEARCH', 'X', 'GETS', 'AN']
SHORT = ['get', 'head', 'post', 'put', 'delete', 'patch', 'options']
HOWS = ['route', 'short', 'add_route', 'add', 'set_method', 'add_method']


def spell(rng, m):
    k = rng.randrange(6)
    return m.lower() if k == 0 else m.title() if k == 1 else m.swapcase()[:1] + m[1:] if k == 2 else m


def some(rng):
    return rng.choice(['GET', 'GET', 'HEAD', 'POST', 'PUT', 'ANY', 'ANY', rng.choice(VERBS)])


def gen_req(rng, rules, words, last, added=()):
    k = rng.random()
    path = (last if last is not None and k < 0.4 else routes.gen_path(rng, [rules[rng.choice(added)]], words) if added and k < 0.85
            else routes.gen_path(rng, rules, words))
    return ['req', path, spell(rng, some(rng)), rng.choice(['wsgi', 'wsgi', 'resolve'])]


def gen(rng, tier):
    rules, words = routes.universe(rng, rng.choice([1, 1, 2, 2, 3, 4, 6]), trail=0.0)
    ops = []
    n = rng.choice([2, 4, 6, 9, 14, 20])
    last = None
    added = []
    for i in range(n + len(rules)):
        r = rng.random()
        if i < len(rules) and r < 0.85 or r < 0.35:
            how = rng.choice(HOWS)
            ms = [spell(rng, some(rng)) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 0 if rng.random() < 0.3 else 1]))]
            if how == 'short':
                ms = [rng.choice(SHORT)]
            at = i if i < len(rules) else rng.randrange(len(rules))
            if i >= len(rules) and added and rng.random() < 0.5:
                at = rng.choice(added)
            added.append(at)
            ops.append(['add', at, how, ms, rng.random() < 0.35, rng.choice(['list', 'tuple', 'str', 'set'])])
        elif r < 0.5 and added:
            ops.append(['rm', rng.choice(added), [spell(rng, some(rng)) for _ in range(rng.choice([1, 1, 2]))], rng.choice(['route', 'method'])])
        else:
            op = gen_req(rng, rules, words, last, added)
            last = op[1]
            ops.append(op)
    for _ in range(rng.randint(2, 6)):
        op = gen_req(rng, rules, words, last, added)
        last = op[1]
        ops.append(op)
    p = dict(rules=rules, ops=ops, tail=[], mode=None, gran='line', page=rng.random() < 0.15, debug=rng.random() < 0.1)
    if rng.random() < 0.05:
        p['tail'] = [[gen_req(rng, rules, words, last, added) for _ in range(rng.randint(1, 3))] for _ in range(2)]
        p['mode'] = sched.gen_mode(rng, 2)
        p['gran'] = 'ins' if rng.random() < 0.3 else 'line'
    return p


def valid_req(op):
    return op[0] == 'req' and isinstance(op[1], str) and isinstance(op[2], str) and op[2] and op[3] in ('wsgi', 'resolve')


def valid(p):
    if not p['rules'] or p['gran'] not in ('line', 'ins') or bool(p['tail']) != bool(p['mode']) or len(p['tail']) not in (0, 2):
        return False
    for r in p['rules']:
        if not routes.usable(r):
            return False
        ns = [n for n in routes.names(r) if n]
        if len(ns) != len(set(ns)):
            return False
    for op in p['ops']:
        if op[0] in ('add', 'rm'):
            if not 0 <= op[1] < len(p['rules']):
                return False
            ms = op[3] if op[0] == 'add' else op[2]
            if not all(isinstance(m, str) and m and m.upper() in VERBS for m in ms):
                return False
            if op[0] == 'add' and (op[2] not in HOWS or op[2] == 'short' and (len(ms) != 1 or ms[0] not in SHORT) or op[5] not in ('list', 'tuple', 'str', 'set')):
                return False
        elif not valid_req(op):
            return False
    return all(valid_req(op) for ops in p['tail'] for op in ops)


class Model:
    def __init__(self, ombott, p, r):
        self.app = ombott.Ombott()
        self.ombott = ombott
        self.p = p
        self.r = r
        self.tab = {}           # tokens -> {method: (handler number, rule)}
        self.first = {}         # tokens -> representative rule
        self.routes = {}        # tokens -> Route
        self.n = 0
        self._hits = {}         # thread -> handler calls
        if p['page']:
            @self.app.error(405)
            def page(err):
                return 'page'
        if p['debug']:
            self.app.setup(dict(debug=True))

    def describe(self, path):
        return 'tables %s, path %r' % ('; '.join('%r: %s' % (routes.text_of(self.first[t]), {m: k for m, (k, _) in sorted(x.items())}) for t, x in self.tab.items()), path)

    def add(self, i, how, ms, over, form):
        r = self.r
        rule = self.p['rules'][i]
        text = routes.text_of(rule)
        t = routes.tokens(rule)
        k = self.n
        self.n += 1

        def handler(**kw):
            self.hits().append((k, kw))
            return 'h%d' % k
        arg = ms[0] if form == 'str' and len(ms) == 1 else tuple(ms) if form == 'tuple' else set(ms) if form == 'set' else list(ms)
        app = self.app
        route = self.routes.get(t)
        try:
            if how == 'short':
                getattr(app, ms[0])(text, handler, overwrite=over)
            elif how == 'route':
                app.route(text, method=arg, callback=handler, overwrite=over)
            elif how == 'add_route':
                app.add_route(text, arg, handler, overwrite=over)
            elif how == 'add' or route is None:
                route = app.router.add(text, arg, handler, overwrite=over)
            elif how == 'set_method':
                route.set_method(arg, handler)
                rule = self.first[t]
            else:
                route.add_method(arg, handler)
                rule = self.first[t]
        except Exception as e:
            r.probe('registration refused')
            if t in self.tab and 1 < len(ms) and len({m.upper() for m in ms} & set(self.tab[t])) < len({m.upper() for m in ms}):
                r.probe('any rule refused partly')
            r.note('refused', type(e).__name__)
            return
        if t in self.first and routes.names(self.first[t]) != routes.names(rule):
            r.probe('two rules of one pattern')
        self.first.setdefault(t, rule)
        tab = self.tab.setdefault(t, {})
        for m in ms:
            u = m.upper()
            r.probe('lower-case registration', m != u)
            r.probe('overwritten', u in tab)
            tab[u] = (k, rule)
        if t not in self.routes:
            self.routes[t] = app.router[{text}]

    def remove(self, i, ms, how):
        t = routes.tokens(self.p['rules'][i])
        route = self.routes.get(t)
        if route is None:
            return
        tab = self.tab[t]
        if how == 'route':
            route.remove_method(ms[0] if len(ms) == 1 else ms)
            for m in ms:
                self.r.probe('method removed', tab.pop(m.upper(), None) is not None)
        else:
            m = ms[0].upper()
            if m in tab:
                route[m].remove()
                del tab[m]
                self.r.probe('method removed')

    def hits(self):
        return self._hits.setdefault(threading.get_ident(), [])

    def request(self, path, spelled, how):
        r = self.r
        m = spelled.upper()
        r.probe('lower-case request', spelled != m)
        r.probe('method ANY asked', m == 'ANY')
        cands = [m] + (['GET'] if m == 'HEAD' else []) + ['ANY']
        p = path.strip('/')
        pool = list(enumerate(self.first.values()))
        toks = list(self.first)
        a, b = routes.select(pool, p, False), routes.select(pool, p, True)
        alts = a if a == b else a + [g for g in b if g not in a]
        ok = []
        if not alts or not a or not b:
            ok.append((404, None, None))
        for g in alts:
            for k, vals, ends in g:
                tab = self.tab[toks[k]]
                c = next((c for c in cands if c in tab), None)
                if c is None:
                    ok.append((405, sorted(tab), None))
                else:
                    h, rule = tab[c]
                    ok.append((200, h, {n: v for n, v in zip(routes.names(rule), vals) if n is not None}))
                if len(alts) == 1 and a == b:
                    self.count(p, toks[k], tab, m, c)
        if not alts:
            r.probe('404')
        hits = self.hits()
        del hits[:]
        what = '%s %s by %s' % (self.describe(path), spelled, how)
        if how == 'resolve':
            try:
                ep, err = self.app.router.resolve(path, [spelled] + cands[1:])
            except Exception as e:
                r.fail('lookup-crash', '%s: %r' % (what, e))
            if ep:
                ep[0].handler(**ep[1])
                code, allow = 200, None
            else:
                code, allow = err[0], err[2] if err[0] == 405 else None
        else:
            ex = wsgi.call(self.app, wsgi.make_environ(spelled, path))
            code, allow = ex.code, ex.header('Allow')
            if ex.escaped or code not in (200, 404, 405):
                r.fail('lookup-crash', '%s: %s\n%s' % (what, ex.brief(), ex.errlog[-400:]))
            if len(ex.header_all('Allow')) > 1 or code != 405 and allow is not None:
                r.fail('allow', '%s: Allow headers %s with status %s' % (what, ex.header_all('Allow'), code))
            if self.p['page'] and code == 405:
                r.probe('error handler for 405')
        kind = None
        for c, x, kw in ok:
            if c != code:
                continue
            if c == 404:
                return
            if c == 405:
                got = sorted(s.strip() for s in (allow or '').split(',')) if (allow or '').strip() else []
                if got == x:
                    return
                kind = 'allow', '%s: Allow is %r, registered are %s' % (what, allow, x)
            elif len(hits) == 1 and hits[0] == (x, kw):
                return
            else:
                kind = 'wrong-handler', '%s: called %s, expected %s' % (what, hits, (x, kw))
        if not kind:
            kind = 'status', '%s: answer %s (called %s), expected %s' % (what, code, hits, ok)
        r.fail(*kind)

    def count(self, p, t, tab, m, c):
        r = self.r
        r.states.append((tuple(sorted(tab)), m, c))
        if c is None:
            r.probe('405')
            r.probe('405 with one method', len(tab) == 1)
            r.probe('405 of a route without methods', not tab)
            r.nontrivial = True
        elif c == m:
            r.probe('exact method')
        else:
            r.probe('HEAD by GET', c == 'GET')
            r.probe('HEAD by ANY', c == 'ANY' and m == 'HEAD')
            r.probe('other by ANY', c == 'ANY' and m != 'HEAD')
            r.nontrivial = True
        others = [o for o in self.first if o != t and routes.match(self.first[o], p) is not None]
        r.probe('several rules match', bool(others))
        r.probe('other matching rule has the method', c is None and any(m in self.tab[o] for o in others))

    def play(self, ops):
        for op in ops:
            self.r.simtime += 1
            if op[0] == 'add':
                self.add(*op[1:])
            elif op[0] == 'rm':
                self.remove(*op[1:])
            else:
                self.request(*op[1:])


def run(p, r):
    if not valid(p):
        raise PlanError('shape')
    ombott = world.fresh()
    m = Model(ombott, p, r)
    m.play(p['ops'])
    if p['tail']:
        with sched.locks():
            s = sched.Sched([lambda ops=ops: m.play(ops) for ops in p['tail']], sched.resolve(p['mode'], [3000, 3000]), p['gran']).run()
        for e in s.errors:
            if e:
                raise e
        r.simtime += s.total
        r.fault('preemption', len(s.switches))
        r.probe('two threads')
    r.note([(sorted(x), routes.text_of(m.first[t])) for t, x in m.tab.items()])
