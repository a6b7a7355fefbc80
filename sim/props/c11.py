"""C11  The router after any edit history equals a freshly built router."""
from .. import world, wsgi, routes
from ..stream import PlanError

PROP = 'C11'
RUNS = {'quick': 16000, 'thorough': 250000}
RULE = ('one run = a seeded history of 3-40 edits of one application over 2-8 related rules (shared prefixes, wildcard siblings, hook-only prefixes): registrations (accepted and refused: '
        'filter, method and name conflicts, duplicate parameters, bad syntax), overwriting, method removal, route removal by rule, pattern, name, object and prefix wildcard, hook installation and '
        'removal, re-adding what was removed, with requests in between; at every check point paths built from the rules are answered by the edited application and by one freshly built from '
        'the survivors (in the same or the opposite order), and both are compared with rule-by-rule matching; names, rules and the index of routes are compared too. Every registration must be accepted '
        'or refused as a fresh router would. Non-trivial: something was removed or refused before a path was answered by a handler, hook or 405.')
TIME_UNIT = 'edits and lookups'
STATES = 'distinct (kinds of the last four edits, number of surviving routes and hooks, hooks fired)'
REAL = ['ombott (whole package)']
STUB = ['WSGI server and clients']
PROBES = ['refused', 'refused: same by fresh router', 'filter conflict', 'method conflict', 'name conflict', 'duplicate parameter', 'removed by rule', 'removed by name', 'removed by object', 'removed by pattern', 'removed by prefix',
          'prefix removal took several', 'prefix removal inside a key', 'hook beneath removed prefix', 'removal of a missing route', 'hook removed', 'hook replaced', 'hook without a route', 'hook on a removed route', 're-added',
          're-added with another filter', 'two names of one route', 'name moved', 'hooks fired', 'two hooks fired', '404 hook fired', 'hook behind a selector', 'method removed', 'route without methods', 'fresh in the opposite order']
ASSUMPTIONS = ['what becomes of hooks beneath a removed prefix is not specified until they are installed or removed again',
               'rules with the same pattern (names aside) are one route', 'a hook between a wildcard and its selector may fire or not',
               'a wildcard that would have to bind the empty text at the very end of the path may match or not']
METHODS = ['GET', 'POST', 'PUT']
NAMES = ['n1', 'n2', 'n3']
BAD = ['/<a>/<a>', '/<a:int>/b/<a:int>', '/a/<x:re([)>', '/b/<x:nofilter>', '/<:int>/<a>/<a>', '/a/<x', '/a/<a>/b/<a>', '/a/<b>/<b:int>']


def cut(rng, rule):
    """a prefix of the rule"""
    rule = [list(s) for s in rule]
    if not rule:
        return rule
    n = rng.randint(0, len(rule))
    out = rule[:n]
    if n < len(rule) and rule[n][0] == 'l' and rng.random() < 0.6:
        t = rule[n][1]
        j = rng.randint(0, len(t))
        if t[:j]:
            out.append(['l', t[:j]])
    return out


def gen(rng, tier):
    rules, words = routes.universe(rng, rng.choice([2, 3, 3, 4, 5, 6, 8]), dup=0.02, trail=0.02)
    hooks = [r for r in ([cut(rng, rng.choice(rules)) for _ in range(rng.choice([0, 1, 2, 3, 4]))] + rules[:rng.randint(0, 2)]) if routes.usable(r)]
    n = rng.choice([3, 5, 8, 12, 12, 18, 26, 40])
    ops = []
    hot = [rng.random(), rng.random()]
    pn = rng.choice([0.2, 0.5])
    bad = rng.random() < 0.3
    simple = rng.random() < 0.5
    for i in range(n):
        r = rng.random()
        at = rng.randrange(len(rules))
        if i < 2 or r < 0.42:
            ms = ['GET'] if simple and rng.random() < 0.8 else [rng.choice(METHODS) for _ in range(rng.choice([1, 1, 2]))]
            ops.append(['add', at, ms, rng.choice(NAMES) if rng.random() < pn else None, rng.random() < 0.25])
        elif r < 0.46 and bad:
            ops.append(['bad', rng.randrange(len(BAD))])
        elif r < 0.66:
            k = rng.random()
            if k < 0.5:
                ops.append(['rm', 'rule', at])
            elif k < 0.64:
                ops.append(['rm', 'name', rng.choice(NAMES)])
            elif k < 0.72:
                ops.append(['rm', 'obj', at])
            elif k < 0.78:
                ops.append(['rm', 'pattern', at])
            else:
                ops.append(['rm', 'prefix', cut(rng, rules[at])])
        elif r < 0.70:
            ops.append(['rmm', at, rng.choice(METHODS)])
        elif r < 0.82 and hooks:
            ops.append(['hook', rng.randrange(len(hooks)), 1 if rng.random() < 0.25 else 0])
        elif r < 0.9 and hooks:
            ops.append(['unhook', rng.randrange(len(hooks))])
        elif r < 0.95:
            ops.append(['check', [routes.gen_path(rng, rules, words)], rng.randint(0, 1)])
    ops = [op for op in ops if op[0] != 'rm' or op[1] != 'prefix' or prefix_text(op[2]) is not None]
    pool = rules + hooks
    ops.append(['check', [routes.gen_path(rng, pool, words) for _ in range(rng.randint(3, 9))], rng.randint(0, 1)])
    return dict(rules=rules, hooks=hooks, ops=ops)


def prefix_text(segs):
    try:
        if dup(segs):
            return None
        return routes.text_of([list(s) for s in segs] + [['l', '*']])
    except PlanError:
        return None


def good_rule(r):
    return isinstance(r, list) and routes.usable(r)


def dup(rule):
    ns = [n for n in routes.names(rule) if n]
    return len(ns) != len(set(ns))


def valid(p):
    if not p['rules'] or not all(good_rule(r) for r in p['rules'] + p['hooks']) or not p['ops']:
        return False
    for op in p['ops']:
        k = op[0]
        if k == 'add':
            ok = 0 <= op[1] < len(p['rules']) and op[2] and all(m in METHODS for m in op[2]) and op[3] in (None, *NAMES) and isinstance(op[4], bool)
        elif k == 'bad':
            ok = 0 <= op[1] < len(BAD)
        elif k == 'rm':
            ok = (0 <= op[2] < len(p['rules'])) if op[1] in ('rule', 'obj', 'pattern') else op[2] in NAMES if op[1] == 'name' else op[1] == 'prefix' and isinstance(op[2], list) and prefix_text(op[2]) is not None
            if ok and op[1] == 'prefix':
                routes.check(op[2])
        elif k == 'rmm':
            ok = 0 <= op[1] < len(p['rules']) and op[2] in METHODS
        elif k in ('hook', 'unhook'):
            ok = 0 <= op[1] < len(p['hooks'])
        else:
            ok = k == 'check' and all(isinstance(x, str) for x in op[1])
        if not ok:
            return False
    return True


def hooks_of(router, text):
    try:
        got = router.get_hook(text)
    except Exception:
        return []
    return sorted(h is not None for h in got or [])


class Rt:
    def __init__(self, rule):
        self.rule = rule           # of the first registration
        self.methods = {}          # method -> (handler number, rule)


class Model:
    def __init__(self, ombott, p, r):
        self.ombott = ombott
        self.p = p
        self.r = r
        self.app = ombott.Ombott()
        self.routes = {}           # tokens -> Rt
        self.names = {}            # name -> tokens
        self.hooks = {}            # tokens -> [rule, simple, partial]
        self.maybe = {}            # tokens -> numbers of hooks beneath a removed prefix
        self.mrules = {}           # tokens -> their rule
        self.n = 0
        self.log = []
        self.funcs = {}
        self.kinds = []
        self.gone = set()          # tokens removed at some time
        self.gonef = {}
        self.edited = False        # something was removed or refused

    # ---- the parts of an application
    def handler(self, k):
        if k not in self.funcs:
            def h(**kw):
                self.log.append(('h', k, kw))
                return 'h%d' % k
            self.funcs[k] = h
        return self.funcs[k]

    def hook(self, k, partial):
        if k not in self.funcs:
            if partial:
                def h(prefix, values):
                    self.log.append(('p', k, prefix, list(values)))
                    return 'p%d' % k
            else:
                def h(prefix):
                    self.log.append(('s', k, prefix))
            self.funcs[k] = h
        return self.funcs[k]

    def fresh(self, order):
        app = self.ombott.Ombott()
        rts = list(self.routes.items())
        hks = list(self.hooks.items())
        if order:
            rts.reverse()
            hks.reverse()
            self.r.probe('fresh in the opposite order')

        def put_hooks():
            for t, (rule, s, q) in hks:
                text = routes.text_of(rule)
                if s is not None:
                    app.on_route(text, self.hook(s, False))
                if q is not None:
                    app.error(404, text)(self.hook(q, True))
        try:
            if order:
                put_hooks()
            for t, rt in rts:
                nms = [n for n, x in self.names.items() if x == t]
                if rt.methods:
                    for m, (k, rule) in rt.methods.items():
                        app.route(routes.text_of(rule), m, self.handler(k), name=nms.pop() if nms else None)
                else:
                    app.route(routes.text_of(rt.rule), 'X', self.handler(-1), name=nms.pop() if nms else None)
                    app.router[{routes.text_of(rt.rule)}].remove_method('X')
                for nm in nms:
                    app.route(routes.text_of(rt.rule), 'X', self.handler(-1), name=nm)
                    app.router[{routes.text_of(rt.rule)}].remove_method('X')
            if not order:
                put_hooks()
        except Exception as e:
            self.r.fail('survivors-refused', '%s: a fresh router refuses them: %r' % (self.describe(), e))
        return app

    def describe(self):
        return 'survivors %s; hooks %s%s' % (
            ', '.join('%r %s' % (routes.text_of(rt.rule), {m: k for m, (k, _) in rt.methods.items()}) for rt in self.routes.values()),
            ', '.join('%r [%s, %s]' % (routes.text_of(h[0]), h[1], h[2]) for h in self.hooks.values()),
            ' (%d uncertain)' % len(self.maybe) if self.maybe else '')

    # ---- edits
    def uncertain(self, rule):
        t = routes.tokens(rule)
        for m in self.maybe:
            for x, y in zip(t, m):
                if x != y:
                    break
                if x == ('W',):
                    return True
        return False

    def attempt(self, what, do, rule):
        """-> accepted by the edited application, after comparing with a fresh one"""
        r = self.r
        try:
            do(self.app)
            a = None
        except Exception as e:
            a = e
        if a is not None:
            r.probe('refused')
            self.edited = True
        if rule is not None and self.uncertain(rule):
            return a is None
        try:
            do(self.fresh(0))
            b = None
        except Exception as e:
            b = e
        if (a is None) != (b is None):
            r.fail('acceptance', '%s; %s: %s by the edited router, %s by a fresh one' % (self.describe(), what, 'accepted' if a is None else 'refused with %r' % a, 'accepted' if b is None else 'refused with %r' % b))
        if a is not None:
            r.probe('refused: same by fresh router')
        return a is None

    def add(self, i, ms, name, over):
        r = self.r
        rule = self.p['rules'][i]
        text = routes.text_of(rule)
        t = routes.tokens(rule)
        k = self.n
        self.n += 1
        ok = self.attempt('add %r %s name=%s overwrite=%s' % (text, ms, name, over), lambda app: app.route(text, list(ms), self.handler(k), name=name, overwrite=over), rule)
        r.probe('filter conflict', not ok and any(routes.conflicts(rule, o.rule) for o in self.routes.values()))
        r.probe('method conflict', not ok and t in self.routes and bool(set(ms) & set(self.routes[t].methods)))
        r.probe('name conflict', not ok and name in self.names and self.names[name] != t)
        r.probe('duplicate parameter', not ok and dup(rule))
        if not ok:
            return
        if dup(rule):
            raise PlanError('accepts duplicate parameters: not modelled')
        if t in self.gone and t not in self.routes:
            r.probe('re-added')
            r.probe('re-added with another filter', self.gonef.get(t) != routes.filters(rule))
        rt = self.routes.setdefault(t, Rt(rule))
        for m in ms:
            rt.methods[m] = (k, rule)
        if name:
            r.probe('name moved', name in self.names and self.names[name] != t)
            self.names[name] = t
            r.probe('two names of one route', sum(1 for x in self.names.values() if x == t) > 1)

    def bad(self, i):
        if self.attempt('add %r' % BAD[i], lambda app: app.route(BAD[i], 'PUT', self.handler(-2)), None):
            raise PlanError('accepts %r: not modelled' % BAD[i])

    def drop(self, ts):
        for t in ts:
            self.edited = True
            self.gone.add(t)
            self.gonef[t] = routes.filters(self.routes[t].rule)
            del self.routes[t]
            self.r.probe('hook on a removed route', t in self.hooks)
        self.names = {n: t for n, t in self.names.items() if t in self.routes}

    def rm(self, how, x):
        r = self.r
        app = self.app
        if how == 'name':
            t = self.names.get(x)
            if t is None:
                try:
                    app.remove_route(name=x)
                except Exception:
                    pass
                return
            app.remove_route(name=x)
            self.drop([t])
            r.probe('removed by name')
            return
        if how == 'prefix':
            pre = routes.tokens(x)
            app.remove_route(prefix_text(x))
            ts = [t for t in self.routes if t[:len(pre)] == pre]
            self.drop(ts)
            r.probe('removed by prefix', bool(ts))
            r.probe('prefix removal took several', len(ts) > 1)
            r.probe('prefix removal inside a key', any(len(t) > len(pre) and isinstance(t[len(pre)], str) and t[len(pre)] != '/' for t in ts))
            for t in [t for t in self.hooks if t[:len(pre)] == pre]:
                r.probe('hook beneath removed prefix')
                h = self.hooks.pop(t)
                self.maybe.setdefault(t, set()).update(z for z in h[1:] if z is not None)
                self.mrules[t] = h[0]
            return
        rule = self.p['rules'][x]
        text = routes.text_of(rule)
        t = routes.tokens(rule)
        if t in self.routes and routes.filters(rule) != routes.filters(self.routes[t].rule):
            return                   # whether that names the registered route is another question
        if t not in self.routes:
            r.probe('removal of a missing route')
            if how == 'rule' and not dup(rule):
                app.remove_route(text)
            return
        if how == 'rule':
            if dup(rule):
                return
            app.remove_route(text)
            r.probe('removed by rule')
        elif how == 'obj':
            app.router.remove(app.router[{routes.text_of(self.routes[t].rule)}])
            r.probe('removed by object')
        else:
            app.remove_route(route_pattern=app.router[{routes.text_of(self.routes[t].rule)}].pattern)
            r.probe('removed by pattern')
        self.drop([t])

    def rmm(self, i, m):
        rule = self.p['rules'][i]
        t = routes.tokens(rule)
        if t not in self.routes or m not in self.routes[t].methods:
            return
        self.app.router[{routes.text_of(self.routes[t].rule)}].remove_method(m)
        del self.routes[t].methods[m]
        self.edited = True
        self.r.probe('method removed')
        self.r.probe('route without methods', not self.routes[t].methods)

    def add_hook(self, i, partial):
        rule = self.p['hooks'][i]
        text = routes.text_of(rule)
        t = routes.tokens(rule)
        k = self.n
        self.n += 1

        def do(app):
            if partial:
                app.error(404, text)(self.hook(k, True))
            else:
                app.on_route(text, self.hook(k, False)) if k % 2 else app.on_route(text)(self.hook(k, False))
        if not self.attempt('%s hook %d on %r' % ('404' if partial else 'route', k, text), do, rule):
            return
        if dup(rule):
            raise PlanError('accepts duplicate parameters: not modelled')
        self.r.probe('hook without a route', t not in self.routes)
        h = self.hooks.setdefault(t, [rule, None, None])
        self.r.probe('hook replaced', h[2 if partial else 1] is not None)
        h[2 if partial else 1] = k

    def unhook(self, i):
        rule = self.p['hooks'][i]
        t = routes.tokens(rule)
        if dup(rule) or t in self.hooks and routes.filters(rule) != routes.filters(self.hooks[t][0]) or t in self.maybe and routes.filters(rule) != routes.filters(self.mrules[t]):
            return
        try:
            self.app.remove_route_hook(routes.text_of(rule))
        except Exception as e:
            if t in self.hooks:
                self.r.fail('hook-removal', '%s: removal of the hook of %r: %r' % (self.describe(), routes.text_of(rule), e))
        if self.hooks.pop(t, None):
            self.edited = True
            self.r.probe('hook removed')
        self.maybe.pop(t, None)

    # ---- answers
    def ask(self, app, path, m):
        del self.log[:]
        ex = wsgi.call(app, wsgi.make_environ(m, path))
        unsure = set().union(*self.maybe.values()) if self.maybe else ()
        log = [e for e in self.log if e[1] not in unsure]
        allow = ex.header('Allow')
        return dict(code=ex.code, allow=sorted(x.strip() for x in allow.split(',') if x.strip()) if allow is not None else None, log=log, escaped=repr(ex.escaped) if ex.escaped else None)

    def check(self, paths, order):
        r = self.r
        fresh = self.fresh(order)
        self.indexes(fresh)
        for path in paths:
            p = path.strip('/')
            pool = list(enumerate(rt.rule for rt in self.routes.values()))
            toks = list(self.routes)
            a, b = routes.select(pool, p, False), routes.select(pool, p, True)
            sure = a == b and len(a) < 2
            ra, rb = self.app.router.resolve(path), fresh.router.resolve(path)
            what = '%s; path %r' % (self.describe(), path)
            if (ra and ra.pattern) != (rb and rb.pattern) or ra and sorted(ra.methods) != sorted(rb.methods):
                r.fail('resolve', '%s: the edited router resolves to %r, a fresh one to %r' % (what, ra, rb))
            for m in METHODS + ['X']:
                x, y = self.ask(self.app, path, m), self.ask(fresh, path, m)
                if x != y and not (self.maybe and ra is None and all(z['code'] == 404 or len(z['log']) == 1 and z['log'][0][0] == 'p' or not z['log'] for z in (x, y))):
                    r.fail('differs', '%s %s: the edited router: %s, a fresh one: %s' % (what, m, x, y))
                self.judge(what, sure, p, a, toks, m, x)

    def judge(self, what, sure, p, alts, toks, m, x):
        r = self.r
        if not sure or self.maybe and not alts:
            return
        if x['escaped'] or x['code'] not in (200, 404, 405):
            r.fail('crash', '%s %s: %s' % (what, m, x))
        if not alts:
            if x['code'] != 404 and not (x['code'] == 200 and len(x['log']) == 1 and x['log'][0][0] == 'p'):
                r.fail('matched-nothing', '%s %s: no rule matches, answer %s' % (what, m, x))
            r.probe('404 hook fired', x['code'] == 200)
            return
        k, vals, ends = alts[0][0]
        t = toks[k]
        rt = self.routes[t]
        c = m
        if c not in rt.methods:
            if x['code'] != 405 or x['allow'] != sorted(rt.methods) or x['log']:
                r.fail('wrong-route', '%s %s: answer %s, expected 405 %s' % (what, m, x, sorted(rt.methods)))
            return
        h, rule = rt.methods[c]
        kw = {n: v for n, v in zip(routes.names(rule), vals) if n is not None}
        log = x['log']
        if x['code'] != 200 or not log or log[-1] != ('h', h, kw):
            r.fail('wrong-route', '%s %s: answer %s, expected handler %s' % (what, m, x, (h, kw)))
        exp = []
        for ht, (hr, s, q) in sorted(self.hooks.items(), key=lambda e: len(e[0])):
            if s is None or t[:len(ht)] != ht:
                continue
            pos, w = 0, 0
            for tok in ht:
                if tok == ('W',):
                    pos = ends[w]
                    w += 1
                elif isinstance(tok, str):
                    pos += 1
            between = len(t) > len(ht) and isinstance(t[len(ht)], tuple) and t[len(ht)][0] == 'S'
            exp.append((('s', s, '/' + p[:pos]), between))
            r.probe('hook behind a selector', any(isinstance(z, tuple) and z[0] == 'S' for z in ht))
        got = log[:-1]
        must = [e for e, btw in exp if not btw]
        if [e for e in got if e not in [z for z, btw in exp if btw]] != must or any(e not in [z for z, _ in exp] for e in got):
            r.fail('hooks', '%s %s: hooks called %s, expected %s' % (what, m, got, [e for e, _ in exp]))
        r.probe('hooks fired', bool(got))
        r.probe('two hooks fired', len(got) > 1)
        if self.edited:
            r.nontrivial = True
        r.states.append((tuple(self.kinds[-4:]), len(self.routes), len(self.hooks), len(got)))

    def indexes(self, fresh):
        r = self.r
        d = self.describe()
        x, y = self.app.router, fresh.router
        if set(x.routes) != set(y.routes):
            r.fail('index', '%s: routes of the edited router: %s, of a fresh one: %s' % (d, sorted(x.routes), sorted(y.routes)))
        for n in NAMES:
            a = x[n]
            t = self.names.get(n)
            if (a is None) != (t is None):
                r.fail('index', '%s: name %s is %r' % (d, n, a))
            if t is not None and a is not x[{routes.text_of(self.routes[t].rule)}]:
                r.fail('index', '%s: name %s is %r, by rule %r: %r' % (d, n, a, routes.text_of(self.routes[t].rule), x[{routes.text_of(self.routes[t].rule)}]))
        for rule in self.p['rules']:
            if dup(rule):
                continue
            text = routes.text_of(rule)
            a, b = x[{text}], y[{text}]
            if (a and a.pattern) != (b and b.pattern) or a and (sorted(a.methods) != sorted(b.methods) or x.routes.get(a.pattern) is not a):
                r.fail('index', '%s: rule %r is %r by the edited router (%r in routes), %r by a fresh one' % (d, text, a, x.routes.get(a.pattern) if a else None, b))

        for rule in self.p['hooks'] if hasattr(x, 'get_hook') else ():
            t = routes.tokens(rule)
            if dup(rule) or t in self.maybe:
                continue
            text = routes.text_of(rule)
            a, b = hooks_of(x, text), hooks_of(y, text)
            if a != b or t in self.hooks and not any(b):
                r.fail('index', '%s: hooks of %r (a 404 hook, a hook): %s in the edited router, %s in a fresh one' % (d, text, a, b))

    def play(self):
        for op in self.p['ops']:
            self.r.simtime += 1
            self.kinds.append(op[0] if op[0] != 'rm' else 'rm-' + op[1])
            k = op[0]
            if k == 'add':
                self.add(*op[1:])
            elif k == 'bad':
                self.bad(op[1])
            elif k == 'rm':
                try:
                    self.rm(*op[1:])
                except Exception as e:
                    self.r.fail('removal', '%s: removal by %s of %s: %r' % (self.describe(), op[1], op[2] if op[1] in ('name', 'prefix') else routes.text_of(self.p['rules'][op[2]]), e))
            elif k == 'rmm':
                self.rmm(*op[1:])
            elif k == 'hook':
                self.add_hook(*op[1:])
            elif k == 'unhook':
                self.unhook(op[1])
            else:
                self.check(op[1], op[2])


def run(p, r):
    if not valid(p):
        raise PlanError('shape')
    m = Model(world.fresh(), p, r)
    m.play()
    r.note([(sorted(x.methods), routes.text_of(x.rule)) for x in m.routes.values()])
