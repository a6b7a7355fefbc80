"""Rules as data, their texts in every syntax flavour, and a plain rule-by-rule matcher.

A rule is a list of segments after the leading '/':
    ['l', text]                                literal
    ['w', name or None, filter, args, sel, style]   wildcard; filter None/'int'/'float'/'re'/'rex'/'path'

The matcher knows nothing of trees: every rule is matched against the whole path on its own,
then the candidates are compared.
"""
import re

from . import draw
from .stream import PlanError

NAMES = ['a', 'b', 'x', 'id', 'name', 'a1', '_p', 'self_', 'path', 'rule', 'anon', 'anon_1']
RE_POOL = ['[a-z]+', '[^/]+', 'a|ab', '\\d+', '(a)(b)?', 'x*', '.', '[0-9a]{1,2}', '(?i)ab', '\u00e9+', '[^/]*b', '.*', '.+?(?=b)', '\\w+', 'ab?', '(?:a/)?b', '\\d{2}', '[^a]', 'a$', '\\r', '[\\r\\n]+', '\\.', '-', '\\D+', '[A-Z]+', '\\W', 'AB?', '[a-z ]+', '[0-9]+']
REX_POOL = ['(a)|(b)', '(ab)|(a)|(\\d+)', '((a)|(b))c?', 'a+', '(x)?y', '(1)|(2)', '(a)|b', '(\\d)|(\\w)', '(A)|(B)', '(\\D)|(\\W)', '(b)|(a)', '(a)(b)?', '(a(b)?)c?']
INT = r'-?\d+'
FLOAT = r'-?\d+(\.\d+)?'


def regex(filt, args, tail):
    if filt == 'int':
        return INT
    if filt == 'float':
        return FLOAT
    if filt == 'path':
        return '.+(?=%s)' % re.escape(tail) if tail else '.+$'
    return args


def normal(rule):
    """merge literals, drop empty ones"""
    out = []
    for s in rule:
        if s[0] == 'l':
            if not s[1]:
                continue
            if out and out[-1][0] == 'l':
                out[-1] = ['l', out[-1][1] + s[1]]
                continue
        out.append(list(s))
    return out


def check(rule):
    for i, s in enumerate(rule):
        if s[0] == 'l':
            if not isinstance(s[1], str) or any(c in s[1] for c in ':<{*'):
                raise PlanError('literal')
        elif s[0] == 'w':
            _, name, filt, args, sel, style = s
            if name is not None and not re.fullmatch(r'[a-zA-Z_][a-zA-Z0-9_]*', name):
                raise PlanError('name')
            if filt not in (None, 'int', 'float', 're', 'rex', 'path'):
                raise PlanError('filter')
            if (filt in ('re', 'rex')) != bool(args):
                raise PlanError('args')
            if args:
                try:
                    re.compile(args)
                except re.error:
                    raise PlanError('regex')
                d = 0
                j = 0
                while j < len(args):       # balanced parentheses, as the syntax asks for
                    if args[j] == '\\':
                        j += 1
                    elif args[j] == '(':
                        d += 1
                    elif args[j] == ')':
                        d -= 1
                        if d < 0:
                            raise PlanError('parens')
                    j += 1
                if d:
                    raise PlanError('parens')
            if sel is not None and (filt != 'rex' or not re.fullmatch('[0-9]+', sel)):
                raise PlanError('selector')
        else:
            raise PlanError('segment')
    t = text_of(rule)
    if rule and rule[0][0] == 'l' and rule[0][1][:1] == '/':
        raise PlanError('double slash')
    return t


def wild(rng, name=None, plain=0.45):
    """a wildcard segment"""
    name = rng.choice(NAMES) if name is None and rng.random() < 0.85 else name
    style = rng.randrange(64)
    if rng.random() < plain:
        return ['w', name, None, None, None, style]
    f = rng.choice(['int', 'int', 'float', 're', 're', 're', 'rex', 'rex', 'path', 'path'])
    args = rng.choice(RE_POOL) if f == 're' else rng.choice(REX_POOL) if f == 'rex' else None
    sel = None
    if f == 'rex' and rng.random() < 0.5:
        sel = rng.choice(['1', '1', '2', '2', '3', '12', '0'])
    return ['w', name, f, args, sel, style]


def text_of(rule):
    """the rule text; the style number of each wildcard picks the flavour"""
    out = ['/']
    rule = normal(rule)
    for i, s in enumerate(rule):
        if s[0] == 'l':
            out.append(s[1])
            continue
        _, name, filt, args, sel, style = s
        nxt = rule[i + 1] if i + 1 < len(rule) else None
        o, c = ('<', '>') if style % 2 == 0 else ('{', '}')
        k = style // 2
        colon_ok = nxt is None or nxt[0] == 'l' and nxt[1][0] == '/'
        if filt is None:
            if name is None:
                if not colon_ok:
                    raise PlanError('an anonymous plain wildcard needs a slash behind it')
                out.append(':')
            elif colon_ok and k % 2 == 0:
                out.append(':' + name)
            else:
                out.append(o + name + c)
            continue
        if sel is not None:
            a = '(%s)[%s]' % (args, sel)
        elif args is not None:
            a = ':' + args if k % 3 == 0 and c not in args else '(%s)' % args
        else:
            a = ['', '()', ''][k % 3]
        if name is None:
            if a.startswith('('):
                out.append(o + (':' if k % 2 else '') + filt + a + c)
            else:
                out.append(o + ':' + filt + a + c)
        else:
            out.append(o + name + (':' if k % 2 else '.') + filt + a + c)
    return ''.join(out)


def tail_of(rule, i):
    return rule[i + 1][1] if i + 1 < len(rule) and rule[i + 1][0] == 'l' else ''


def tokens(rule):
    """what the rule is made of, names aside: characters, wildcards, selectors"""
    rule = normal(rule)
    out = []
    for i, s in enumerate(rule):
        if s[0] == 'l':
            out.extend(s[1])
        else:
            out.append(('W',))
            if s[4] is not None:
                out.append(('S', s[4]))
    return tuple(out)


def filters(rule):
    rule = normal(rule)
    return tuple((s[2], tail_of(rule, i) if s[2] == 'path' else s[3]) for i, s in enumerate(rule) if s[0] == 'w')


def names(rule):
    return [s[1] for s in normal(rule) if s[0] == 'w']


def conflicts(a, b):
    """two rules whose wildcards of one position have different filters"""
    fa, fb = filters(a), filters(b)
    n = 0
    for x, y in zip(tokens(a), tokens(b)):
        if x != y:
            return False
        if x == ('W',):
            if fa[n] != fb[n]:
                return True
            n += 1
    return False


class BadValue(Exception):
    """a filter's pattern accepts a text its conversion refuses"""


def match(rule, path, empty_end=False):
    """values and end position of every wildcard, or None. Wildcards take what they take: no retries."""
    rule = normal(rule)
    i = 0
    vals, ends = [], []
    for n, s in enumerate(rule):
        if s[0] == 'l':
            if not path.startswith(s[1], i):
                return None
            i += len(s[1])
            continue
        _, name, filt, args, sel, style = s
        if i >= len(path) and not empty_end:
            return None
        if filt is None:
            j = path.find('/', i)
            j = len(path) if j < 0 else j
            v = path[i:j]
        else:
            m = re.match(regex(filt, args, tail_of(rule, n)), path[i:])
            if not m:
                return None
            v, j = m.group(), i + m.end()
            if filt == 'rex':
                g = next((k for k, x in enumerate(m.groups()) if x is not None), None)
                if g is not None:
                    v = m.groups()[g]
                if sel is not None and (g is None or str(g + 1) != sel):
                    return None
            elif filt in ('int', 'float'):
                try:
                    v = int(v) if filt == 'int' else float(v)
                except ValueError:
                    return None
        vals.append(v)
        i = j
        ends.append(i)
    if i != len(path):
        return None
    return vals, ends


def prefer(a, b):
    """-1: rule a wins, 1: rule b wins, 0: the statement does not decide (tokens)"""
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, str) and y == ('W',):
                return -1
            if isinstance(y, str) and x == ('W',):
                return 1
            return 0
    return 0


def select(rules, path, empty_end=False):
    """indexes of the rules whose pattern is selected: a list of alternatives, each a list of
    (index, values, ends) sharing one pattern. Empty: no rule matches."""
    groups = {}
    for k, rule in rules:
        m = match(rule, path, empty_end)
        if m is not None:
            groups.setdefault(tokens(rule), []).append((k, m[0], m[1]))
    out = []
    for t in groups:
        if not any(prefer(o, t) < 0 for o in groups if o != t):
            out.append((t, groups[t]))
    return [g for t, g in sorted(out, key=lambda x: repr(x[0]))]


# ------------------------------------------------------------------ generators
WORDS = ['a', 'b', 'ab', 'abc', 'foo', 'fo', 'bar', 'ba', 'x', '1', '12', 'a1', '\u00e9', '-', '.', 'edit', 'foobar']


def gen_rule(rng, words, depth=4, trail=0.06):
    segs = []
    n = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, depth])
    for k in range(n):
        if k:
            segs.append(['l', '/'])
        r = rng.random()
        if r < 0.5:
            segs.append(['l', rng.choice(words)])
        elif r < 0.82:
            segs.append(wild(rng))
        else:
            parts = rng.randint(2, 3)
            prev = None
            for _ in range(parts):
                if rng.random() < 0.5 or prev == 'w' and rng.random() < 0.6:
                    segs.append(['l', rng.choice(words)])
                    prev = 'l'
                else:
                    segs.append(wild(rng, plain=0.3))
                    prev = 'w'
    if n and rng.random() < trail:
        segs.append(['l', '/'])
    return normal(segs)


def unique_names(rule):
    seen = set()
    for s in rule:
        if s[0] == 'w' and s[1] is not None:
            while s[1] in seen:
                s[1] += '2'
            seen.add(s[1])
    return rule


def usable(rule):
    """text and parse of the rule as the syntax has it"""
    try:
        check(rule)
    except PlanError:
        return False
    rule = normal(rule)
    for i, s in enumerate(rule):
        if s[0] == 'w' and s[2] is None and s[1] is None:
            nxt = rule[i + 1] if i + 1 < len(rule) else None
            if nxt is not None:
                return False       # ':' alone is accepted at the end of a rule only
    return True


def twin(rng, filt, args):
    k = rng.randrange(8)
    if k < 3:
        return filt, args.swapcase()
    if k == 7:
        return ('re', 'x' + args) if filt == 'rex' else (filt, '(%s)' % args)
    if k == 3:
        return filt, args + ' '
    if k == 4:
        return ('rex' if filt == 're' else 're'), args
    if k == 5:
        i = rng.randrange(len(args))
        return filt, args[:i] + args[i].swapcase() + args[i + 1:]
    return filt, args + '?' if rng.random() < 0.5 else args[:-1] or args


def sample(rng, pattern):
    """a text the pattern (probably) accepts"""
    c = re._constants

    def cat(name):
        neg = 'NOT' in name
        if 'DIGIT' in name:
            return 'aA- ' if neg else '0192\u0663'
        if 'SPACE' in name:
            return 'a1-' if neg else ' \t\n'
        return '-. !' if neg else 'abAB1_\u00e9'

    def one(items):
        out = []
        for op, av in items:
            if op is c.LITERAL:
                out.append(chr(av))
            elif op is c.NOT_LITERAL:
                out.append(rng.choice([x for x in 'abAB1/-' if ord(x) != av]))
            elif op is c.ANY:
                out.append(rng.choice('ab1/-'))
            elif op is c.IN:
                neg = av[0][0] is c.NEGATE
                pool, no = [], set()
                for o, v in av[1 if neg else 0:]:
                    if o is c.LITERAL:
                        pool.append(chr(v))
                    elif o is c.RANGE:
                        pool += [chr(v[0]), chr(v[1]), chr(rng.randint(v[0], v[1]))]
                        no |= set(range(v[0], v[1] + 1))
                    elif o is c.CATEGORY:
                        pool += list(cat(str(v)))
                no |= set(map(ord, pool))
                if neg:
                    pool = [x for x in 'abAB1-.\u00e9' if ord(x) not in no] or ['~']
                out.append(rng.choice(pool))
            elif op is c.BRANCH:
                out.append(one(rng.choice(av[1])))
            elif op is c.SUBPATTERN:
                out.append(one(av[3]))
            elif op in (c.MAX_REPEAT, c.MIN_REPEAT):
                for _ in range(min(rng.randint(av[0], min(av[1], av[0] + 2)), 4)):
                    out.append(one(av[2]))
        return ''.join(out)
    return one(re._parser.parse(pattern))


def vary(rng, rule, words):
    """a rule related to this one: shared prefix, other names, one segment changed, cut, extended"""
    rule = [list(s) for s in rule]
    k = rng.randrange(10)
    w = [i for i, s in enumerate(rule) if s[0] == 'w']
    if k == 0 and w:
        for i in w:
            rule[i][1] = rng.choice(NAMES) if rng.random() < 0.85 else None
            rule[i][5] = rng.randrange(64)
    elif k == 1 and rule:
        i = rng.randrange(len(rule))
        rule[i] = ['l', rng.choice(words)] if rule[i][0] == 'w' or rng.random() < 0.3 else wild(rng)
    elif k == 2 and rule:
        del rule[rng.randrange(len(rule)):]
    elif k == 3:
        rule += [['l', '/' if rule else ''], rng.choice([['l', rng.choice(words)], wild(rng)])]
    elif k == 4 and rule:
        i = rng.randrange(len(rule))
        if rule[i][0] == 'l':
            t = rule[i][1]
            j = rng.randrange(len(t) + 1)
            rule[i][1] = t[:j] + rng.choice(['', rng.choice(words), '/']) + t[j + rng.choice([0, 0, 1]):]
        else:
            rule[i][4] = rng.choice([None, '1', '2']) if rule[i][2] == 'rex' else None
    elif k == 6 and any(s[3] for s in rule if s[0] == 'w'):
        # a filter that looks almost the same, somewhere else
        for s in rule:
            if s[0] == 'w' and s[3]:
                s[2], s[3] = twin(rng, s[2], s[3])
                if s[2] == 're':
                    s[4] = None
        if rng.random() < 0.8:
            rule = [['l', rng.choice(words)], ['l', rng.choice(['/', ''])]] + rule
    elif k in (8, 9) and any(s[0] == 'l' and s[1] != '/' for s in rule):
        # a wildcard instead of a literal: both match
        i = rng.choice([i for i, s in enumerate(rule) if s[0] == 'l' and s[1] != '/'])
        t = rule[i][1]
        lead, trail = ('/' if t[0] == '/' else ''), ('/' if len(t) > 1 and t[-1] == '/' else '')
        core = t[len(lead):len(t) - len(trail)]
        if '/' in core and rng.random() < 0.7:
            cut = core.rfind('/')
            lead, core = lead + core[:cut + 1], core[cut + 1:]
        rule[i:i + 1] = [['l', lead], wild(rng, plain=0.7), ['l', trail]]
    elif k == 5 and w:
        # literal instead of a wildcard and the rest as it is: forces going back
        i = rng.choice(w)
        rule[i] = ['l', rng.choice(words)]
        if rng.random() < 0.6:
            del rule[i + 2:]
            rule += [['l', '/'], ['l', rng.choice(words)]]
    else:
        cut = rng.randint(0, len(rule))
        rule = rule[:cut] + gen_rule(rng, words, 2)
    while rule and rule[0][0] == 'l' and rule[0][1].startswith('/'):
        rule[0][1] = rule[0][1][1:]
        if not rule[0][1]:
            del rule[0]
    return normal(rule)


class Ladder(list):
    """the words of a universe of deep rules, with the path that leads to a choice at every step"""
    main = ()

    def __init__(self, *a):
        list.__init__(self, *a)
        self.ends = []


def ladder(rng, n):
    """deep rules over one sequence of words, each step literal or wildcard: a lookup has many places to go back to"""
    d = rng.choice([rng.randint(4, 10), rng.randint(4, 10), rng.randint(11, 60)])
    pool = [rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 3]))]
    words = Ladder(pool)
    words.main = [rng.choice(pool) for _ in range(d)]
    out = []
    tries = 0
    while len(out) < n and tries < 200:
        tries += 1
        if tries <= 2 or rng.random() < 0.6:
            # one wildcard early, or literal up to some depth, then a dead end
            at = rng.randrange(d)
            p = [0.0] * d
            p[at if tries > 1 else 0] = 1.0
        else:
            p = [rng.choice([0.0, 0.2, 0.5, 0.9])] * d
        depth = d if rng.random() < 0.6 else rng.randint(2, d)
        rule = []
        for i in range(depth):
            if i:
                rule.append(['l', '/'])
            w = words.main[i]
            if rng.random() < p[i]:
                if rng.random() < 0.2 and len(w) > 1:
                    rule.append(['l', w[:1]])
                rule.append(wild(rng, plain=0.85))
            else:
                rule.append(['l', w])
        if rng.random() < 0.3:
            rule += [['l', '/'], rng.choice([['l', rng.choice(WORDS)], wild(rng, plain=0.8)])]
        rule = unique_names(normal(rule))
        if usable(rule):
            out.append(rule)
    return out, words


def comb(rng):
    """one long literal path with a wildcard beside every step of it, told apart only by what comes last"""
    d = rng.choice([rng.randint(4, 12), rng.randint(12, 40), rng.randint(33, 70)])
    words = Ladder(rng.choice(WORDS) for _ in range(rng.choice([1, 2])))
    words.main = [rng.choice(words) for _ in range(d)]
    steps = list(range(d))
    if rng.random() < 0.5:
        steps = sorted(rng.sample(steps, rng.randint(max(1, d // 2), d)))
    if rng.random() < 0.5:
        rng.shuffle(steps)
    out = []
    for i in steps:
        rule = []
        for j, w in enumerate(words.main):
            rule += [['l', w] if j != i else ['w', 'x', None, None, None, 0], ['l', '/']]
        words.ends.append('e%d' % i)
        out.append(normal(rule + [['l', 'e%d' % i]]))
    return out, words


def universe(rng, n, dup=0.0, trail=0.06, combs=0.0):
    """n rules that share a lot"""
    if combs and rng.random() < combs:
        return comb(rng)
    if n >= 2 and rng.random() < 0.08:
        return ladder(rng, max(n, rng.randint(3, 9)))
    words = [rng.choice(WORDS) for _ in range(rng.choice([2, 3, 4, 6]))]
    out = []
    tries = 0
    while len(out) < n and tries < 200:
        tries += 1
        r = vary(rng, rng.choice(out), words) if out and rng.random() < 0.7 else gen_rule(rng, words, trail=trail)
        if rng.random() >= dup:
            unique_names(r)
        if len(r) <= 9 and usable(r):
            out.append(r)
    return out, words


def value_for(rng, s, tail, words=()):
    """a text for the wildcard: accepted, nearly accepted, or not at all"""
    f, a = s[2], s[3]
    odd = ['', '0', '1', '12', '-1', '007', '1.5', '-', '\u0663', 'a', 'ab', 'b', 'x', 'a/b', '\r', 'a\rb', '\n', '\u00e9', 'xx', '1a', ' ', '%2F', '.', '..', 'y', 'xy', 'ac', '2', '[1]', '\x00', 'A', 'AB', 'aB']
    if rng.random() < 0.3:
        return rng.choice(odd)
    if f in ('int', 'float') and rng.random() < 0.02:
        return rng.choice(['9' * 4300, '-' + '1' * 4301, '7' * 5000])
    if f == 'int':
        return rng.choice(['0', '1', '12', '-1', '007', '\u0663', '1a', '--1', '+1', '1.5', '1_0'])
    if f == 'float':
        return rng.choice(['0', '1.5', '-1.5', '1.', '.5', '1.50', '1e3', '1.5.5', 'nan'])
    if f == 'path':
        return rng.choice(['a', 'a/b', 'a/b/c', tail + 'a', 'a' + tail + 'b', tail, '/', 'a//b', '\r/a', 'a\nb'])
    if f in ('re', 'rex') and rng.random() < 0.75:
        t = sample(rng, a)
        return t.swapcase() if rng.random() < 0.2 else t
    if f == 're':
        return rng.choice(odd)
    if f == 'rex':
        return rng.choice(['a', 'b', 'ab', 'ac', 'bc', 'c', '1', '2', 'xy', 'y', 'aa', '12'])
    if rng.random() < 0.1:
        return draw.text(rng, 'ab1;=?#%+&~:\\,*<>{}()[].-_@!$\'"|^` \t\u00e9\u2603', 1, 5)
    return rng.choice(['a', 'b', 'ab', 'foo', '1', 'x', 'a1', 'fo'] + list(words) * 3)


def gen_path(rng, rules, words):
    if isinstance(words, Ladder) and rng.random() < 0.75:
        p = list(words.main)
        if rng.random() < 0.5:
            p = p[:rng.randint(1, len(p))]
        if rng.random() < 0.4:
            p[rng.randrange(len(p))] = rng.choice(['', 'z', '1', rng.choice(WORDS), rng.choice(words)])
        if rng.random() < 0.4:
            p.append(rng.choice(WORDS))
        if words.ends and rng.random() < 0.85:
            p = list(words.main) + [rng.choice(words.ends)]
        return '/' + '/'.join(p)
    r = rng.random()
    if r < 0.015:
        return ''   # (PATH_INFO left out)
    if r < 0.08 or not rules:
        return '/' + '/'.join(rng.choice(words + ['', 'a', '\r', '\u00e9', '1']) for _ in range(rng.randint(0, 4)))
    rule = normal(rng.choice(rules))
    out = []
    for i, s in enumerate(rule):
        out.append(s[1] if s[0] == 'l' else value_for(rng, s, tail_of(rule, i), words))
    p = '/' + ''.join(out)
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            at = rng.randint(0, len(p))
            k = rng.randrange(5)
            if k == 0:
                p = p[:at] + rng.choice(['/', '\r', '\n', '\u00e9', 'a', '1', '//', ' ', '\x00', rng.choice(words)]) + p[at:]
            elif k == 1:
                p = p[:at] + p[at + rng.randint(1, 3):]
            elif k == 2:
                p += rng.choice(['/', '//', '/' + rng.choice(words), rng.choice(words), '\n', '\r'])
            elif k == 3:
                p = rng.choice(['', '/', '//']) + p
            else:
                segs = p.split('/')
                j = rng.randrange(len(segs))
                segs[j] = rng.choice(['', segs[j] + segs[j], rng.choice(words), '\r'])
                p = '/'.join(segs)
    return p
