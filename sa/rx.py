"""Regular expressions in the abstract interpreter.

Unknown characters are private-use code points, one per class of characters which
no regular expression and no character constant of the analysed modules can tell
apart (the atoms of the Boolean algebra of their character sets).  A pattern then
behaves the same for every member, so it is decided on the class.
"""
import re
import warnings
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:          # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

from absint import (AnalysisError, Builtin, Cls, Inst, ListO, DictO, Tup, Term, Ref, Fn, Raised, PYEXC, BUILTINS, isint, then)

BASE = 0xE000
STEP = 32
OTHER = '\u00e9\u0663\u2014\u3000'      # beyond ASCII: letter, digit, symbol, space
UNIVERSE = '\t' + ''.join(chr(i) for i in range(32, 127)) + OTHER
SPACEY = '\u3000'


def ispua(c):
    return BASE <= ord(c) < 0xF900


class Finer(Exception):
    """A pattern tells members of a class apart: start again with a finer partition."""
    def __init__(self, pattern):
        self.pattern = pattern


def charsets(pattern):
    """All character sets a pattern tests, as predicates over UNIVERSE."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            tree = sre_parse.parse(pattern)
        except re.error as e:
            raise AnalysisError('bad pattern %r: %s' % (pattern, e))
    out = []

    def walk(t):
        for op, av in t:
            if op is sre_c.LITERAL or op is sre_c.NOT_LITERAL:
                out.append(frozenset([chr(av)]))
            elif op is sre_c.IN:
                out.append(setof(av))
            elif op is sre_c.CATEGORY:
                out.append(setof([(op, av)]))
            elif op is sre_c.BRANCH:
                for x in av[1]:
                    walk(x)
            elif op is sre_c.SUBPATTERN:
                walk(av[-1])
            elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
                walk(av[2])
            elif op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
                walk(av[1])
            elif str(op) == 'ATOMIC_GROUP':
                walk(av)
            elif op is sre_c.AT:
                if 'BOUNDARY' in str(av):
                    out.append(setof([(sre_c.CATEGORY, sre_c.CATEGORY_WORD)]))
            elif op in (sre_c.ANY, sre_c.GROUPREF):
                pass
            else:
                raise AnalysisError('pattern construct %s' % op)
    walk(tree)
    return out


def setof(items):
    neg = False
    s = set()
    for op, av in items:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            s.add(chr(av))
        elif op is sre_c.RANGE:
            s |= {c for c in UNIVERSE if av[0] <= ord(c) <= av[1]}
        elif op is sre_c.CATEGORY:
            n = str(av)
            p = {'DIGIT': r'\d', 'SPACE': r'\s', 'WORD': r'\w'}[n.rsplit('_', 1)[1]]
            if 'NOT' in n:
                p = p.upper()
            s |= {c for c in UNIVERSE if re.match(p, c)}
        else:
            raise AnalysisError('character set item %s' % op)
    return frozenset(c for c in UNIVERSE if c not in s) if neg else frozenset(s)


PREDICATES = [frozenset(c for c in UNIVERSE if f(c)) for f in
              (str.isalpha, str.isdigit, str.isalnum, str.isspace, str.isupper, str.islower)]


class Partition(object):
    def __init__(self, patterns=(), singles=''):
        self.patterns = list(patterns)
        self.known = set()
        sets = list(PREDICATES) + [frozenset([c]) for c in singles]
        for p in patterns:
            sets += charsets(p)
            self.known.add(p)
        sig = {}
        for c in UNIVERSE:
            sig.setdefault(tuple(c in s for s in sets), []).append(c)
        self.classes = sorted((''.join(v) for v in sig.values()), key=lambda v: UNIVERSE.index(v[0]))
        self.of = {c: k for k, v in enumerate(self.classes) for c in v}

    def char(self, c, i=0):
        """The unknown number i of the class of c (or c itself when it is alone)."""
        k = self.of[c]
        if len(self.classes[k]) == 1:
            return c
        assert i < STEP
        return chr(BASE + k * STEP + i)

    def members(self, pua):
        return self.classes[(ord(pua) - BASE) // STEP]

    def rep(self, s):
        if any(ispua(c) for c in s):
            return ''.join(self.members(c)[0] if ispua(c) else c for c in s)
        return s

    def check(self, pattern):
        if pattern in self.known:
            return
        for cs in charsets(pattern):
            for k in self.classes:
                n = sum(c in cs for c in k)
                if n and n != len(k):
                    raise Finer(pattern)
        self.known.add(pattern)


# ------------------------------------------------------------------ characters told apart outside of patterns
def haspua(s):
    return any(ispua(c) for c in s)


def may_equal(part, a, b):
    """Raises Finer when unknown characters of a and b may, or may not, make them equal."""
    if len(a) != len(b) or a == b or not (haspua(a) or haspua(b)):
        return
    split = []
    for x, y in zip(a, b):
        if x == y or ispua(x) and ispua(y):
            if x != y:
                return          # different unknowns are different characters
            continue
        if ispua(y):
            x, y = y, x
        if not ispua(x) or y not in part.members(x):
            return
        split.append(y)
    if split:
        raise Finer('[%s]' % re.escape(split[0]))


def may_contain(part, s, a):
    for i in range(len(s) - len(a) + 1):
        may_equal(part, s[i:i + len(a)], a)


def ordered(part, a, b):
    """The strings with representatives in place of unknown characters; Finer when these decide."""
    for x, y in zip(a, b):
        if x == y:
            continue
        for u, v in ((x, y), (y, x)):
            if ispua(u):
                if ispua(v):
                    m, w = part.members(u), part.members(v)
                    if max(m) < min(w) or max(w) < min(m):
                        continue
                    raise AnalysisError('order of unknown characters')
                m = part.members(u)
                if v in m:
                    raise Finer('[%s]' % re.escape(v))
                below = [c for c in m if c < v]
                if below and len(below) < len(m):
                    raise Finer('[%s]' % ''.join(map(re.escape, below)))
        break
    return part.rep(a), part.rep(b)


BLANK = object()


def method(part, o, name, args):
    """A method of a string with unknown characters; BLANK: as Python does it."""
    a = args[0] if args else None
    if name.startswith('is'):
        return getattr(part.rep(o), name)()
    blank = lambda c: (part.members(c)[0] if ispua(c) else c).isspace()
    if name in ('strip', 'lstrip', 'rstrip'):
        if a is not None:
            for c in o:
                for d in a:
                    may_equal(part, c, d)
            return BLANK
        i, j = 0, len(o)
        while name != 'rstrip' and i < j and blank(o[i]):
            i += 1
        while name != 'lstrip' and i < j and blank(o[j - 1]):
            j -= 1
        return o[i:j]
    if name in ('split', 'rsplit') and a is None:
        return getattr(''.join(' ' if blank(c) else c for c in o), name)(*args)
    if name in ('startswith', 'endswith'):
        for x in a if isinstance(a, tuple) else (a,):
            if isinstance(x, str) and len(args) == 1:
                may_equal(part, o[:len(x)] if name == 'startswith' else o[len(o) - len(x):] if x else '', x)
        return BLANK
    if name in ('find', 'rfind', 'index', 'rindex', 'count', 'replace', 'split', 'rsplit', 'partition', 'rpartition'):
        if isinstance(a, str) and a:
            may_contain(part, o, a)
        return BLANK
    if name in ('upper', 'lower', 'title', 'capitalize', 'swapcase', 'translate'):
        if name == 'translate':
            raise AnalysisError('%s of unknown characters' % name)
        if any(ispua(c) and any(getattr(d, name)() != d for d in part.members(c)) for c in o):
            return getattr(part.rep(o), name)()     # another text: that of representatives
        return BLANK
    return BLANK


# ------------------------------------------------------------------ hooks
MATCH = Cls('SRE_Match', None, [], {}, builtin=False)
REGEX = Cls('SRE_Pattern', None, [], {}, builtin=False)
FLAGS = {'IGNORECASE': re.I, 'I': re.I, 'MULTILINE': re.M, 'M': re.M, 'DOTALL': re.S, 'S': re.S, 'VERBOSE': re.X, 'X': re.X}


class Strings(object):
    """What the interpreter asks about strings with unknown characters."""
    def __init__(self, part):
        self.part = part

    def has(self, *ss):
        return any(isinstance(s, str) and haspua(s) for s in ss)

    def equal(self, a, b):
        may_equal(self.part, a, b)
        return a == b

    def contains(self, s, a):
        may_contain(self.part, s, a)
        return a in s

    def order(self, a, b):
        return ordered(self.part, a, b)

    def method(self, o, name, args):
        return method(self.part, o, name, args)


Strings.BLANK = BLANK


def flagsof(v):
    f = 0
    for w in re.findall(r"re\.([A-Z]+)", repr(v)):
        f |= FLAGS.get(w, 0)
    return f


def install(E, part):
    E.part = part
    E.strings = Strings(part)
    cache = {}

    def comp(pattern, fl=0):
        k = (pattern, fl)
        if k not in cache:
            part.check(pattern)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                cache[k] = re.compile(pattern, fl)
        return cache[k]

    def mkregex(st, pattern, fl):
        if not isinstance(pattern, str):
            raise AnalysisError('pattern is not a constant: %r' % (pattern,))
        comp(pattern, fl)
        return E.new(st, Inst(REGEX, {'pattern': pattern, '_flags': fl}))

    def mkmatch(st, m, s):
        return E.new(st, Inst(MATCH, {'_m': Hidden(m, s), 're': None, 'string': s}))

    def strarg(st, v):
        v = E.norm(st, v)
        if not isinstance(v, str):
            raise AnalysisError('regular expression applied to %r' % (v,))
        return v

    def run(E, st, what, pattern, fl, args, fr, n):
        if what == 'sub':
            rep, s = args[0], strarg(st, args[1])
            rx = comp(pattern, fl)
            cur, last = [(st, '')], 0
            for m in rx.finditer(part.rep(s)):
                pre = s[last:m.start()]
                last = m.end()

                def go(s1, acc, m=m, pre=pre):
                    if isinstance(rep, str):
                        if '\\' in rep:
                            raise AnalysisError('template in re.sub')
                        return [(s1, acc + pre + rep)]
                    s2, mo = mkmatch(s1, m, s)
                    return then(E.call(s2, rep, [mo], {}, fr, n),
                                lambda s3, r: [(s3, Raised(PYEXC['TypeError'], n, fr)) if not isinstance(r, str) else (s3, acc + pre + r)])
                cur = then(cur, go)
            return then(cur, lambda s1, acc: [(s1, acc + s[last:])])
        s = strarg(st, args[0])
        rx = comp(pattern, fl)
        t = part.rep(s)
        if what in ('match', 'search'):
            m = getattr(rx, what)(t)
            if m is None:
                return [(st, None)]
            s1, r = mkmatch(st, m, s)
            return [(s1, r)]
        if what == 'finditer':
            ms = []
            for m in rx.finditer(t):
                st, r = mkmatch(st, m, s)
                ms.append(r)
            return [E.new(st, ListO(ms))]
        if what == 'findall':
            out = []
            for m in rx.finditer(t):
                g = [sub(m, s, i) or '' for i in range(1, rx.groups + 1)]
                out.append(Tup(tuple(g)) if len(g) > 1 else g[0] if g else s[m.start():m.end()])
            return [E.new(st, ListO(out))]
        if what == 'split' and not rx.groups:
            out, last = [], 0
            for m in rx.finditer(t):
                if m.end() > m.start():
                    out.append(s[last:m.start()])
                    last = m.end()
            return [E.new(st, ListO(out + [s[last:]]))]
        raise AnalysisError('re.%s' % what)

    for what in ('match', 'search', 'finditer', 'findall', 'split', 'sub'):
        def ext(E, st, args, kw, fr, n, what=what):
            p = E.norm(st, args[0])
            if isinstance(p, Ref):
                o = E.obj(st, p)
                p, fl = o.attrs['pattern'], o.attrs['_flags']
            else:
                k = 3 if what != 'sub' else 4
                fl = flagsof(kw.get('flags'))
                if len(args) == 3 and what != 'sub':
                    fl |= flagsof(args[2])
            if not isinstance(p, str):
                raise AnalysisError('pattern is not a constant')
            return run(E, st, what, p, fl, list(args[1:]), fr, n)
        E.exthooks['re.' + what] = ext
        nm = 'rx.' + what
        REGEX.attrs[what] = Builtin(nm)
        BUILTINS[nm] = Builtin(nm)

        def meth(E, st, a, kw, fr, n, what=what):
            o = E.obj(st, a[0])
            return run(E, st, what, o.attrs['pattern'], o.attrs['_flags'], list(a[1:]), fr, n)
        import absbuiltins
        setattr(absbuiltins, 'b_rx_' + what, meth)

    def compile_(E, st, args, kw, fr, n):
        p = E.norm(st, args[0])
        if isinstance(p, Ref):
            return [(st, p)]
        return [mkregex(st, p, flagsof(args[1]) if len(args) > 1 else 0)]
    E.exthooks['re.compile'] = compile_

    def group_of(f):
        def b(E, st, a, kw, fr, n):
            h = E.obj(st, a[0]).attrs['_m']
            return f(E, st, h.m, h.s, list(a[1:]), kw, fr, n)
        return b

    def groupdict(E, st, m, s, a, kw, fr, n):
        d = kw.get('default', a[0] if a else None)
        # iteration order of a dict is arbitrary: keep the groups that took part last first
        return [E.new(st, DictO({k: (d if m.start(k) < 0 else s[m.start(k):m.end(k)]) for k in m.re.groupindex}))]

    def group(E, st, m, s, a, kw, fr, n):
        r = []
        for g in a or [0]:
            g = E.norm(st, g)
            try:
                r.append(sub(m, s, g))
            except IndexError:
                return [(st, Raised(PYEXC['IndexError'], n, fr))]
        return [(st, r[0] if len(r) == 1 else Tup(tuple(r)))]

    def groups(E, st, m, s, a, kw, fr, n):
        d = a[0] if a else None
        return [(st, Tup(tuple(d if m.start(i) < 0 else sub(m, s, i) for i in range(1, m.re.groups + 1))))]

    def pos(name):
        def f(E, st, m, s, a, kw, fr, n):
            v = getattr(m, name)(*[E.norm(st, x) for x in a])
            return [(st, Tup(v) if isinstance(v, tuple) else v)]
        return f
    import absbuiltins
    for nm, f in [('groupdict', groupdict), ('group', group), ('groups', groups)] + [(x, pos(x)) for x in ('start', 'end', 'span')]:
        MATCH.attrs[nm] = Builtin('rxm.' + nm)
        BUILTINS['rxm.' + nm] = MATCH.attrs[nm]
        setattr(absbuiltins, 'b_rxm_' + nm, group_of(f))


class Hidden(object):
    """A match kept inside the analyser."""
    def __init__(self, m, s):
        self.m, self.s = m, s

    def __repr__(self):
        return '<match>'


def sub(m, s, g):
    i, j = m.span(g)
    return None if i < 0 else s[i:j]


# ------------------------------------------------------------------ automata
# Symbols: indices of UNIVERSE.  Guards ^ and $ are kept as epsilon edges with a label.
class NFA(object):
    def __init__(self):
        self.eps, self.edges, self.n = [], [], 0

    def state(self):
        self.eps.append([])
        self.edges.append([])
        self.n += 1
        return self.n - 1


ALL = frozenset(UNIVERSE)
DOT = ALL


def nfa(pattern, tree=None):
    A = NFA()
    A.groups = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = tree if tree is not None else sre_parse.parse(pattern)

    def seq(t, a):
        for op, av in t:
            a = one(op, av, a)
        return a

    def one(op, av, a):
        if op is sre_c.LITERAL:
            b = A.state()
            A.edges[a].append((frozenset([chr(av)]), b))
            return b
        if op is sre_c.NOT_LITERAL:
            b = A.state()
            A.edges[a].append((ALL - {chr(av)}, b))
            return b
        if op is sre_c.IN or op is sre_c.CATEGORY:
            b = A.state()
            A.edges[a].append((setof(av if op is sre_c.IN else [(op, av)]), b))
            return b
        if op is sre_c.ANY:
            b = A.state()
            A.edges[a].append((DOT, b))
            return b
        if op is sre_c.BRANCH:
            b = A.state()
            for x in av[1]:
                e = A.state()
                A.eps[a].append((None, e))
                A.eps[seq(x, e)].append((None, b))
            return b
        if op is sre_c.SUBPATTERN:
            return seq(av[-1], a)
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, x = av
            for _ in range(lo):
                a = seq(x, a)
            if hi is sre_c.MAXREPEAT:
                c = A.state()
                A.eps[a].append((None, c))
                d = seq(x, c)
                A.eps[d].append((None, c))
                e = A.state()
                A.eps[c].append((None, e))
                return e
            e = A.state()
            A.eps[a].append((None, e))
            for _ in range(min(hi - lo, 64)):
                a = seq(x, a)
                A.eps[a].append((None, e))
            return e
        if op is sre_c.AT:
            b = A.state()
            A.eps[a].append((str(av), b))
            return b
        if op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            return a         # over-approximated
        raise AnalysisError('pattern construct %s' % op)
    A.start = A.state()
    A.end = seq(tree, A.start)
    return A


def closure(A, states, begin, end):
    """States reachable without reading; begin/end: are we at the beginning / may this be the end."""
    out, todo = set(states), list(states)
    while todo:
        s = todo.pop()
        for g, t in A.eps[s]:
            if g is not None:
                if 'BEGINNING' in g and not begin:
                    continue
                if 'END' in g and 'BOUNDARY' not in g and not end:
                    continue
            if t not in out:
                out.add(t)
                todo.append(t)
    return frozenset(out)


def exponential(pattern, tree=None):
    """A string part that can be repeated in two ways at the same place: (state, symbol set) or None.

    Looks for a state q and a word w with two different paths q -w-> q: that makes a
    backtracking matcher take exponential time.  Decided on the product of the automaton with
    itself (epsilon edges counted as different paths as well)."""
    A = nfa(pattern, tree)
    # epsilon-free transitions with multiplicity of distinct epsilon paths
    reach = []
    for s in range(A.n):
        cnt = {s: 1}
        # number of distinct epsilon paths (capped at 2); acyclic except for empty loops
        order, seen = [], set()

        def visit(x):
            if x in seen:
                return
            seen.add(x)
            for g, t in A.eps[x]:
                visit(t)
            order.append(x)
        visit(s)
        cnt = {s: 1}
        for x in reversed(order):
            for g, t in A.eps[x]:
                cnt[t] = min(2, cnt.get(t, 0) + cnt.get(x, 0))
        reach.append(cnt)
    trans = []
    for s in range(A.n):
        tr = []
        for x, m in reach[s].items():
            for cs, t in A.edges[x]:
                tr.append((cs, t, m, x))
        trans.append(tr)
    live = [s for s in range(A.n) if s == A.start or any(t == s for e in A.edges for c, t in e)]
    # product graph on pairs, starting at (q, q)
    for q in live:
        start = (q, q, False)
        seen, todo = {start}, [start]
        while todo:
            a, b, diff = todo.pop()
            for c1, t1, m1, x1 in trans[a]:
                for c2, t2, m2, x2 in trans[b]:
                    if not (c1 & c2):
                        continue
                    d = diff or t1 != t2 or x1 != x2 or m1 > 1
                    if t1 == q and t2 == q and d:
                        return q, ''.join(sorted(c1 & c2))[:10]
                    k = (t1, t2, d)
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
    return None


def shadowed(patterns):
    """Indices of alternatives that can never match because an earlier alternative always matches first
    at every place where they match.  Words are compared with begin/end guards respected."""
    autos = [nfa(p) for p in patterns]
    dead = []
    for i in range(1, len(patterns)):
        # is there a context (at line start or not) and word so that i matches a prefix and no earlier alternative matches any prefix
        if not alive(autos, i):
            dead.append(i)
    return dead


def alive(autos, i):
    syms = symbols(autos[:i + 1])
    for begin in (True, False):
        # subset construction over all earlier alternatives; track whether one of them accepted already, or would at end
        st0 = tuple(frozenset([A.start]) for A in autos[:i + 1])
        seen, todo = set(), [(st0, True)]
        while todo:
            sts, first = todo.pop()
            b = begin and first
            cl = [closure(A, s, b, False) for A, s in zip(autos, sts)]
            if any(autos[k].end in cl[k] for k in range(i)):
                continue                                  # an earlier one matches here already
            if autos[i].end in cl[i]:
                return True     # followed by anything that lets the earlier ones fail (stop here, or a foreign character)
            ce = [closure(A, s, b, True) for A, s in zip(autos, sts)]
            if autos[i].end in ce[i] and not any(autos[k].end in ce[k] for k in range(i)):
                return True                               # at the end of the line
            for c in syms:
                nx = tuple(frozenset(t for s in k for cs, t in A.edges[s] if c in cs) for A, k in zip(autos, cl))
                if not nx[i]:
                    continue
                key = (nx, False)
                if key not in seen:
                    seen.add(key)
                    todo.append(key)
    return False


def symbols(autos):
    sets = {cs for A in autos for e in A.edges for cs, t in e}
    sig = {}
    for c in UNIVERSE:
        sig.setdefault(frozenset(k for k, s in enumerate(sets) if c in s), c)
    return list(sig.values())
