"""Languages of regular expressions: inclusion and overlap, decided on automata, with shortest witnesses."""
import warnings
from collections import deque

from absint import AnalysisError
from rx import nfa, symbols


class Look(object):
    """A lookahead inside an automaton."""
    def __init__(self, A, neg):
        self.A, self.neg = A, neg


def automaton(pattern, tree=None):
    """rx.nfa, with lookaheads as empty edges that start an obligation."""
    from rx import sre_c, sre_parse
    looks = []

    def strip(t):
        out = []
        for op, av in t:
            if op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
                if av[0] != 1:
                    raise AnalysisError('lookbehind in %r' % (pattern,))
                looks.append(Look(automaton(pattern, av[1]), op is sre_c.ASSERT_NOT))
                out.append((sre_c.AT, 'LOOK%d' % (len(looks) - 1)))
            elif op is sre_c.BRANCH:
                out.append((op, (av[0], [strip(x) for x in av[1]])))
            elif op is sre_c.SUBPATTERN:
                out.append((op, tuple(av[:-1]) + (strip(av[-1]),)))
            elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
                out.append((op, (av[0], av[1], strip(av[2]))))
            elif op is sre_c.GROUPREF:
                raise AnalysisError('back reference in %r' % (pattern,))
            else:
                out.append((op, av))
        return out
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t = tree if tree is not None else sre_parse.parse(pattern)
    A = nfa(pattern, strip(t))
    A.looks = looks
    return A


# A thread is (state, obligations); an obligation is (number of the lookahead, states it is in, or True when it is fulfilled).
def threads(A, ts, first, end):
    """Close threads under empty edges.  Threads whose negative lookahead is found die."""
    out, todo = set(), list(ts)
    seen = set(todo)
    while todo:
        q, obs = todo.pop()
        obs = settle(A, obs, first, end)
        if obs is None:
            continue
        out.add((q, obs))
        for g, t in A.eps[q]:
            o2 = obs
            if g is not None:
                if g.startswith('LOOK'):
                    o2 = obs | {(int(g[4:]), frozenset([(A.looks[int(g[4:])].A.start, frozenset())]), first)}
                elif 'BEGINNING' in g:
                    if not first:
                        continue
                elif 'BOUNDARY' in g:
                    raise AnalysisError('word boundary')
                elif not end:
                    continue
            k = (t, o2)
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return out


def settle(A, obs, first, end):
    out = set()
    for i, sts, f in obs:
        L = A.looks[i]
        cl = threads(L.A, sts, f, end)
        if any(q == L.A.end and not o for q, o in cl):
            if L.neg:
                return None
            continue
        if end or not sts:
            if not L.neg:
                return None
            continue
        out.add((i, sts, f))
    return frozenset(out)


def advance(A, ts, first, c):
    out = set()
    for q, obs in threads(A, ts, first, False):
        nxt = [t for cs, t in A.edges[q] if c in cs]
        if not nxt and q != A.end:
            continue
        o2 = frozenset((i, frozenset(advance(A.looks[i].A, sts, f, c)), False) for i, sts, f in obs)
        for t in nxt:
            out.add((t, o2))
        if q == A.end and o2:
            out.add((q, o2))      # matched so far, while a lookahead goes on
    return out


class Matcher(object):
    """Strings in which one of the patterns is found: op is 'match', 'search' or 'fullmatch'."""
    def __init__(self, patterns, op='match'):
        self.autos = [automaton(p) for p in patterns]
        if op == 'fullmatch' and any(A.looks for A in self.autos):
            raise AnalysisError('lookahead in a full match')
        self.op = op
        self.memo = {}
        self.hits = {}

    def start(self):
        return tuple(frozenset([(A.start, frozenset())]) for A in self.autos), True, False

    def hit(self, st, end):
        """Is the string read so far (complete when end) one of the language?"""
        sts, first, acc = st
        if acc:
            return True
        if self.op == 'fullmatch' and not end:
            return False
        k = (st, end)
        if k not in self.hits:
            self.hits[k] = any(q == A.end and not obs for A, s in zip(self.autos, sts) for q, obs in threads(A, s, first, end))
        return self.hits[k]

    def step(self, st, c):
        k = (st, c)
        r = self.memo.get(k)
        if r is None:
            sts, first, acc = st
            if acc:
                r = st
            elif self.op != 'fullmatch' and self.hit(st, False):
                r = (tuple(frozenset() for A in self.autos), False, True)
            else:
                out = []
                for A, s in zip(self.autos, sts):
                    n = frozenset(advance(A, s, first, c))
                    if self.op == 'search':
                        n |= {(A.start, frozenset())}
                    out.append(n)
                r = (tuple(out), False, False)
            self.memo[k] = r
        return r

    def dead(self, st):
        return not st[2] and not any(st[0])

    def symautos(self):
        out = []

        def go(A):
            out.append(A)
            for l in A.looks:
                go(l.A)
        for A in self.autos:
            go(A)
        return out


def explore(ms, want, stop=None):
    """Shortest string (of representatives) whose membership in the languages ms satisfies want(tuple of booleans)."""
    syms = symbols([A for m in ms for A in m.symautos()])
    s0 = tuple(m.start() for m in ms)
    seen, todo = {s0}, deque([(s0, '')])
    while todo:
        st, w = todo.popleft()
        if want(tuple(m.hit(s, True) for m, s in zip(ms, st))):
            return w
        for c in syms:
            n = tuple(m.step(s, c) for m, s in zip(ms, st))
            if n not in seen and not (stop and stop(n)):
                seen.add(n)
                todo.append((n, w + c))
    return None


def overlap(a, b):
    return explore([a, b], all, lambda n: a.dead(n[0]) or b.dead(n[1]))


def missing(spec, have):
    """A string of spec that have does not contain."""
    return explore([spec, have], lambda r: r[0] and not r[1], lambda n: spec.dead(n[0]))
