"""Abstract domains: interval sets, finite/cofinite constant sets, linear terms."""
from math import gcd

INF = float('inf')


class IntSet(object):
    """Finite union of integer intervals (ends may be +-INF).  Immutable."""
    __slots__ = ('iv', '_h', 'one')

    def __init__(self, iv):
        out = []
        for lo, hi in sorted(iv):
            if lo > hi or lo == INF or hi == -INF:
                continue
            if out and lo <= out[-1][1] + 1:
                if hi > out[-1][1]:
                    out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        self.iv = tuple(out)
        self._h = hash(self.iv)
        # the only member, or None
        self.one = self.iv[0][0] if len(self.iv) == 1 and self.iv[0][0] == self.iv[0][1] else None

    @staticmethod
    def of(*vals):
        return IntSet([(v, v) for v in vals])

    @staticmethod
    def range(lo, hi):
        return IntSet([(lo, hi)])

    def __eq__(self, o):
        return isinstance(o, IntSet) and self.iv == o.iv

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def empty(self):
        return not self.iv

    def inter(self, o):
        out = []
        for a, b in self.iv:
            for c, d in o.iv:
                lo, hi = max(a, c), min(b, d)
                if lo <= hi:
                    out.append((lo, hi))
        return IntSet(out)

    def union(self, o):
        return IntSet(self.iv + o.iv)

    def compl(self):
        out, lo = [], -INF
        for a, b in self.iv:
            if lo <= a - 1:
                out.append((lo, a - 1))
            lo = b + 1
        if lo < INF:
            out.append((lo, INF))
        elif lo == INF and not self.iv:
            out.append((-INF, INF))
        return IntSet(out)

    def lo(self):
        return self.iv[0][0]

    def hi(self):
        return self.iv[-1][1]

    def finite(self):
        return bool(self.iv) and self.lo() > -INF and self.hi() < INF

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def values(self):
        out = []
        for a, b in self.iv:
            out.extend(range(int(a), int(b) + 1))
        return out

    def __contains__(self, v):
        return any(a <= v <= b for a, b in self.iv)

    def scale(self, k):
        """Superset of {k*x}: exact for |k| == 1."""
        out = []
        for a, b in self.iv:
            p, q = (a * k, b * k) if k > 0 else (b * k, a * k)
            out.append((p, q))
        return IntSet(out)

    def shift(self, c):
        return IntSet([(a + c, b + c) for a, b in self.iv])

    def hull_add(self, o):
        if self.empty() or o.empty():
            return IntSet([])
        if len(self.iv) * len(o.iv) <= 36:
            return IntSet([(a + c, b + d) for a, b in self.iv for c, d in o.iv])
        return IntSet([(self.lo() + o.lo(), self.hi() + o.hi())])

    def __repr__(self):
        if self == TOP:
            return 'Z'

        def one(a, b):
            if a == b:
                return '%d' % a if abs(a) < INF else repr(a)
            return '%s..%s' % ('-inf' if a == -INF else int(a), 'inf' if b == INF else int(b))
        return '{' + ','.join(one(a, b) for a, b in self.iv) + '}'


TOP = IntSet([(-INF, INF)])
BOOL = IntSet([(0, 1)])
TRUE = IntSet.of(1)
FALSE = IntSet.of(0)


class CSet(object):
    """A set of constants: `vals` (pos) or everything but `vals` (not pos)."""
    __slots__ = ('pos', 'vals', '_h')

    def __init__(self, pos, vals):
        self.pos = pos
        self.vals = frozenset(vals)
        self._h = hash((pos, self.vals))

    def __eq__(self, o):
        return isinstance(o, CSet) and self.pos == o.pos and self.vals == o.vals

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def empty(self):
        return self.pos and not self.vals

    def compl(self):
        return CSet(not self.pos, self.vals)

    def inter(self, o):
        if self.pos and o.pos:
            return CSet(True, self.vals & o.vals)
        if self.pos:
            return CSet(True, self.vals - o.vals)
        if o.pos:
            return CSet(True, o.vals - self.vals)
        return CSet(False, self.vals | o.vals)

    def union(self, o):
        return self.compl().inter(o.compl()).compl()

    def __contains__(self, v):
        return (v in self.vals) == self.pos

    def __repr__(self):
        s = ','.join(sorted(map(repr, self.vals)))
        return ('{%s}' if self.pos else 'not{%s}') % s


class Lin(object):
    """const + sum(coef*sym); never constant (constants are plain ints)."""
    __slots__ = ('terms', 'const', '_h')

    def __init__(self, terms, const):
        self.terms = terms          # tuple of (sym, coef) sorted by repr(sym)
        self.const = const
        self._h = hash((terms, const))

    @staticmethod
    def make(d, const):
        ts = tuple(sorted(((s, c) for s, c in d.items() if c), key=lambda t: repr(t[0])))
        if not ts:
            return const
        return Lin(ts, const)

    @staticmethod
    def sym(s):
        return Lin(((s, 1),), 0)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.terms == o.terms and self.const == o.const

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        s = ''
        for t, c in self.terms:
            s += '%s%s%s' % ('-' if c < 0 else ('+' if s else ''), '' if abs(c) == 1 else '%d*' % abs(c),
                             t if isinstance(t, str) else repr(t))
        if self.const:
            s += '%+d' % self.const
        return s

    def issym(self):
        return self.const == 0 and len(self.terms) == 1 and self.terms[0][1] == 1

    def key(self):
        """(normal key, k, c): self == k*key + c."""
        g = 0
        for _, c in self.terms:
            g = gcd(g, abs(c))
        if self.terms[0][1] < 0:
            g = -g
        return tuple((s, c // g) for s, c in self.terms), g, self.const


def lin_add(a, b, sb=1):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return int(a) + sb * int(b)
    d, c = {}, 0
    for x, k in ((a, 1), (b, sb)):
        if isinstance(x, Lin):
            for s, co in x.terms:
                d[s] = d.get(s, 0) + k * co
            c += k * x.const
        else:
            c += k * int(x)
    return Lin.make(d, c)


def lin_scale(a, k):
    if isinstance(a, int):
        return a * k
    return Lin.make({s: c * k for s, c in a.terms}, a.const * k)
