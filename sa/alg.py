"""Equality of arithmetic terms: normal form as quotients of polynomials over opaque atoms, in exact arithmetic.

Floating point values are taken for the real numbers they stand for; rounding is not modelled.
"""
from fractions import Fraction

from absint import BoolT, TRUE, Term
from dom import INF, IntSet, Lin

ONE = {(): Fraction(1)}
ROUNDING = [False]      # whether integer division is taken for division


def _mono(a, b):
    d = dict(a)
    for k, n in b:
        d[k] = d.get(k, 0) + n
    return tuple(sorted(((k, n) for k, n in d.items() if n), key=repr))


def add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mono(m, n)
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def key(f):
    """A hashable normal form; the denominator is not factored out."""
    n, d = f
    return (tuple(sorted(n.items(), key=repr)), tuple(sorted(d.items(), key=repr)))


def same(f, g):
    return mul(f[0], g[1]) == mul(g[0], f[1])


def const(f):
    n, d = f
    if not n:
        return Fraction(0)
    if set(d) == {()} and set(n) == {()}:
        return n[()] / d[()]
    return None


def atom(*a):
    return ({((a, 1),): Fraction(1)}, dict(ONE))


def power(f, n):
    if n < 0:
        f, n = (f[1], f[0]), -n
    r = (dict(ONE), dict(ONE))
    for i in range(n):
        r = (mul(r[0], f[0]), mul(r[1], f[1]))
    return r


def simple(f):
    """Divide by a constant denominator."""
    n, d = f
    if set(d) == {()}:
        return ({m: c / d[()] for m, c in n.items()}, dict(ONE))
    return f


def norm(v, known=None):
    """Term -> quotient of polynomials; `known` is what the state knows of an integer."""
    if known is not None and isinstance(v, Lin):
        v = known(v)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, float)):
        f = Fraction(v)
        return ({(): f} if f else {}, dict(ONE))
    if isinstance(v, Lin):
        r = ({(): Fraction(v.const)} if v.const else {}, dict(ONE))
        for t, c in v.terms:
            x = norm(t, known) if isinstance(t, Term) else atom('sym', t)
            r = (add(mul(r[0], x[1]), mul({k: c * w for k, w in x[0].items()}, r[1])), mul(r[1], x[1]))
        return simple(r)
    if isinstance(v, Term):
        op, a = v.op, v.args
        if op == 'op':
            op, a = a[0], a[1:]
        op = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mult', 'Div': 'truediv', 'Pow': 'pow', 'USub': 'neg'}.get(op, op)
        if op == 'div' and ROUNDING[0]:
            op = 'truediv'
        if op == 'float' and len(a) == 1 and isinstance(a[0], (Term, Lin, int, float)):
            return norm(a[0], known)
        if op in ('add', 'sub', 'mult', 'truediv', 'pow') and len(a) == 2:
            x, y = norm(a[0], known), norm(a[1], known)
            if op in ('add', 'sub'):
                return simple((add(mul(x[0], y[1]), mul(y[0], x[1]), 1 if op == 'add' else -1), mul(x[1], y[1])))
            if op == 'mult':
                return simple((mul(x[0], y[0]), mul(x[1], y[1])))
            if op == 'truediv':
                if not y[0]:
                    return atom('undefined')
                return simple((mul(x[0], y[1]), mul(x[1], y[0])))
            n = const(y)
            if n is not None and n.denominator == 1 and abs(n) <= 64 and not (n < 0 and not x[0]):
                return simple(power(x, int(n)))
            # b ** (-e) is the reciprocal of b ** e
            if y[0]:
                lead = sorted(y[0].items(), key=repr)[0][1]
                if lead < 0:
                    return simple((dict(ONE), atom('pow', key(x), key(({m: -c for m, c in y[0].items()}, y[1])))[0]))
            return atom('pow', key(x), key(y))
        if op == 'sqrt' and len(a) == 1:
            return atom('pow', key(norm(a[0], known)), key(norm(0.5)))
        if op == 'neg':
            x = norm(a[0], known)
            return ({m: -c for m, c in x[0].items()}, x[1])
        return atom(op, *[key(norm(x, known)) if isinstance(x, (Term, Lin, int, float)) and not isinstance(x, bool) else ('k', repr(x)) for x in a])
    return atom('k', repr(v))


def equal(x, y, known=None):
    return same(norm(x, known), norm(y, known))


def equal_up_to_rounding(x, y, known=None):
    ROUNDING[0] = True
    try:
        return equal(x, y, known)
    finally:
        ROUNDING[0] = False


# order of floating point values -------------------------------------------
def sub(x, y):
    return simple((add(mul(x[0], y[1]), mul(y[0], x[1]), -1), mul(x[1], y[1])))


def _sign(p, positive):
    """1: the polynomial is positive, 0: zero, None: not known (all symbols in it positive, one sign of coefficients)."""
    if not p:
        return 0
    if all(positive(k) for m in p for k, n in m):
        if all(c > 0 for c in p.values()):
            return 1
        if all(c < 0 for c in p.values()):
            return -1
    return None


def sign(f, positive):
    n, d = _sign(f[0], positive), _sign(f[1], positive)
    if n == 0:
        return 0
    if n is None or d is None:
        return None
    return n * d


def factors(fs):
    """What inequalities may be multiplied with: the unknowns of the formulas."""
    atoms = {k for f in fs for p in f for m in p for k, n in m}
    return [(dict(ONE), dict(ONE))] + [atom(*k) for k in sorted(atoms, key=repr)]


def order(E):
    """Decider of a < b and a <= b that respects rounding: what is only equal in the real numbers stays open."""
    import ast
    from absint import isint

    def isfloat(v):
        return isinstance(v, float) or isinstance(v, Term) and v.kind == 'float'

    def truncated(v):
        """t of int(t)."""
        if isinstance(v, Lin) and v.const == 0 and len(v.terms) == 1 and v.terms[0][1] == 1:
            v = v.terms[0][0]
        if isinstance(v, Term) and v.op == 'int' and len(v.args) == 1 and isfloat(v.args[0]):
            return v.args[0]
        return None

    def decide(st, op, a, b):
        if op in (ast.Gt, ast.GtE):
            a, b, op = b, a, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
        cut = truncated(a) if isint(b) else None
        if cut is not None and op is ast.LtE:
            a = cut
        elif not (isfloat(a) or isfloat(b)):
            return None
        else:
            cut = None

        def known(v):
            return E.norm(st, v)

        def positive(k):
            if k[0] != 'sym':
                return False
            return E.lin_in(st, Lin.sym(k[1]), IntSet.range(1, INF)) is True
        na, nb = norm(a, known), norm(b, known)
        d = sub(nb, na)

        def least(d):
            """1: d > 0 is known, 0: d >= 0, None."""
            s = sign(d, positive)
            if s in (0, 1):
                return s
            for key, dom in st.facts.items():
                if isinstance(key, tuple) and len(key) == 3 and key[0] == 'lt':
                    if E.norm(st, BoolT(key, TRUE)) is True:
                        f, strict = sub(norm(key[2], known), norm(key[1], known)), 1
                    else:
                        f, strict = sub(norm(key[1], known), norm(key[2], known)), 0
                    for c in factors([d, f]):
                        if not (c[0] == ONE and c[1] == ONE) and sign(c, positive) != 1:
                            continue
                        rest = sub(d, (mul(c[0], f[0]), mul(c[1], f[1])))
                        r = sign(rest, positive)
                        if r in (0, 1):
                            return max(r, strict)
            return None
        s = least(d)
        if op is ast.LtE:
            if s == 1 or s == 0 and (cut is not None or not d[0] and type(a) is type(b) and a == b):
                return True
        elif s == 1 and (const(na) == 0 or const(nb) == 0):
            return True
        t = least(sub(na, nb))
        if t == 1 and op is ast.Lt:
            return False        # b < a
        if t == 1 and (const(na) == 0 or const(nb) == 0):
            return False
        return None
    return decide
