"""Transfer functions of the Python 2 builtins bglib uses."""
import ast
import itertools
from dom import IntSet, CSet, Lin, TRUE, FALSE, INF, lin_add, lin_scale
from absint import (percents, Tup, BoolT, Ext, ModV, Builtin, Meth, Bound, InstDict, Super, Term, Ref, Slice, Fn, Cls, Wrapped,
                    Inst, ListO, DictO, Raised, PYEXC, TYPES, OBJECT, isconst, isint, isstr, then, concat, dedup,
                    hashable, Choice, FloatT, AnalysisError, elem_kind, METHODS, chars, fromchars)
from front import UStr


def exc(st, name, n, fr):
    return [(st, Raised(PYEXC[name], n, fr))]


def typeof(E, st, v):
    """Known class of a value, or None."""
    if isinstance(v, bool) or isinstance(v, BoolT):
        return TYPES['bool']
    if isinstance(v, UStr):
        return TYPES['unicode']
    if isinstance(v, (int, Lin)):
        return TYPES['int']
    if isinstance(v, str):
        return TYPES['str']
    if isinstance(v, float):
        return TYPES['float']
    if v is None:
        return TYPES['NoneType']
    if isinstance(v, Tup):
        return TYPES['tuple']
    if isinstance(v, Ref):
        o = E.obj(st, v)
        if isinstance(o, Inst):
            return o.cls
        if isinstance(o, DictO):
            return TYPES['dict']
        return TYPES['set' if o.kind == 'set' else 'list']
    if isinstance(v, Term):
        if v.kind == 'str':
            return TYPES['str']
        if v.kind == 'int':
            return TYPES['int']
        if v.op == 'float' or v.kind == 'float':
            return TYPES['float']
    if isinstance(v, Cls):
        return TYPES['type']
    return None


PYTYPES = {'types.FunctionType': Fn, 'types.LambdaType': Fn, 'types.MethodType': Bound, 'types.UnboundMethodType': Bound,
           'types.ModuleType': ModV, 'types.StringType': str, 'types.TupleType': Tup}
SUB = {('bool', 'int'), ('str', 'basestring'), ('unicode', 'basestring')}


def isinst(E, st, v, t):
    """True/False/None(unknown)."""
    if isinstance(t, Tup):
        rs = [isinst(E, st, v, x) for x in t.items]
        if True in rs:
            return True
        return None if None in rs else False
    k = typeof(E, st, v)
    if isinstance(t, Builtin):
        return None
    if isinstance(t, Ext) and t.path in PYTYPES and not isinstance(v, (Term, Lin)):
        return isinstance(v, PYTYPES[t.path])
    if k is None:
        if isinstance(v, (Fn, Bound, ModV, Builtin)) and isinstance(t, Cls):
            return t is OBJECT
        return None
    if isinstance(t, Cls):
        if t is OBJECT or k is t or (k.name, t.name) in SUB and k.builtin and t.builtin:
            return True
        if k.isa(t):
            return True
        if k.ext_bases() and t.builtin:
            return None
        return False
    if isinstance(t, Ext):
        if t in k.ext_bases():
            return True
        return None if k.ext_bases() else False
    return None


def seq_known(E, st, v, fr, n):
    return E.iterate(st, v, fr, n)


def mklist(E, s, q, kind='list'):
    if kind == 'tuple':
        if q.open is None:
            return [(s, Tup(q.items))]
        t = E.seqterm(q)
        if isinstance(t, Term) and t.op == 'tuple':
            return [(s, t)]
        return [(s, Term('tuple', t, kind=None))]
    return [E.new(s, ListO(q.items if kind != 'set' else dedup(q.items), q.open, kind))]


def lenof(E, st, v, fr, n):
    if isinstance(v, Tup):
        return [(st, len(v.items))]
    if isinstance(v, str):
        return [(st, len(v))]
    if chars(v) is not None:
        return [(st, len(chars(v)))]
    if isinstance(v, Ref):
        o = E.obj(st, v)
        if isinstance(o, ListO) and o.kind == 'iter':
            return exc(st, 'TypeError', n, fr)
        if isinstance(o, (ListO, DictO)):
            if o.open is None:
                return [(st, len(o.items))]
            t = Term('len', o.open, kind='int')
            E.domains.setdefault(t, IntSet.range(0, INF))
            return [(st, lin_add(Lin.sym(t), len(o.items)))]
        f, c = o.cls.find('__len__')
        if f is not None:
            return E.call(st, Bound(v, f), [], {}, fr, n)
        return exc(st, 'TypeError', n, fr)
    if isinstance(v, (int, float, Lin, type(None), BoolT)):
        return exc(st, 'TypeError', n, fr)
    t = Term('len', E.val(st, v), kind='int')
    E.domains.setdefault(t, IntSet.range(0, INF))
    return [(st, Lin.sym(t))]


def toint(E, st, v, fr, n):
    if isinstance(v, BoolT):
        return then(E.concretise(st, v), lambda s, x: [(s, int(x))])
    if isinstance(v, (bool, int, float)):
        return [(st, int(v))]
    if isinstance(v, Lin):
        return [(st, v)]
    if isinstance(v, str):
        if E.strings is not None and E.strings.has(v):
            try:
                int(E.strings.part.rep(v))
                return [(st, Lin.sym(Term('int', v, kind='int')))]
            except ValueError:
                pass
        try:
            return [(st, int(v))]
        except ValueError:
            return exc(st, 'ValueError', n, fr)
    if v is None or isinstance(v, Tup) or (isinstance(v, Ref) and isinstance(E.obj(st, v), (ListO, DictO))):
        return exc(st, 'TypeError', n, fr)
    if isinstance(v, Ref):
        f, c = E.obj(st, v).cls.find('__int__')
        if f is not None:
            return E.call(st, Bound(v, f), [], {}, fr, n)
        return exc(st, 'TypeError', n, fr)
    if isinstance(v, Term) and v.kind == 'int':
        return [(st, Lin.sym(v))]
    if isinstance(v, Term) and v.op == 'str' and len(v.args) == 1 and isint(v.args[0]):
        return [(st, E.norm(st, v.args[0]))]
    t = Term('int', E.val(st, v), kind='int')
    if v.kind == 'float':
        return [(st, Lin.sym(t))]
    out = []
    for s, ok in E.split(st, ('isint', E.val(st, v)), TRUE):
        if ok:
            out.append((s, Lin.sym(t)))
        else:
            out.append((s, Raised(PYEXC['ValueError'], n, fr)))
    return out


def tostr(E, st, v, fr, n):
    if isinstance(v, str):
        return [(st, v)]
    if isinstance(v, (bool, int, type(None))):
        return [(st, str(v))]
    if isinstance(v, Term) and v.kind == 'str':
        return [(st, v)]
    if isinstance(v, Ref) and isinstance(E.obj(st, v), Inst):
        f, c = E.obj(st, v).cls.find('__str__')
        if f is None:
            f, c = E.obj(st, v).cls.find('__repr__')
        if isinstance(f, Fn):
            return E.call(st, Bound(v, f), [], {}, fr, n)
        o = E.obj(st, v)
        if o.cls.isa(PYEXC['BaseException']) and isinstance(o.attrs.get('args'), Tup) and len(o.attrs['args'].items) == 1:
            return tostr(E, st, o.attrs['args'].items[0], fr, n)
    p = plain(v)
    if p is not None:
        return [(st, str(p))]
    return [(st, Term('str', E.val(st, v), kind='str'))]


def plain(v):
    """A tuple of which everything is known, as it is; else None."""
    if not isinstance(v, Tup):
        return None
    out = []
    for x in v.items:
        if isinstance(x, Tup):
            x = plain(x)
            if x is None:
                return None
        elif not (x is None or type(x) in (int, bool) or type(x) is str and x.isascii()):
            return None
        out.append(x)
    return tuple(out)


def sorted_key(v):
    return (type(v).__name__, v)


def call_builtin(E, st, name, args, kw, fr, n):
    f = globals().get('b_' + name.replace('.', '_'))
    for i, a in enumerate(args):
        if isinstance(a, Choice):
            out = []
            for s, x in E.force(st, a):
                out.extend(call_builtin(E, s, name, args[:i] + [x] + args[i + 1:], kw, fr, n))
            return out
    if f is None:
        return [(st, Term('call', Builtin(name), *[E.val(st, a) for a in args]))]
    return f(E, st, args, kw, fr, n)


def b_print(E, st, a, kw, fr, n):
    return [(st, None)]


def b_len(E, st, a, kw, fr, n):
    return lenof(E, st, a[0], fr, n)


def b_range(E, st, a, kw, fr, n):
    cur = [(st, [])]
    for x in a:
        nxt = []
        for s, vs in cur:
            for s2, v in E.concretise(s, x):
                nxt.append((s2, vs + [v]))
        cur = nxt
    out = []
    for s, vs in cur:
        if all(isinstance(v, int) for v in vs):
            r = range(*vs)
            if len(r) > 400:
                out.append(E.new(s, ListO((), Term('range', *vs))))
            else:
                out.append(E.new(s, ListO(tuple(r))))
        elif any(isinstance(v, (str, float, type(None), Tup)) for v in vs):
            out.append((s, Raised(PYEXC['TypeError'], n, fr)))
        else:
            t = Term('range', *[E.val(s, v) for v in vs])
            lo, hi, step = (0, vs[0], 1) if len(vs) == 1 else (vs[0], vs[1], vs[2] if len(vs) > 2 else 1)
            el = Term('elem', t)
            out.append(E.new(s, ListO((), t)))
    return out


b_xrange = b_range


def b_abs(E, st, a, kw, fr, n):
    v = a[0]
    if isinstance(v, (int, float)):
        return [(st, abs(v))]
    v = E.as_int(v)
    if isinstance(v, Lin):
        b = E.lin_in(st, v, IntSet.range(0, INF))
        return [(s, v if t else lin_scale(v, -1)) for s, t in E.truth(st, b, fr, n)]
    return [(st, Term('abs', E.val(st, a[0]), kind='int'))]


def keyed(E, st, x, kw, fr, n):
    if kw.get('key') is None:
        return [(st, x)]
    return E.call(st, kw['key'], [x], {}, fr, n)


def _minmax(E, st, a, kw, fr, n, ismax):
    def go(s, q):
        if q.open is not None:
            return [(s, Term('max' if ismax else 'min', E.seqterm(q), kind='int'))]
        if not q.items:
            return exc(s, 'ValueError', n, fr)
        cur = then(keyed(E, s, q.items[0], kw, fr, n), lambda s, k: [(s, (k, q.items[0]))])
        for x in q.items[1:]:
            nxt = []
            for s0, best in cur:
                if isinstance(best, Raised):
                    nxt.append((s0, best))
                    continue
                for s1, k in keyed(E, s0, x, kw, fr, n):
                    if isinstance(k, Raised):
                        nxt.append((s1, k))
                        continue
                    for s2, r in E.compare(ast.Gt() if ismax else ast.Lt(), k, best[0], s1, fr, n):
                        if isinstance(r, Raised):
                            nxt.append((s2, r))
                            continue
                        for s3, t in E.truth(s2, r, fr, n):
                            nxt.append((s3, (k, x) if t else best))
            cur = nxt
        return [(s1, b if isinstance(b, Raised) else b[1]) for s1, b in cur]
    if len(a) == 1:
        return then(E.iterate(st, a[0], fr, n), go)
    return go(st, ListO(a))


def b_max(E, st, a, kw, fr, n):
    return _minmax(E, st, a, kw, fr, n, True)


def b_min(E, st, a, kw, fr, n):
    return _minmax(E, st, a, kw, fr, n, False)


def b_pow(E, st, a, kw, fr, n):
    return E.binop(ast.Pow(), a[0], a[1], st, fr, n)


def b_divmod(E, st, a, kw, fr, n):
    return then(E.binop(ast.FloorDiv(), a[0], a[1], st, fr, n), lambda s, q: then(
        E.binop(ast.Mod(), a[0], a[1], s, fr, n), lambda s, r: [(s, Tup((q, r)))]))


def b_isinstance(E, st, a, kw, fr, n):
    r = isinst(E, st, a[0], a[1])
    if r is None:
        v = E.val(st, a[0])
        return [(st, E.norm(st, BoolT(('isinstance', v, repr(a[1])), TRUE)))]
    return [(st, r)]


def b_issubclass(E, st, a, kw, fr, n):
    if isinstance(a[0], Cls):
        ts = a[1].items if isinstance(a[1], Tup) else (a[1],)
        return [(st, any(isinstance(t, Cls) and a[0].isa(t) for t in ts))]
    return [(st, BoolT(('issubclass', E.val(st, a[0]), repr(a[1])), TRUE))]


def b_getattr(E, st, a, kw, fr, n):
    nm = E.norm(st, a[1])
    if not isinstance(nm, str):
        t = Term('getattr', E.val(st, a[0]), E.val(st, nm))
        out = [(st, t)]
        if len(a) > 2:
            out.append((st, a[2]))
        elif fr.tries:
            out.append((st, Raised(PYEXC['AttributeError'], n, fr)))
        return out
    rs = E.getattr(st, a[0], nm, fr, n)
    if len(a) > 2:
        out = []
        for s, v in rs:
            if isinstance(v, Raised) and E.exc_class(s, v.exc) is PYEXC['AttributeError']:
                out.append((s, a[2]))
            else:
                out.append((s, v))
        return out
    return rs


def b_setattr(E, st, a, kw, fr, n):
    nm = E.norm(st, a[1])
    if not isinstance(nm, str):
        return [(st.event('setattr-dyn', E.val(st, a[0]), E.val(st, nm), E.val(st, a[2])), None)]
    out = []
    for s, c in E.setattr(st, a[0], nm, a[2], fr, n):
        out.append((s, c[1] if isinstance(c, tuple) else None))
    return out


def b_hasattr(E, st, a, kw, fr, n):
    nm = E.norm(st, a[1])
    if not isinstance(nm, str) or isinstance(a[0], (Term, Ext)) and not isstr(a[0]):
        return [(st, BoolT(('hasattr', E.val(st, a[0]), E.val(st, nm)), TRUE))]
    return [(s, not isinstance(v, Raised)) for s, v in E.getattr(st, a[0], nm, fr, n)]


def b_delattr(E, st, a, kw, fr, n):
    return [(s, c[1] if isinstance(c, tuple) else None) for s, c in E.delattr(st, a[0], a[1], fr, n)]


def apply_to(E, st, f, x, fr, n):
    if not isinstance(f, tuple):
        return E.call(st, f, [x], {}, fr, n)
    if isinstance(x, Tup):
        return E.call(st, f[1], list(x.items), {}, fr, n)
    return E.call(st, Term('spread', E.val(st, f[1])), [x], {}, fr, n)


def b_map(E, st, a, kw, fr, n):
    if len(a) > 2:
        return then(b_zip(E, st, a[1:], {}, fr, n), lambda s, z: b_map(
            E, s, [None if a[0] is None else ('spread', a[0]), z], {}, fr, n))
    def go(s, q):
        cur = [(s, [])]
        for x in q.items:
            nxt = []
            for s1, acc in cur:
                if isinstance(acc, Raised):
                    nxt.append((s1, acc))
                    continue
                if a[0] is None:
                    nxt.append((s1, acc + [x]))
                    continue
                rs = apply_to(E, s1, a[0], x, fr, n)
                good = [r for r in rs if not isinstance(r[1], Raised)]
                if len(rs) > 1 and len(good) == len(rs) and all(r[0].heap is s1.heap and r[0].events == s1.events for r in rs):
                    alts = [(tuple((k, d) for k, d in s2.facts.items() if s1.facts.get(k) != d), v) for s2, v in rs]
                    alts = E.merge_alts(alts)
                    v = alts[0][1] if len(alts) == 1 and not alts[0][0] else Choice(tuple(alts))
                    nxt.append((s1, acc + [v]))
                else:
                    nxt.extend((s2, v if isinstance(v, Raised) else acc + [v]) for s2, v in rs)
            cur = nxt
        out = []
        for s1, acc in cur:
            if isinstance(acc, Raised):
                out.append((s1, acc))
                continue
            op = None
            if q.open is not None:
                el = Term('elem', q.open, kind=elem_kind(q.open))
                rs = apply_to(E, s1, a[0], el, fr, n) if a[0] is not None else [(s1, el)]
                vals = []
                for s2, v in rs:
                    if isinstance(v, Raised):
                        out.append((s2, v))
                    else:
                        vals.append(E.val(s2, v))
                op = Term('map', q.open, Tup(tuple(sorted(set(vals), key=repr))))
            out.append(E.new(s1, ListO(acc, op)))
        return out
    return then(E.iterate(st, a[1], fr, n), go)


def b_filter(E, st, a, kw, fr, n):
    def go(s, q):
        if q.open is not None:
            return [E.new(s, ListO((), Term('filter', E.val(s, a[0]), E.seqterm(q))))]
        cur = [(s, [])]
        for x in q.items:
            nxt = []
            for s1, acc in cur:
                if isinstance(acc, Raised):
                    nxt.append((s1, acc))
                    continue
                rs = E.call(s1, a[0], [x], {}, fr, n) if a[0] is not None else [(s1, x)]
                for s2, v in rs:
                    if isinstance(v, Raised):
                        nxt.append((s2, v))
                    else:
                        nxt.extend((s3, acc + [x] if t else acc) for s3, t in E.truth(s2, v, fr, n))
            cur = nxt
        out = []
        for s1, acc in cur:
            out.append((s1, acc) if isinstance(acc, Raised) else E.new(s1, ListO(acc)))
        return out
    return then(E.iterate(st, a[1], fr, n), go)


def b_zip(E, st, a, kw, fr, n):
    cur = [(st, [])]
    for x in a:
        nxt = []
        for s, qs in cur:
            for s2, q in E.iterate(s, x, fr, n):
                nxt.append((s2, q if isinstance(q, Raised) else qs + [q]))
        cur = nxt
        bad = [c for c in cur if isinstance(c[1], Raised)]
        if bad:
            return bad
    out = []
    for s, qs in cur:
        if all(q.open is None for q in qs):
            out.append(E.new(s, ListO([Tup(t) for t in zip(*[q.items for q in qs])])))
        else:
            out.append(E.new(s, ListO((), Term('zip', *[E.seqterm(q) for q in qs]))))
    return out


def b_enumerate(E, st, a, kw, fr, n):
    base = a[1] if len(a) > 1 else kw.get('start', 0)

    def go(s, q):
        if isinstance(base, int) and q.open is None:
            return [E.new(s, ListO([Tup((i + base, x)) for i, x in enumerate(q.items)], None, 'iter'))]
        return [E.new(s, ListO((), Term('enumerate', E.seqterm(q)), 'iter'))]
    return then(E.iterate(st, a[0], fr, n), go)


def b_reversed(E, st, a, kw, fr, n):
    def go(s, q):
        if q.open is None:
            return [E.new(s, ListO(tuple(reversed(q.items)), None, 'iter'))]
        return [E.new(s, ListO((), Term('reversed', E.seqterm(q)), 'iter'))]
    return then(E.iterate(st, a[0], fr, n), go)


def in_order(E, st, items, a, kw, fr, n):
    """(state, items in order) when the order of the keys is known; else None."""
    cmpf = kw.get('cmp') if not a else a[0]
    key = kw.get('key') if len(a) < 2 else a[1]
    rev = kw.get('reverse', False) if len(a) < 3 else a[2]
    if cmpf is not None or not isinstance(rev, (bool, int)):
        return None
    keys = []
    for x in items:
        k = x
        if key is not None:
            rs = E.call(st, key, [x], {}, fr, n)
            if len(rs) != 1 or isinstance(rs[0][1], Raised):
                return None
            st, k = rs[0]
        if isinstance(k, Tup):
            k = plain(k)
            if k is None:
                return None
        elif not isconst(k) or (E.strings is not None and isinstance(k, str) and not k.isascii()):
            return None
        keys.append(k)
    try:
        at = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev))
    except TypeError:
        return None
    return st, [items[i] for i in at]


def b_sorted(E, st, a, kw, fr, n):
    def go(s, q):
        if q.open is None:
            r = in_order(E, s, q.items, a[1:], kw, fr, n)
            if r is not None:
                return [E.new(r[0], ListO(r[1]))]
        if q.open is None and len(q.items) <= 1:
            return [E.new(s, ListO(q.items))]
        return [E.new(s, ListO((), Term('sorted', E.seqterm(q), *[E.val(s, x) for x in a[1:]],
                                        *[Tup((k, E.val(s, v))) for k, v in sorted(kw.items())])))]
    return then(E.iterate(st, a[0], fr, n), go)


def b_sum(E, st, a, kw, fr, n):
    def go(s, q):
        if q.open is not None:
            return [(s, Lin.sym(Term('sum', E.seqterm(q), kind='int')))]
        cur = [(s, a[1] if len(a) > 1 else 0)]
        for x in q.items:
            cur = then(cur, lambda s, acc: E.binop(ast.Add(), acc, x, s, fr, n))
        return cur
    return then(E.iterate(st, a[0], fr, n), go)


def b_any(E, st, a, kw, fr, n):
    return _anyall(E, st, a, fr, n, True)


def b_all(E, st, a, kw, fr, n):
    return _anyall(E, st, a, fr, n, False)


def _anyall(E, st, a, fr, n, isany):
    def go(s, q):
        cur, out = [s], []
        for x in q.items:
            nxt = []
            for s1 in cur:
                for s0, x0 in E.force(s1, x):
                    for s2, t in E.truth(s0, x0, fr, n):
                        if isinstance(t, Raised):
                            out.append((s2, t))
                        elif t == isany:
                            out.append((s2, isany))
                        else:
                            nxt.append(s2)
            cur = [c[0] for c in E.join([(c, None) for c in nxt])]
        for s1 in cur:
            if q.open is not None:
                out.append((s1, BoolT(('any' if isany else 'all', q.open), TRUE)))
            else:
                out.append((s1, not isany))
        return out
    return then(E.iterate(st, a[0], fr, n), go)


def b_ord(E, st, a, kw, fr, n):
    v = a[0]
    if isinstance(v, str):
        return [(st, ord(v))] if len(v) == 1 else exc(st, 'TypeError', n, fr)
    if isint(v):
        return exc(st, 'TypeError', n, fr)
    if isinstance(v, Term) and v.op == 'chr':
        return [(st, v.args[0])]
    t = Term('ord', E.val(st, v), kind='int')
    E.domains.setdefault(t, IntSet.range(0, 255))
    return [(st, Lin.sym(t))]


def b_chr(E, st, a, kw, fr, n):
    v = E.norm(st, a[0])
    if isinstance(v, int):
        return [(st, chr(v))] if 0 <= v < 256 else exc(st, 'ValueError', n, fr)
    if isinstance(v, Lin):
        out = []
        b = E.lin_in(st, v, IntSet.range(0, 255))
        for s, t in E.truth(st, b, fr, n):
            out.append((s, Term('chr', E.norm(s, v), kind='str') if t else Raised(PYEXC['ValueError'], n, fr)))
        return out
    return [(st, Term('chr', E.val(st, v), kind='str'))]


def b_repr(E, st, a, kw, fr, n):
    if isinstance(a[0], (int, bool, type(None))):
        return [(st, repr(a[0]))]
    if type(a[0]) is str and a[0].isascii() or isinstance(a[0], Tup) and plain(a[0]) is not None:
        return [(st, repr(a[0] if isinstance(a[0], str) else plain(a[0])))]
    return [(st, Term('repr', E.val(st, a[0]), kind='str'))]


def b_hex(E, st, a, kw, fr, n):
    if type(a[0]) is int:
        return [(st, hex(a[0]))]
    return [(st, Term('call', Builtin('hex'), E.val(st, a[0])))]


def b_cmp(E, st, a, kw, fr, n):
    def more(s, lt):
        return [(s3, v) for s2, t in E.truth(s, lt, fr, n) for s3, v in (
            [(s2, -1)] if t else then(E.compare(ast.Gt(), a[0], a[1], s2, fr, n), lambda s, gt: [
                (s4, 1 if g else 0) for s4, g in E.truth(s, gt, fr, n)]))]
    return then(E.compare(ast.Lt(), a[0], a[1], st, fr, n), more)


def b_apply(E, st, a, kw, fr, n):
    args = then(E.iterate(st, a[1], fr, n), lambda s, q: [(s, q)]) if len(a) > 1 else [(st, ListO(()))]
    if len(a) > 2 or any(isinstance(q, Raised) or q.open is not None for s, q in args):
        return [(st, Term('call', Builtin('apply'), *[E.val(st, x) for x in a]))]
    return [r for s, q in args for r in E.call(s, a[0], list(q.items), {}, fr, n)]


def b_iter(E, st, a, kw, fr, n):
    if isinstance(a[0], Ref) and isinstance(E.obj(st, a[0]), ListO) and E.obj(st, a[0]).kind == 'iter':
        return [(st, a[0])]
    return then(E.iterate(st, a[0], fr, n), lambda s, q: [E.new(s, ListO(q.items, q.open, 'iter'))])


def b_next(E, st, a, kw, fr, n):
    o = E.obj(st, a[0]) if isinstance(a[0], Ref) else None
    if isinstance(o, Inst):
        f, c = o.cls.find('next')
        if f is None:
            return exc(st, 'TypeError', n, fr)
        return E.call(st, Bound(a[0], f), [], {}, fr, n)
    if isinstance(a[0], (Tup, str, int, Lin, DictO)) or isinstance(o, (DictO, ListO)) and not (isinstance(o, ListO) and o.kind == 'iter'):
        return exc(st, 'TypeError', n, fr)
    if o is None:
        raise AnalysisError('next of %r' % (a[0],))
    if o.items:
        return [(st.put(a[0], ListO(o.items[1:], o.open, 'iter')), o.items[0])]
    if o.open is None:
        return [(st, a[1])] if len(a) > 1 else exc(st, 'StopIteration', n, fr)
    out = []
    s = E.constrain(st, ('empty', o.open), FALSE)
    if s is not None:
        out.append((s.put(a[0], ListO((), Term('rest', o.open), 'iter')), Term('elem', o.open, kind=elem_kind(o.open))))
    s = E.constrain(st, ('empty', o.open), TRUE)
    if s is not None:
        s = s.put(a[0], ListO((), None, 'iter'))
        out.extend([(s, a[1])] if len(a) > 1 else exc(s, 'StopIteration', n, fr))
    return out


def b_callable(E, st, a, kw, fr, n):
    v = a[0]
    if isinstance(v, (Fn, Cls, Bound, Builtin, Meth)):
        return [(st, True)]
    if isconst(v) or isinstance(v, (Tup, Lin)):
        return [(st, False)]
    if isinstance(v, Ref):
        o = E.obj(st, v)
        return [(st, isinstance(o, Inst) and o.cls.find('__call__')[0] is not None)]
    return [(st, BoolT(('callable', E.val(st, v)), TRUE))]


def b_super(E, st, a, kw, fr, n):
    return [(st, Super(a[0], a[1]))]


def b_id(E, st, a, kw, fr, n):
    return [(st, Term('id', a[0] if isinstance(a[0], Ref) else E.val(st, a[0]), kind='int'))]


def b_hash(E, st, a, kw, fr, n):
    v = a[0]
    if isinstance(v, Ref):
        o = E.obj(st, v)
        if isinstance(o, (ListO, DictO)):
            return exc(st, 'TypeError', n, fr)
        f, c = o.cls.find('__hash__')
        if f is not None:
            if f is None:
                return exc(st, 'TypeError', n, fr)
            return E.call(st, Bound(v, f), [], {}, fr, n)
        return [(st, Term('idhash', v, kind='int'))]
    if isinstance(v, Tup):
        cur = [(st, ())]
        for x in v.items:
            cur = then(cur, lambda s, acc: then(b_hash(E, s, [x], {}, fr, n), lambda s, h: [(s, acc + (h,))]))
        return [(s, h if isinstance(h, Raised) else Term('hash', Tup(h), kind='int')) for s, h in cur]
    return [(st, Term('hash', E.val(st, v), kind='int'))]


def b_reduce(E, st, a, kw, fr, n):
    def go(s, q):
        if q.open is not None:
            return [(s, Term('reduce', E.val(s, a[0]), E.seqterm(q)))]
        items = list(q.items)
        if len(a) > 2:
            acc = a[2]
        elif items:
            acc = items.pop(0)
        else:
            return exc(s, 'TypeError', n, fr)
        cur = [(s, acc)]
        for x in items:
            cur = then(cur, lambda s, acc: E.call(s, a[0], [acc, x], {}, fr, n))
        return cur
    return then(E.iterate(st, a[1], fr, n), go)


def b_vars(E, st, a, kw, fr, n):
    if a and isinstance(a[0], Ref) and isinstance(E.obj(st, a[0]), Inst):
        return [(st, InstDict(a[0]))]
    return [(st, Term('vars'))]


def b_open(E, st, a, kw, fr, n):
    return E.call_ext(st, 'file', a, kw, fr, n)


def b_file(E, st, a, kw, fr, n):
    return E.call_ext(st, 'file', a, kw, fr, n)


# types ---------------------------------------------------------------------
def b_int(E, st, a, kw, fr, n):
    if not a:
        return [(st, 0)]
    if len(a) > 1:
        if isinstance(a[0], str) and isinstance(a[1], int):
            try:
                return [(st, int(a[0], a[1]))]
            except ValueError:
                return exc(st, 'ValueError', n, fr)
        return [(st, Lin.sym(Term('int', E.val(st, a[0]), a[1], kind='int')))]
    return toint(E, st, a[0], fr, n)


b_long = b_int


def b_str(E, st, a, kw, fr, n):
    return tostr(E, st, a[0], fr, n) if a else [(st, '')]


b_unicode = b_str


def b_float(E, st, a, kw, fr, n):
    v = a[0] if a else 0.0
    if isinstance(v, (int, float)):
        return [(st, float(v))]
    if v is None:
        return exc(st, 'TypeError', n, fr)
    if isinstance(v, str):
        try:
            return [(st, float(v))]
        except ValueError:
            return exc(st, 'ValueError', n, fr)
    t = Term('float', E.val(st, v), kind='float')
    if isint(v) or (isinstance(v, Term) and v.kind == 'int'):
        return [(st, t)]
    return [(s, t if ok else Raised(PYEXC['ValueError'], n, fr)) for s, ok in
            E.split(st, ('isfloat', E.val(st, v)), TRUE)]


def b_bool(E, st, a, kw, fr, n):
    if not a:
        return [(st, False)]
    v = a[0]
    if isinstance(v, BoolT):
        return [(st, v)]
    if isinstance(v, Lin):
        return [(st, E.lin_in(st, v, IntSet.of(0).compl()))]
    if isinstance(v, Term) and v.kind != 'int':
        return [(st, E.norm(st, BoolT(('truth', v), TRUE)))]
    return E.truth(st, v, fr, n)


def b_tuple(E, st, a, kw, fr, n):
    if not a:
        return [(st, Tup(()))]
    if isinstance(a[0], Tup):
        return [(st, a[0])]
    return then(E.iterate(st, a[0], fr, n), lambda s, q: mklist(E, s, q, 'tuple'))


def b_list(E, st, a, kw, fr, n):
    if not a:
        return [E.new(st, ListO(()))]
    return then(E.iterate(st, a[0], fr, n), lambda s, q: mklist(E, s, q))


def b_set(E, st, a, kw, fr, n):
    if not a:
        return [E.new(st, ListO((), None, 'set'))]
    return then(E.iterate(st, a[0], fr, n), lambda s, q: mklist(E, s, q, 'set'))


b_frozenset = b_set


def b_dict(E, st, a, kw, fr, n):
    op = kw.pop('**', None) if '**' in kw else None
    if not a:
        return [E.new(st, DictO(dict(kw), op))]
    v = a[0]
    if isinstance(v, Ref) and isinstance(E.obj(st, v), DictO):
        o = E.obj(st, v)
        d = dict(o.items)
        d.update(kw)
        return [E.new(st, DictO(d, o.open))]
    if isinstance(v, InstDict):
        d = dict(E.obj(st, v.ref).attrs)
        d.update(kw)
        return [E.new(st, DictO(d, None))]

    def go(s, q):
        cur = [(s, {})]
        op = q.open
        for x in q.items:
            nxt = []
            for s1, d in cur:
                if isinstance(d, Raised):
                    nxt.append((s1, d))
                    continue
                for s2, pair in E.iterate(s1, x, fr, n):
                    if isinstance(pair, Raised):
                        nxt.append((s2, pair))
                    elif pair.open is None and len(pair.items) == 2:
                        d2 = dict(d)
                        d2[E.norm(s2, pair.items[0])] = pair.items[1]
                        nxt.append((s2, d2))
                    elif pair.open is None:
                        nxt.append((s2, Raised(PYEXC['ValueError'], n, fr)))
                    else:
                        nxt.append((s2, d))
            cur = nxt
        out = []
        for s1, d in cur:
            if isinstance(d, Raised):
                out.append((s1, d))
            else:
                d = dict(d)
                d.update(kw)
                out.append(E.new(s1, DictO(d, op)))
        return out
    return then(E.iterate(st, v, fr, n), go)


def b_type(E, st, a, kw, fr, n):
    if len(a) == 1:
        t = typeof(E, st, a[0])
        return [(st, t if t is not None else Term('type', E.val(st, a[0])))]
    return [(st, Term('call', Builtin('type')))]


def b_property(E, st, a, kw, fr, n):
    return [(st, Wrapped('property', a[0] if a else kw.get('fget'), a[1] if len(a) > 1 else kw.get('fset')))]


def b_staticmethod(E, st, a, kw, fr, n):
    return [(st, Wrapped('staticmethod', a[0]))]


def b_classmethod(E, st, a, kw, fr, n):
    return [(st, Wrapped('classmethod', a[0]))]


def b_object(E, st, a, kw, fr, n):
    return [E.new(st, Inst(OBJECT, {}))]


def b_object___new__(E, st, a, kw, fr, n):
    if isinstance(a[0], Cls):
        return [E.new(st, Inst(a[0], {}))]
    return [(st, Term('new', E.val(st, a[0])))]


def b_object___init__(E, st, a, kw, fr, n):
    return [(st, None)]


def b_object___setattr__(E, st, a, kw, fr, n):
    o, nm, v = a
    if isinstance(o, Ref) and isinstance(nm, str):
        return [(E.raw_setattr(st, o, nm, v, fr, n), None)]
    return [(st.event('setattr-dyn', E.val(st, o), E.val(st, nm), E.val(st, v)), None)]


def b_object___delattr__(E, st, a, kw, fr, n):
    o, nm = a
    ob = E.obj(st, o)
    at = dict(ob.attrs)
    at.pop(nm, None)
    return [(st.put(o, Inst(ob.cls, at, ob.tag)), None)]


def b_object___hash__(E, st, a, kw, fr, n):
    return [(st, Term('idhash', a[0], kind='int'))]


def b_object___getattribute__(E, st, a, kw, fr, n):
    o, nm = a
    ob = E.obj(st, o)
    v, c = ob.cls.find(nm)
    if nm in ob.attrs:
        return E.force(st, ob.attrs[nm])
    if isinstance(v, Fn):
        return [(st, Bound(o, v))]
    if c is not None:
        return E.force(st, v)
    return E.noattr(st, fr, n)


def b_globals(E, st, a, kw, fr, n):
    return [E.new(st, DictO(dict(E.modns[fr.mod])))]


def b_dict_fromkeys(E, st, a, kw, fr, n):
    def go(s, q):
        return [E.new(s, DictO({k: (a[1] if len(a) > 1 else None) for k in q.items}, q.open))]
    return then(E.iterate(st, a[0], fr, n), go)


# methods of builtin values ----------------------------------------------------
def call_method(E, st, o, name, args, kw, fr, n):
    for i, a in enumerate(args):
        if isinstance(a, Choice):
            out = []
            for s, x in E.force(st, a):
                out.extend(call_method(E, s, o, name, args[:i] + [x] + args[i + 1:], kw, fr, n))
            return out
    if isinstance(o, Ref):
        ob = E.obj(st, o)
        if isinstance(ob, ListO):
            return m_list(E, st, o, ob, name, args, kw, fr, n)
        return m_dict(E, st, o, ob, name, args, kw, fr, n)
    if isinstance(o, InstDict):
        ob = E.obj(st, o.ref)
        d = DictO(dict(ob.attrs), None)
        if name in ('get', 'has_key', 'keys', 'values', 'items', '__getitem__', '__contains__', 'copy', 'iteritems'):
            return m_dict(E, st, o, d, name, args, kw, fr, n)
        if name in ('update', 'setdefault', 'pop'):
            s, r = E.new(st, d)
            out = []
            for s2, v in m_dict(E, s, r, d, name, args, kw, fr, n):
                if isinstance(v, Raised):
                    out.append((s2, v))
                else:
                    nd = E.obj(s2, r)
                    out.append((s2.put(o.ref, Inst(ob.cls, dict(nd.items), ob.tag)), v))
            return out
    if isinstance(o, Tup):
        if name == 'index':
            return b_index(E, st, o.items, args, fr, n)
        if name == 'count':
            return [(st, Term('count', o, E.val(st, args[0]), kind='int'))]
        if name == '__getitem__':
            return E.getitem(st, o, args[0], fr, n)
        if name == '__len__':
            return [(st, len(o.items))]
    if isstr(o):
        return m_str(E, st, o, name, args, kw, fr, n)
    return [(st, Term('mcall', name, E.val(st, o) if not isinstance(o, Wrapped) else 'wrapped', *[E.val(st, a) for a in args]))]


def b_index(E, st, items, args, fr, n):
    out, cur = [], [st]
    for i, x in enumerate(items):
        nxt = []
        for s in cur:
            for s1, r in E.compare(ast.Eq(), x, args[0], s, fr, n):
                if isinstance(r, Raised):
                    out.append((s1, r))
                    continue
                for s2, t in E.truth(s1, r, fr, n):
                    if t:
                        out.append((s2, i))
                    else:
                        nxt.append(s2)
        cur = nxt
    return out + [(s, Raised(PYEXC['ValueError'], n, fr)) for s in cur]


def m_list(E, st, ref, o, name, a, kw, fr, n):
    items, op, kind = o.items, o.open, o.kind
    if kind == 'iter':
        return b_next(E, st, [ref], {}, fr, n) if name == 'next' else [(st, ref)]

    def up(s, its, opn, v=None):
        return [(s.put(ref, ListO(its, opn, kind)), v)]
    if name == 'append':
        if op is None:
            return up(st, items + (a[0],), None)
        return up(st, items, Term('concat', op, Tup((E.val(st, a[0]),))))
    if name == 'add':
        if op is None:
            return up(st, dedup(items + (a[0],)), None)
        return up(st, (), Term('add', E.val(st, ref), E.val(st, a[0])))
    if name in ('extend', 'update'):
        def ext(s, q):
            its = tuple(q.items) if kind != 'set' else q.items
            if op is None:
                r = items + its
                return up(s, dedup(r) if kind == 'set' else r, q.open)
            return up(s, items, Term('concat', op, E.seqterm(q)))
        return then(E.iterate(st, a[0], fr, n), ext)
    if name == 'insert':
        if op is None and isinstance(a[0], int):
            l = list(items)
            l.insert(a[0], a[1])
            return up(st, l, None)
        if isinstance(a[0], int) and a[0] == 0:
            return up(st, (a[1],) + items, op)
        return up(st, (), Term('insert', E.val(st, ref), E.val(st, a[0]), E.val(st, a[1])))
    if name in ('remove', 'discard'):
        if op is None:
            out, cur = [], [st]
            for i, x in enumerate(items):
                nxt = []
                for s in cur:
                    for s1, r in E.compare(ast.Eq(), x, a[0], s, fr, n):
                        for s2, t in E.truth(s1, r, fr, n):
                            if t:
                                out.extend(up(s2, items[:i] + items[i + 1:], None))
                            else:
                                nxt.append(s2)
                cur = nxt
            miss = (lambda s: (s, None)) if name == 'discard' else (lambda s: (s, Raised(PYEXC['ValueError'], n, fr)))
            return out + [miss(s) for s in cur]
        out = up(st, (), Term('remove', E.val(st, ref), E.val(st, a[0])))
        if name == 'remove' and fr.tries:
            out.append((st, Raised(PYEXC['ValueError'], n, fr)))
        return out
    if name == 'pop':
        i = a[0] if a else -1
        if op is None:
            if isinstance(i, int):
                if not -len(items) <= i < len(items):
                    return exc(st, 'IndexError', n, fr)
                l = list(items)
                v = l.pop(i)
                return [(s2, x) for s2, x in E.force(st.put(ref, ListO(l, None, kind)), v)]
        elif items and i == 0:
            return up(st, items[1:], op, items[0])
        out = []
        for s, e in E.split(st, ('empty', op), TRUE) if op is not None else [(st, False)]:
            if e and not items:
                out.append((s, Raised(PYEXC['IndexError'], n, fr)))
            else:
                t = Term('popped', E.val(s, ref), E.val(s, i))
                out.extend(up(s, (), Term('pop', E.val(s, ref), E.val(s, i)), t))
        return out
    if name == 'reverse':
        if op is None:
            return up(st, tuple(reversed(items)), None)
        return up(st, (), Term('reversed', E.seqterm(o)))
    if name == 'sort':
        if op is None:
            r = in_order(E, st, items, a, kw, fr, n)
            if r is not None:
                return up(r[0], r[1], None)
        return up(st, (), Term('sorted', E.val(st, ref), *[E.val(st, x) for x in a],
                               *[Tup((k, E.val(st, v))) for k, v in sorted(kw.items())]))
    if name == 'index':
        if op is None:
            return b_index(E, st, items, a, fr, n)
        t = Term('index', E.val(st, ref), E.val(st, a[0]), kind='int')
        E.domains.setdefault(t, IntSet.range(0, INF))
        return [(st, Lin.sym(t)), (st, Raised(PYEXC['ValueError'], n, fr))]
    if name == 'count' and op is None:
        cur = [(st, 0)]
        for x in items:
            cur = then(cur, lambda s, k: then(E.compare(ast.Eq(), x, a[0], s, fr, n), lambda s, r: [
                (s2, k + 1 if t else k) for s2, t in E.truth(s, r, fr, n)]))
        return cur
    if name == 'count':
        return [(st, Lin.sym(Term('count', E.val(st, ref), E.val(st, a[0]), kind='int')))]
    if name == 'clear':
        return up(st, (), None)
    if name == 'copy':
        return [E.new(st, o)]
    if name in ('union', 'intersection', 'difference'):
        def go(s, q):
            if op is None and q.open is None and all(isconst(x) for x in items + tuple(q.items)):
                A, B = list(items), list(q.items)
                r = {'union': dedup(A + B), 'intersection': [x for x in A if x in B],
                     'difference': [x for x in A if x not in B]}[name]
                return [E.new(s, ListO(r, None, 'set'))]
            return [E.new(s, ListO((), Term(name, E.val(s, ref), E.seqterm(q)), 'set'))]
        return then(E.iterate(st, a[0], fr, n), go)
    if name in ('issubset', 'issuperset') and op is None and all(isconst(x) for x in items):
        def sub(s, q):
            if q.open is not None or not all(isconst(x) for x in q.items):
                return [(s, Term('mcall', name, E.val(s, ref), E.seqterm(q)))]
            A, B = set(items), set(q.items)
            return [(s, A <= B if name == 'issubset' else A >= B)]
        return then(E.iterate(st, a[0], fr, n), sub)
    if name == '__len__':
        return lenof(E, st, ref, fr, n)
    if name == '__getitem__':
        return E.getitem(st, ref, a[0], fr, n)
    if name == '__iter__':
        return [(st, ref)]
    return [(st, Term('mcall', name, E.val(st, ref), *[E.val(st, x) for x in a]))]


def m_dict(E, st, ref, o, name, a, kw, fr, n):
    if name == 'get':
        d = a[1] if len(a) > 1 else kw.get('default')
        if o.open is not None and not (hashable(a[0]) and a[0] in o.items):
            return [(st, Term('item', o.open, E.val(st, a[0]))), (st, d)]
        return E.dict_get(st, o, ref, a[0], fr, n, d)
    if name in ('has_key', '__contains__'):
        return E.contains(st, ref if isinstance(ref, Ref) else Tup(tuple(o.items)), a[0], fr, n)
    if name in ('keys', 'iterkeys'):
        return [E.new(st, ListO(tuple(o.items), o.open))]
    if name in ('values', 'itervalues'):
        return [E.new(st, ListO(tuple(o.items.values()), Term('values', o.open) if o.open is not None else None))]
    if name in ('items', 'iteritems'):
        return [E.new(st, ListO([Tup((k, v)) for k, v in o.items.items()],
                                Term('items', o.open) if o.open is not None else None))]
    if name == 'copy':
        return [E.new(st, o)]
    if name == 'clear':
        return [(st.put(ref, DictO({}, None)), None)]
    if name == 'update':
        d, op = dict(o.items), o.open
        def fin(s, d, op):
            d = dict(d)
            kk = dict(kw)
            op2 = kk.pop('**', None)
            d.update(kk)
            if op2 is not None:
                op = Term('update', op, op2) if op is not None else op2
            return [(s.put(ref, DictO(d, op)), None)]
        if not a:
            return fin(st, d, op)
        v = a[0]
        if isinstance(v, Ref) and isinstance(E.obj(st, v), DictO):
            x = E.obj(st, v)
            d.update(x.items)
            if x.open is not None:
                op = Term('update', op, x.open) if op is not None else x.open
                return fin(st, {}, Term('updated', E.val(st, ref), E.val(st, v)))
            return fin(st, d, op)
        if isinstance(v, InstDict):
            d.update(E.obj(st, v.ref).attrs)
            return fin(st, d, op)
        if isinstance(v, (Term, Ext)):
            return fin(st, {}, Term('updated', E.val(st, ref), E.val(st, v)))

        def go(s, r):
            x = E.obj(s, r)
            d2 = dict(d)
            d2.update(x.items)
            return fin(s, d2, x.open or op)
        return then(b_dict(E, st, [v], {}, fr, n), go)
    if name == 'setdefault':
        k = a[0]
        if hashable(k) and k in o.items:
            return E.force(st, o.items[k])
        d = dict(o.items)
        d[k] = a[1] if len(a) > 1 else None
        if o.open is not None:
            return [(st, Term('item', o.open, E.val(st, k)))]
        return [(st.put(ref, DictO(d, o.open)), d[k])]
    if name == 'pop':
        k = E.norm(st, a[0])
        if hashable(k) and k in o.items:
            d = dict(o.items)
            v = d.pop(k)
            return E.force(st.put(ref, DictO(d, o.open)), v)
        if o.open is None and isconst(k):
            return [(st, a[1])] if len(a) > 1 else exc(st, 'KeyError', n, fr)
        t = Term('item', E.val(st, ref), E.val(st, k))
        out = [(st.put(ref, DictO({}, Term('popped', E.val(st, ref), E.val(st, k)))), t)]
        out.append((st, a[1]) if len(a) > 1 else (st, Raised(PYEXC['KeyError'], n, fr)))
        return out
    if name in ('__getitem__',):
        return E.getitem(st, ref, a[0], fr, n)
    if name == '__setitem__':
        return [(s, c[1] if isinstance(c, tuple) else None) for s, c in E.setitem(st, ref, a[0], a[1], fr, n)]
    return [(st, Term('mcall', name, E.val(st, ref) if isinstance(ref, Ref) else Term('instdict'), *[E.val(st, x) for x in a]))]


STRRET = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'join', 'title', 'capitalize', 'format', 'expandtabs',
          'center', 'ljust', 'rjust', 'zfill', 'encode', 'decode', 'translate', 'swapcase'}


def m_str(E, st, o, name, a, kw, fr, n):
    a = [E.norm(st, x) for x in a]
    if name == 'join':
        def go(s, q):
            if q.open is None:
                cur = [(s, [])]
                for x in q.items:
                    nxt = []
                    for s1, acc in cur:
                        for s2, y in E.force(s1, x):
                            nxt.append((s2, acc + [y]))
                    cur = nxt
                out = []
                for s1, acc in cur:
                    if any(isint(x) or x is None or isinstance(x, Tup) for x in acc):
                        out.append((s1, Raised(PYEXC['TypeError'], n, fr)))
                        continue
                    r = ''
                    for i, x in enumerate(acc):
                        if i:
                            r = concat(r, o)
                        r = concat(r, x if isstr(x) else Term('asstr', E.val(s1, x), kind='str'))
                    out.append((s1, r))
                return out
            return [(s, Term('join', o, E.seqterm(q), kind='str'))]
        if any(isinstance(x, Choice) for x in getattr(E.obj(st, a[0]) if isinstance(a[0], Ref) else None, 'items', ())):
            # keep the choices: an element-wise join
            q = E.obj(st, a[0])
            return [(st, Term('joinseq', o, Tup(q.items), kind='str'))]
        return then(E.iterate(st, a[0], fr, n), go)
    if isinstance(o, str) and all(isconst(x) or isinstance(x, Tup) and all(isconst(y) for y in x.items) for x in a) and not kw:
        pa = [tuple(x.items) if isinstance(x, Tup) else x for x in a]
        if name == 'decode':
            return [(st, UStr(o))]
        if name == 'encode':
            return [(st, o)]
        m = getattr(str, name, None)
        if m is not None:
            try:
                r = E.strings.method(o, name, pa) if E.strings is not None and E.strings.has(o, *pa) else None
                if r is None or r is E.strings.BLANK:
                    r = m(o, *pa)
            except ValueError:
                return exc(st, 'ValueError', n, fr)
            except (TypeError, AttributeError):
                return exc(st, 'TypeError', n, fr)
            if isinstance(r, list):
                return [E.new(st, ListO(r))]
            if isinstance(r, tuple):
                return [(st, Tup(r))]
            return [(st, r)]
    if name == 'format' and isinstance(o, str):
        p = percents(o, a, kw)
        if p is not None:
            return E.binop(ast.Mod(), p[0], Tup(tuple(p[1])), st, fr, n)
    vals = [E.val(st, x) for x in a]
    if name == 'split' and len(a) == 1 and isinstance(a[0], str) and a[0] and not kw and isinstance(o, Term):
        parts = [['']]
        for x in (o.args if o.op == 'cat' else (o,)):
            if isinstance(x, str):
                ps = x.split(a[0])
                parts[-1].append(ps[0])
                parts.extend([p] for p in ps[1:])
            elif isinstance(x, Term) and (x.op in ('word', 'char') or
                                          x.op == 'str' and isint(x.args[0]) and not any(c in '-0123456789' for c in a[0])):
                parts[-1].append(x)      # contract of WORD/CHAR: free of separators
            else:
                break
        else:
            out = []
            for p in parts:
                r = ''
                for x in p:
                    r = concat(r, x)
                out.append(r)
            return [E.new(st, ListO(out))]
    if name in ('split', 'splitlines', 'rsplit'):
        return [E.new(st, ListO((), Term('split' if name != 'splitlines' else 'splitlines', o, *vals)))]
    if name in ('partition', 'rpartition'):
        return [(st, Tup(tuple(Term(name, o, *(vals + [i]), kind='str') for i in range(3))))]
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isupper', 'islower', '__contains__', 'isalnum'):
        return [(st, E.norm(st, BoolT(('str.' + name, o) + tuple(vals), TRUE)))]
    if name in ('find', 'rfind', 'index', 'count', 'rindex', '__len__'):
        t = Term('str.' + name, o, *vals, kind='int')
        E.domains.setdefault(t, IntSet.range(-1 if 'find' in name else 0, INF))
        out = [(st, Lin.sym(t))]
        if 'index' in name:
            out.append((st, Raised(PYEXC['ValueError'], n, fr)))
        return out
    kind = 'str' if name in STRRET else None
    kws = [Tup((k, E.val(st, v))) for k, v in sorted(kw.items())]
    return [(st, Term('str.' + name, o, *(vals + kws), kind=kind))]


# external calls with a known meaning -----------------------------------------------
def call_ext(E, st, path, a, kw, fr, n):
    if path in ('copy.copy', 'copy.deepcopy'):
        v = a[0]
        if isinstance(v, Ref):
            o = E.obj(st, v)
            if isinstance(o, ListO):
                return [E.new(st, o)]
            if isinstance(o, DictO):
                return [E.new(st, o)]
            f, c = o.cls.find('__copy__')
            if f is not None and path == 'copy.copy':
                return E.call(st, Bound(v, f), [], {}, fr, n)
            return [E.new(st, Inst(o.cls, dict(o.attrs), o.tag))]
        return [(st, v)]
    if path.startswith('logging.') or path in ('warnings.warn', 'sys.stderr.write', 'sys.stdout.write'):
        return [(st, None)]
    if path == 'itertools.chain':
        def cat(s, qs):
            its, op = (), None
            for q in qs:
                its += tuple(q.items)
                if q.open is not None:
                    op = q.open if op is None else Term('concat', op, q.open)
            return [E.new(s, ListO(its, op, 'iter'))]
        cur = [(st, [])]
        for x in a:
            cur = then(cur, lambda s, qs: then(E.iterate(s, x, fr, n), lambda s, q: [(s, qs + [q])]))
        return then(cur, cat)
    if path == 'itertools.chain.from_iterable':
        return then(E.iterate(st, a[0], fr, n), lambda s, q: (
            call_ext(E, s, 'itertools.chain', list(q.items), {}, fr, n) if q.open is None else
            [(s, Term('call', Ext(path), E.seqterm(q)))]))
    if path == 'itertools.islice' and all(x is None or type(x) is int for x in a[1:]):
        def cut(s, q):
            if q.open is not None:
                return [(s, Term('call', Ext(path), E.seqterm(q), *a[1:]))]
            return [E.new(s, ListO(q.items[slice(*a[1:])], None, 'iter'))]
        return then(E.iterate(st, a[0], fr, n), cut)
    if path == 'itertools.repeat' and len(a) == 2 and type(a[1]) is int:
        return [E.new(st, ListO((a[0],) * a[1], None, 'iter'))]
    if path == 'itertools.starmap':
        return b_map(E, st, [('spread', a[0]), a[1]], {}, fr, n)
    if path == 'itertools.ifilter':
        return b_filter(E, st, a, kw, fr, n)
    if path in ('itertools.product', 'itertools.combinations', 'itertools.permutations') and not kw:
        seqs = a if path.endswith('product') else a[:1]
        cur = [(st, [])]
        for x in seqs:
            cur = then(cur, lambda s, qs: then(E.iterate(s, x, fr, n), lambda s, q: [(s, qs + [q])]))

        def combine(s, qs):
            rest = a[len(seqs):]
            if any(q.open is not None for q in qs) or not all(type(x) is int for x in rest):
                return [(s, Term('call', Ext(path), *[E.val(s, x) for x in a]))]
            f = getattr(itertools, path.split('.')[1])
            return [E.new(s, ListO([Tup(t) for t in f(*([q.items for q in qs] + list(rest)))], None, 'iter'))]
        return then(cur, combine)
    if path == 'functools.reduce':
        return b_reduce(E, st, a, kw, fr, n)
    if path in ('collections.OrderedDict',):
        return b_dict(E, st, a, kw, fr, n)
    if path == 'itertools.izip':
        return b_zip(E, st, a, kw, fr, n)
    if path == 'itertools.imap':
        return b_map(E, st, a, kw, fr, n)
    if path.startswith('operator.') and path.split('.')[1] in ('add', 'sub', 'mul', 'mod', 'floordiv', 'or_', 'and_', 'xor'):
        op = {'add': ast.Add(), 'sub': ast.Sub(), 'mul': ast.Mult(), 'mod': ast.Mod(),
              'floordiv': ast.FloorDiv(), 'or_': ast.BitOr(), 'and_': ast.BitAnd(), 'xor': ast.BitXor()}[path.split('.')[1]]
        return E.binop(op, a[0], a[1], st, fr, n)
    if path.startswith('operator.') and path.split('.')[1] in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'contains'):
        k = path.split('.')[1]
        if k == 'contains':
            return E.compare(ast.In(), a[1], a[0], st, fr, n)
        op = {'eq': ast.Eq(), 'ne': ast.NotEq(), 'lt': ast.Lt(), 'le': ast.LtE(), 'gt': ast.Gt(), 'ge': ast.GtE()}[k]
        return E.compare(op, a[0], a[1], st, fr, n)
    if path == 'math.pow':
        return [(st, Term('float', Term('pow', E.val(st, a[0]), E.val(st, a[1]))))]
    return None
