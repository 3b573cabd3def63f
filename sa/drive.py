"""Assertion verification by abstract interpretation.

A driver (drivers/*.py) is a small program over *abstract* inputs: SYM/ENUM/TERM make
unknowns, it calls the code under analysis, and CHECK states what must be true of the
abstract results.  The interpreter covers every disjunct; a CHECK that some disjunct
does not imply is a violation, reported with the construct it is about and the region
of abstract inputs on which it fails.  Drivers are analysed, never executed.
"""
import ast
import os

import front
import absint
from absint import (Engine, Frame, St, Raised, Fn, Cls, Builtin, Tup, Term, Ref, BoolT, Inst, ListO, DictO, PYEXC,
                    AnalysisError, isconst, BUILTINS, Ext, Bound)
from dom import IntSet, CSet, Lin, TOP, BOOL, INF

DRV = os.path.join(front.ROOT, 'drivers')


class Driver(object):
    def __init__(self, engine, chk):
        self.E, self.chk = engine, chk
        self.obligations = 0
        self.cases_run = 0
        self.labels = {}
        self.base_facts = {}
        for n in ('SYM', 'ENUM', 'TERM', 'STR', 'CHECK', 'FAIL', 'ANY', 'SAME', 'SNAP', 'EVENTS', 'ASSUME',
                  'FIELDS', 'MARK', 'OPENLIST', 'REFUTED', 'INST', 'SEQ', 'ISTERM', 'TERMOP', 'TERMARGS', 'DOM', 'EXCNAME',
                  'CONTAINS', 'NEW', 'CHAR', 'WORD'):
            BUILTINS[n] = Builtin('drv.' + n)
        import absbuiltins
        for n in dir(self):
            if n.startswith('d_'):
                setattr(absbuiltins, 'b_drv_' + n[2:], getattr(self, n))

    # --- driver primitives: (E, st, args, kw, fr, node)
    def d_SYM(self, E, st, a, kw, fr, n):
        lo = a[1] if len(a) > 1 else None
        hi = a[2] if len(a) > 2 else None
        dom = IntSet.range(-INF if lo is None else lo, INF if hi is None else hi)
        return [(st, E.sym(a[0], dom))]

    def d_ENUM(self, E, st, a, kw, fr, n):
        return [(st, E.sym(a[0], IntSet.of(*[int(x) for x in a[1:]])))]

    def d_TERM(self, E, st, a, kw, fr, n):
        return [(st, Term(*[a[0]] + [E.val(st, x) for x in a[1:]]))]

    def d_STR(self, E, st, a, kw, fr, n):
        return [(st, Term(*[a[0]] + [E.val(st, x) for x in a[1:]], kind='str'))]

    def d_CHAR(self, E, st, a, kw, fr, n):
        """One unknown character."""
        return [(st, Term('char', a[0], kind='str'))]

    def d_WORD(self, E, st, a, kw, fr, n):
        """Unknown text, possibly empty, without separators."""
        return [(st, Term('word', a[0], kind='str'))]

    def d_MARK(self, E, st, a, kw, fr, n):
        return [(st.event(*[snap(E, st, x) for x in a]), None)]

    def d_OPENLIST(self, E, st, a, kw, fr, n):
        return [E.new(st, ListO((), Term(a[0])))]

    def d_INST(self, E, st, a, kw, fr, n):
        """An instance of a class with given attributes, without running __init__."""
        return [E.new(st, Inst(a[0], dict(kw), None))]

    d_NEW = d_INST

    def where(self, anchor, n, fr):
        if isinstance(anchor, str):
            if '/' in anchor:
                return anchor       # a file
            try:
                v = self.E.resolve(anchor)
                return describe(self.E, v, anchor)
            except AnalysisError:
                raise
        return anchor

    def d_CHECK(self, E, st, a, kw, fr, n):
        """CHECK(cond, rule, anchor, detail...)"""
        out = []
        cond, rule = a[0], a[1]
        anchor = a[2] if len(a) > 2 else None
        self.obligations += 1
        self.labels[(rule, anchor)] = self.labels.get((rule, anchor), 0) + 1
        for s, x in E.force(st, cond):
            for s2, t in E.truth(s, x, fr, n):
                if isinstance(t, Raised):
                    out.append((s2, t))
                    continue
                if not t:
                    self.chk.violation(rule, anchor, self.where(anchor, n, fr),
                                       (self.case + ': ' if '(' in self.case else '') + 'region ' + show_facts(s2.facts, E) +
                                       (' | ' + ' '.join(show(E, s2, y) for y in a[3:]) if len(a) > 3 else ''))
                out.append((s2, None))
        return out

    def d_FAIL(self, E, st, a, kw, fr, n):
        return self.d_CHECK(E, st, [False] + list(a), kw, fr, n)

    def d_REFUTED(self, E, st, a, kw, fr, n):
        """True iff the condition is impossible in this disjunct (no split)."""
        rs = [t for s, x in E.force(st, a[0]) for s2, t in E.truth(s, x, fr, n)]
        return [(st, all(t is False for t in rs))]

    def d_ASSUME(self, E, st, a, kw, fr, n):
        return [(s2, None) for s, x in E.force(st, a[0]) for s2, t in E.truth(s, x, fr, n) if t is True]

    def d_SAME(self, E, st, a, kw, fr, n):
        x, y = E.val(st, a[0]), E.val(st, a[1])
        return [(st, type(x) is type(y) and x == y)]

    def d_SNAP(self, E, st, a, kw, fr, n):
        return [(st, snap(E, st, a[0]))]

    def d_DOM(self, E, st, a, kw, fr, n):
        return [(st, Term('dom', repr(a[0])))]

    def d_EVENTS(self, E, st, a, kw, fr, n):
        return [E.new(st, ListO([Tup(tuple(e)) for e in st.events if not a or e[0] in a]))]

    def d_ISTERM(self, E, st, a, kw, fr, n):
        return [(st, isinstance(a[0], Term) and (len(a) < 2 or a[0].op in a[1:]))]

    def d_EXCNAME(self, E, st, a, kw, fr, n):
        v = a[0]
        if isinstance(v, Ref):
            return [(st, E.obj(st, v).cls.name)]
        return [(st, getattr(v, 'name', repr(v)))]

    def d_TERMOP(self, E, st, a, kw, fr, n):
        v = E.norm(st, a[0])
        if isinstance(v, Lin) and v.issym() and isinstance(v.terms[0][0], Term):
            v = v.terms[0][0]
        return [(st, v.op if isinstance(v, Term) else None)]

    def d_TERMARGS(self, E, st, a, kw, fr, n):
        v = E.norm(st, a[0])
        if isinstance(v, Lin) and v.issym() and isinstance(v.terms[0][0], Term):
            v = v.terms[0][0]
        return [(st, Tup(tuple(v.args)) if isinstance(v, Term) else Tup(()))]

    def d_CONTAINS(self, E, st, a, kw, fr, n):
        return [(st, mentions(E.val(st, a[0]), E.val(st, a[1])))]

    # --- running
    def functions(self, filename):
        """Load a driver file; its check_* functions in order."""
        path = os.path.join(DRV, filename)
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        modname = 'drv_' + filename[:-3]
        E = self.E
        E.modpath[modname] = path
        E.trees[path] = tree
        E.modns.pop(modname, None)
        nerr = len(E.module_errors)
        ns = E.load(modname)
        for e in E.module_errors[nerr:]:
            if e[0] == modname or str(e[0]) == modname:
                raise AnalysisError('driver %s line %d: %r (anchor vanished?)' % (filename, e[1].lineno, e[2]))
        return [v for name, v in list(ns.items())
                if isinstance(v, Fn) and name.startswith('check_') and v.mod == modname]

    def run(self, filename, funcs=None, facts=None):
        done = []
        for v in self.functions(filename):
            if funcs is not None and v.node.name not in funcs:
                continue
            before = self.obligations
            for case in self.cases(v):
                self.cases_run += 1
                self.run_fn(v, facts, case)
            if self.obligations == before and not self.chk.viol:
                raise AnalysisError('driver %s states no obligation' % v.qual)
            done.append(v.node.name)
        return done

    def cases(self, v):
        """The product of the default values of the driver function's parameters."""
        E = self.E
        out = [()]
        for d in v.defaults:
            st = St({}, {}, {})
            (s, lo), = E.iterate(st, d, Frame(v.mod, None, v.mod), v.node)
            if lo.open is not None:
                raise AnalysisError('driver case list of %s is open' % v.qual)
            out = [c + (x,) for c in out for x in lo.items]
        return out

    def run_fn(self, v, facts=None, args=()):
        E = self.E
        fr = Frame(v.mod, None, v.mod)
        st = St({}, {}, dict(facts or {}))
        self.case = '%s%r' % (v.qual, tuple(args)) if args else v.qual
        outs = E.call_fn(st, v, list(args), {}, fr, v.node)
        for s, r in outs:
            if isinstance(r, Raised):
                fn = r.fr.qual if r.fr is not None else '?'
                if fn.startswith('drv_'):
                    ec = E.exc_class(s, r.exc)
                    if isinstance(ec, Cls) and ec.name in ('AttributeError', 'NameError', 'ImportError') and not r.onvalue:
                        raise AnalysisError('driver %s line %s: %s (anchor vanished?)' % (
                            fn, getattr(r.node, 'lineno', '?'), ec.name))
                    if r.node is None or E.exc_class(s, r.exc) in (PYEXC['TypeError'],):
                        pass
                self.chk.violation('unexpected-exception', fn + ':' + excname(E, s, r),
                                   '%s line %s' % (fn, getattr(r.node, 'lineno', '?')),
                                   '%s: %s escapes on region %s' % (self.case, excname(E, s, r), show_facts(s.facts, E)))
        return outs


def mentions(v, t):
    if type(v) is type(t) and v == t:
        return True
    if isinstance(v, Term):
        return any(mentions(x, t) for x in v.args)
    if isinstance(v, Tup):
        return any(mentions(x, t) for x in v.items)
    if isinstance(v, Lin):
        return any(mentions(s, t) for s, c in v.terms)
    return False


def excname(E, st, r):
    c = E.exc_class(st, r.exc)
    return c.name if isinstance(c, Cls) else repr(c)


def snap(E, st, v, depth=0):
    if isinstance(v, Ref):
        o = E.obj(st, v)
        if depth > 5:
            return Term('deep')
        if isinstance(o, Inst):
            return Term('obj', o.cls.qual, *[Tup((k, snap(E, st, x, depth + 1))) for k, x in sorted(o.attrs.items())])
        if isinstance(o, ListO):
            return Term(o.kind, Tup(tuple(snap(E, st, x, depth + 1) for x in o.items)), o.open)
        return Term('dict', Tup(tuple(sorted((Tup((k, snap(E, st, x, depth + 1))) for k, x in o.items.items()), key=repr))), o.open)
    if isinstance(v, Tup):
        return Tup(tuple(snap(E, st, x, depth + 1) for x in v.items))
    return E.norm(st, v)


def show(E, st, v):
    if isinstance(v, (str, int)) or v is None:
        return str(v)
    v = snap(E, st, v)
    r = repr(v)
    return r if len(r) < 300 else r[:300] + '...'


def show_facts(facts, E):
    out = []
    for k, d in sorted(facts.items(), key=lambda t: repr(t[0])):
        if k and isinstance(k[0], tuple):
            lhs = repr(Lin(tuple(k), 0))
        else:
            lhs = '%s' % (k,)
        out.append('%s in %r' % (lhs, d))
    s = '; '.join(out) or '(all)'
    return s if len(s) < 600 else s[:600] + '...'


def describe(E, v, dotted):
    node = getattr(v, 'node', None)
    mod = getattr(v, 'mod', None)
    if isinstance(v, Bound):
        node, mod = v.fn.node, v.fn.mod
    m = mod
    while m and m not in E.modpath:
        m = m.rpartition('.')[0]
    if node is not None and m:
        return '%s:%d %s' % (os.path.relpath(E.modpath[m], E.repo), node.lineno, dotted)
    return dotted
