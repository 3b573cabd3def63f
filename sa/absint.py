"""Abstract interpreter for the Python 2 subset bglib is written in.

Static: it walks the syntax tree of /repo's current sources; nothing of bglib is
imported or executed.  The abstract state of a program point is a finite set of
disjuncts (trace partitioning); a disjunct holds
  * an environment and a heap of abstract objects of known shape (tuples, lists,
    dicts, instances) whose leaves are constants, linear terms over named unknowns,
    lazily decided comparisons, or uninterpreted value-numbering terms, and
  * one interval set / constant set per compared term (non-relational domain).
A branch on a comparison refines that domain; disjuncts which differ in one
domain only are joined.  Loops over containers of known shape are followed
element by element; all others are summarised with the variables and objects
they assign widened to unknown.  There is no solver and no search for inputs.
"""
import ast
import builtins as _pyb
import os

import front
from dom import IntSet, CSet, Lin, TOP, BOOL, TRUE, FALSE, INF, lin_add, lin_scale


class AnalysisError(Exception):
    """The analysis cannot give an answer (unsupported construct, vanished anchor)."""


# ------------------------------------------------------------------ values
class V(object):
    __slots__ = ()


def _defval(name, fields):
    def __init__(self, *a):
        for f, v in zip(fields, a):
            object.__setattr__(self, f, v)
        object.__setattr__(self, '_h', hash((name,) + tuple(hk(v) for v in a)))

    def hk(v):
        return ('b', v) if isinstance(v, bool) else v

    def __eq__(self, o):
        if self is o:
            return True
        if type(self) is not type(o) or self._h != o._h:
            return False
        for f in fields:
            x, y = getattr(self, f), getattr(o, f)
            if type(x) is not type(y) or x != y:
                return False
        return True

    def __repr__(self):
        return '%s(%s)' % (name, ', '.join(repr(getattr(self, f)) for f in fields))
    return type(name, (V,), {'__slots__': tuple(fields) + ('_h',), '__init__': __init__,
                             '__eq__': __eq__, '__ne__': lambda s, o: not s == o,
                             '__hash__': lambda s: s._h, '__repr__': __repr__})


Tup = _defval('Tup', ['items'])            # tuple of known length
BoolT = _defval('BoolT', ['key', 'dom'])   # truth of: key in dom
Ext = _defval('Ext', ['path'])             # something outside bglib
ModV = _defval('ModV', ['name'])
Builtin = _defval('Builtin', ['name'])
Meth = _defval('Meth', ['obj', 'name'])    # builtin method of a builtin value
Bound = _defval('Bound', ['self', 'fn'])
InstDict = _defval('InstDict', ['ref'])
Super = _defval('Super', ['cls', 'obj'])
Choice = _defval('Choice', ['alts'])       # ((facts tuple, value), ...)
FloatT = _defval('FloatT', ['term'])


class Term(V):
    """Uninterpreted application: value numbering, equal iff built alike."""
    __slots__ = ('op', 'args', 'kind', '_h')

    def __init__(self, op, *args, **kw):
        self.op, self.args, self.kind = op, args, kw.get('kind')
        self._h = hash(('T', op) + tuple((type(a).__name__, a) for a in args))

    def __eq__(self, o):
        return (self is o) or (isinstance(o, Term) and self._h == o._h and self.op == o.op
                               and len(self.args) == len(o.args)
                               and all(type(x) is type(y) and x == y for x, y in zip(self.args, o.args)))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args))) if self.args else self.op


class Ref(V):
    __slots__ = ('n',)
    _next = [0]

    def __init__(self):
        Ref._next[0] += 1
        self.n = Ref._next[0]

    def __repr__(self):
        return '@%d' % self.n


class Slice(V):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return '%r:%r:%r' % (self.lo, self.hi, self.step)

    def __eq__(self, o):
        return isinstance(o, Slice) and (self.lo, self.hi, self.step) == (o.lo, o.hi, o.step)

    def __hash__(self):
        return hash(('sl', self.lo, self.hi, self.step))


class Fn(V):
    __slots__ = ('node', 'mod', 'qual', 'cells', 'defaults', 'locals', 'globals_', 'gen', 'cls')

    def __repr__(self):
        return '<fn %s>' % self.qual

    @property
    def argnames(self):
        return [a.arg for a in self.node.args.args]


class Cls(V):
    __slots__ = ('name', 'mod', 'qual', 'bases', 'attrs', 'node', 'order', 'builtin')

    def __init__(self, name, mod, bases, attrs, node=None, builtin=False):
        self.name, self.mod, self.bases, self.attrs, self.node = name, mod, bases, attrs, node
        self.qual = (mod + '.' + name) if mod else name
        self.builtin = builtin
        self.order = None

    def mro(self):
        if self.order is not None:
            return self.order
        out = []
        for b in [x for x in self.bases if isinstance(x, Cls)]:
            for c in b.mro():
                if c in out:
                    out.remove(c)
                out.append(c)
        self.order = [self] + out
        return self.order

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def isa(self, other):
        return other in self.mro()

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, Ext)]

    def __repr__(self):
        return '<class %s>' % self.qual


class Wrapped(V):
    """property / staticmethod / classmethod objects."""
    __slots__ = ('kind', 'fn', 'fset')

    def __init__(self, kind, fn, fset=None):
        self.kind, self.fn, self.fset = kind, fn, fset


# heap objects (treated as immutable; replaced on update)
_SIGS = {}


class HeapObj(object):
    """Heap objects are never changed once in a heap, so their signature is interned."""
    __slots__ = ('_sid',)

    def sid(self):
        try:
            return self._sid
        except AttributeError:
            self._sid = _SIGS.setdefault(self.sig(), len(_SIGS))
            return self._sid


class Inst(HeapObj):
    __slots__ = ('cls', 'attrs', 'tag')

    def __init__(self, cls, attrs, tag=None):
        self.cls, self.attrs, self.tag = cls, attrs, tag

    def sig(self):
        return ('I', self.cls.qual, tuple(sorted(((k, v) for k, v in self.attrs.items()), key=lambda t: t[0])))


def _stepping(n):
    """Variables that the end of a while loop depends on: in its test, in the tests of its breaks, or asked for the next element."""
    out = set()

    def names(e):
        out.update(x.id for x in ast.walk(e) if isinstance(x, ast.Name))
    if not isinstance(n.test, ast.Constant):
        names(n.test)
    for b in n.body:
        if isinstance(b, ast.If) and any(isinstance(x, (ast.Break, ast.Return)) for x in b.body + b.orelse):
            names(b.test)
            if isinstance(b.test, ast.Name):        # a condition that was given a name
                for c in n.body:
                    if isinstance(c, ast.Assign) and any(isinstance(t, ast.Name) and t.id == b.test.id for t in c.targets):
                        names(c.value)
        if isinstance(b, ast.Try):
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == 'next'
                                                or isinstance(x.func, ast.Attribute) and x.func.attr == 'next'):
                    names(x)
    return tuple(sorted(out))


class ListO(HeapObj):
    __slots__ = ('items', 'open', 'kind')

    def __init__(self, items, open=None, kind='list'):
        self.items, self.open, self.kind = tuple(items), open, kind

    def sig(self):
        return ('L', self.kind, self.items, self.open)


class DictO(HeapObj):
    __slots__ = ('items', 'open')

    def __init__(self, items, open=None):
        self.items, self.open = items, open

    def sig(self):
        return ('D', tuple(self.items.items()), self.open)


class Raised(object):
    __slots__ = ('exc', 'node', 'fr', 'onvalue')

    def __init__(self, exc, node=None, fr=None, onvalue=False):
        self.exc, self.node, self.fr = exc, node, fr
        self.onvalue = onvalue      # a missing attribute of a plain value, which no renaming explains

    def __repr__(self):
        return 'Raised(%r@%s)' % (self.exc, getattr(self.node, 'lineno', '?'))


class Frame(object):
    __slots__ = ('mod', 'fn', 'qual', 'depth', 'tries', 'caller', 'callnode')

    def __init__(self, mod, fn=None, qual='<module>', depth=0, tries=0, caller=None, callnode=None):
        self.mod, self.fn, self.qual, self.depth, self.tries = mod, fn, qual, depth, tries
        self.caller, self.callnode = caller, callnode


class St(object):
    __slots__ = ('env', 'heap', 'facts', 'events', 'yields')

    def __init__(self, env, heap, facts, events=(), yields=()):
        self.env, self.heap, self.facts, self.events, self.yields = env, heap, facts, events, yields

    def copy(self):
        return St(self.env, self.heap, self.facts, self.events, self.yields)

    def set(self, name, val):
        s = self.copy()
        s.env = dict(self.env)
        s.env[name] = val
        return s

    def with_env(self, env):
        s = self.copy()
        s.env = env
        return s

    def put(self, ref, obj):
        s = self.copy()
        s.heap = dict(self.heap)
        s.heap[ref] = obj
        return s

    def event(self, *e):
        s = self.copy()
        s.events = self.events + (e,)
        return s


PYEXC = {}


def _mkexc():
    names = ['BaseException', 'Exception', 'StandardError', 'ArithmeticError', 'LookupError', 'EnvironmentError',
             'AssertionError', 'AttributeError', 'EOFError', 'IOError', 'OSError', 'ImportError', 'IndexError',
             'KeyError', 'KeyboardInterrupt', 'NameError', 'UnboundLocalError', 'NotImplementedError',
             'RuntimeError', 'StopIteration', 'SystemExit', 'TypeError', 'ValueError', 'ZeroDivisionError',
             'UnicodeError', 'UnicodeDecodeError', 'UnicodeEncodeError', 'OverflowError', 'SyntaxError', 'EndlessLoop']
    base = {'BaseException': None, 'EndlessLoop': 'BaseException', 'Exception': 'BaseException', 'StandardError': 'Exception',
            'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException', 'StopIteration': 'Exception',
            'IOError': 'EnvironmentError', 'OSError': 'EnvironmentError', 'IndexError': 'LookupError',
            'KeyError': 'LookupError', 'UnboundLocalError': 'NameError', 'NotImplementedError': 'RuntimeError',
            'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
            'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError'}
    todo = list(names)
    while todo:
        n = todo.pop(0)
        b = base.get(n, 'StandardError')
        if b is not None and b not in PYEXC:
            todo.append(n)
            continue
        PYEXC[n] = Cls(n, '', [PYEXC[b]] if b else [], {}, builtin=True)


_mkexc()
OBJECT = Cls('object', '', [], {}, builtin=True)
TYPES = {n: Cls(n, '', [OBJECT], {}, builtin=True) for n in
         ('int', 'long', 'str', 'unicode', 'basestring', 'float', 'bool', 'tuple', 'list', 'dict', 'set',
          'frozenset', 'type', 'property', 'staticmethod', 'classmethod', 'file', 'NoneType', 'complex', 'slice')}
BUILTIN_FUNCS = ('len range xrange abs max min pow isinstance issubclass getattr setattr hasattr map filter zip '
                 'enumerate reversed sorted sum ord chr print repr iter any all callable super id hash reduce '
                 'divmod round unichr next vars dir exec eval open globals locals input raw_input cmp hex oct '
                 'delattr reload __import__ apply').split()
BUILTINS = dict(PYEXC)
BUILTINS.update(TYPES)
BUILTINS['object'] = OBJECT
for _n in BUILTIN_FUNCS:
    BUILTINS[_n] = Builtin(_n)
BUILTINS['NotImplemented'] = Ext('NotImplemented')
BUILTINS['Ellipsis'] = Ext('Ellipsis')
BUILTINS['__debug__'] = True
TEXTS = {'string.digits': '0123456789', 'string.hexdigits': '0123456789abcdefABCDEF',
         'string.octdigits': '01234567', 'string.ascii_lowercase': 'abcdefghijklmnopqrstuvwxyz',
         'string.ascii_uppercase': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ',
         'string.ascii_letters': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'}

CONST = (int, float, str, bytes, type(None), bool)


def isconst(v):
    return isinstance(v, CONST)


def isint(v):
    return isinstance(v, (int, Lin))


def then(rs, f):
    out = []
    for st, v in rs:
        if isinstance(v, Raised):
            out.append((st, v))
        else:
            out.extend(f(st, v))
    return out


LENDOM = IntSet.range(0, INF)


PLAIN = frozenset([int, bool, str, float, type(None), Ref, Cls, Fn, Bound, Builtin, ModV, Ext])


class Engine(object):
    MAXSTATES = 6000
    MAXDEPTH = 40
    LONGLOOP = 1000             # rounds of a loop, each of them decided, after which nobody waits any longer

    def __init__(self, repo=None):
        self.repo = repo or front.REPO
        files = front.bglib_files(self.repo)
        self.trees, self.digests = front.parse_files(files)
        self.modpath, self.pkg = {}, set()
        for p in files:
            rel = os.path.relpath(p, self.repo)[:-3].split(os.sep)
            if not all(x.isidentifier() for x in rel):
                continue              # a script (stat/3knockout.py): not importable
            if rel[-1] == '__init__':
                rel = rel[:-1]
                self.pkg.add('.'.join(rel))
            self.modpath['.'.join(rel)] = p
        self.base = {}                   # base heap: ref -> obj
        self.modns = {}
        self.loading = []
        self.domains = {}                # sym -> IntSet default
        self.hooks = {}                  # qualname -> handler
        self.exthooks = {}               # ext path -> handler
        self.methhooks = {}              # method name on Terms -> handler
        self.attrhooks = {}
        self.seen_fns = {}               # qual -> times entered
        self.nsplits = 0
        self.nstates = 0
        self.opaque_raises = False
        self.record_ext = False
        self.fresh = 0
        self.maxrec = 3
        self.watch = None   # classes whose attribute accesses are recorded as events
        self.split_loops = 0        # iterations of a while loop with an undecided condition that are followed one by one
        self.loop_mode = 'havoc'
        self.soft_loops = set()
        self.module_errors = []

    # -------------------------------------------------------- state utils
    def obj(self, st, ref):
        o = st.heap.get(ref)
        return o if o is not None else self.base.get(ref)

    def new(self, st, obj):
        r = Ref()
        return st.put(r, obj), r

    def start(self, facts=None):
        return St({}, {}, dict(facts or {}))

    def sym(self, name, dom=TOP):
        self.domains[name] = dom
        return Lin.sym(name)

    def dom(self, st, key):
        d = st.facts.get(key)
        if key and isinstance(key, tuple) and key and isinstance(key[0], tuple) and len(key[0]) == 2 \
                and isinstance(key[0][1], int):
            if len(key) == 1 and key[0][1] == 1:
                base = self.domains.get(key[0][0], TOP)
                if isinstance(key[0][0], Term) and key[0][0].op in ('len',):
                    base = IntSet.range(1 if isinstance(key[0][0].args[0], Term) and key[0][0].args[0].op == 'line' else 0, INF)
                return base if d is None else d
            tot = None
            for s, c in key:
                x = self.dom(st, ((s, 1),)).scale(c)
                tot = x if tot is None else tot.hull_add(x)
            return tot if d is None else tot.inter(d)
        if d is None:
            if isinstance(key, tuple) and key[0] == 'val':
                return CSet(False, ())
            return BOOL
        return d

    def constrain(self, st, key, dom):
        cur = self.dom(st, key)
        new = cur.inter(dom)
        if new.empty():
            return None
        if new == cur:
            return st
        s = st.copy()
        s.facts = dict(st.facts)
        s.facts[key] = new
        # keep ('truth', t) and ('val', t) coherent
        if key[0] == 'val' and isinstance(new, CSet) and new.pos:
            tr = {1 if v else 0 for v in new.vals}
            if len(tr) == 1:
                return self.constrain(s, ('truth', key[1]), IntSet.of(*tr))
        if key[0] == 'truth':
            v = self.dom(s, ('val', key[1]))
            want = 1 in new
            if v.pos:
                nv = CSet(True, [x for x in v.vals if bool(x) == want])
                if nv.empty():
                    return None
                s.facts[('val', key[1])] = nv
            elif want:
                s.facts[('val', key[1])] = v.inter(CSet(False, [None, '', 0, False]))
        return s

    def split(self, st, key, dom):
        """[(state, bool)] for key in dom / not."""
        out = []
        a = self.constrain(st, key, dom)
        b = self.constrain(st, key, dom.compl())
        if a is not None:
            out.append((a, True))
        if b is not None:
            out.append((b, False))
        if len(out) == 2:
            self.nsplits += 1
        return out

    def norm(self, st, v):
        """Substitute unknowns which the facts fix to one value."""
        if type(v) in PLAIN:
            return v
        if isinstance(v, Lin):
            ch = False
            for t in v.terms:
                one = self.dom1(st, t[0]).one
                if one is not None:
                    ch = True
                    break
            if ch:
                d, c = {}, v.const
                for s, k in v.terms:
                    one = self.dom1(st, s).one
                    if one is not None:
                        c += k * int(one)
                    else:
                        d[s] = d.get(s, 0) + k
                v = Lin.make(d, c)
            if isinstance(v, Lin) and len(v.terms) > 1:
                key, k, c = v.key()
                dm = st.facts.get(key)
                if dm is not None and dm.one is not None:
                    return k * int(dm.one) + c
            return v
        if isinstance(v, BoolT):
            d = self.dom(st, v.key)
            if d.inter(v.dom).empty():
                return False
            if d.inter(v.dom.compl()).empty():
                return True
            return v
        if isinstance(v, Term):
            d = st.facts.get(('val', v))
            if d is not None and d.pos and len(d.vals) == 1:
                return list(d.vals)[0]
            if v.op == 'str' and len(v.args) == 1 and isinstance(v.args[0], Lin):
                i = self.norm(st, v.args[0])
                if isinstance(i, int) and not isinstance(i, bool):
                    return str(i)
            return v
        if isinstance(v, Tup):
            items = tuple([self.norm(st, x) if isinstance(x, (Lin, BoolT, Term, Tup)) else x for x in v.items])
            for x, y in zip(items, v.items):
                if x is not y:
                    return Tup(items)
            return v
        return v

    def dom1(self, st, s):
        """Domain of one symbol."""
        d = st.facts.get(((s, 1),))
        if d is not None:
            return d
        d = self.domains.get(s)
        if d is not None:
            return d
        return LENDOM if isinstance(s, Term) and s.op == 'len' else TOP

    def force(self, st, v):
        if isinstance(v, Choice):
            out = []
            for facts, x in v.alts:
                s = st
                for k, d in facts:
                    s = self.constrain(s, k, d)
                    if s is None:
                        break
                if s is not None:
                    out.extend(self.force(s, x))
            return out
        if type(v) is Tup or type(v) in PLAIN:
            return [(st, v)]
        return [(st, self.norm(st, v))]

    def concretise(self, st, v, limit=64):
        """Split an integer unknown of small finite domain into its values."""
        rs = []
        for s, x in self.force(st, v):
            if isinstance(x, Lin):
                key, k, c = x.key()
                d = self.dom(s, key)
                if d.finite() and d.size() <= limit:
                    for val in d.values():
                        s2 = self.constrain(s, key, IntSet.of(val))
                        if s2 is not None:
                            rs.append((s2, k * val + c))
                    self.nsplits += 1
                    continue
            elif isinstance(x, BoolT):
                rs.extend((s2, b) for s2, b in self.split(s, x.key, x.dom))
                continue
            rs.append((s, x))
        return rs

    # joins ------------------------------------------------------------
    def _hsig(self, st, memo=None):
        return frozenset([(r, o.sid()) for r, o in st.heap.items()])

    def join(self, outs):
        """Merge disjuncts equal up to the domain of one term."""
        if len(outs) < 2:
            return outs
        groups, order = {}, []
        for st, ctl in outs:
            try:
                k = (self._envkey(st.env), self._heapkey(st.heap), st.events, st.yields, self._ctlkey(ctl))
                hash(k)
            except TypeError:
                k = id(st)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((st, ctl))
        res = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                res.append(g[0])
                continue
            facts = self.merge_facts([s.facts for s, _ in g])
            for f in facts:
                s = g[0][0].copy()
                s.facts = f
                res.append((s, g[0][1]))
        if len(res) > self.MAXSTATES:
            raise AnalysisError('too many disjuncts (%d)' % len(res))
        return res

    def merge_facts(self, fs):
        fs = list(fs)
        if len(fs) > 60:
            seen, out = set(), []
            for f in fs:
                k = frozenset(f.items())
                if k not in seen:
                    seen.add(k)
                    out.append(f)
            if len(out) > 200:
                return out
            fs = out
        changed = True
        while changed and len(fs) > 1:
            changed = False
            for i in range(len(fs)):
                for j in range(i + 1, len(fs)):
                    m = self._merge2(fs[i], fs[j])
                    if m is not None:
                        fs[i] = m
                        del fs[j]
                        changed = True
                        break
                if changed:
                    break
        return fs

    def _merge2(self, a, b):
        if a == b:
            return a
        diff = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
        if len(diff) == 1:
            k = diff[0]
            if k not in a:
                return a
            if k not in b:
                return b
            m = dict(a)
            u = a[k].union(b[k])
            m[k] = u
            if isinstance(u, CSet) and not u.pos and not u.vals:
                del m[k]
            elif isinstance(u, IntSet) and u == self.dom(St({}, {}, {}), k):
                del m[k]
            return m
        if all(k not in a for k in diff):
            return a
        if all(k not in b for k in diff):
            return b
        return None

    def _envkey(self, env):
        return frozenset((k, type(v).__name__, v) for k, v in env.items())

    def _heapkey(self, heap):
        return frozenset([(r, o.sid()) for r, o in heap.items()])

    def _ctlkey(self, ctl):
        if isinstance(ctl, tuple) and len(ctl) == 2:
            return (ctl[0], type(ctl[1]).__name__, ctl[1] if not isinstance(ctl[1], Raised)
                    else (ctl[1].exc, getattr(ctl[1].node, 'lineno', 0)))
        if isinstance(ctl, Raised):
            return ('raised', ctl.exc, getattr(ctl.node, 'lineno', 0))
        return (type(ctl).__name__, ctl)

    # ------------------------------------------------------------ modules
    def stub(self, name, path):
        """Analyse `path` wherever the code imports `name` (a third-party contract)."""
        with open(path) as f:
            self.trees[path] = ast.parse(f.read(), path)
        self.modpath[name] = path

    def is_module(self, name):
        return name in self.modpath

    def load(self, name):
        """Execute a module's top level abstractly; returns its namespace."""
        if name in self.modns:
            return self.modns[name]
        if name not in self.modpath:
            raise AnalysisError('anchor vanished: module %s' % name)
        parent = name.rpartition('.')[0]
        if parent and parent not in self.modns:
            self.load(parent)
            if name in self.modns:
                return self.modns[name]
        ns = {'__name__': name, '__file__': Term('__file__', name, kind='str'), '__doc__': None,
              '__path__': Tup(())}
        self.modns[name] = ns
        fr = Frame(name, None, name)
        st = St(ns, {}, {})
        for stmt in self.trees[self.modpath[name]].body:
            outs = self.exec_stmt(stmt, st, fr)
            good = [(s, c) for s, c in outs if c is None]
            bad = [(s, c) for s, c in outs if c is not None]
            if not good:
                self.module_errors.append((name, stmt, bad[0][1] if bad else None))
                continue
            if len(good) > 1:
                # keep one disjunct; values that differ become unknown
                s0 = good[0][0]
                env = dict(s0.env)
                for s, _ in good[1:]:
                    for k, v in s.env.items():
                        if k not in env or env[k] != v:
                            if isinstance(v, (Fn, Cls, ModV)):
                                env.setdefault(k, v)
                            elif not isinstance(env.get(k), (Fn, Cls, ModV)):
                                env[k] = Term('global', name, k)
                    s0.heap.update({r: o for r, o in s.heap.items() if r not in s0.heap})
                st = St(env, s0.heap, {})
            else:
                st = St(good[0][0].env, good[0][0].heap, {})
            # publish
            new = {k: v for k, v in st.env.items() if k not in ns or ns[k] is not v}
            ns.update(new)
            for k in list(ns):
                if k not in st.env:
                    del ns[k]
            self.base.update(st.heap)
            st = St(ns, {}, {})
            # imports executed meanwhile may have set submodule attributes: ns is live
        return ns

    def modattr(self, name, attr):
        ns = self.load(name)
        if attr in ns:
            return ns[attr]
        sub = name + '.' + attr
        if sub in self.modpath and sub in self.modns:
            return ModV(sub)
        return None

    def resolve(self, dotted):
        """'pkg.mod.Class.method' -> abstract value."""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            m = '.'.join(parts[:i])
            if m in self.modpath:
                ns = self.load(m)
                rest = parts[i:]
                if not rest:
                    return ModV(m)
                v = ns.get(rest[0])
                for a in rest[1:]:
                    if isinstance(v, Cls):
                        v, _ = v.find(a)
                    else:
                        v = None
                if v is None:
                    raise AnalysisError('anchor vanished: %s' % dotted)
                return v
        raise AnalysisError('anchor vanished: %s' % dotted)

    def import_name(self, fr, modname, level=0):
        """absolute name of module as imported from fr.mod (py2 implicit relative)."""
        cur = fr.mod
        pkg = cur if cur in self.pkg else cur.rpartition('.')[0]
        if level:
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            return (pkg + '.' + modname) if modname else pkg
        if pkg and modname:
            first = modname.split('.')[0]
            if (pkg + '.' + first) in self.modpath:
                return pkg + '.' + modname
        return modname

    def x_Import(self, n, st, fr):
        for a in n.names:
            full = self.import_name(fr, a.name)
            if full in self.modpath:
                parts = full.split('.')
                for i in range(1, len(parts) + 1):
                    self.load('.'.join(parts[:i]))
                if a.asname:
                    st = st.set(a.asname, ModV(full))
                else:
                    k = len(parts) - len(a.name.split('.'))
                    st = st.set(a.name.split('.')[0], ModV('.'.join(parts[:k + 1])))
            elif full.split('.')[0] in self.modpath and '.'.join(full.split('.')[:2]) != full:
                return [(st, ('raise', Raised(PYEXC['ImportError'], n, fr)))]
            else:
                if a.asname:
                    st = st.set(a.asname, Ext(a.name))
                else:
                    st = st.set(a.name.split('.')[0], Ext(a.name.split('.')[0]))
        return [(st, None)]

    def x_ImportFrom(self, n, st, fr):
        full = self.import_name(fr, n.module or '', n.level)
        if full in self.modpath:
            parts = full.split('.')
            for i in range(1, len(parts) + 1):
                self.load('.'.join(parts[:i]))
            ns = self.modns[full]
            for a in n.names:
                if a.name == '*':
                    names = None
                    al = ns.get('__all__')
                    if isinstance(al, Ref):
                        names = [x for x in self.base[al].items if isinstance(x, str)]
                        for x in names:
                            if x not in ns and (full + '.' + x) in self.modpath:
                                self.load(full + '.' + x)
                                ns.setdefault(x, ModV(full + '.' + x))
                    if names is None:
                        names = [k for k in ns if not k.startswith('_')]
                    for k in names:
                        if k in ns:
                            st = st.set(k, ns[k])
                        elif full not in self.partial():
                            pass
                else:
                    v = ns.get(a.name)
                    if v is None and (full + '.' + a.name) in self.modpath:
                        self.load(full + '.' + a.name)
                        v = ModV(full + '.' + a.name)
                    if v is None and a.name not in ns:
                        return [(st, ('raise', Raised(PYEXC['ImportError'], n, fr)))]
                    st = st.set(a.asname or a.name, v)
        else:
            for a in n.names:
                if a.name == '*':
                    continue
                st = st.set(a.asname or a.name, self.extval((n.module or '') + '.' + a.name))
        return [(st, None)]

    def partial(self):
        return ()

    def extval(self, path):
        head, _, last = path.rpartition('.')
        if head in ('exceptions', '__builtin__') and last in BUILTINS:
            return BUILTINS[last]
        if path in TEXTS:
            return TEXTS[path]
        return Ext(path)

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr):
        cur, done = [st], []
        for s in stmts:
            nxt = []
            for x in cur:
                for s2, ctl in self.exec_stmt(s, x, fr):
                    if ctl is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, ctl))
            if len(nxt) > 1:
                nxt = self.join(nxt)
            cur = [x for x, _ in nxt]
            self.nstates += len(cur)
            if not cur:
                break
        return done + [(x, None) for x in cur]

    def exec_stmt(self, n, st, fr):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('%s:%s unsupported statement %s' % (fr.qual, n.lineno, type(n).__name__))
        return m(n, st, fr)

    def fin(self, rs, f=None):
        """expression results -> statement outcomes."""
        out = []
        for st, v in rs:
            if isinstance(v, Raised):
                out.append((st, ('raise', v)))
            elif f is None:
                out.append((st, None))
            else:
                out.extend(f(st, v))
        return out

    def x_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return self.fin(self.ev(n.value, st, fr))

    def x_Pass(self, n, st, fr):
        return [(st, None)]

    def x_Global(self, n, st, fr):
        return [(st, None)]

    def x_Assign(self, n, st, fr):
        rs = self.ev(n.value, st, fr)

        def go(st, v):
            outs = [(st, None)]
            for t in n.targets:
                nxt = []
                for s, c in outs:
                    if c is None:
                        nxt.extend(self.assign(t, v, s, fr))
                    else:
                        nxt.append((s, c))
                outs = nxt
            return outs
        return self.fin(rs, go)

    def x_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
            rs = self.ev(load, st, fr)

            def go(st, a):
                return then(self.ev(n.value, st, fr),
                            lambda s, b: self.augop(n, n.op, a, b, s, fr))
            return self.fin(then(rs, go), lambda s, v: self.assign(t, v, s, fr))
        if isinstance(t, ast.Attribute):
            def go(st, o):
                def go2(s, cur):
                    return then(self.ev(n.value, s, fr),
                                lambda s, b: self.augop(n, n.op, cur, b, s, fr))
                rs = then(self.getattr(st, o, t.attr, fr, n), go2)
                return self.fin(rs, lambda s, v: self.setattr(s, o, t.attr, v, fr, n))
            return self.fin(self.ev(t.value, st, fr), go)
        if isinstance(t, ast.Subscript):
            def go(st, o):
                def gi(st, i):
                    def go2(s, cur):
                        return then(self.ev(n.value, s, fr),
                                    lambda s, b: self.augop(n, n.op, cur, b, s, fr))
                    rs = then(self.getitem(st, o, i, fr, n), go2)
                    return self.fin(rs, lambda s, v: self.setitem(s, o, i, v, fr, n))
                return self.fin(self.ev_index(t.slice, st, fr), gi)
            return self.fin(self.ev(t.value, st, fr), go)
        raise AnalysisError('augassign target')

    def augop(self, n, op, a, b, st, fr):
        if isinstance(op, ast.Add) and isinstance(a, Ref) and isinstance(self.obj(st, a), ListO):
            o = self.obj(st, a)
            return then(self.iterate(st, b, fr, n), lambda s, it: [
                (s.put(a, ListO(self.obj(s, a).items + tuple(it.items), o.open or it.open, o.kind)), a)])
        return self.binop(op, a, b, st, fr, n)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if fr.fn is not None and t.id in fr.fn.globals_:
                return [(st.event('setglobal', fr.mod, t.id, v), None)]
            return [(st.set(t.id, v), None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, x in self.force(st, v):
                for s2, seq in self.iterate(s, x, fr, t):
                    if isinstance(seq, Raised):
                        out.append((s2, ('raise', seq)))
                        continue
                    if seq.open is not None:
                        # unknown length: either it fits or unpacking fails
                        key = ('fits', seq.open, len(t.elts))
                        for s3, b in self.split(s2, key, TRUE):
                            if not b:
                                out.append((s3, ('raise', Raised(PYEXC['ValueError'], t, fr))))
                                continue
                            outs = [(s3, None)]
                            base = list(seq.items)
                            for i, e in enumerate(t.elts):
                                val = base[i] if i < len(base) else self.item_term(seq.open, i)
                                nxt = []
                                for s4, c in outs:
                                    nxt.extend(self.assign(e, val, s4, fr) if c is None else [(s4, c)])
                                outs = nxt
                            out.extend(outs)
                        continue
                    if len(seq.items) != len(t.elts):
                        out.append((s2, ('raise', Raised(PYEXC['ValueError'], t, fr))))
                        continue
                    outs = [(s2, None)]
                    for e, val in zip(t.elts, seq.items):
                        nxt = []
                        for s4, c in outs:
                            nxt.extend(self.assign(e, val, s4, fr) if c is None else [(s4, c)])
                        outs = nxt
                    out.extend(outs)
            return out
        if isinstance(t, ast.Attribute):
            return self.fin(self.ev(t.value, st, fr), lambda s, o: self.setattr(s, o, t.attr, v, fr, t))
        if isinstance(t, ast.Subscript):
            return self.fin(self.ev(t.value, st, fr), lambda s, o: self.fin(
                self.ev_index(t.slice, s, fr), lambda s, i: self.setitem(s, o, i, v, fr, t)))
        raise AnalysisError('assign target %s' % type(t).__name__)

    def item_term(self, base, i):
        return Term('item', base, i)

    def x_Delete(self, n, st, fr):
        outs = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, c in outs:
                if c is not None:
                    nxt.append((s, c))
                elif isinstance(t, ast.Name):
                    s2 = s.copy()
                    s2.env = dict(s.env)
                    s2.env.pop(t.id, None)
                    nxt.append((s2, None))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self.fin(self.ev(t.value, s, fr), lambda s, o: self.fin(
                        self.ev_index(t.slice, s, fr), lambda s, i: self.delitem(s, o, i, fr, t))))
                else:
                    nxt.extend(self.fin(self.ev(t.value, s, fr),
                                        lambda s, o: self.delattr(s, o, t.attr, fr, t)))
            outs = nxt
        return outs

    def x_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ('ret', None))]
        return self.fin(self.ev(n.value, st, fr), lambda s, v: [(s, ('ret', v))])

    def x_Break(self, n, st, fr):
        return [(st, 'break')]

    def x_Continue(self, n, st, fr):
        return [(st, 'cont')]

    def x_Assert(self, n, st, fr):
        def go(s, b):
            if b:
                return [(s, None)]
            return [(s, ('raise', Raised(PYEXC['AssertionError'], n, fr)))]
        return self.fin(self.cond(n.test, st, fr), go)

    def x_Raise(self, n, st, fr):
        if n.exc is None:
            cur = st.env.get('$exc')
            if cur is not None:
                return [(st, ('raise', cur))]
            return [(st, ('raise', Raised(PYEXC['TypeError'], n, fr)))]

        def go(s, v):
            if isinstance(v, (Cls,)) and (v.isa(PYEXC['BaseException']) or v.ext_bases()):
                return [(s, ('raise', Raised(v, n, fr)))]
            if isinstance(v, Ref) and isinstance(self.obj(s, v), Inst):
                c = self.obj(s, v).cls
                if c.isa(PYEXC['BaseException']) or c.ext_bases():
                    return [(s, ('raise', Raised(v, n, fr)))]
            if isinstance(v, (Ext, Term)) and v != Ext('NotImplemented'):
                return [(s, ('raise', Raised(v, n, fr)))]
            return [(s, ('raise', Raised(PYEXC['TypeError'], n, fr)))]
        return self.fin(self.ev(n.exc, st, fr), go)

    def x_If(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raised):
                out.append((s, ('raise', b)))
            else:
                out.extend(self.exec_block(n.body if b else n.orelse, s, fr))
        return self.join(out) if len(out) > 1 else out

    def x_FunctionDef(self, n, st, fr):
        rs = self.make_fn(n, st, fr)

        def deco(s, f):
            cur = [(s, f)]
            for d in reversed(n.decorator_list):
                cur = then(cur, lambda s, f: then(self.ev(d, s, fr),
                                                 lambda s, dv: self.call(s, dv, [f], {}, fr, d)))
            return cur
        return self.fin(then(rs, deco), lambda s, v: [(s.set(n.name, v), None)])

    def make_fn(self, n, st, fr, name=None):
        def mk(s, defaults):
            f = Fn()
            f.node, f.mod = n, fr.mod
            base = fr.qual if fr.fn is not None or fr.qual != fr.mod else fr.mod
            f.qual = base + '.' + (name or n.name)
            f.defaults = defaults
            f.cls = None
            f.globals_ = set()
            loc = set(a.arg for a in n.args.args)
            gen = False
            if not isinstance(n, ast.Lambda):
                for x in _scope_walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        loc.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        loc.add(x.name)
                    elif isinstance(x, ast.ExceptHandler) and x.name:
                        loc.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        for a in x.names:
                            loc.add((a.asname or a.name).split('.')[0])
                    elif isinstance(x, ast.Global):
                        f.globals_.update(x.names)
                    elif isinstance(x, (ast.Yield,)):
                        gen = True
            if n.args.vararg:
                loc.add(n.args.vararg.arg)
            if n.args.kwarg:
                loc.add(n.args.kwarg.arg)
            f.locals = loc - f.globals_
            f.gen = gen
            cells = {}
            if fr.fn is not None and fr.qual != fr.mod:
                if getattr(fr.fn, 'cells', None):
                    cells.update(fr.fn.cells)
                if isinstance(fr.fn, Fn):
                    cells.update({k: v for k, v in s.env.items() if not k.startswith('$')})
                    if not isinstance(n, ast.Lambda):
                        cells[n.name] = f
            f.cells = cells
            return [(s, f)]
        return then(self.ev_list(n.args.defaults, st, fr), mk)

    def x_ClassDef(self, n, st, fr):
        def go(s, bases):
            cfr = Frame(fr.mod, _ClassScope(fr.fn), (fr.qual) + '.' + n.name, fr.depth, 0)
            inner = s.with_env({'__module__': fr.mod})
            outer_cells = dict(fr.fn.cells) if fr.fn is not None and getattr(fr.fn, 'cells', None) else {}
            if isinstance(fr.fn, Fn):
                outer_cells.update(s.env)
            cfr.fn.cells = outer_cells
            outs = []
            for s2, ctl in self.exec_block(n.body, inner, cfr):
                if ctl is not None:
                    outs.append((s2.with_env(s.env), ctl))
                    continue
                c = Cls(n.name, fr.qual, [b for b in bases], {}, n)
                for k, v in s2.env.items():
                    c.attrs[k] = v
                    if isinstance(v, Fn) and v.cls is None:
                        v.cls = c
                    elif isinstance(v, Wrapped) and isinstance(v.fn, Fn) and v.fn.cls is None:
                        v.fn.cls = c
                s3 = s2.with_env(s.env)
                outs.append((s3.set(n.name, c), None))
            return outs
        return self.fin(self.ev_list(n.bases, st, fr), go)

    def x_With(self, n, st, fr):
        item = n.items[0]
        rs = self.ev(item.context_expr, st, fr)

        def go(s, v):
            s = s.event('enter_with', v)
            if item.optional_vars is not None:
                outs = self.assign(item.optional_vars, v, s, fr)
            else:
                outs = [(s, None)]
            res = []
            for s2, c in outs:
                if c is None:
                    for s3, c3 in self.exec_block(n.body, s2, fr):
                        res.append((s3.event('exit_with', v), c3))
                else:
                    res.append((s2, c))
            return res
        return self.fin(rs, go)

    def x_Try(self, n, st, fr):
        old = fr.tries
        if n.handlers:
            fr.tries += 1
        try:
            outs = self.exec_block(n.body, st, fr)
        finally:
            fr.tries = old
        res = []
        for s, c in outs:
            if c is None:
                if n.orelse:
                    res.extend(self.exec_block(n.orelse, s, fr))
                else:
                    res.append((s, None))
            elif isinstance(c, tuple) and c[0] == 'raise' and n.handlers:
                res.extend(self.handle(n.handlers, s, c[1], fr))
            else:
                res.append((s, c))
        if n.finalbody:
            fin = []
            for s, c in res:
                for s2, c2 in self.exec_block(n.finalbody, s, fr):
                    fin.append((s2, c2 if c2 is not None else c))
            res = fin
        return self.join(res) if len(res) > 1 else res

    def exc_class(self, st, exc):
        if isinstance(exc, Ref):
            return self.obj(st, exc).cls
        return exc

    def handle(self, handlers, st, raised, fr):
        out, pending = [], [st]
        ec = self.exc_class(st, raised.exc)
        for h in handlers:
            nxt = []
            for s in pending:
                if h.type is None:
                    tv = [(s, None)]
                else:
                    tv = self.ev(h.type, s, fr)
                for s1, t in tv:
                    if isinstance(t, Raised):
                        out.append((s1, ('raise', t)))
                        continue
                    m = True if h.type is None else self.exc_match(ec, t)
                    if m in (True, None):
                        env = dict(s1.env)
                        prev = env.get('$exc')
                        env['$exc'] = raised
                        if h.name:
                            env[h.name] = raised.exc if isinstance(raised.exc, (Ref, Term)) \
                                else Term('excinst', repr(raised.exc))
                        for s2, c in self.exec_block(h.body, s1.with_env(env), fr):
                            e2 = dict(s2.env)
                            e2.pop('$exc', None)
                            if prev is not None:
                                e2['$exc'] = prev
                            out.append((s2.with_env(e2), c))
                    if m in (False, None):
                        nxt.append(s1)
            pending = nxt
        out.extend((s, ('raise', raised)) for s in pending)
        return out

    def exc_match(self, ec, t):
        if isinstance(t, Tup):
            ms = [self.exc_match(ec, x) for x in t.items]
            if True in ms:
                return True
            return None if None in ms else False
        if isinstance(ec, Cls) and isinstance(t, Cls):
            return ec.isa(t)
        if isinstance(ec, Cls) and isinstance(t, Ext):
            return True if t in ec.ext_bases() else False
        if ec == t:
            return True
        if isinstance(t, Cls) and t in (PYEXC['BaseException'], ) and isinstance(ec, (Ext, Term)):
            return True
        return None            # unknown exception: both

    # loops ------------------------------------------------------------
    def x_For(self, n, st, fr):
        def go(s, it):
            out = []
            for s1, seq in self.iterate(s, it, fr, n):
                if isinstance(seq, Raised):
                    out.append((s1, ('raise', seq)))
                elif seq.open is None:
                    kind = self.obj(s1, it).kind if isinstance(it, Ref) and isinstance(self.obj(s1, it), ListO) else None
                    if kind == 'iter':
                        s1 = s1.put(it, ListO(seq.items, None, 'iter'))
                    out.extend(self.for_known(n, s1, list(seq.items), fr, live=it if kind in ('list', 'iter') else None,
                                              takes=kind == 'iter'))
                else:
                    out.extend(self.for_unknown(n, s1, seq, fr))
            return out
        return self.fin(self.ev(n.iter, st, fr), go)

    def for_known(self, n, st, items, fr, tail=None, live=None, takes=False):
        """`live`: the list iterated over, which the body may change, or (`takes`) the iterator, which has the rest left."""
        cur, out, broke, ended = [st], [], [], []
        i = -1
        while True:
            i += 1
            if live is None and i >= len(items):
                break
            nxt = []
            for s in cur:
                now = items
                if live is not None:
                    lo = self.obj(s, live)
                    if lo.open is None:
                        now = lo.items
                k = 0 if takes else i
                if k >= len(now):
                    ended.append(s)
                    continue
                if i > len(items) + 200:
                    raise AnalysisError('%s:%d loop over a list that grows' % (fr.qual, n.lineno))
                v = now[k]
                if takes:
                    s = s.put(live, ListO(now[1:], None, 'iter'))
                for s1, c in self.assign(n.target, v, s, fr):
                    if c is not None:
                        out.append((s1, c))
                        continue
                    for s2, c2 in self.exec_block(n.body, s1, fr):
                        if c2 is None or c2 == 'cont':
                            nxt.append((s2, None))
                        elif c2 == 'break':
                            broke.append((s2, None))
                        else:
                            out.append((s2, c2))
            nxt = self.join(nxt)
            cur = [s for s, _ in nxt]
            if not cur:
                break
        cur = ended + cur
        if tail is not None:
            fin = []
            for s in cur:
                fin.extend(tail(s))
            out.extend(x for x in fin if x[1] is not None and x[1] != 'break')
            broke.extend((s, None) for s, c in fin if c == 'break')
            cur = [s for s, c in fin if c is None]
        for s in cur:
            if n.orelse:
                out.extend(self.exec_block(n.orelse, s, fr))
            else:
                out.append((s, None))
        out.extend(broke)
        return self.join(out)

    def for_unknown(self, n, st, seq, fr):
        self.fresh += 1
        lid = 'L%s.%d' % (fr.qual.rsplit('.', 1)[-1], self.fresh)

        def tail(s):
            return self.summarise(n, s, fr, lid, seq.open,
                                  lambda s1: self.assign(n.target, Term('elem', seq.open, kind=elem_kind(seq.open)), s1, fr))
        return self.for_known(n, st, list(seq.items), fr, tail)

    def x_While(self, n, st, fr):
        out, cur, heads = [], [st], {}
        steps = _stepping(n)
        for i in range(self.LONGLOOP):
            nxt, undecided, straight = [], False, len(cur) == 1
            # a count or an iterator that the loop is controlled by is known and goes on: the loop ends by itself
            counted = steps and all(self._pace(s, steps) for s in cur)
            before = {self._pace(s, steps) for s in cur} if counted else ()
            for s in cur:
                rs = self.cond(n.test, s, fr)
                vals = [b for _, b in rs if not isinstance(b, Raised)]
                straight = straight and vals == [True]
                if len(set(vals)) > 1 and i >= self.split_loops or i > (300 if counted else 40) and not straight:
                    undecided = True
                    break
                for s1, b in rs:
                    if isinstance(b, Raised):
                        out.append((s1, ('raise', b)))
                    elif not b:
                        out.extend(self.exec_block(n.orelse, s1, fr))
                    else:
                        for s2, c2 in self.exec_block(n.body, s1, fr):
                            if c2 is None or c2 == 'cont':
                                nxt.append((s2, None))
                            elif c2 == 'break':
                                out.append((s2, None))
                            else:
                                out.append((s2, c2))
            const_true = isinstance(n.test, ast.Constant) and n.test.value
            straight = straight and not undecided and not out and len(nxt) == 1
            if straight:
                # nothing was decided in this round: the same state once more means that it goes on for ever
                s = nxt[0][0]
                try:
                    k = (self._envkey(s.env), self._heapkey(s.heap), s.events, s.yields)
                    if heads.get(k) == s.facts or i == self.LONGLOOP - 1:
                        return [(s, ('raise', Raised(PYEXC['EndlessLoop'], n, fr)))]
                    heads[k] = s.facts
                except TypeError:
                    pass
            counted = counted and not any(self._pace(s, steps) in before for s, _ in nxt)
            if undecided or (const_true and i >= 4 and not straight and not counted):
                for s in (cur if undecided else [x for x, _ in nxt]):
                    self.fresh += 1
                    lid = 'L%s.%d' % (fr.qual.rsplit('.', 1)[-1], self.fresh)
                    for s2, c in self.summarise(n, s, fr, lid, None, lambda s1: [(s1, None)], test=n.test):
                        if c == 'break':
                            out.append((s2, None))
                        elif c is None:
                            out.extend(self.exec_block(n.orelse, s2, fr))
                        else:
                            out.append((s2, c))
                return self.join(out)
            cur = [s for s, _ in self.join(nxt)]
            if not cur:
                return self.join(out)
        raise AnalysisError('%s:%d loop does not settle' % (fr.qual, n.lineno))

    def _pace(self, s, names):
        """The known counts and the rests of iterators among the variables `names`."""
        out = []
        for k in names:
            v = s.env.get(k)
            if isinstance(v, int) and not isinstance(v, bool):
                out.append((k, v))
            elif isinstance(v, Ref):
                o = self.obj(s, v)
                if isinstance(o, ListO) and o.open is None:
                    out.append((k, len(o.items)))
        return tuple(out)

    def summarise(self, n, st, fr, lid, it, bind, test=None):
        """Loop over an unknown number of iterations.
        Names and objects the body assigns are widened to unknown at the loop head;
        the body is analysed once from there; its events become one ('loop', ..) event."""
        assigned = set()
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    assigned.add(x.id)
        if hasattr(n, 'target'):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    assigned.add(x.id)

        def havoc(s, names, refs):
            env = dict(s.env)
            for k in names:
                if k in env:
                    env[k] = self.widen(env[k], lid, k)
            s = s.with_env(env)
            for r in refs:
                o = self.obj(s, r)
                if isinstance(o, Inst):
                    attrs = dict(o.attrs)
                    for a in refs[r]:
                        if a in attrs:
                            attrs[a] = self.widen(attrs[a], lid, '%d.%s' % (r.n, a))
                    s = s.put(r, Inst(o.cls, attrs, o.tag))
                elif isinstance(o, ListO):
                    s = s.put(r, ListO((), Term('loopseq', lid, o.open, *o.items), o.kind))
                elif isinstance(o, DictO):
                    s = s.put(r, DictO({}, Term('loopdict', lid, r.n)))
            return s

        # which pre-existing objects does the body change?  iterate to a fixpoint
        refs = {}
        for _ in range(4):
            h = havoc(st, assigned, refs)
            ev0 = h.events
            h2 = h.copy()
            h2.events = ()
            outs = []
            for s1, c in ([(x, None) for x, b in self.cond(test, h2, fr) if b is True] if test is not None
                          else [(h2, None)]):
                for s2, c2 in bind(s1):
                    if c2 is None:
                        outs.extend(self.exec_block(n.body, s2, fr))
                    else:
                        outs.append((s2, c2))
            grew = False
            for s2, c2 in outs:
                if c2 not in (None, 'cont'):
                    continue
                for r, o in s2.heap.items():
                    before = self.obj(h, r)
                    if before is None or before is o:
                        continue
                    if isinstance(o, Inst):
                        ch = {a for a in set(o.attrs) | set(before.attrs)
                              if o.attrs.get(a) != before.attrs.get(a) or type(o.attrs.get(a)) is not type(before.attrs.get(a))}
                        ch = {a for a in ch if not (isinstance(before.attrs.get(a), Term)
                                                    and before.attrs.get(a).op == 'loop')}
                        if ch - set(refs.get(r, ())):
                            refs.setdefault(r, set()).update(ch)
                            grew = True
                    elif r not in refs and o.sig() != before.sig():
                        refs[r] = set()
                        grew = True
            if not grew:
                break
        normal = [(s, c) for s, c in outs if c in (None, 'cont')]
        bodyev = frozenset(s.events for s, c in normal)
        res = []
        # zero iterations
        z = st if it is None else self.constrain(st, ('empty', it), TRUE)
        if test is not None:
            res.extend((s, None) for s, b in self.cond(test, st, fr) if b is False)
        elif z is not None:
            res.append((z, None))
        # at least one iteration, normal exit
        if normal:
            ex = havoc(st, assigned, refs)
            if it is not None:
                ex = self.constrain(ex, ('empty', it), FALSE)
            if ex is not None:
                ex = ex.copy()
                if any(bodyev):
                    ex.events = ev0 + (('loop', lid, bodyev),)
                # variables first bound inside the loop
                env = dict(ex.env)
                for s, c in normal:
                    for k, v in s.env.items():
                        if k not in env:
                            env[k] = v if len(normal) == 1 else self.widen(v, lid, k)
                ex = ex.with_env(env)
                if test is not None:
                    if not (isinstance(test, ast.Constant) and test.value):
                        res.extend((s, None) for s, b in self.cond(test, ex, fr) if b is False)
                else:
                    res.append((ex, None))
        for s, c in outs:
            if c in (None, 'cont'):
                continue
            s = s.copy()
            pre = (('loop', lid, bodyev),) if any(bodyev) else ()
            s.events = ev0 + pre + s.events
            res.append((s, c))
        return res

    def widen(self, v, lid, name):
        if isinstance(v, (int, Lin)) and not isinstance(v, bool):
            return Lin.sym(Term('loop', lid, name))
        if isinstance(v, (Fn, Cls, ModV, Ref)):
            if isinstance(v, Ref):
                return v if False else Term('loop', lid, name)
            return v
        k = 'str' if isinstance(v, str) or (isinstance(v, Term) and v.kind == 'str') else None
        return Term('loop', lid, name, kind=k)

    # ---------------------------------------------------------- expressions
    def ev(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('%s:%s unsupported expression %s' % (fr.qual, getattr(n, 'lineno', 0), type(n).__name__))
        return m(n, st, fr)

    def ev_list(self, nodes, st, fr):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Raised):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(n, s, fr):
                    nxt.append((s2, v if isinstance(v, Raised) else vs + [v]))
            cur = nxt
        return cur

    def ev_index(self, n, st, fr):
        if isinstance(n, ast.Slice):
            def part(x, s):
                return self.ev(x, s, fr) if x is not None else [(s, None)]
            return then(part(n.lower, st), lambda s, a: then(part(n.upper, s), lambda s, b: then(
                part(n.step, s), lambda s, c: [(s, Slice(self.norm(s, a), self.norm(s, b), self.norm(s, c)))])))
        return self.ev(n, st, fr)

    def e_Constant(self, n, st, fr):
        return [(st, n.value)]

    def e_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr, n)

    def lookup(self, name, st, fr, n):
        if name in st.env:
            return self.force(st, st.env[name])
        fn = fr.fn
        if fn is not None:
            if isinstance(fn, Fn) and name in fn.locals:
                return [(st, Raised(PYEXC['UnboundLocalError'], n, fr))]
            if name in fn.cells:
                return self.force(st, fn.cells[name])
        ns = self.modns.get(fr.mod, {})
        if name in ns:
            return [(st, ns[name])]
        if name in BUILTINS:
            return [(st, BUILTINS[name])]
        return [(st, Raised(PYEXC['NameError'], n, fr))]

    def e_Tuple(self, n, st, fr):
        return then(self.ev_list(n.elts, st, fr), lambda s, vs: [(s, Tup(tuple(vs)))])

    def e_List(self, n, st, fr):
        return then(self.ev_list(n.elts, st, fr), lambda s, vs: [self.new(s, ListO(vs))])

    def e_Set(self, n, st, fr):
        return then(self.ev_list(n.elts, st, fr), lambda s, vs: [self.new(s, ListO(dedup(vs), None, 'set'))])

    def e_Dict(self, n, st, fr):
        def go(s, ks):
            def go2(s, vs):
                d, op = {}, None
                for k, v in zip(ks, vs):
                    k = self.norm(s, k)
                    if not hashable(k):
                        op = Term('dictlit', n.lineno)
                    d[k] = v
                return [self.new(s, DictO(d, None))]
            return then(self.ev_list(n.values, s, fr), go2)
        return then(self.ev_list(n.keys, st, fr), go)

    def e_IfExp(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raised):
                out.append((s, b))
            else:
                out.extend(self.ev(n.body if b else n.orelse, s, fr))
        return out

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        cur, out = [st], []
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in cur:
                for s1, v in self.ev(x, s, fr):
                    if isinstance(v, Raised) or last:
                        out.append((s1, v))
                        continue
                    for s2, b in self.truth(s1, v, fr, x):
                        if isinstance(b, Raised):
                            out.append((s2, b))
                        elif b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, self.as_bool(s2, v, b)))
            cur = nxt
        return out

    def as_bool(self, st, v, b):
        if isinstance(v, (BoolT, bool)):
            return b
        return self.norm(st, v)

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            out = []
            for s, v in self.ev(n.operand, st, fr):
                if isinstance(v, Raised):
                    out.append((s, v))
                elif isinstance(v, BoolT):
                    out.append((s, self.norm(s, BoolT(v.key, v.dom.compl()))))
                else:
                    out.extend((s2, b if isinstance(b, Raised) else (not b)) for s2, b in self.truth(s, v, fr, n))
            return out

        def go(s, v):
            if isinstance(v, BoolT):
                return then(self.concretise(s, v), lambda s, v: go(s, int(v)))
            if isinstance(n.op, ast.USub):
                if isint(v):
                    return [(s, lin_scale(v, -1) if not isinstance(v, bool) else -int(v))]
                if isinstance(v, float):
                    return [(s, -v)]
                if isinstance(v, Term):
                    return [(s, lin_scale(self.as_int(v), -1))]
            if isinstance(n.op, ast.UAdd):
                return [(s, v)]
            if isinstance(n.op, ast.Invert) and isint(v):
                return [(s, lin_add(lin_scale(v, -1), 1, -1))]
            return [(s, Term('unary', type(n.op).__name__, v))]
        return then(self.ev(n.operand, st, fr), go)

    def as_int(self, v):
        return Lin.sym(v) if isinstance(v, Term) else v

    def e_BinOp(self, n, st, fr):
        return then(self.ev(n.left, st, fr), lambda s, a: then(
            self.ev(n.right, s, fr), lambda s, b: self.binop(n.op, a, b, s, fr, n)))

    def binop(self, op, a, b, st, fr, n):
        out = []
        for s, x in self.force(st, a):
            for s2, y in self.force(s, b):
                out.extend(self.binop1(op, self.norm(s2, x), y, s2, fr, n))
        return out

    def binop1(self, op, a, b, st, fr, n):
        o = type(op)
        if isinstance(a, BoolT):
            return then(self.concretise(st, a), lambda s, x: self.binop1(op, int(x), b, s, fr, n))
        if isinstance(b, BoolT):
            return then(self.concretise(st, b), lambda s, x: self.binop1(op, a, int(x), s, fr, n))
        # user operators
        for x, y, nm in ((a, b, OPS.get(o)), ):
            if isinstance(x, Ref) and isinstance(self.obj(st, x), Inst) and nm:
                f, c = self.obj(st, x).cls.find('__%s__' % nm)
                if f is not None:
                    return self.call(st, Bound(x, f), [y], {}, fr, n)
            if isinstance(y, Ref) and isinstance(self.obj(st, y), Inst) and nm and not isinstance(x, Ref) and o is not ast.Mod:
                f, c = self.obj(st, y).cls.find('__r%s__' % nm)
                if f is not None:
                    return self.call(st, Bound(y, f), [x], {}, fr, n)
        if o in SETOPS and isinstance(a, Ref) and isinstance(b, Ref):
            p, q = self.obj(st, a), self.obj(st, b)
            if isinstance(p, ListO) and isinstance(q, ListO) and p.kind == q.kind == 'set':
                import absbuiltins
                return absbuiltins.m_list(self, st, a, p, SETOPS[o], [b], {}, fr, n)
        if o is ast.Mod and (isinstance(a, str) or (isinstance(a, Term) and a.kind == 'str')):
            return self.fmt(a, b, st, fr, n)
        if isconst(a) and isconst(b) and a is not None and b is not None:
            try:
                return [(st, _constop(o, a, b))]
            except ZeroDivisionError:
                return [(st, Raised(PYEXC['ZeroDivisionError'], n, fr))]
            except TypeError:
                return [(st, Raised(PYEXC['TypeError'], n, fr))]
            except Exception:
                return [(st, Term('op', o.__name__, a, b))]
        for x, y in ((a, b), (b, a)):
            if (isinstance(x, float) or getattr(x, 'kind', None) == 'float') and (isint(y) or isinstance(y, (float, Term)) and getattr(y, 'kind', None) in (None, 'int', 'float')):
                if o is ast.Mult and (isinstance(a, (int, float)) and a == 0 or isinstance(b, (int, float)) and b == 0):
                    return [(st, 0.0)]
                return [(st, Term('op', o.__name__, self.val(st, a), self.val(st, b), kind='float'))]
        ai = self.as_int(a) if isinstance(a, Term) and a.kind in (None, 'int') else a
        bi = self.as_int(b) if isinstance(b, Term) and b.kind in (None, 'int') else b
        bothint = isint(ai) and isint(bi) and (isint(a) or isint(b) or (getattr(a, 'kind', 0) == 'int' == getattr(b, 'kind', 0)))
        if o in (ast.Add, ast.Sub):
            if bothint:
                return [(st, lin_add(ai, bi, 1 if o is ast.Add else -1))]
            if o is ast.Add:
                if isinstance(a, Tup) and isinstance(b, Tup):
                    return [(st, Tup(a.items + b.items))]
                la, lb = self.listobj(st, a), self.listobj(st, b)
                if la and lb:
                    if la.open is None:
                        return [self.new(st, ListO(la.items + lb.items, lb.open))]
                    return [self.new(st, ListO((), Term('concat', self.seqterm(la), self.seqterm(lb))))]
                if isstr(a) or isstr(b):
                    return [(st, concat(a, b))]
                if isinstance(a, (Tup,)) and isinstance(b, Ref) or isinstance(b, Tup) and isinstance(a, Ref):
                    if isinstance(self.obj(st, a if isinstance(a, Ref) else b), ListO):
                        return [(st, Raised(PYEXC['TypeError'], n, fr))]
        if o is ast.Mult:
            if isinstance(ai, int) and isinstance(bi, Lin):
                return [(st, lin_scale(bi, int(ai)))]
            if isinstance(bi, int) and isinstance(ai, Lin):
                return [(st, lin_scale(ai, int(bi)))]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int):
                    if isinstance(y, Tup):
                        return [(st, Tup(y.items * x))]
                    lo = self.listobj(st, y)
                    if lo and lo.open is None:
                        return [self.new(st, ListO(lo.items * x))]
        if bothint and o in (ast.Mult, ast.Div, ast.FloorDiv, ast.Mod, ast.Pow, ast.BitAnd, ast.BitOr, ast.BitXor,
                             ast.LShift, ast.RShift):
            if o in (ast.BitAnd, ast.BitOr, ast.LShift, ast.RShift):
                r = self.bitop(st, o, ai, bi)
                if r is not None:
                    return [(st, self.norm(st, r))]
            x, y = (ai, bi)
            sign = 1
            if o is ast.Mult or o is ast.Pow and isinstance(y, int) and y > 1:
                # the same product whatever the signs; a square is a square
                if isinstance(x, Lin) and x.terms[0][1] < 0:
                    x = lin_scale(x, -1)
                    sign = -1 if o is ast.Mult or y % 2 else 1
                if o is ast.Mult and isinstance(y, Lin) and y.terms[0][1] < 0:
                    y, sign = lin_scale(y, -1), -sign
                if o is ast.Mult and x == y:
                    o, y = ast.Pow, 2
                if o is ast.Pow:
                    t = Term('pow', x, y, kind='int')
                    if y % 2 == 0:
                        self.domains.setdefault(t, IntSet.range(0, INF))
                    return [(st, lin_scale(Lin.sym(t), sign))]
                if sign < 0:
                    return then(self.binop(ast.Mult(), x, y, st, fr, n), lambda s, v: self.binop(ast.Mult(), v, -1, s, fr, n))
            if o in (ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor) and repr(y) < repr(x):
                x, y = y, x
            nm = {'Div': 'div', 'FloorDiv': 'div'}.get(o.__name__, o.__name__.lower())
            t = Term(nm, x, y, kind='int')
            if o in (ast.Pow, ast.LShift) and isinstance(x, int) and x >= 1:
                self.domains.setdefault(t, IntSet.range(1, INF))
                if o is ast.LShift:
                    # x << y == x * 2**y
                    p = Term('pow', 2, y, kind='int')
                    self.domains.setdefault(p, IntSet.range(1, INF))
                    return [(st, lin_scale(Lin.sym(p), x))]
            if o is ast.Mod and isinstance(y, int) and y > 0:
                self.domains.setdefault(t, IntSet.range(0, y - 1))
            if nm == 'div' and isinstance(y, int) and y > 0:
                st = self.quotient(st, x, y, Lin.sym(t))
            return [(st, Lin.sym(t))]
        if (a is None or b is None) and not isinstance(a, (Term, Ext)) and not isinstance(b, (Term, Ext)):
            return [(st, Raised(PYEXC['TypeError'], n, fr))]
        return [(st, Term('op', o.__name__, self.val(st, a), self.val(st, b)))]

    def quotient(self, st, x, k, q):
        """What is known of q = x // k."""
        facts = [(lin_add(x, lin_scale(q, k), -1), IntSet.range(0, k - 1))]
        if self.lin_in(st, x, IntSet.range(0, INF)) is True:
            facts += [(q, IntSet.range(0, INF)), (lin_add(x, q, -1), IntSet.range(0, INF))]
        for d, rng in facts:
            d = self.norm(st, d)
            b = self.lin_in(st, d, rng) if isinstance(d, Lin) else True
            if isinstance(b, BoolT):
                st = self.constrain(st, b.key, b.dom) or st
        return st

    def bits(self, st, v):
        """{bit: 1 or 0/1 symbol} of a non-negative integer written as a sum of distinct powers of two."""
        v = self.norm(st, v)
        out = {}
        c = v if isinstance(v, int) else v.const
        if c < 0:
            return None
        for i in range(c.bit_length()):
            if c >> i & 1:
                out[i] = 1
        for s, k in (() if isinstance(v, int) else v.terms):
            if k <= 0 or k & (k - 1) or self.dom(st, ((s, 1),)).inter(IntSet.of(0, 1)) != self.dom(st, ((s, 1),)):
                return None
            i = k.bit_length() - 1
            if i in out:
                return None
            out[i] = s
        return out

    def bitop(self, st, o, a, b):
        if o in (ast.LShift, ast.RShift):
            b = self.norm(st, b)
            if not isinstance(b, int) or b < 0:
                return None
            if o is ast.LShift:
                return lin_scale(a, 1 << b) if isinstance(a, Lin) else a << b
            x = self.bits(st, a)
            if x is None:
                return None
            r = {i - b: s for i, s in x.items() if i >= b}
        else:
            x, y = self.bits(st, a), self.bits(st, b)
            if x is None or y is None:
                return None
            r = {}
            for i in set(x) | set(y):
                p, q = x.get(i, 0), y.get(i, 0)
                if o is ast.BitOr:
                    if p == 0 or q == 0 or p == q:
                        r[i] = p or q
                    elif p == 1 or q == 1:
                        r[i] = 1
                    else:
                        return None
                elif p == q or p == 1 or q == 1 or p == 0 or q == 0:
                    if p != 0 and q != 0:
                        r[i] = p if q == 1 else q
                else:
                    return None
        t = 0
        for i, s in r.items():
            t = lin_add(t, 1 << i if s == 1 else lin_scale(Lin.sym(s), 1 << i))
        return t

    def fmt(self, a, b, st, fr, n):
        args = None
        if isinstance(b, Tup):
            args = list(b.items)
        elif isinstance(b, Ref) and isinstance(self.obj(st, b), DictO):
            args = None
            if isinstance(a, str):
                o = self.obj(st, b)
                names = []

                def positional(m):
                    if m.group(6) == '%':
                        return m.group(0)
                    names.append(m.group(1)[1:-1] if m.group(1) else None)
                    return '%' + m.group(0)[1 + len(m.group(1) or ''):]
                pos = _FMT.sub(positional, a)
                if names and all(k in o.items for k in names):
                    return self.fmt(pos, Tup(tuple(o.items[k] for k in names)), st, fr, n)
                return [(st, Term('fmt', a, self.val(st, b), kind='str'))]
        elif isinstance(b, (Term, Ext)):
            args = None if isinstance(b, Term) and b.kind is None else [b]
            if args is None:
                args = [b] if isinstance(a, str) and len(convs(a)) == 1 else None
        else:
            args = [b]
        if not isinstance(a, str) or args is None:
            return [(st, Term('fmt', a, self.val(st, b), kind='str'))]
        cs = convs(a)
        if cs is None:
            return [(st, Term('fmt', a, self.val(st, b), kind='str'))]
        if len(cs) != len(args):
            return [(st, Raised(PYEXC['TypeError'], n, fr))]
        if all(isconst(x) for x in args):
            try:
                return [(st, a % tuple(args))]
            except TypeError:
                return [(st, Raised(PYEXC['TypeError'], n, fr))]
            except Exception:
                pass
        for c, x in zip(cs, args):
            if c in 'dioxXeEfFgG' and (isinstance(x, (str, type(None), Tup)) or (isinstance(x, Term) and x.kind == 'str')):
                return [(st, Raised(PYEXC['TypeError'], n, fr))]
        import absbuiltins
        for i, x in enumerate(args):
            if cs[i] == 's' and isinstance(x, (Ref, Tup)):
                if isinstance(x, Ref) and not isinstance(self.obj(st, x), Inst):
                    continue
                rest = absbuiltins.tostr(self, st, x, fr, n)
                if len(rest) == 1 and rest[0][0] is st and rest[0][1] == x:
                    continue
                if len(rest) == 1 and isinstance(rest[0][1], Term) and rest[0][1].op == 'str':
                    continue
                return then(rest, lambda s, y: self.fmt(a, Tup(tuple(args[:i]) + (y,) + tuple(args[i + 1:])), s, fr, n)
                            if isstr(y) else [(s, Raised(PYEXC['TypeError'], n, fr))])
        parts, pos = fmtparts(a), 0
        out = ''
        ai = iter(args)
        for p in parts:
            if isinstance(p, tuple):
                x = next(ai)
                if p[0] == 's' and p[1] == '%s' and isstr(x):
                    out = concat(out, x)
                else:
                    out = concat(out, Term('str' if p[1] in ('%s', '%d', '%i') else 'fmt1:' + p[1], self.val(st, x), kind='str'))
            else:
                out = concat(out, p)
        return [(st, out)]

    def listobj(self, st, v):
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, ListO):
                return o
        return None

    def seqterm(self, lo):
        if lo.open is None:
            return Tup(lo.items)
        if not lo.items:
            return lo.open
        return Term('concat', Tup(lo.items), lo.open)

    def val(self, st, v, depth=0):
        """A heap-independent snapshot of a value, for use inside terms."""
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if depth > 6:
                return Term('deep')
            if isinstance(o, ListO):
                t = self.seqterm(o)
                if isinstance(t, Tup):
                    t = Tup(tuple(self.val(st, x, depth + 1) for x in t.items))
                return Term(o.kind, t)
            if isinstance(o, DictO):
                return Term('dict', *[Tup((k, self.val(st, x, depth + 1))) for k, x in
                                      sorted(o.items.items(), key=lambda t: repr(t[0]))])
            if isinstance(o, Inst):
                if o.tag is not None:
                    return Term('inst', o.tag)
                return v
        if isinstance(v, Tup):
            return Tup(tuple(self.val(st, x, depth + 1) for x in v.items))
        if isinstance(v, Choice):
            return v
        return self.norm(st, v)

    # comparisons ------------------------------------------------------
    def e_Compare(self, n, st, fr):
        if len(n.ops) == 1:
            return then(self.ev(n.left, st, fr), lambda s, a: then(
                self.ev(n.comparators[0], s, fr), lambda s, b: self.compare(n.ops[0], a, b, s, fr, n)))
        # chained
        def step(i, s, a):
            def go(s, b):
                def g2(s, r):
                    if i == len(n.ops) - 1:
                        return [(s, r)]
                    out = []
                    for s2, t in self.truth(s, r, fr, n):
                        if isinstance(t, Raised):
                            out.append((s2, t))
                        elif t:
                            out.extend(step(i + 1, s2, b))
                        else:
                            out.append((s2, False))
                    return out
                return then(self.compare(n.ops[i], a, b, s, fr, n), g2)
            return then(self.ev(n.comparators[i], s, fr), go)
        return then(self.ev(n.left, st, fr), lambda s, a: step(0, s, a))

    def compare(self, op, a, b, st, fr, n):
        out = []
        for s, x in self.force(st, a):
            for s2, y in self.force(s, b):
                out.extend(self.compare1(op, self.norm(s2, x), y, s2, fr, n))
        return out

    strings = None          # knows characters that stand for classes (rx.Strings)
    realorder = None        # decides order comparisons of floating point values (alg.order)

    def compare1(self, op, a, b, st, fr, n):
        o = type(op)
        if o in (ast.Eq, ast.NotEq):
            nm = '__eq__' if o is ast.Eq else '__ne__'
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and isinstance(self.obj(st, x), Inst):
                    f, c = self.obj(st, x).cls.find(nm)
                    if f is not None:
                        return self.call(st, Bound(x, f), [y], {}, fr, n)
            rs = self.equal(st, a, b)
            if o is ast.Eq:
                return rs
            return [(s, (not v) if isinstance(v, bool) else BoolT(v.key, v.dom.compl())) for s, v in rs]
        if o in (ast.Is, ast.IsNot):
            r = self.identical(st, a, b)
            rs = [(st, r)]
            if o is ast.Is:
                return rs
            return [(s, (not v) if isinstance(v, bool) else BoolT(v.key, v.dom.compl())) for s, v in rs]
        if o in (ast.In, ast.NotIn):
            rs = self.contains(st, b, a, fr, n)
            if o is ast.In:
                return rs
            out = []
            for s, v in rs:
                if isinstance(v, BoolT):
                    v = BoolT(v.key, v.dom.compl())
                elif isinstance(v, bool):
                    v = not v
                out.append((s, v))
            return out
        # ordering
        if isinstance(a, BoolT):
            return then(self.concretise(st, a), lambda s, x: self.compare1(op, int(x), b, s, fr, n))
        if isinstance(b, BoolT):
            return then(self.concretise(st, b), lambda s, x: self.compare1(op, a, int(x), s, fr, n))
        nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[o]
        if isinstance(a, Ref) and isinstance(self.obj(st, a), Inst):
            f, c = self.obj(st, a).cls.find(nm)
            if f is not None:
                return self.call(st, Bound(a, f), [b], {}, fr, n)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return [(st, {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[o])]
        if isinstance(a, str) and isinstance(b, str):
            if self.strings is not None and self.strings.has(a, b):
                a, b = self.strings.order(a, b)
            return [(st, {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[o])]
        if self.realorder is not None:
            r = self.realorder(st, o, self.norm(st, a), self.norm(st, b))
            if r is not None:
                return [(st, r)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.lexical(o, a.items, b.items, st, fr, n)
        ai = self.as_int(a) if isinstance(a, Term) and a.kind in (None, 'int') else a
        bi = self.as_int(b) if isinstance(b, Term) and b.kind in (None, 'int') else b
        if isint(ai) and isint(bi):
            d = self.norm(st, lin_add(ai, bi, -1))
            rng = {ast.Lt: IntSet.range(-INF, -1), ast.LtE: IntSet.range(-INF, 0),
                   ast.Gt: IntSet.range(1, INF), ast.GtE: IntSet.range(0, INF)}[o]
            if isinstance(d, int):
                return [(st, d in rng)]
            return [(st, self.lin_in(st, d, rng))]
        # unordered / unknown
        if o in (ast.Gt, ast.GtE):
            a, b = b, a
            o = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[o]
        for x, y, less in ((a, b, True), (b, a, False)):
            if isinstance(x, Term) and x.op == 'chance':
                # a random number below y, or not: both, recorded with the probability of being below
                return [(st.event('chance', self.val(st, self.norm(st, y)), less), True), (st.event('chance', self.val(st, self.norm(st, y)), not less), False)]
        if o is ast.LtE:
            return [(st, self.norm(st, BoolT(('lt', self.val(st, b), self.val(st, a)), FALSE)))]
        return [(st, self.norm(st, BoolT(('lt', self.val(st, a), self.val(st, b)), TRUE)))]

    def lexical(self, o, a, b, st, fr, n):
        """Tuples are ordered by their first difference."""
        if not a or not b:
            return [(st, {ast.Lt: len(a) < len(b), ast.LtE: len(a) <= len(b),
                          ast.Gt: len(a) > len(b), ast.GtE: len(a) >= len(b)}[o])]

        def rest(s, same):
            out = []
            for s2, t in self.truth(s, same, fr, n):
                if t:
                    out.extend(self.lexical(o, a[1:], b[1:], s2, fr, n))
                else:
                    out.extend(self.compare({ast.LtE: ast.Lt, ast.GtE: ast.Gt}.get(o, o)(), a[0], b[0], s2, fr, n))
            return out
        return then(self.compare(ast.Eq(), a[0], b[0], st, fr, n), rest)

    def lin_in(self, st, d, rng):
        """BoolT for linear term d in integer set rng."""
        key, k, c = d.key()
        # d = k*key + c in rng  <=>  key in (rng - c)/k
        out = []
        for lo, hi in rng.iv:
            lo2, hi2 = lo - c, hi - c
            if k < 0:
                lo2, hi2 = -hi2, -lo2
            kk = abs(k)
            import math
            lo3 = lo2 if lo2 in (INF, -INF) else -((-int(lo2)) // kk)
            hi3 = hi2 if hi2 in (INF, -INF) else int(hi2) // kk
            out.append((lo3, hi3))
        return self.norm(st, BoolT(key, IntSet(out)))

    def identical(self, st, a, b):
        if b is None or a is None:
            x = a if b is None else b
            if x is None:
                return True
            if isinstance(x, Term) and x.kind not in ('str', 'int', 'float'):
                return self.norm(st, BoolT(('val', x), CSet(True, [None])))
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a is b
        if isconst(a) and isconst(b):
            return a is b or (type(a) is type(b) and a == b)
        if isinstance(a, (Cls, Fn, ModV)) or isinstance(b, (Cls, Fn, ModV)):
            if isinstance(a, (Term,)) or isinstance(b, (Term,)):
                return self.eqatom(st, a, b)
            return a is b or a == b
        if isinstance(a, (Lin,)) and isconst(b) or isinstance(b, Lin) and isconst(a):
            rs = self.equal(st, a, b)
            return rs[0][1]
        return self.eqatom(st, a, b)

    def eqatom(self, st, a, b):
        a, b = self.val(st, a), self.val(st, b)
        if type(a) is type(b) and a == b:
            return True
        x, y = sorted((a, b), key=repr)
        return self.norm(st, BoolT(('eq', x, y), TRUE))

    def equal(self, st, a, b):
        """[(state, bool|BoolT)]"""
        if isinstance(a, BoolT):
            return [r for s, x in self.concretise(st, a) for r in self.equal(s, x, b)]
        if isinstance(b, BoolT):
            return [r for s, x in self.concretise(st, b) for r in self.equal(s, a, x)]
        if isconst(a) and isconst(b):
            if self.strings is not None and isinstance(a, str) and isinstance(b, str):
                return [(st, self.strings.equal(a, b))]
            return [(st, a == b)]
        if isint(a) and isint(b):
            d = self.norm(st, lin_add(a, b, -1))
            if isinstance(d, int):
                return [(st, d == 0)]
            return [(st, self.lin_in(st, d, IntSet.of(0)))]
        if isinstance(a, Term) and isinstance(b, (Term, str)) or isinstance(b, Term) and isinstance(a, str):
            ca, cb = chars(a), chars(b)
            if ca is not None and cb is not None:
                if len(ca) != len(cb):
                    return [(st, False)]
                if len(ca) > 1:
                    return self.equal_seq(st, ca, cb)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return [(st, False)]
            return self.equal_seq(st, a.items, b.items)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a is b:
                return [(st, True)]
            x, y = self.obj(st, a), self.obj(st, b)
            if isinstance(x, ListO) and isinstance(y, ListO) and 'iter' in (x.kind, y.kind):
                return [(st, a == b)]
            if isinstance(x, ListO) and isinstance(y, ListO) and x.open is None and y.open is None:
                if x.kind == y.kind == 'set' and all(isconst(i) for i in x.items + y.items):
                    return [(st, set(x.items) == set(y.items))]
                if len(x.items) != len(y.items):
                    return [(st, False)]
                return self.equal_seq(st, x.items, y.items)
            if isinstance(x, DictO) and isinstance(y, DictO) and x.open is None and y.open is None:
                if set(x.items) != set(y.items):
                    return [(st, False)]
                ks = list(x.items)
                return self.equal_seq(st, [x.items[k] for k in ks], [y.items[k] for k in ks])
            if isinstance(x, Inst) or isinstance(y, Inst):
                return [(st, False)]
            return [(st, self.eqatom(st, a, b))]
        if isinstance(a, (Cls, Fn, ModV, Builtin)) and isinstance(b, (Cls, Fn, ModV, Builtin)):
            return [(st, a is b or a == b)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and (isconst(y)):
                if isinstance(y, int) and x.kind == 'int':
                    return self.equal(st, Lin.sym(x), y)
                if x.kind == 'str' and not isinstance(y, str):
                    return [(st, False)]
                if isinstance(y, int) and not isinstance(y, bool) and x.kind is None:
                    return self.equal(st, Lin.sym(x), y)
                return [(st, self.norm(st, BoolT(('val', x), CSet(True, [y]))))]
            if isinstance(x, Term) and isinstance(y, Lin):
                if x.kind in ('int', None):
                    return self.equal(st, Lin.sym(x), y)
                return [(st, False)]
            if isinstance(x, (int, Lin, float)) and (y is None or isinstance(y, (str, Tup, Ref, Cls, Fn))):
                return [(st, False)]
            if isinstance(x, (str, type(None))) and isinstance(y, (Tup, Ref, Cls, Fn)):
                return [(st, False)]
            if isinstance(x, Tup) and isinstance(y, (Ref, Cls)):
                return [(st, False)]
        return [(st, self.eqatom(st, a, b))]

    def equal_seq(self, st, xs, ys):
        cur, out = [st], []
        # decided differences first
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for s1, a in self.force(s, x):
                    for s2, b in self.force(s1, y):
                        for s3, r in self.equal(s2, a, b):
                            if isinstance(r, BoolT):
                                for s4, t in self.split(s3, r.key, r.dom):
                                    if t:
                                        nxt.append(s4)
                                    else:
                                        out.append((s4, False))
                            elif r:
                                nxt.append(s3)
                            else:
                                out.append((s3, False))
            cur = nxt
        return out + [(s, True) for s in cur]

    def contains(self, st, c, x, fr, n):
        if isinstance(c, str) and isinstance(x, str):
            if self.strings is not None:
                return [(st, self.strings.contains(c, x))]
            return [(st, x in c)]
        seq = None
        if isinstance(c, Tup):
            seq = c.items
        elif isinstance(c, Ref):
            o = self.obj(st, c)
            if isinstance(o, ListO) and o.open is None:
                seq = o.items
            elif isinstance(o, DictO) and o.open is None:
                seq = tuple(o.items)
            elif isinstance(o, Inst):
                f, k = o.cls.find('__contains__')
                if f is not None:
                    return then(self.call(st, Bound(c, f), [x], {}, fr, n),
                                lambda s, v: [(s2, b) for s2, b in self.truth(s, v, fr, n)])
                f, k = o.cls.find('__iter__')
                if f is not None:
                    return then(self.iterate(st, c, fr, n), lambda s, q: self.contains(
                        s, Tup(q.items), x, fr, n) if q.open is None else [(s, BoolT(('in', self.val(s, x), self.val(s, c)), TRUE))])
        elif isinstance(c, InstDict):
            seq = tuple(self.obj(st, c.ref).attrs)
        if seq is not None:
            if type(x) is str and set(map(type, seq)) <= {str}:
                if self.strings is not None:
                    for i in seq:
                        self.strings.equal(x, i)
                return [(st, x in seq)]
            if isint(x) and seq and all(isinstance(i, int) for i in seq):
                x = self.norm(st, x)
                if isinstance(x, int):
                    return [(st, x in seq)]
                return [(st, self.lin_in(st, x, IntSet.of(*seq)))]
            if isinstance(x, Term) and all(isconst(i) for i in seq):
                if x.kind == 'int' or (x.kind is None and seq and all(isinstance(i, int) for i in seq)):
                    return self.contains(st, c, Lin.sym(x), fr, n)
                return [(st, self.norm(st, BoolT(('val', x), CSet(True, seq))))]
            cur, out = [st], []
            for i in seq:
                nxt = []
                for s in cur:
                    for s1, r in self.compare(ast.Eq(), x, i, s, fr, n):
                        if isinstance(r, Raised):
                            out.append((s1, r))
                        else:
                            for s2, t in self.truth(s1, r, fr, n):
                                if t is True:
                                    out.append((s2, True))
                                else:
                                    nxt.append(s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        if c is None or isint(c):
            return [(st, Raised(PYEXC['TypeError'], n, fr))]
        if within(self.norm(st, x), self.norm(st, c)):
            return [(st, True)]
        return [(st, self.norm(st, BoolT(('in', self.val(st, x), self.val(st, c)), TRUE)))]

    # truth --------------------------------------------------------------
    def cond(self, n, st, fr):
        """[(state, True|False|Raised)]"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, b if isinstance(b, Raised) else not b) for s, b in self.cond(n.operand, st, fr)]
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur, out = [st], []
            for x in n.values:
                nxt = []
                for s in cur:
                    for s1, b in self.cond(x, s, fr):
                        if isinstance(b, Raised):
                            out.append((s1, b))
                        elif b == isand:
                            nxt.append(s1)
                        else:
                            out.append((s1, not isand))
                cur = nxt
            return out + [(s, isand) for s in cur]
        out = []
        for s, v in self.ev(n, st, fr):
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v, fr, n))
        return out

    def truth(self, st, v, fr, n):
        if isconst(v):
            return [(st, bool(v))]
        if isinstance(v, Lin):
            v = self.norm(st, v)
            if isinstance(v, int):
                return [(st, bool(v))]
            b = self.lin_in(st, v, IntSet.of(0).compl())
            if isinstance(b, bool):
                return [(st, b)]
            return self.split(st, b.key, b.dom)
        if isinstance(v, BoolT):
            return self.split(st, v.key, v.dom)
        if isinstance(v, Tup):
            return [(st, bool(v.items))]
        if isinstance(v, Choice):
            return [r for s, x in self.force(st, v) for r in self.truth(s, x, fr, n)]
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, (ListO, DictO)):
                if o.items or isinstance(o, ListO) and o.kind == 'iter':
                    return [(st, True)]
                if o.open is None:
                    return [(st, False)]
                return self.split(st, ('empty', o.open), FALSE)
            f, c = o.cls.find('__nonzero__')
            if f is not None:
                return then(self.call(st, Bound(v, f), [], {}, fr, n), lambda s, x: self.truth(s, x, fr, n))
            f, c = o.cls.find('__len__')
            if f is not None:
                return then(self.call(st, Bound(v, f), [], {}, fr, n), lambda s, x: self.truth(s, x, fr, n))
            return [(st, True)]
        if isinstance(v, Term):
            if v.kind == 'int':
                return self.truth(st, Lin.sym(v), fr, n)
            if chars(v) or neverempty(v) or v.op == 'cat' and any(isinstance(x, str) and x or chars(x) or neverempty(x) for x in v.args):
                return [(st, True)]
            d = self.dom(st, ('val', v))
            if d.pos:
                tr = {bool(x) for x in d.vals}
                if len(tr) == 1:
                    return [(st, tr.pop())]
            return self.split(st, ('truth', v), TRUE)
        if isinstance(v, FloatT):
            return self.split(st, ('truth', v), TRUE)
        return [(st, True)]

    # attributes ---------------------------------------------------------
    def e_Attribute(self, n, st, fr):
        return then(self.ev(n.value, st, fr), lambda s, o: self.getattr(s, o, n.attr, fr, n))

    def getattr(self, st, o, name, fr, n, default=None):
        out = []
        for s, x in self.force(st, o):
            out.extend(self.getattr1(s, x, name, fr, n))
        return out

    def noattr(self, st, fr, n, onvalue=False):
        return [(st, Raised(PYEXC['AttributeError'], n, fr, onvalue))]

    def getattr1(self, st, o, name, fr, n):
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if isinstance(ob, Inst):
                return self.inst_attr(st, o, ob, name, fr, n)
            if name in METHODS[ob.kind if isinstance(ob, ListO) and ob.kind == 'iter' else 'list' if isinstance(ob, ListO) else 'dict'] or \
                    (isinstance(ob, ListO) and ob.kind == 'set' and name in METHODS['set']):
                return [(st, Meth(o, name))]
            if name == '__class__':
                return [(st, TYPES['dict' if isinstance(ob, DictO) else ob.kind])]
            return self.noattr(st, fr, n, True)
        if isinstance(o, ModV):
            v = self.modattr(o.name, name)
            if v is not None or name in self.modns[o.name]:
                return [(st, v)]
            return self.noattr(st, fr, n)
        if isinstance(o, Cls):
            if name == '__dict__':
                return [self.new(st, DictO(dict(o.attrs)))]
            if name == '__name__':
                return [(st, o.name)]
            if name == '__bases__':
                return [(st, Tup(tuple(o.bases)))]
            v, c = o.find(name)
            if c is None:
                if o.ext_bases():
                    return [(st, Ext(o.ext_bases()[0].path + '.' + name))]
                if name in ('__new__', '__init__', '__setattr__', '__getattribute__', '__delattr__', '__hash__') or o.builtin:
                    if o.builtin and name in METHODS.get(o.name, ()):
                        return [(st, Builtin(o.name + '.' + name))]
                    return [(st, Builtin('object.' + name))]
                if name == '__doc__':
                    return [(st, None)]
                return self.noattr(st, fr, n)
            if isinstance(v, Wrapped):
                if v.kind == 'staticmethod':
                    return [(st, v.fn)]
                if v.kind == 'classmethod':
                    return [(st, Bound(o, v.fn))]
            return self.force(st, v)
        if isinstance(o, Ext):
            h = self.attrhooks.get(o.path + '.' + name)
            if h is not None:
                return h(st)
            return [(st, self.extval(o.path + '.' + name))]
        if isinstance(o, Super):
            return self.super_attr(st, o, name, fr, n)
        if isinstance(o, InstDict):
            return [(st, Meth(o, name))]
        if isinstance(o, str):
            return [(st, Meth(o, name))] if name in METHODS['str'] else self.noattr(st, fr, n, True)
        if isinstance(o, Tup):
            return [(st, Meth(o, name))] if name in METHODS['tuple'] else self.noattr(st, fr, n, True)
        if o is None:
            return self.noattr(st, fr, n, True)
        if isinstance(o, (int, float, Lin, BoolT)):
            return self.noattr(st, fr, n, True)
        if isinstance(o, (Fn, Bound)):
            if name in ('__name__', 'func_name'):
                f = o.fn if isinstance(o, Bound) else o
                return [(st, f.node.name if isinstance(f, Fn) and hasattr(f.node, 'name') else '<lambda>')]
            if name == '__doc__':
                f = o.fn if isinstance(o, Bound) else o
                if isinstance(f, Fn) and not isinstance(f.node, ast.Lambda):
                    d = None
                    if f.node.body and isinstance(f.node.body[0], ast.Expr) and \
                            isinstance(f.node.body[0].value, ast.Constant) and isinstance(f.node.body[0].value.value, str):
                        d = f.node.body[0].value.value
                    return [(st, d)]
                return [(st, None)]
            return [(st, Term('attr', Term('fn', repr(o)), name))]
        if isinstance(o, Wrapped):
            return [(st, Meth(o, name))]
        if isinstance(o, Term):
            if o.kind == 'str':
                return [(st, Meth(o, name))] if name in METHODS['str'] else self.noattr(st, fr, n, True)
            h = self.attrhooks.get('.' + name)
            if h is not None:
                r = h(st, o)
                if r is not None:
                    return r
            return [(st, Term('attr', o, name))]
        if isinstance(o, FloatT):
            return self.noattr(st, fr, n)
        return [(st, Term('attr', o if isinstance(o, V) else Term(repr(o)), name))]

    def inst_attr(self, st, ref, ob, name, fr, n):
        if name == '__dict__':
            return [(st, InstDict(ref))]
        if name == '__class__':
            return [(st, ob.cls)]
        f, c = ob.cls.find('__getattribute__')
        if f is not None:
            return self.call(st, Bound(ref, f), [name], {}, fr, n)
        v, c = ob.cls.find(name)
        if c is not None and isinstance(v, Wrapped) and v.kind == 'property':
            return self.call(st, v.fn, [ref], {}, fr, n)
        if name in ob.attrs:
            if self.watch is not None:
                st = self.watched(st, ref, ob, name, 'read', fr, n)
            return self.force(st, ob.attrs[name])
        if c is not None:
            if isinstance(v, Wrapped):
                if v.kind == 'staticmethod':
                    return [(st, v.fn)]
                return [(st, Bound(ob.cls, v.fn))]
            if isinstance(v, Fn) or isinstance(v, Builtin) and v.name.startswith('rx'):
                return [(st, Bound(ref, v))]
            return self.force(st, v)
        f, c = ob.cls.find('__getattr__')
        if f is not None:
            return self.call(st, Bound(ref, f), [name], {}, fr, n)
        if ob.cls.isa(PYEXC['BaseException']) and name in ('args', 'message'):
            return [(st, Term('excattr', ref.n, name))]
        if ob.cls.ext_bases():
            return [(st, Bound(ref, Ext(ob.cls.ext_bases()[0].path + '.' + name)))]
        return self.noattr(st, fr, n)

    def super_attr(self, st, o, name, fr, n):
        obj = o.obj
        cls = self.obj(st, obj).cls if isinstance(obj, Ref) else obj
        mro = cls.mro()
        i = mro.index(o.cls) if o.cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.attrs:
                v = c.attrs[name]
                if isinstance(v, Fn):
                    return [(st, Bound(obj, v))]
                return [(st, v)]
        if cls.ext_bases():
            return [(st, Bound(obj, Ext(cls.ext_bases()[0].path + '.' + name)))]
        if name in ('__init__', '__setattr__', '__new__', '__getattribute__', '__delattr__'):
            return [(st, Bound(obj, Builtin('object.' + name)))]
        return self.noattr(st, fr, n)

    def setattr(self, st, o, name, v, fr, n):
        """-> statement outcomes"""
        out = []
        for s, x in self.force(st, o):
            out.extend(self.setattr1(s, x, name, v, fr, n))
        return out

    def setattr1(self, st, o, name, v, fr, n):
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if isinstance(ob, Inst):
                f, c = ob.cls.find('__setattr__')
                if f is not None:
                    return self.fin(self.call(st, Bound(o, f), [name, v], {}, fr, n))
                return [(self.raw_setattr(st, o, name, v, fr, n), None)]
            return [(st, ('raise', Raised(PYEXC['AttributeError'], n, fr)))]
        if isinstance(o, Cls):
            if fr.fn is None:
                o.attrs[name] = v
                return [(st, None)]
            return [(st.event('setclsattr', o, name, v), None)]
        if isinstance(o, ModV):
            return [(st.event('setmodattr', o.name, name, v), None)]
        if isinstance(o, (Term, Ext)):
            return [(st.event('setext', o, name, self.val(st, v)) if self.record_ext else st, None)]
        return [(st, ('raise', Raised(PYEXC['AttributeError'], n, fr)))]

    def watched(self, st, ref, ob, name, how, fr, n):
        """Records accesses to attributes of instances of watched classes."""
        if not any(c.qual in self.watch for c in ob.cls.mro()):
            return st
        v = ob.attrs.get(name)
        mutable = isinstance(v, Ref) and isinstance(self.obj(st, v), (ListO, DictO))
        return st.event('access', ref.n, name, how, mutable, getattr(fr, 'qual', '?'), getattr(n, 'lineno', '?'))

    def raw_setattr(self, st, ref, name, v, fr=None, n=None):
        ob = self.obj(st, ref)
        if self.watch is not None:
            st = self.watched(st, ref, ob, name, 'write', fr, n)
        f, c = ob.cls.find(name)
        attrs = dict(ob.attrs)
        attrs[name] = v
        return st.put(ref, Inst(ob.cls, attrs, ob.tag))

    def delattr(self, st, o, name, fr, n):
        if isinstance(o, Ref) and isinstance(self.obj(st, o), Inst):
            ob = self.obj(st, o)
            f, c = ob.cls.find('__delattr__')
            if f is not None:
                return self.fin(self.call(st, Bound(o, f), [name], {}, fr, n))
            if name in ob.attrs:
                attrs = dict(ob.attrs)
                del attrs[name]
                return [(st.put(o, Inst(ob.cls, attrs, ob.tag)), None)]
            return [(st, ('raise', Raised(PYEXC['AttributeError'], n, fr)))]
        return [(st, None)]

    # subscripts -----------------------------------------------------------
    def e_Subscript(self, n, st, fr):
        return then(self.ev(n.value, st, fr), lambda s, o: then(
            self.ev_index(n.slice, s, fr), lambda s, i: self.getitem(s, o, i, fr, n)))

    def getitem(self, st, o, i, fr, n):
        out = []
        for s, x in self.force(st, o):
            if isinstance(i, Slice):
                out.extend(self.getslice(s, x, i, fr, n))
            else:
                for s2, j in self.force(s, i):
                    out.extend(self.getitem1(s2, x, j, fr, n))
        return out

    def getitem1(self, st, o, i, fr, n):
        seq, op = None, None
        if isinstance(o, Tup):
            seq = o.items
        elif isinstance(o, str):
            if isinstance(i, int):
                try:
                    return [(st, o[i])]
                except IndexError:
                    return [(st, Raised(PYEXC['IndexError'], n, fr))]
            seq = tuple(o)
        elif chars(o) is not None:
            seq = chars(o)
        elif isinstance(o, Ref):
            ob = self.obj(st, o)
            if isinstance(ob, ListO):
                if ob.kind in ('set', 'iter'):
                    return [(st, Raised(PYEXC['TypeError'], n, fr))]
                seq, op = ob.items, ob.open
            elif isinstance(ob, DictO):
                return self.dict_get(st, ob, o, i, fr, n)
            else:
                f, c = ob.cls.find('__getitem__')
                if f is not None:
                    return self.call(st, Bound(o, f), [i], {}, fr, n)
                return [(st, Raised(PYEXC['TypeError'], n, fr))]
        elif isinstance(o, InstDict):
            ob = self.obj(st, o.ref)
            if isinstance(i, str) and i in ob.attrs:
                return self.force(st, ob.attrs[i])
            return [(st, Raised(PYEXC['KeyError'], n, fr))]
        if seq is not None:
            if isinstance(i, str) or i is None:
                return [(st, Raised(PYEXC['TypeError'], n, fr))]
            out = []
            if isinstance(i, Term):
                i = Lin.sym(i)
            for s, j in self.concretise(st, i):
                if isinstance(j, int):
                    if op is None:
                        if -len(seq) <= j < len(seq):
                            out.extend(self.force(s, seq[j]))
                        else:
                            out.append((s, Raised(PYEXC['IndexError'], n, fr)))
                    elif 0 <= j < len(seq):
                        out.extend(self.force(s, seq[j]))
                    else:
                        out.append((s, self.item_term(op, j - len(seq) if j >= 0 else j)))
                else:
                    # unknown index
                    if op is None and len(seq) > 0:
                        if isinstance(j, Lin):
                            inr = self.lin_in(s, j, IntSet.range(-len(seq), len(seq) - 1))
                            for s2, t in self.truth(s, inr, fr, n):
                                if not t:
                                    out.append((s2, Raised(PYEXC['IndexError'], n, fr)))
                                else:
                                    for s3, k in self.concretise(s2, j):
                                        if isinstance(k, int):
                                            out.extend(self.force(s3, seq[k]))
                                        else:
                                            out.append((s3, Term('item', self.val(s3, o), k)))
                            continue
                    out.append((s, Term('item', op if op is not None and not seq else self.val(s, o), j)))
            return out
        if isinstance(o, (int, float, Lin, BoolT, type(None))):
            return [(st, Raised(PYEXC['TypeError'], n, fr))]
        if isinstance(o, Term):
            h = self.methhooks.get('[]')
            if h is not None:
                r = h(self, st, o, i, fr, n)
                if r is not None:
                    return r
            if o.kind == 'str':
                return [(st, Term('item', o, self.val(st, i), kind='str'))]
        return [(st, Term('item', self.val(st, o), self.val(st, i)))]

    def dict_get(self, st, ob, o, i, fr, n, default=Raised):
        def miss(s):
            if default is Raised:
                return (s, Raised(PYEXC['KeyError'], n, fr))
            return (s, default)
        if isinstance(i, (int, str, type(None), float)) or (isinstance(i, Tup) and hashable(i)) or isinstance(i, (Cls, Fn, Ref)):
            if i in ob.items:
                return self.force(st, ob.items[i])
            if ob.open is None:
                # symbolic keys in the dict?
                return [miss(st)]
            return [(st, Term('item', ob.open, i))]
        if isinstance(i, (Lin, BoolT)):
            out = []
            for s, j in self.concretise(st, i):
                if isinstance(j, (int, bool)):
                    out.extend(self.dict_get(s, ob, o, j, fr, n, default))
                elif ob.open is None and all(isinstance(k, int) for k in ob.items):
                    b = self.lin_in(s, j, IntSet.of(*ob.items))
                    for s2, t in self.truth(s, b, fr, n):
                        if not t:
                            out.append(miss(s2))
                        else:
                            for s3, k in self.concretise(s2, j):
                                if isinstance(k, int):
                                    out.extend(self.force(s3, ob.items[k]))
                                else:
                                    out.append((s3, Term('item', self.val(s3, o), k)))
                else:
                    if j in ob.items:
                        out.extend(self.force(s, ob.items[j]))
                    else:
                        out.append((s, Term('item', self.val(s, o), j)))
            return out
        if i in ob.items:
            return self.force(st, ob.items[i])
        if ob.open is None and isinstance(i, Term):
            t = self.val(st, i)
            inb = self.norm(st, BoolT(('val', t), CSet(True, [k for k in ob.items if isconst(k)])))
            out = []
            for s, b in self.truth(st, inb, fr, n):
                if not b:
                    out.append(miss(s))
                elif len(ob.items) <= 40:
                    for k in ob.items:
                        s2 = self.constrain(s, ('val', t), CSet(True, [k]))
                        if s2 is not None:
                            out.extend(self.force(s2, ob.items[k]))
                else:
                    out.append((s, Term('item', Term('bigdict', o.n if isinstance(o, Ref) else 0), t)))
            return out
        return [(st, Term('item', ob.open if ob.open is not None else self.val(st, o), self.val(st, i)))]

    def getslice(self, st, o, sl, fr, n):
        parts = [sl.lo, sl.hi, sl.step]
        ks = all(p is None or isinstance(p, int) for p in parts)
        if not ks:
            # split finite unknown bounds
            out = []
            for s, a in self.concretise(st, sl.lo):
                for s2, b in self.concretise(s, sl.hi):
                    if (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)):
                        out.extend(self.getslice(s2, o, Slice(a, b, sl.step), fr, n))
                    else:
                        k = 'str' if isstr(o) else None
                        t = Term('slice', self.val(s2, o), self.val(s2, a), self.val(s2, b), sl.step, kind=k)
                        if isinstance(o, Ref) and isinstance(self.obj(s2, o), ListO):
                            out.append(self.new(s2, ListO((), t)))
                        else:
                            out.append((s2, t))
            return out
        s = slice(sl.lo, sl.hi, sl.step)
        if isinstance(o, Tup):
            return [(st, Tup(o.items[s]))]
        if isinstance(o, str):
            return [(st, type(o)(o[s]) if not isinstance(o, front.UStr) else front.UStr(o[s]))]
        if chars(o) is not None:
            return [(st, fromchars(chars(o)[s]))]
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if isinstance(ob, ListO):
                if ob.kind == 'iter':
                    return [(st, Raised(PYEXC['TypeError'], n, fr))]
                if ob.open is None:
                    return [self.new(st, ListO(ob.items[s]))]
                if not ob.items:
                    lo = 0 if sl.lo is None else sl.lo
                    if isinstance(lo, int) and isinstance(sl.hi, int) and sl.step is None and 0 <= lo <= sl.hi:
                        return [self.new(st, ListO((), Term('slice', ob.open, lo, sl.hi, None)))]
                return [self.new(st, ListO((), Term('slice', self.val(st, o), sl.lo, sl.hi, sl.step)))]
            if isinstance(ob, Inst):
                f, c = ob.cls.find('__getslice__')
                if f is not None and sl.step is None:
                    return self.call(st, Bound(o, f), [0 if sl.lo is None else sl.lo, 2 ** 63 - 1 if sl.hi is None else sl.hi], {}, fr, n)
                f, c = ob.cls.find('__getitem__')
                if f is not None:
                    return self.call(st, Bound(o, f), [sl], {}, fr, n)
        if o is None or isint(o):
            return [(st, Raised(PYEXC['TypeError'], n, fr))]
        if isinstance(o, Term):
            h = self.methhooks.get('[:]')
            if h is not None:
                r = h(self, st, o, sl, fr, n)
                if r is not None:
                    return r
        return [(st, Term('slice', self.val(st, o), sl.lo, sl.hi, sl.step, kind='str' if isstr(o) else None))]

    def setitem(self, st, o, i, v, fr, n):
        out = []
        for s, x in self.force(st, o):
            if isinstance(i, Slice):
                out.extend(self.setslice(s, x, i, v, fr, n))
                continue
            for s2, j in self.concretise(s, i):
                out.extend(self.setitem1(s2, x, j, v, fr, n))
        return out

    def setslice(self, st, o, sl, v, fr, n):
        lo = self.listobj(st, o)
        if lo is not None and lo.open is None and all(p is None or isinstance(p, int) for p in (sl.lo, sl.hi, sl.step)):
            def go(s, q):
                if q.open is not None:
                    return [(s.put(o, ListO((), Term('setslice', self.fresh))), None)]
                items = list(self.obj(s, o).items)
                items[slice(sl.lo, sl.hi, sl.step)] = list(q.items)
                return [(s.put(o, ListO(items)), None)]
            return self.fin(self.iterate(st, v, fr, n), go)
        if lo is not None:
            return [(st.put(o, ListO((), Term('setslice', self.val(st, o), self.val(st, v)))), None)]
        return [(st, ('raise', Raised(PYEXC['TypeError'], n, fr)))]

    def setitem1(self, st, o, i, v, fr, n):
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if isinstance(ob, ListO):
                if isinstance(i, int):
                    if ob.open is None:
                        if not (-len(ob.items) <= i < len(ob.items)):
                            return [(st, ('raise', Raised(PYEXC['IndexError'], n, fr)))]
                        items = list(ob.items)
                        items[i] = v
                        return [(st.put(o, ListO(items, None, ob.kind)), None)]
                    if 0 <= i < len(ob.items):
                        items = list(ob.items)
                        items[i] = v
                        return [(st.put(o, ListO(items, ob.open, ob.kind)), None)]
                return [(st.put(o, ListO((), Term('store', self.val(st, o), self.val(st, i), self.val(st, v)))), None)]
            if isinstance(ob, DictO):
                d = dict(ob.items)
                if isinstance(i, Slice) or not hashable(i):
                    return [(st, ('raise', Raised(PYEXC['TypeError'], n, fr)))]
                d[i] = v
                return [(st.put(o, DictO(d, ob.open)), None)]
            f, c = ob.cls.find('__setitem__')
            if f is not None:
                return self.fin(self.call(st, Bound(o, f), [i, v], {}, fr, n))
            return [(st, ('raise', Raised(PYEXC['TypeError'], n, fr)))]
        if isinstance(o, InstDict):
            if isinstance(i, str):
                return [(self.raw_setattr(st, o.ref, i, v, fr, n), None)]
            ob = self.obj(st, o.ref)
            return [(st.event('setdyn', o.ref, self.val(st, i), v), None)]
        if isinstance(o, (Tup, str, int, type(None), Lin)):
            return [(st, ('raise', Raised(PYEXC['TypeError'], n, fr)))]
        return [(st.event('setextitem', self.val(st, o), self.val(st, i), self.val(st, v)) if self.record_ext else st, None)]

    def delitem(self, st, o, i, fr, n):
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if isinstance(ob, DictO):
                if i in ob.items:
                    d = dict(ob.items)
                    del d[i]
                    return [(st.put(o, DictO(d, ob.open)), None)]
                if ob.open is None:
                    return [(st, ('raise', Raised(PYEXC['KeyError'], n, fr)))]
                return [(st, None)]
            if isinstance(ob, ListO):
                if ob.open is None and isinstance(i, int):
                    items = list(ob.items)
                    try:
                        del items[i]
                    except IndexError:
                        return [(st, ('raise', Raised(PYEXC['IndexError'], n, fr)))]
                    return [(st.put(o, ListO(items, None, ob.kind)), None)]
                if ob.open is None and isinstance(i, Slice) and all(
                        p is None or isinstance(p, int) for p in (i.lo, i.hi, i.step)):
                    items = list(ob.items)
                    del items[slice(i.lo, i.hi, i.step)]
                    return [(st.put(o, ListO(items, None, ob.kind)), None)]
                return [(st.put(o, ListO((), Term('delitem', self.val(st, o), self.val(st, i)))), None)]
        if isinstance(o, InstDict):
            ob = self.obj(st, o.ref)
            if i in ob.attrs:
                a = dict(ob.attrs)
                del a[i]
                return [(st.put(o.ref, Inst(ob.cls, a, ob.tag)), None)]
            return [(st, ('raise', Raised(PYEXC['KeyError'], n, fr)))]
        return [(st, None)]

    # iteration ----------------------------------------------------------
    def iterate(self, st, v, fr, n):
        """[(state, ListO)]: the elements, in order; .open names an unknown tail."""
        out = []
        for s, x in self.force(st, v):
            out.extend(self.iterate1(s, x, fr, n))
        return out

    def iterate1(self, st, v, fr, n):
        if isinstance(v, Tup):
            return [(st, ListO(v.items))]
        if isinstance(v, str):
            return [(st, ListO(tuple(v)))]
        cs = chars(v)
        if cs is not None:
            return [(st, ListO(cs))]
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, ListO):
                if o.kind == 'iter':        # what is taken from an iterator is not there any more
                    return [(st.put(v, ListO((), None, 'iter')), ListO(o.items, o.open))]
                return [(st, o)]
            if isinstance(o, DictO):
                return [(st, ListO(tuple(o.items), o.open))]
            f, c = o.cls.find('__iter__')
            if f is not None:
                return then(self.call(st, Bound(v, f), [], {}, fr, n), lambda s, x: self.iterate(s, x, fr, n))
            f, c = o.cls.find('__getitem__')
            if f is not None:
                return [(st, ListO((), Term('iter', self.val(st, v))))]
            return [(st, Raised(PYEXC['TypeError'], n, fr))]
        if isinstance(v, InstDict):
            return [(st, ListO(tuple(self.obj(st, v.ref).attrs)))]
        if isinstance(v, (int, float, Lin, BoolT, type(None), Fn, ModV)):
            return [(st, Raised(PYEXC['TypeError'], n, fr))]
        return [(st, ListO((), self.val(st, v)))]

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, lambda s, items, op: [self.new(s, ListO(items, op))])

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, lambda s, items, op: [self.new(s, ListO(items, op, 'iter'))])

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, lambda s, items, op: [self.new(s, ListO(dedup(items), op, 'set'))])

    def e_DictComp(self, n, st, fr):
        n2 = ast.copy_location(ast.ListComp(elt=ast.copy_location(ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), n),
                                            generators=n.generators), n)

        def fin(s, items, op):
            d = {}
            for it in items:
                d[self.norm(s, it.items[0])] = it.items[1]
            return [self.new(s, DictO(d, op))]
        return self.comp(n2, st, fr, fin)

    def comp(self, n, st, fr, fin):
        env0 = st.env

        def run(gi, s, acc):
            """-> [(state, (items, open) | Raised)]"""
            if gi == len(n.generators):
                rs = self.ev(n.elt, s, fr)
                good = [(s2, v) for s2, v in rs if not isinstance(v, Raised)]
                if len(rs) > 1 and len(good) == len(rs) and all(
                        s2.heap is s.heap and s2.events == s.events for s2, _ in rs):
                    alts = []
                    for s2, v in rs:
                        delta = tuple((k, d) for k, d in s2.facts.items() if s.facts.get(k) != d)
                        alts.append((delta, v))
                    alts = self.merge_alts(alts)
                    v = alts[0][1] if len(alts) == 1 and not alts[0][0] else Choice(tuple(alts))
                    return [(s, (acc[0] + (v,), acc[1]))]
                return [(s2, v if isinstance(v, Raised) else (acc[0] + (v,), acc[1])) for s2, v in rs]
            g = n.generators[gi]
            out = []
            for s1, it in then(self.ev(g.iter, s, fr), lambda s, v: self.iterate(s, v, fr, n)):
                if isinstance(it, Raised):
                    out.append((s1, it))
                    continue
                cur = [(s1, acc)]
                for x in it.items:
                    nxt = []
                    for s2, a in cur:
                        if isinstance(a, Raised):
                            nxt.append((s2, a))
                            continue
                        for s3, c in self.assign(g.target, x, s2, fr):
                            if c is not None:
                                nxt.append((s3, c[1]))
                                continue
                            conds = [(s3, True)]
                            for cnd in g.ifs:
                                cc = []
                                for s4, b in conds:
                                    if b is True:
                                        cc.extend(self.cond(cnd, s4, fr))
                                    else:
                                        cc.append((s4, b))
                                conds = cc
                            for s4, b in conds:
                                if isinstance(b, Raised):
                                    nxt.append((s4, b))
                                elif b:
                                    nxt.extend(run(gi + 1, s4, a))
                                else:
                                    nxt.append((s4, a))
                    cur = nxt
                if it.open is not None:
                    nxt = []
                    for s2, a in cur:
                        if isinstance(a, Raised):
                            nxt.append((s2, a))
                            continue
                        el = Term('elem', it.open, kind=elem_kind(it.open))
                        sub = []
                        for s3, c in self.assign(g.target, el, s2, fr):
                            if c is not None:
                                nxt.append((s3, c[1]))
                                continue
                            cs = [(s3, True)]
                            for cnd in g.ifs:
                                cs = [r for s4, b in cs for r in (self.cond(cnd, s4, fr) if b is True else [(s4, b)])]
                            for s4, b in cs:
                                if isinstance(b, Raised):
                                    nxt.append((s4, b))
                                elif b:
                                    sub.extend(run(gi + 1, s4, ((), None)))
                        bodies = []
                        for s4, r in sub:
                            if isinstance(r, Raised):
                                nxt.append((s4, r))
                            else:
                                bodies.append(Tup(tuple(self.val(s4, y) for y in r[0])))
                        flt = Tup(tuple(ast.dump(c) for c in g.ifs))
                        t = Term('map', it.open, Tup(tuple(sorted(set(bodies), key=repr))), flt) if g.ifs or \
                            bodies != [Tup((el,))] else it.open
                        if a[1] is not None or a[0]:
                            t2 = Term('concat', Tup(a[0]), t) if a[1] is None else Term('concat', a[1], t)
                            nxt.append((s2, (a[0], t)) if a[1] is None else (s2, ((), t2)))
                        else:
                            nxt.append((s2, ((), t)))
                    cur = nxt
                out.extend(cur)
            return out
        res = []
        for s, r in run(0, st, ((), None)):
            s = s.with_env(env0)
            if isinstance(r, Raised):
                res.append((s, r))
            else:
                res.extend(fin(s, r[0], r[1]))
        return res

    def merge_alts(self, alts):
        byv = {}
        order = []
        for f, v in alts:
            k = (type(v).__name__, v)
            if k not in byv:
                byv[k] = []
                order.append(k)
            byv[k].append(dict(f))
        out = []
        for k in order:
            for f in self.merge_facts(byv[k]):
                out.append((tuple(sorted(f.items(), key=repr)), k[1]))
        return out

    def e_Lambda(self, n, st, fr):
        return self.make_fn(n, st, fr, '<lambda>')

    def e_Yield(self, n, st, fr):
        rs = self.ev(n.value, st, fr) if n.value is not None else [(st, None)]

        def go(s, v):
            s = s.copy()
            s.yields = s.yields + (v,)
            return [(s.event('yield', self.val(s, v)), None)]
        return then(rs, go)

    def e_Starred(self, n, st, fr):
        raise AnalysisError('starred')

    # calls -----------------------------------------------------------------
    def e_Call(self, n, st, fr):
        def withf(s, f):
            plain = [a for a in n.args if not isinstance(a, ast.Starred)]
            stars = [a for a in n.args if isinstance(a, ast.Starred)]

            def witha(s, args):
                def withs(s, extra):
                    def withk(s, kvs):
                        kw, dyn = {}, []
                        for k, v in zip(n.keywords, kvs):
                            if k.arg is None:
                                dyn.append(v)
                            else:
                                kw[k.arg] = v
                        outs = [(s, kw)]
                        for d in dyn:
                            if isinstance(d, Ref) and isinstance(self.obj(s, d), DictO):
                                o = self.obj(s, d)
                                kw = dict(kw)
                                kw.update({k: v for k, v in o.items.items()})
                                if o.open is not None:
                                    kw['**'] = o.open
                            elif isinstance(d, InstDict):
                                kw = dict(kw)
                                kw.update(self.obj(s, d.ref).attrs)
                            else:
                                kw = dict(kw)
                                kw['**'] = d
                        return self.call(s, f, list(args) + list(extra), kw, fr, n)
                    return then(self.ev_list([k.value for k in n.keywords], s, fr), withk)
                if not stars:
                    return withs(s, ())

                def star(s, v):
                    def g(s, q):
                        if q.open is not None:
                            return withs(s, q.items + (Term('*', q.open),))
                        return withs(s, q.items)
                    return then(self.iterate(s, v, fr, n), g)
                return then(self.ev(stars[0].value, s, fr), star)
            return then(self.ev_list(plain, s, fr), witha)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            raise AnalysisError('super()')
        return then(self.ev(n.func, st, fr), withf)

    def call(self, st, f, args, kw, fr, n):
        out = []
        for s, x in self.force(st, f):
            out.extend(self.call1(s, x, args, kw, fr, n))
        return out

    def call1(self, st, f, args, kw, fr, n):
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.call_fn(st, f.fn, [f.self] + list(args), kw, fr, n)
            if isinstance(f.fn, Builtin):
                return self.call1(st, f.fn, [f.self] + list(args) if not f.fn.name.endswith('__new__') else list(args), kw, fr, n)
            if isinstance(f.fn, Ext):
                return self.call_ext(st, f.fn.path, [f.self] + list(args), kw, fr, n)
            return self.call1(st, f.fn, [f.self] + list(args), kw, fr, n)
        if isinstance(f, Fn):
            return self.call_fn(st, f, list(args), kw, fr, n)
        if isinstance(f, Cls):
            return self.instantiate(st, f, list(args), kw, fr, n)
        if isinstance(f, Builtin):
            import absbuiltins
            return absbuiltins.call_builtin(self, st, f.name, list(args), kw, fr, n)
        if isinstance(f, Meth):
            import absbuiltins
            return absbuiltins.call_method(self, st, f.obj, f.name, list(args), kw, fr, n)
        if isinstance(f, Ext):
            return self.call_ext(st, f.path, list(args), kw, fr, n)
        if isinstance(f, Ref):
            o = self.obj(st, f)
            if isinstance(o, Inst):
                g, c = o.cls.find('__call__')
                if g is not None:
                    return self.call1(st, Bound(f, g), args, kw, fr, n)
            return [(st, Raised(PYEXC['TypeError'], n, fr))]
        if isinstance(f, Term):
            return self.call_term(st, f, list(args), kw, fr, n)
        if f is None or isconst(f) or isinstance(f, (Tup, Lin)):
            return [(st, Raised(PYEXC['TypeError'], n, fr))]
        return self.call_term(st, Term('callable', repr(f)), list(args), kw, fr, n)

    def call_term(self, st, f, args, kw, fr, n):
        if f.op == 'attr':
            h = self.methhooks.get(f.args[1])
            if h is not None:
                r = h(self, st, f.args[0], args, kw, fr, n)
                if r is not None:
                    return r
        if f.op == 'call' and isinstance(f.args[0], Ext) and len(f.args) == 2 and len(args) == 1 and not kw:
            if f.args[0].path == 'operator.itemgetter':
                return self.getitem(st, args[0], f.args[1], fr, n)
            if f.args[0].path == 'operator.attrgetter' and isinstance(f.args[1], str) and '.' not in f.args[1]:
                return self.getattr(st, args[0], f.args[1], fr, n)
        vals = [self.val(st, a) for a in args]
        if self.record_ext:
            st = st.event('callterm', f, tuple(vals), tuple(sorted((k, self.val(st, v)) for k, v in kw.items())))
        t = Term('call', f, *(vals + [Tup((k, self.val(st, v))) for k, v in sorted(kw.items())]))
        out = [(st, t)]
        if fr.tries or self.opaque_raises:
            out.append((st, Raised(Term('unknownexc', f), n, fr)))
        return out

    def call_ext(self, st, path, args, kw, fr, n):
        h = self.exthooks.get(path)
        if h is not None:
            r = h(self, st, args, kw, fr, n)
            if r is not None:
                return r
        import absbuiltins
        r = absbuiltins.call_ext(self, st, path, args, kw, fr, n)
        if r is not None:
            return r
        vals = [self.val(st, a) for a in args]
        if self.record_ext:
            st = st.event('callext', path, tuple(vals), tuple(sorted((k, self.val(st, v)) for k, v in kw.items())))
        t = Term('call', Ext(path), *(vals + [Tup((k, self.val(st, v))) for k, v in sorted(kw.items())]))
        out = [(st, t)]
        if fr.tries or self.opaque_raises:
            out.append((st, Raised(Term('unknownexc', Ext(path)), n, fr)))
        return out

    def bind_args(self, st, f, args, kw, fr, n):
        """-> env dict or None on a TypeError."""
        a = f.node.args
        names = [x.arg for x in a.args]
        env = {}
        kw = dict(kw)
        openkw = kw.pop('**', None)
        star = None
        if args and isinstance(args[-1], Term) and args[-1].op == '*':
            star = args[-1].args[0]
            args = args[:-1]
        if len(args) > len(names) and not a.vararg:
            return None
        for x, v in zip(names, args):
            env[x] = v
        if star is not None:
            for i, x in enumerate(names[len(args):]):
                if x not in kw:
                    env[x] = Term('item', star, i)
        extra = tuple(args[len(names):])
        if a.vararg:
            env[a.vararg.arg] = Tup(extra) if star is None else Term('starargs', Tup(extra), star)
        rest = {}
        for k, v in kw.items():
            if k in names:
                if k in env:
                    return None
                env[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                return None
        d = f.defaults
        for x, v in zip(names[len(names) - len(d):], d):
            if x not in env:
                env[x] = Term('optkw', openkw, x) if openkw is not None and False else v
        for x in names:
            if x not in env:
                if openkw is not None:
                    env[x] = Term('item', openkw, x)
                else:
                    return None
        if a.kwarg:
            env[a.kwarg.arg] = ('kwdict', rest, openkw)
        return env

    def call_fn(self, st, f, args, kw, fr, n):
        h = self.hooks.get(f.qual)
        if h is not None:
            r = h(self, st, f, args, kw, fr, n)
            if r is not None:
                return r
        env = self.bind_args(st, f, args, kw, fr, n)
        if env is None:
            return [(st, Raised(PYEXC['TypeError'], n, fr))]
        for k, v in list(env.items()):
            if isinstance(v, tuple) and v and v[0] == 'kwdict':
                st, r = self.new(st, DictO(v[1], v[2]))
                env[k] = r
        if fr.depth > self.MAXDEPTH:
            raise AnalysisError('call depth exceeded at %s' % f.qual)
        rec, up = 0, fr
        while up is not None:
            if up.fn is f:
                rec += 1
            up = up.caller
        if rec >= self.maxrec:
            return self.recursion(st, f, args, kw, fr, n)
        self.seen_fns[f.qual] = self.seen_fns.get(f.qual, 0) + 1
        nf = Frame(f.mod, f, f.qual, fr.depth + 1, 0, fr, n)
        caller_env, caller_y = st.env, st.yields
        inner = st.with_env(env)
        inner.yields = ()
        if isinstance(f.node, ast.Lambda):
            outs = [(s, ('raise', v) if isinstance(v, Raised) else ('ret', v)) for s, v in self.ev(f.node.body, inner, nf)]
        else:
            outs = self.exec_block(f.node.body, inner, nf)
        res = []
        for s, c in outs:
            ys = s.yields
            s2 = s.with_env(caller_env)
            s2.yields = caller_y
            if c is None:
                v = None
            elif c[0] == 'ret':
                v = c[1]
            elif c[0] == 'raise':
                v = c[1]
            else:
                raise AnalysisError('loop control outside loop')
            if f.gen and not isinstance(v, Raised):
                op = None
                # yields inside summarised loops are only in the events
                for e in s2.events[len(st.events):]:
                    if e[0] == 'loop' and _has_yield(e):
                        op = Term('gen', f.qual, *[self.val(st, a) for a in args])
                s2.events = st.events + tuple(e for e in s2.events[len(st.events):] if e[0] != 'yield')
                s2, v = self.new(s2, ListO(() if op is not None else ys, op, 'iter'))
            elif isinstance(v, V):
                v = self.norm(s2, v)
            res.append((s2, v))
        if len(res) > 1:
            res = self.join(res)
        return res

    def recursion(self, st, f, args, kw, fr, n):
        raise AnalysisError('recursion in %s is not summarised' % f.qual)

    def instantiate(self, st, c, args, kw, fr, n):
        h = self.hooks.get(c.qual)
        if h is not None:
            r = h(self, st, c, args, kw, fr, n)
            if r is not None:
                return r
        if c.builtin and c.name in TYPES:
            import absbuiltins
            return absbuiltins.call_builtin(self, st, c.name, args, kw, fr, n)
        new, nc = c.find('__new__')
        if new is not None:
            fn = new.fn if isinstance(new, Wrapped) else new
            rs = self.call_fn(st, fn, [c] + args, kw, fr, n)
        else:
            s, r = self.new(st, Inst(c, {}))
            rs = [(s, r)]

        def init(s, r):
            if not isinstance(r, Ref):
                return [(s, r)]
            f, fc = c.find('__init__')
            if f is None:
                if c.isa(PYEXC['BaseException']):
                    ob = self.obj(s, r)
                    a = dict(ob.attrs)
                    a['args'] = Tup(tuple(args))
                    return [(s.put(r, Inst(ob.cls, a)), r)]
                if c.ext_bases():
                    return then(self.call_ext(s, c.ext_bases()[0].path + '.__init__', [r] + args, kw, fr, n),
                                lambda s, _: [(s, r)])
                if (args or kw) and new is None:
                    return [(s, Raised(PYEXC['TypeError'], n, fr))]
                return [(s, r)]
            return then(self.call(s, Bound(r, f) if not isinstance(f, Ext) else f, args, kw, fr, n), lambda s, _: [(s, r)])
        return then(rs, init)


class _ClassScope(object):
    """Marks frames executing a class body (names are not closed over)."""

    def __init__(self, outer):
        self.outer = outer
        self.cells = {}
        self.globals_ = set()


def _scope_walk(fn):
    """Nodes of a function body excluding nested scopes' contents."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            if isinstance(n, ast.FunctionDef):
                todo.extend(n.args.defaults)
            continue
        todo.extend(ast.iter_child_nodes(n))


def _has_yield(e):
    if e[0] == 'yield':
        return True
    if e[0] == 'loop':
        return any(_has_yield(x) for seq in e[2] for x in seq)
    return False


def elem_kind(t):
    if isinstance(t, Term):
        if t.kind == 'str':
            return 'str'
        if t.op in ('split', 'splitlines', 'findall'):
            return 'str'
    return None


def neverempty(v):
    """Text made of a number, or said to be a non-empty line."""
    return isinstance(v, Term) and (v.op == 'line' or v.op.startswith('fmt1:') or v.op == 'str' and (
        isinstance(v.args[0], (Lin, FloatT)) or isinstance(v.args[0], Term) and (v.args[0].kind == 'int' or v.args[0].op == 'float')))


def isstr(v):
    return isinstance(v, str) or (isinstance(v, Term) and v.kind == 'str')


def strterm(v):
    if isstr(v):
        return v
    if isinstance(v, Term):
        return v
    return Term('str', v, kind='str')


def chars(v):
    """The characters of a string whose length is known, else None."""
    if isinstance(v, str):
        return tuple(v)
    if isinstance(v, Term):
        if v.op in ('chr', 'char'):
            return (v,)
        if v.op == 'cat':
            out = ()
            for x in v.args:
                c = chars(x)
                if c is None:
                    return None
                out += c
            return out
    return None


def fromchars(cs):
    out = ''
    for c in cs:
        out = concat(out, c)
    return out


def within(a, b):
    """The text a occurs in the text b as it is written (False: not known)."""
    if not (isinstance(b, Term) and b.op == 'cat'):
        return False
    if isinstance(a, str):
        return any(isinstance(x, str) and a in x for x in b.args)
    if not isinstance(a, Term):
        return False
    a = list(a.args) if a.op == 'cat' else [a]
    b = list(b.args)
    for k in range(len(b) - len(a) + 1):
        w = b[k:k + len(a)]
        if all(x == y or isinstance(x, str) and isinstance(y, str) and len(a) > 1 and (i == 0 and y.endswith(x) or i == len(a) - 1 and y.startswith(x))
               for i, (x, y) in enumerate(zip(a, w))):
            return True
    return False


def concat(a, b):
    """Flattened concatenation with adjacent constants folded."""
    parts = []
    for x in (a, b):
        if isinstance(x, Term) and x.op == 'cat':
            parts.extend(x.args)
        else:
            parts.append(strterm(x))
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return Term('cat', *out, kind='str')


import re as _re
_FMT = _re.compile(r'%(\([^)]*\))?([#0\- +]*)(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrs%])')


def convs(a):
    out, pos = [], 0
    i = 0
    while True:
        i = a.find('%', i)
        if i < 0:
            return out
        m = _FMT.match(a, i)
        if not m or m.group(1) or m.group(3) == '*':
            return None
        if m.group(6) != '%':
            out.append(m.group(6))
        i = m.end()


_FIELD = _re.compile(r'{{|}}|{(\d*|[A-Za-z_]\w*)(![sr])?(?::([^{}]*))?}')


def percents(a, args, kw):
    """str.format as a format for %, with the values in order; None where it is not of the simple kind."""
    out, vals, i, auto = '', [], 0, 0
    while i < len(a):
        c = a[i]
        if c not in '{}':
            out += '%%' if c == '%' else c
            i += 1
            continue
        m = _FIELD.match(a, i)
        if m is None:
            return None
        i = m.end()
        if m.group(0) in ('{{', '}}'):
            out += m.group(0)[0]
            continue
        k, conv, spec = m.group(1), m.group(2), m.group(3) or ''
        if k == '':
            k = str(auto)
            auto += 1
        if k.isdigit():
            if int(k) >= len(args):
                return None
            v = args[int(k)]
        elif k in kw:
            v = kw[k]
        else:
            return None
        if conv == '!r':
            f = 'r'
        elif conv == '!s' or spec == '':
            f = 's'
        else:
            f = None
        if spec:
            if not _re.match(r'0?\d*(\.\d+)?[dxXofeg]\Z', spec):
                return None
            f = spec
        out += '%' + f
        vals.append(v)
    return out, vals


def fmtparts(a):
    out, i = [], 0
    while True:
        j = a.find('%', i)
        if j < 0:
            out.append(a[i:])
            return out
        out.append(a[i:j])
        m = _FMT.match(a, j)
        if m.group(6) == '%':
            out.append('%')
        else:
            out.append((m.group(6), m.group(0)))
        i = m.end()


def hashable(v):
    return not isinstance(v, Slice)


def dedup(vs):
    out = []
    for v in vs:
        if not any(type(v) is type(x) and v == x for x in out):
            out.append(v)
    return out


def _constop(o, a, b):
    if o is ast.Add:
        return a + b
    if o is ast.Sub:
        return a - b
    if o is ast.Mult:
        return a * b
    if o is ast.Div:
        if isinstance(a, int) and isinstance(b, int):
            return a // b
        return a / b
    if o is ast.FloorDiv:
        return a // b
    if o is ast.Mod:
        return a % b
    if o is ast.Pow:
        if isinstance(b, int) and abs(b) > 4096:
            raise OverflowError
        return a ** b
    if o is ast.BitAnd:
        return a & b
    if o is ast.BitOr:
        return a | b
    if o is ast.BitXor:
        return a ^ b
    if o is ast.LShift:
        return a << b
    if o is ast.RShift:
        return a >> b
    raise OverflowError


SETOPS = {ast.BitOr: 'union', ast.BitAnd: 'intersection', ast.Sub: 'difference'}
OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.Mod: 'mod', ast.BitOr: 'or',
       ast.BitAnd: 'and'}

METHODS = {
    'iter': {'next', '__iter__'},
    'list': set('append extend insert remove pop index count sort reverse __len__ __getitem__ __iter__'.split()),
    'set': set('add remove discard pop update union intersection difference issubset clear copy'.split()),
    'tuple': set('index count __len__ __getitem__'.split()),
    'dict': set('get items keys values iteritems iterkeys itervalues update pop setdefault has_key copy clear popitem '
                '__getitem__ __setitem__ __contains__ fromkeys'.split()),
    'str': set(m for m in dir(str)) | {'decode', '__getslice__'},
    'file': set(),
}
