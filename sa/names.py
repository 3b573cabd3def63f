"""Whole-program name resolution and call checking over the parsed sources."""
import ast
import os

import front
from absint import AnalysisError

BUILTIN = set('''abs all any apply basestring bin bool buffer bytearray bytes callable chr classmethod cmp coerce compile complex delattr dict dir divmod
enumerate eval execfile exec file filter float format frozenset getattr globals hasattr hash help hex id input int intern isinstance issubclass iter len list
locals long map max memoryview min next object oct open ord pow print property range raw_input reduce reload repr reversed round set setattr slice sorted
staticmethod str sum super tuple type unichr unicode vars xrange zip __import__ None True False NotImplemented Ellipsis __name__ __file__ __doc__ __debug__
__builtins__ __path__ __package__ quit exit copyright credits license
ArithmeticError AssertionError AttributeError BaseException BufferError BytesWarning DeprecationWarning EOFError EnvironmentError Exception FloatingPointError
FutureWarning GeneratorExit IOError ImportError ImportWarning IndentationError IndexError KeyError KeyboardInterrupt LookupError MemoryError NameError
NotImplementedError OSError OverflowError PendingDeprecationWarning ReferenceError RuntimeError RuntimeWarning StandardError StopIteration SyntaxError
SyntaxWarning SystemError SystemExit TabError TypeError UnboundLocalError UnicodeDecodeError UnicodeEncodeError UnicodeError UnicodeTranslateError
UnicodeWarning UserWarning ValueError Warning ZeroDivisionError'''.split())
OBJECT = set(dir(object)) | {'__dict__', '__module__', '__name__', '__slots__', '__bases__', '__mro__', '__weakref__', '__subclasses__', 'mro'}
EXCATTR = OBJECT | {'args', 'message', 'errno', 'strerror', 'filename'}


class Module(object):
    def __init__(self, name, path, tree, ispkg):
        self.name, self.path, self.tree, self.ispkg = name, path, tree, ispkg
        self.names = {}        # name -> list of values
        self.star_unknown = False
        self.imports = set()   # analysed modules imported (anywhere)
        self.classes = {}
        self.functions = []


class Class(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = []        # Class | None (unknown) | builtin name
        self.members = {}      # name -> list of nodes
        self.assigned = set()  # self.X = ...
        self.dynamic = False
        self.subs = []

    @property
    def qual(self):
        return self.mod.name + '.' + self.name


def params(a, bound):
    """(required, max or None, names, kwargs)"""
    names = [x.arg for x in a.args]
    req = len(names) - len(a.defaults)
    if bound:
        names = names[1:]
        req -= 1
    return max(req, 0), (None if a.vararg else len(names)), names, bool(a.kwarg)


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            for n in targets(x):
                yield n
    elif isinstance(t, ast.Starred):
        for n in targets(t.value):
            yield n


def own(node):
    """Nodes of a scope, not entering nested functions and classes (their decorators, defaults and bases are entered)."""
    stack = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            stack.extend(getattr(n, 'decorator_list', []))
            stack.extend(n.args.defaults)
            continue
        if isinstance(n, ast.ClassDef):
            stack.extend(n.bases)
            stack.extend(n.decorator_list)
            continue
        if isinstance(n, ast.GeneratorExp):
            stack.append(n.generators[0].iter)
            continue
        stack.extend(ast.iter_child_nodes(n))


def bindings(nodes):
    """Names bound in a scope: {name: [binding node]}"""
    out = {}

    def add(n, v):
        out.setdefault(n, []).append(v)
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            add(n.id, n)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            add(n.name, n)
        elif isinstance(n, ast.Import):
            for a in n.names:
                add(a.asname or a.name.split('.')[0], (n, a))
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name != '*':
                    add(a.asname or a.name, (n, a))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name, n)
    return out


def rebuild_comp(gens):
    for g in gens:
        for n in targets(g.target):
            yield n


class Program(object):
    def __init__(self, repo=None):
        repo = repo or front.REPO
        files = front.bglib_files(repo)
        tw = os.path.join(repo, 'bglib', 'image', 'testwriter.py')
        if os.path.exists(tw):
            files.append(tw)
        trees, _ = front.parse_files(files)
        self.repo = repo
        self.mods = {}
        for p in files:
            rel = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
            pk = rel.endswith('.__init__')
            nm = rel[:-9] if pk else rel
            self.mods[nm] = Module(nm, p, trees[p], pk)
        self.reports = []
        self.count = {}
        self.ext_attrs = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    self.ext_attrs.add(n.attr)
        for m in self.mods.values():
            self.toplevel(m)
        for m in self.mods.values():
            self.stars(m, set())
        for m in self.mods.values():
            for c in m.classes.values():
                self.family(c)

    # --- imports
    def locate(self, m, dotted, level=0):
        """Analysed module an import in m refers to, or None."""
        pkg = m.name if m.ispkg else m.name.rpartition('.')[0]
        if level:
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = (pkg + '.' + dotted) if dotted else pkg
            return full if full in self.mods else None
        first = dotted.split('.')[0]
        if pkg and (pkg + '.' + first) in self.mods and pkg + '.' + first != m.name:
            full = pkg + '.' + dotted
            return full if full in self.mods else None
        return dotted if dotted in self.mods else None

    def base_of(self, m, dotted):
        """What `import a.b.c` binds for `a`."""
        pkg = m.name if m.ispkg else m.name.rpartition('.')[0]
        first = dotted.split('.')[0]
        if pkg and (pkg + '.' + first) in self.mods and pkg + '.' + first != m.name:
            return pkg + '.' + first
        return first if first in self.mods else None

    def internal(self, m, dotted):
        return dotted.split('.')[0] == 'bglib' or self.base_of(m, dotted) is not None

    def value(self, m, b):
        """Value of a binding node."""
        if isinstance(b, tuple):
            n, a = b
            if isinstance(n, ast.Import):
                if a.asname:
                    t = self.locate(m, a.name)
                    return ('mod', t) if t else ('missing' if self.internal(m, a.name) else 'ext', a.name)
                t = self.base_of(m, a.name)
                return ('mod', t) if t else ('ext', a.name.split('.')[0])
            t = self.locate(m, n.module or '', n.level)
            if t is None:
                if n.module and self.internal(m, n.module):
                    return ('missing', n.module)
                return ('ext', (n.module or '') + '.' + a.name)
            return ('from', t, a.name)
        if isinstance(b, ast.FunctionDef):
            return ('fn', b, m)
        if isinstance(b, ast.ClassDef):
            return ('cls', b, m)
        return ('any',)

    def toplevel(self, m):
        nodes = list(own(m.tree))
        for n in nodes:
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                m.names.setdefault('*', []).append(n)
        for k, bs in bindings(nodes).items():
            m.names[k] = [self.value(m, b) for b in bs]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    m.names.setdefault(x, []).append(('any',))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    parts = a.name.split('.')
                    for i in range(1, len(parts) + 1):
                        t = self.locate(m, '.'.join(parts[:i]))
                        if t:
                            m.imports.add(t)
            elif isinstance(n, ast.ImportFrom):
                t = self.locate(m, n.module or '', n.level)
                if t:
                    parts = t.split('.')
                    m.imports |= {'.'.join(parts[:i]) for i in range(1, len(parts) + 1)} & set(self.mods)
                    for a in n.names:
                        if t + '.' + a.name in self.mods:
                            m.imports.add(t + '.' + a.name)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('execfile', 'exec'):
                m.star_unknown = True
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                m.classes.setdefault(n.name, Class(m, n))

    def stars(self, m, busy):
        if m.name in busy:
            return
        for n in m.names.pop('*', []):
            t = self.locate(m, n.module or '', n.level)
            if t is None:
                m.star_unknown = True
                continue
            o = self.mods[t]
            self.stars(o, busy | {m.name})
            m.star_unknown = m.star_unknown or o.star_unknown
            allow = None
            for x in o.tree.body:
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == '__all__' and isinstance(x.value, (ast.List, ast.Tuple)):
                    allow = {e.value for e in x.value.elts if isinstance(e, ast.Constant)}
            for k, v in o.names.items():
                if (k in allow) if allow is not None else not k.startswith('_'):
                    m.names.setdefault(k, [])
                    m.names[k] = m.names[k] + v

    def closure(self, m):
        """Modules certainly imported once m is (including parents)."""
        seen, todo = set(), [m.name]
        while todo:
            x = todo.pop()
            if x in seen or x not in self.mods:
                continue
            seen.add(x)
            todo += list(self.mods[x].imports)
            if '.' in x:
                todo.append(x.rpartition('.')[0])
        return seen

    def resolve_from(self, t, name, seen=()):
        """Values of name in analysed module t (imports that come back to themselves add nothing)."""
        if (t, name) in seen:
            return []
        seen = seen + ((t, name),)
        o = self.mods[t]
        out, have = [], set()
        for v in o.names.get(name, []):
            for w in (self.resolve_from(v[1], v[2], seen) if v[0] == 'from' else [v]):
                k = (w[0],) + tuple(x if isinstance(x, str) else id(x) for x in w[1:])
                if k not in have:
                    have.add(k)
                    out.append(w)
        if not out and t + '.' + name in self.mods:
            return [('mod', t + '.' + name)]
        if not out and o.star_unknown:
            return [('any',)]
        if not out and name in ('__name__', '__file__', '__doc__', '__path__', '__dict__'):
            return [('any',)]
        return out

    def chain(self, m, e, scope=None):
        """Values an expression made of names and attributes stands for; None when unknown; [] when it does not exist."""
        if isinstance(e, ast.Name):
            if scope is not None and scope(e.id):
                return None
            vs = m.names.get(e.id)
            if vs is None:
                return None
            out = []
            for v in {(v[0],) + tuple(x if isinstance(x, str) else id(x) for x in v[1:]): v for v in vs}.values():
                if v[0] == 'from':
                    out += self.resolve_from(v[1], v[2])
                else:
                    out.append(v)
            return out
        if isinstance(e, ast.Attribute):
            vs = self.chain(m, e.value, scope)
            if vs is None or not vs:
                return None
            out = []
            for v in vs:
                if v[0] == 'mod':
                    r = self.resolve_from(v[1], e.attr)
                    if len(r) == 1 and r[0][0] == 'mod' and r[0][1] == v[1] + '.' + e.attr and e.attr not in self.mods[v[1]].names \
                            and r[0][1] not in self.closure(m):
                        r = []
                    out += r
                elif v[0] == 'cls':
                    c = self.cls(v)
                    r = self.member(c, e.attr)
                    if r is None:
                        return None
                    out += r
                else:
                    return None
            return out
        return None

    def cls(self, v):
        return v[2].classes.get(v[1].name)

    # --- classes
    def family(self, c):
        for b in c.node.bases:
            vs = self.chain(c.mod, b)
            if isinstance(b, ast.Name) and vs is None and b.id in BUILTIN:
                c.bases.append(b.id)
            elif vs and len(vs) == 1 and vs[0][0] == 'cls' and self.cls(vs[0]) is not c:
                k = self.cls(vs[0])
                c.bases.append(k)
                if k is not None:
                    k.subs.append(c)
            else:
                c.bases.append(None)
        for k, bs in bindings(own(c.node)).items():
            c.members[k] = bs
        for f in c.node.body:
            if isinstance(f, ast.FunctionDef):
                me = f.args.args[0].arg if f.args.args else None
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == me:
                        c.assigned.add(n.attr)
                    elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                        c.dynamic = True
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                        c.dynamic = True
        if any(k in c.members for k in ('__getattr__', '__getattribute__', '__metaclass__')):
            c.dynamic = True

    def mro(self, c):
        """Ancestors in lookup order, and whether all of them are known."""
        out, known = [], True

        def go(k):
            nonlocal known
            if k is None:
                known = False
                return
            if isinstance(k, str):
                if k not in ('object', 'Exception', 'StandardError', 'ValueError', 'KeyError', 'IndexError', 'TypeError', 'RuntimeError', 'AttributeError',
                             'AssertionError', 'NotImplementedError'):
                    known = False
                return
            if k in out:
                return
            out.append(k)
            for b in k.bases:
                go(b)
        go(c)
        return out, known

    def builtin_base(self, c):
        return any(isinstance(b, str) and b != 'object' for k in self.mro(c)[0] for b in k.bases)

    def member(self, c, name):
        """Values of a class attribute; None unknown; [] none."""
        if c is None:
            return None
        ms, known = self.mro(c)
        for k in ms:
            if name in k.members:
                out = []
                for b in k.members[name]:
                    if isinstance(b, ast.FunctionDef):
                        out.append(('meth', b, k))
                    else:
                        out.append(('any',))
                return out
            if k.dynamic:
                return None
        if not known or name in OBJECT or self.builtin_base(c) and name in EXCATTR or name in self.ext_attrs:
            return None
        if any(name in k.assigned for k in ms):
            return None
        return []

    def descendants(self, c):
        out, todo = [], list(c.subs)
        while todo:
            k = todo.pop()
            if k not in out:
                out.append(k)
                todo += k.subs
        return out

    def selfmember(self, c, name):
        """Like member, for an instance: subclasses and instance attributes count too."""
        ms, known = self.mro(c)
        fam = ms + [k for d in [c] + self.descendants(c) for k in self.mro(d)[0]]
        if any(k.dynamic for k in fam) or not known or any(not self.mro(d)[1] for d in self.descendants(c)):
            return None
        if name in OBJECT or self.builtin_base(c) and name in EXCATTR or name in self.ext_attrs:
            return None
        if any(name in k.assigned for k in fam):
            return None
        out = []
        seen = set()
        for d in [c] + self.descendants(c):
            for k in self.mro(d)[0]:
                if name in k.members:
                    if id(k) not in seen:
                        seen.add(id(k))
                        for b in k.members[name]:
                            out.append(('meth', b, k) if isinstance(b, ast.FunctionDef) else ('any',))
                    break
        return out


# ------------------------------------------------------------------ scopes
class Scope(object):
    def __init__(self, prog, mod, node, parent, qual, cls=None):
        self.P, self.mod, self.node, self.parent, self.qual, self.cls = prog, mod, node, parent, qual, cls
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            body = node.body if isinstance(node.body, list) else [node.body]
            nodes = list(own(body))
            self.locals = set(bindings(nodes))
            a = node.args
            self.params = [x.arg for x in a.args] + [x.arg for x in (a.vararg, a.kwarg) if x]
            self.locals |= set(self.params)
            g = {x for n in nodes if isinstance(n, ast.Global) for x in n.names}
            self.locals -= g
            self.globals = g
        elif isinstance(node, ast.GeneratorExp):
            nodes = [n for g in node.generators for n in own([g])] + list(own([node.elt]))
            self.locals = set(rebuild_comp(node.generators))
            self.params, self.globals = [], set()
        else:
            nodes = list(own(node))
            self.locals = set(bindings(nodes)) if isinstance(node, ast.ClassDef) else set()
            self.params, self.globals = [], set()
        self.nodes = nodes

    def local(self, name, first=True):
        """Is the name bound in this function or an enclosing one?"""
        if isinstance(self.node, ast.ClassDef) and not first:
            return self.parent.local(name, False) if self.parent else False
        if name in self.globals:
            return False
        if name in self.locals:
            return True
        return self.parent.local(name, False) if self.parent else False

    def defined(self, name):
        if self.local(name) or name in BUILTIN or name in self.mod.names or self.mod.star_unknown:
            return True
        return False

    def me(self):
        """(self-name, class) in a method or a function nested in one."""
        s = self
        while s is not None:
            if isinstance(s.node, ast.FunctionDef) and s.cls is not None and s.params:
                deco = {d.id for d in s.node.decorator_list if isinstance(d, ast.Name)}
                if 'staticmethod' in deco:
                    return None, None, None
                rebound = any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == s.params[0] for n in ast.walk(s.node))
                if rebound or '__new__' == s.node.name:
                    return None, None, None
                return s.params[0], s.cls, 'class' if 'classmethod' in deco else 'self'
            s = s.parent
        return None, None, None


def scopes(prog, mod):
    out = []

    def go(node, parent, qual, cls):
        s = Scope(prog, mod, node, parent, qual, cls)
        out.append(s)
        for n in s.nodes:
            if isinstance(n, ast.FunctionDef):
                k = mod.classes.get(node.name) if isinstance(node, ast.ClassDef) and mod.classes.get(node.name) is not None and \
                    mod.classes[node.name].node is node else None
                go(n, s, qual + '.' + n.name, k)
            elif isinstance(n, ast.Lambda):
                go(n, s, qual + '.<lambda>', None)
            elif isinstance(n, ast.GeneratorExp):
                go(n, s, qual, None)
            elif isinstance(n, ast.ClassDef):
                go(n, s, qual + '.' + n.name, None)
    go(mod.tree, None, mod.name, None)
    return out


# ------------------------------------------------------------------ unbound locals
def unbound(fn, locs, report):
    """Uses of a local name that no assignment can precede."""
    def uses(e, have):
        for n in own([e]):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in locs and n.id not in have:
                report(n)

    def names_in(e):
        return set(bindings(own([e])))

    def block(body, have):
        """have: may-be-assigned before; returns the set after (None when nothing falls through)."""
        for st in body:
            if have is None:
                return None
            have = stmt(st, have)
        return have

    def merge(*sets):
        sets = [s for s in sets if s is not None]
        return None if not sets else set().union(*sets)

    def anywhere(body):
        return {n for b in body for n in bindings(own([b]))}

    def stmt(st, have):
        if isinstance(st, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(st):
                uses(e, have | names_in(e))
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            return None
        if isinstance(st, ast.If):
            uses(st.test, have | names_in(st.test))
            h = have | names_in(st.test)
            return merge(block(st.body, set(h)), block(st.orelse, set(h)))
        if isinstance(st, (ast.For, ast.While)):
            e = st.iter if isinstance(st, ast.For) else st.test
            inner = have | names_in(e) | anywhere(st.body)
            if isinstance(st, ast.For):
                uses(st.iter, have | names_in(st.iter))
                inner |= set(targets(st.target))
            else:
                uses(st.test, inner)
            block(st.body, set(inner))
            block(st.orelse, set(inner))
            return inner | anywhere(st.orelse)
        if isinstance(st, ast.Try):
            block(st.body, set(have))
            mid = have | anywhere(st.body)
            for h in st.handlers:
                g = set(mid)
                if h.name:
                    g.add(h.name)
                block(h.body, g)
            block(st.orelse, set(mid))
            out = mid | {n for h in st.handlers for n in anywhere(h.body)} | {h.name for h in st.handlers if h.name} | anywhere(st.orelse)
            block(st.finalbody, set(out))
            return out | anywhere(st.finalbody)
        if isinstance(st, ast.With):
            h = set(have)
            for it in st.items:
                uses(it.context_expr, h | names_in(it.context_expr))
                if it.optional_vars is not None:
                    h |= set(targets(it.optional_vars))
            block(st.body, set(h))
            return h | anywhere(st.body)
        if isinstance(st, ast.Assign):
            uses(st.value, have | names_in(st.value))
            for t in st.targets:
                uses(t, have | names_in(st.value) | set(targets(t)))
            return have | anywhere([st])
        if isinstance(st, ast.AugAssign):
            uses(st.value, have | names_in(st.value))
            if isinstance(st.target, ast.Name) and st.target.id in locs and st.target.id not in have:
                report(st.target)
            return have | anywhere([st])
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return have | {st.name}
        b = names_in(st)
        uses(st, have | b)
        return have | b
    block(fn.body, set(x.arg for x in fn.args.args) | {x.arg for x in (fn.args.vararg, fn.args.kwarg) if x})


# ------------------------------------------------------------------ calls
def accepts(call, a, bound):
    """Complaint about a call of a function with arguments a, or None."""
    req, mx, names, kw = params(a, bound)
    pos = [x for x in call.args if not isinstance(x, ast.Starred)]
    star = len(pos) != len(call.args)
    keys = [k.arg for k in call.keywords if k.arg is not None]
    dstar = len(keys) != len(call.keywords)
    if mx is not None and len(pos) > mx:
        return '%d positional arguments, at most %d' % (len(pos), mx)
    for k in keys:
        if k not in names and not kw:
            return 'no argument %r' % k
        if k in names and names.index(k) < len(pos):
            return 'argument %r given twice' % k
    if len(set(keys)) != len(keys):
        return 'keyword repeated'
    if not star and not dstar:
        missing = [n for i, n in enumerate(names[:req]) if i >= len(pos) and n not in keys]
        if missing:
            return 'missing %s' % ', '.join(missing)
    return None


def conversions(s):
    """(number of positional conversions, mapping keys) of a format string."""
    n, keys, i = 0, [], 0
    while i < len(s):
        if s[i] != '%':
            i += 1
            continue
        i += 1
        if i >= len(s):
            return None
        key = None
        if s[i] == '(':
            j = s.find(')', i)
            if j < 0:
                return None
            key = s[i + 1:j]
            i = j + 1
        while i < len(s) and s[i] in '#0- +':
            i += 1
        while i < len(s) and (s[i].isdigit() or s[i] in '.*hlL'):
            n += s[i] == '*'
            i += 1
        if i >= len(s):
            return None
        if s[i] != '%':
            if s[i] not in 'diouxXeEfFgGcrs':
                return None
            if key is None:
                n += 1
            else:
                keys.append(key)
        i += 1
    return n, keys
