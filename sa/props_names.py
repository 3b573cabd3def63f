"""Name resolution and calls over all modules."""
import ast

from absint import AnalysisError
from names import BUILTIN, Program, Scope, accepts, conversions, scopes, unbound
from props import prop

_P = []


def program():
    if not _P:
        _P.append(Program())
    return _P[0]


class Out(object):
    def __init__(self, chk):
        self.chk, self.P = chk, program()
        self.n = {}
        self.bad, self.lines = 0, set()

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def report(self, rule, sc, node, what, detail):
        """The construct names the scope and the thing, not the line."""
        self.bad += 1
        if isinstance(sc.node, ast.Module):
            self.lines.add(getattr(node, 'lineno', 0))
        path = sc.mod.path[len(self.P.repo) + 1:]
        self.chk.violation(rule, '%s %s' % (sc.qual, what), '%s:%s %s' % (path, getattr(node, 'lineno', '?'), sc.qual), detail)

    def done(self, need):
        for k, v in sorted(self.n.items()):
            self.chk.count(k, v)
        for k, v in need.items():
            if self.n.get(k, 0) < v:
                raise AnalysisError('only %s %s' % (self.n.get(k, 0), k))


def text(e):
    try:
        return ast.unparse(e)
    except Exception:
        return '?'


def statically_false(n):
    return isinstance(n, ast.Constant) and not n.value


def guarded_names(sc, node):
    return False


def chains(sc):
    """Outermost attribute chains of a scope."""
    inner = set()
    at = [n for n in sc.nodes if isinstance(n, ast.Attribute)]
    for n in at:
        if isinstance(n.value, ast.Attribute):
            inner.add(id(n.value))
    return [n for n in at if id(n) not in inner]


@prop('G01', 'Whole-program resolution of names, module attributes, class attributes and instance attributes over the parsed sources; may-assigned dataflow for locals.',
      ['undefined-name', 'missing-module-attribute', 'missing-class-attribute', 'missing-instance-attribute', 'unbound-local', 'missing-import'],
      ['Modules outside bglib have the attributes used of them.', 'Attributes assigned on any object anywhere count as present on instances.'])
def g01(chk, tier):
    O = Out(chk)
    P = O.P
    for m in P.mods.values():
        O.count('modules')
        broken = False
        for sc in sorted(scopes(P, m), key=lambda sc: not isinstance(sc.node, ast.Module)):
            O.count('scopes')
            if broken:
                # the module's own statements cannot run to their end: nothing of it can be used, and one report is enough
                O.count('scopes_of_unusable_modules')
                continue
            shadow = sc.local
            before = O.bad
            for n in sc.nodes:
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                    O.count('names')
                    if not sc.defined(n.id):
                        O.report('undefined-name', sc, n, n.id, 'nothing defines %s' % n.id)
                elif isinstance(n, ast.ImportFrom):
                    t = P.locate(m, n.module or '', n.level)
                    for a in n.names:
                        O.count('imports')
                        if t is None and n.module and P.internal(m, n.module):
                            O.report('missing-import', sc, n, n.module, 'no module %s' % n.module)
                        elif t is not None and a.name != '*' and not P.resolve_from(t, a.name):
                            O.report('missing-import', sc, n, '%s.%s' % (t, a.name), '%s has no %s' % (t, a.name))
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        O.count('imports')
                        if P.internal(m, a.name) and P.locate(m, a.name) is None:
                            O.report('missing-import', sc, n, a.name, 'no module %s' % a.name)
            for e in chains(sc):
                x = e
                parts = []
                while isinstance(x, ast.Attribute):
                    parts.append(x)
                    x = x.value
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' and len(x.args) == 2:
                    me, cls, kind = sc.me()
                    vs = P.chain(m, x.args[0], shadow)
                    if vs and len(vs) == 1 and vs[0][0] == 'cls' and cls is not None:
                        c = P.cls(vs[0])
                        O.count('super_lookups')
                        if not supers(P, c, cls, parts[-1].attr):
                            O.report('missing-class-attribute', sc, e, text(parts[-1]), 'no class above %s has %s' % (c.name, parts[-1].attr))
                    continue
                if not isinstance(x, ast.Name):
                    continue
                me, cls, kind = sc.me()
                if x.id == me:
                    a = parts[-1]
                    if not isinstance(a.ctx, ast.Load):
                        continue
                    O.count('instance_attributes')
                    r = P.selfmember(cls, a.attr)
                    if r is not None and not r:
                        O.report('missing-instance-attribute', sc, e, '%s.%s' % (me, a.attr), '%s has no %s' % (cls.qual, a.attr))
                    continue
                # module and class attributes, outwards
                for a in reversed(parts):
                    if not isinstance(a.ctx, ast.Load):
                        break
                    vs = P.chain(m, a.value, shadow)
                    if not vs or any(v[0] not in ('mod', 'cls') for v in vs):
                        break
                    O.count('qualified_names')
                    r = P.chain(m, a, shadow)
                    if r is not None and not r:
                        O.report('missing-module-attribute' if vs[0][0] == 'mod' else 'missing-class-attribute', sc, e, text(a), 'no such attribute')
                        break
            if isinstance(sc.node, ast.Module) and O.bad > before:
                broken = any(l in O.lines for l in always(m.tree.body))
            if isinstance(sc.node, ast.FunctionDef):
                O.count('functions')
                unbound(sc.node, sc.locals - set(sc.params), lambda n: O.report('unbound-local', sc, n, n.id, '%s is used before anything can assign it' % n.id))
    O.done({'modules': 30, 'functions': 400, 'names': 4000, 'instance_attributes': 500})


def always(body):
    """Lines of the expression statements, assignments and imports a module always runs."""
    out = set()
    for s in body:
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Import, ast.ImportFrom)):
            out |= {n.lineno for n in ast.walk(s) if hasattr(n, 'lineno') and not isinstance(n, ast.Lambda)}
        elif isinstance(s, ast.ClassDef):
            out |= {n.lineno for b in s.bases for n in ast.walk(b) if hasattr(n, 'lineno')}
    return out


def supers(P, c, cls, name):
    """Can super(c, self).name exist for an instance of cls or a subclass?"""
    if c is None:
        return True
    for d in [cls] + P.descendants(cls):
        ms, known = P.mro(d)
        if not known or any(k.dynamic for k in ms):
            return True
        if any(name in k.members for k in ms if k is not c):
            return True
    from names import OBJECT
    return name in OBJECT


def callee(P, sc, f):
    """[(arguments, bound, description)] a call may reach; None when unknown."""
    m = sc.mod
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
        me, cls, kind = sc.me()
        if cls is None or len(f.value.args) != 2:
            return None
        vs = P.chain(m, f.value.args[0], sc.local)
        if not vs or len(vs) != 1 or vs[0][0] != 'cls':
            return None
        c = P.cls(vs[0])
        ms, known = P.mro(c)
        if not known:
            return None
        for k in ms[1:]:
            if f.attr in k.members:
                return methods([('meth', b, k) if isinstance(b, ast.FunctionDef) else ('any',) for b in k.members[f.attr]], True)
        return None
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
        me, cls, kind = sc.me()
        if f.value.id == me:
            r = P.selfmember(cls, f.attr)
            return methods(r, True) if r else None
    if isinstance(f, ast.Name) and sc.local(f.id):
        return None
    vs = P.chain(m, f, sc.local)
    if not vs:
        return None
    out = []
    for v in vs:
        if v[0] == 'fn':
            if v[1].decorator_list:
                return None
            out.append((v[1].args, False, v[1].name))
        elif v[0] == 'meth':
            r = methods([v], False)
            if r is None:
                return None
            out += r
        elif v[0] == 'cls':
            c = P.cls(v)
            if c is None or c.node.decorator_list:
                return None
            ms, known = P.mro(c)
            if any('__new__' in k.members or '__metaclass__' in k.members for k in ms):
                return None
            ini = [k for k in ms if '__init__' in k.members]
            if ini:
                b = ini[0].members['__init__']
                if not all(isinstance(x, ast.FunctionDef) for x in b) or not known and ms.index(ini[0]) > 0 and None in [y for k in ms[:ms.index(ini[0])] for y in k.bases]:
                    return None
                out += [(x.args, True, c.name) for x in b]
            elif known and not P.builtin_base(c):
                out.append((ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), False, c.name))
            else:
                return None
        else:
            return None
    return out


def methods(vs, viaself):
    out = []
    for v in vs:
        if v[0] != 'meth':
            return None
        deco = [d.id if isinstance(d, ast.Name) else '?' for d in v[1].decorator_list]
        if deco == ['staticmethod']:
            out.append((v[1].args, False, v[1].name))
        elif deco == ['classmethod']:
            out.append((v[1].args, True, v[1].name))
        elif not deco:
            out.append((v[1].args, viaself, v[1].name))
        else:
            return None
    return out


def defining(P):
    """Method name -> [(class, arguments, bound)], with None for what is no plain method."""
    out = {}
    for m in P.mods.values():
        for c in m.classes.values():
            for k, bs in c.members.items():
                for b in bs:
                    r = methods([('meth', b, c)], True) if isinstance(b, ast.FunctionDef) else None
                    out.setdefault(k, []).append((c, r[0][0], r[0][1]) if r else (c, None, None))
    return out


def overridden(P, sc, n, D, O):
    """Complaint about a call on an object of unknown class: when a class of the library takes the call, a subclass that
    overrides the method takes it too; and when all the classes that have the method are of one family, one of them takes it."""
    f = n.func
    if not isinstance(f, ast.Attribute) or f.attr.startswith('__') or isinstance(f.value, ast.Constant) or P.chain(sc.mod, f, sc.local) is not None:
        return None
    root = f.value
    while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
        root = root.func if isinstance(root, ast.Call) else root.value
    if not isinstance(root, ast.Name) or not sc.local(root.id):
        return None
    cand = D.get(f.attr, [])
    if not cand or any(a is None for c, a, b in cand):
        return None
    O.count('calls_by_method_name')
    got = [(c, accepts(n, a, b)) for c, a, b in cand]
    for c, x in got:
        for d, y in got:
            if d is not c and not x and y and c in P.mro(d)[0]:
                return '%s.%s: %s' % (d.qual() if callable(d.qual) else d.qual, f.attr, y)
    top = [c for c, x in got if all(c in P.mro(d)[0] for d, y in got)]
    if len(got) > 1 and top and all(y for d, y in got) and f.attr not in ANY:
        return '%s.%s: %s' % (top[0].qual() if callable(top[0].qual) else top[0].qual, f.attr, [y for d, y in got if d is top[0]][0])
    return None


ANY = {k for t in (str, list, dict, tuple, set, int, float) for k in dir(t)} | {'read', 'write', 'close', 'open', 'seek', 'flush', 'accept', 'start', 'run', 'join', 'set'}


def formats(memo, sc, n):
    """The constant text of an expression, also of a name that is bound once, in this scope or in the module."""
    if isinstance(n, ast.Constant):
        return n.value if isinstance(n.value, str) else None
    if not isinstance(n, ast.Name):
        return None
    for node in (sc.node, sc.mod.tree):
        if node not in memo:
            d = memo[node] = {}
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(x, ast.arg):
                    k = x.id if isinstance(x, ast.Name) else x.arg
                    d[k] = d.get(k, 0) + 1
                elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) \
                        and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str):
                    d[None, x.targets[0].id] = x.value.value
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not node:
                    d[x.name] = d.get(x.name, 0) + 1
                elif isinstance(x, ast.Global):
                    for k in x.names:
                        d[k] = d.get(k, 0) + 2
        d = memo[node]
        if d.get(n.id, 0) == 1 and (None, n.id) in d:
            return d[None, n.id]
        if d.get(n.id):
            return None
    return None


@prop('G02', 'Every call whose callee the whole-program resolution determines is matched with the parameters of all functions it may reach; '
      'every constant format string is matched with its operands.', ['call-does-not-match', 'format-does-not-match', 'self-missing'],
      ['Decorated functions and functions passed as values are not resolved.'])
def g02(chk, tier):
    O = Out(chk)
    P = O.P
    D = defining(P)
    for m in P.mods.values():
        consts = {}
        for sc in scopes(P, m):
            for n in sc.nodes:
                if isinstance(n, ast.Call):
                    O.count('calls')
                    cs = callee(P, sc, n.func)
                    if cs:
                        O.count('resolved_calls')
                        bad = [accepts(n, a, b) for a, b, d in cs]
                        if any(bad):
                            O.report('call-does-not-match', sc, n, text(n.func), '%s: %s' % (text(n), [b for b in bad if b][0]))
                    else:
                        bad = overridden(P, sc, n, D, O)
                        if bad:
                            O.report('call-does-not-match', sc, n, text(n.func), '%s: %s' % (text(n), bad))
                elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and formats(consts, sc, n.left) is not None:
                    O.count('formats')
                    fmt = formats(consts, sc, n.left)
                    c = conversions(fmt)
                    what = repr(fmt)[:40]
                    if c is None:
                        O.report('format-does-not-match', sc, n, what, 'bad format')
                        continue
                    k, keys = c
                    if isinstance(n.right, ast.Tuple):
                        if not any(isinstance(x, ast.Starred) for x in n.right.elts) and (k != len(n.right.elts) or keys):
                            O.report('format-does-not-match', sc, n, what, '%d conversions, %d operands' % (k, len(n.right.elts)))
                    elif isinstance(n.right, ast.Dict):
                        have = {x.value for x in n.right.keys if isinstance(x, ast.Constant)}
                        if all(isinstance(x, ast.Constant) for x in n.right.keys) and set(keys) - have:
                            O.report('format-does-not-match', sc, n, what, 'no %s' % sorted(set(keys) - have))
                    elif k != 1 and not keys and isinstance(n.right, (ast.Constant, ast.BinOp, ast.Compare, ast.List, ast.ListComp)):
                        O.report('format-does-not-match', sc, n, what, '%d conversions, one operand' % k)
                elif isinstance(n, ast.FunctionDef) and isinstance(sc.node, ast.ClassDef):
                    O.count('methods')
                    deco = [d.id if isinstance(d, ast.Name) else '?' for d in n.decorator_list]
                    if not n.args.args and not n.args.vararg and not deco:
                        O.report('self-missing', sc, n, n.name, 'a method without a parameter for its object')
    O.done({'calls': 1500, 'resolved_calls': 150, 'formats': 30})
