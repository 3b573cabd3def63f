"""Python 2 front end: /repo's sources -> python3 `ast` nodes.

The sources are Python 2 and run on Jython 2.7, so they are parsed by that very
parser (py2ast.py, executed by /opt/jy/jy, which imports nothing of bglib); this
module rebuilds the result as python3 `ast` nodes.  Semantics stay Python 2: the
analyses treat `/` on ints as floor division, know `unicode`, `xrange`, ...
"""
import ast
import hashlib
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('BGLIB_REPO', '/repo')
JY = '/opt/jy/jy'
CACHE = os.path.join(ROOT, '.cache')


class FrontError(Exception):
    pass


class UStr(str):
    """A unicode literal (u'..'); plain str stands for a Python 2 byte string."""
    __slots__ = ()


def _L(node, d):
    node.lineno = node.end_lineno = d.get('lineno') or 1
    node.col_offset = node.end_col_offset = 0
    return node


def _name(s):
    return s if s is None or isinstance(s, str) else s['s']


class Rebuild(object):
    def many(self, xs):
        return [self.node(x) for x in (xs or [])]

    def stmts(self, xs):
        out = []
        for x in (xs or []):
            n = self.node(x)
            if n is not None:
                out.append(n)
        return out

    def const(self, d):
        if isinstance(d, dict):
            k = d['_']
            if k == '$i':
                return int(d['s'])
            if k == '$f':
                return float(d['s'])
            if k == '$u':
                return UStr(d['s'])
            if k == '$s':
                return str(d['s'])
        return d

    def node(self, d):
        if d is None:
            return None
        if not isinstance(d, dict):
            raise FrontError('unexpected %r' % (d,))
        m = getattr(self, 'n_' + d['_'], None)
        if m is not None:
            n = m(d)
        else:
            n = self.generic(d)
        if n is not None and isinstance(n, ast.AST):
            _L(n, d)
        return n

    def generic(self, d):
        cls = getattr(ast, d['_'], None)
        if cls is None:
            raise FrontError('unknown node ' + d['_'])
        kw = {}
        for f in cls._fields:
            if f not in d:
                continue
            v = d[f]
            if isinstance(v, list):
                kw[f] = (self.stmts(v) if f in ('body', 'orelse', 'finalbody')
                         else [self.node(x) if isinstance(x, dict) and not x['_'].startswith('$')
                               else _name(x) for x in v])
            elif isinstance(v, dict):
                kw[f] = _name(v) if v['_'].startswith('$') else self.node(v)
            else:
                kw[f] = v
        for f in ('keywords', 'type_params', 'type_ignores', 'decorator_list'):
            if f in cls._fields and f not in kw:
                kw[f] = []
        return cls(**kw)

    def n_Module(self, d):
        return ast.Module(body=self.stmts(d['body']), type_ignores=[])

    def n_Num(self, d):
        return ast.Constant(value=self.const(d['n']))

    def n_Str(self, d):
        return ast.Constant(value=self.const(d['s']))

    def n_Name(self, d):
        s = _name(d['id'])
        if s in ('None', 'True', 'False'):
            return ast.Constant(value={'None': None, 'True': True, 'False': False}[s])
        ctx = d['ctx']['_'] if isinstance(d.get('ctx'), dict) else 'Load'
        c = {'Store': ast.Store, 'Del': ast.Del, 'Param': ast.Store,
             'AugStore': ast.Store}.get(ctx, ast.Load)()
        return ast.Name(id=s, ctx=c)

    def n_Print(self, d):
        c = ast.Call(func=_L(ast.Name(id='print', ctx=ast.Load()), d),
                     args=self.many(d['values']), keywords=[])
        if d.get('dest'):
            c.keywords.append(ast.keyword(arg='file', value=self.node(d['dest'])))
        c.py2_print = True
        return ast.Expr(value=_L(c, d))

    def n_Exec(self, d):
        c = ast.Call(func=_L(ast.Name(id='exec', ctx=ast.Load()), d),
                     args=[self.node(d['body'])], keywords=[])
        return ast.Expr(value=_L(c, d))

    def n_Repr(self, d):
        return ast.Call(func=_L(ast.Name(id='repr', ctx=ast.Load()), d),
                        args=[self.node(d['value'])], keywords=[])

    def n_TryExcept(self, d):
        return ast.Try(body=self.stmts(d['body']), handlers=self.many(d['handlers']),
                       orelse=self.stmts(d['orelse']), finalbody=[])

    def n_TryFinally(self, d):
        return ast.Try(body=self.stmts(d['body']), handlers=[], orelse=[],
                       finalbody=self.stmts(d['finalbody']))

    def n_ExceptHandler(self, d):
        nm = d.get('name')
        name = None
        if nm:
            t = self.node(nm)
            name = t.id if isinstance(t, ast.Name) else None
        return ast.ExceptHandler(type=self.node(d.get('type') or d.get('excepttype')),
                                 name=name, body=self.stmts(d['body']))

    def n_Raise(self, d):
        t = d.get('type', d.get('excepttype'))
        exc = self.node(t)
        if d.get('inst'):
            exc = _L(ast.Call(func=exc, args=[self.node(d['inst'])], keywords=[]), d)
        return ast.Raise(exc=exc, cause=None)

    def n_With(self, d):
        item = ast.withitem(context_expr=self.node(d['context_expr']),
                            optional_vars=self.node(d.get('optional_vars')))
        return ast.With(items=[item], body=self.stmts(d['body']))

    def n_arguments(self, d):
        pre = []
        args = []
        for i, a in enumerate(d['args']):
            if a['_'] == 'Name':
                args.append(_L(ast.arg(arg=_name(a['id']), annotation=None), a))
            else:
                args.append(_L(ast.arg(arg='$t%d' % i, annotation=None), a))
                pre.append((i, self.node(a)))

        def va(x):
            return ast.arg(arg=_name(x), annotation=None) if x else None
        n = ast.arguments(posonlyargs=[], args=args, vararg=va(d.get('vararg')),
                          kwonlyargs=[], kw_defaults=[], kwarg=va(d.get('kwarg')),
                          defaults=self.many(d['defaults']))
        n.tuple_params = pre
        return n

    def n_Lambda(self, d):
        a, body = self.node(d['args']), self.node(d['body'])
        # lambda (x, y): e  is  lambda t: [e for (x, y) in [t]][0]
        for i, t in a.tuple_params:
            it = _L(ast.List(elts=[_L(ast.Name(id='$t%d' % i, ctx=ast.Load()), d)], ctx=ast.Load()), d)
            comp = _L(ast.ListComp(elt=body, generators=[
                ast.comprehension(target=t, iter=it, ifs=[], is_async=0)]), d)
            body = _L(ast.Subscript(value=comp, slice=_L(ast.Constant(value=0), d), ctx=ast.Load()), d)
        return ast.Lambda(args=a, body=body)

    def n_FunctionDef(self, d):
        a = self.node(d['args'])
        body = self.stmts(d['body'])
        for i, t in reversed(a.tuple_params):
            body.insert(0, _L(ast.Assign(
                targets=[t], value=_L(ast.Name(id='$t%d' % i, ctx=ast.Load()), d)), d))
        return ast.FunctionDef(name=_name(d['name']), args=a, body=body,
                               decorator_list=self.many(d.get('decorator_list')),
                               returns=None, type_params=[])

    def n_ClassDef(self, d):
        return ast.ClassDef(name=_name(d['name']), bases=self.many(d['bases']), keywords=[],
                            body=self.stmts(d['body']),
                            decorator_list=self.many(d.get('decorator_list')), type_params=[])

    def n_Call(self, d):
        args = self.many(d['args'])
        kws = [ast.keyword(arg=_name(k['arg']), value=self.node(k['value']))
               for k in (d.get('keywords') or [])]
        if d.get('starargs'):
            args.append(_L(ast.Starred(value=self.node(d['starargs']), ctx=ast.Load()), d))
        if d.get('kwargs'):
            kws.append(ast.keyword(arg=None, value=self.node(d['kwargs'])))
        return ast.Call(func=self.node(d['func']), args=args, keywords=kws)

    def n_Index(self, d):
        return self.node(d['value'])

    def n_ExtSlice(self, d):
        return ast.Tuple(elts=self.many(d['dims']), ctx=ast.Load())

    def n_Compare(self, d):
        ops = [getattr(ast, o['_'] if isinstance(o, dict) else o)() for o in d['ops']]
        return ast.Compare(left=self.node(d['left']), ops=ops,
                           comparators=self.many(d['comparators']))

    def n_ImportFrom(self, d):
        return ast.ImportFrom(module=_name(d.get('module')) or None,
                              names=self.many(d['names']), level=self.const(d.get('level')) or 0)

    def n_alias(self, d):
        return ast.alias(name=_name(d['name']), asname=_name(d.get('asname')) or None)

    def n_comprehension(self, d):
        return ast.comprehension(target=self.node(d['target']), iter=self.node(d['iter']),
                                 ifs=self.many(d['ifs']), is_async=0)


def _digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def parse_files(paths):
    """{path: ast.Module}; raises FrontError when any file does not parse."""
    tool = _digest(os.path.join(HERE, 'py2ast.py'))[:12]
    digests = {p: _digest(p) for p in paths}
    raw, todo = {}, []
    for p in paths:
        c = os.path.join(CACHE, '%s-%s.json' % (digests[p], tool))
        try:
            with open(c) as f:
                raw[p] = json.load(f)
        except (OSError, ValueError):
            todo.append(p)
    if todo:
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'CLASSPATH', 'JYTHONPATH')}
        r = subprocess.run([JY, '-B', os.path.join(HERE, 'py2ast.py')],
                           input='\n'.join(todo).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, timeout=300)
        if r.returncode != 0:
            raise FrontError('parser failed: ' + r.stderr.decode('utf-8', 'replace')[-400:])
        got = json.loads(r.stdout.decode('utf-8'))
        for p in todo:
            raw[p] = got[p]
        try:
            os.makedirs(CACHE, exist_ok=True)
            for p in todo:
                c = os.path.join(CACHE, '%s-%s.json' % (digests[p], tool))
                tmp = c + '.%d' % os.getpid()
                with open(tmp, 'w') as f:
                    json.dump(raw[p], f)
                os.replace(tmp, c)
        except OSError:
            pass
    out = {}
    for p in paths:
        if raw[p]['_'] == '$error':
            raise FrontError('%s:%s: does not parse: %s' % (p, raw[p].get('lineno'), raw[p]['s']))
        m = Rebuild().node(raw[p])
        ast.fix_missing_locations(m)
        out[p] = m
    return out, digests


def bglib_files(repo=None, tests=False):
    repo = repo or REPO
    out = []
    for root, ds, fs in os.walk(os.path.join(repo, 'bglib')):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            if not tests and (f.endswith('_test.py') or f == 'test.py' or f == 'testwriter.py'):
                continue
            out.append(os.path.join(root, f))
    return out


if __name__ == '__main__':
    mods, _ = parse_files(bglib_files())
    for p, m in mods.items():
        ast.unparse(m)
    print(len(mods), 'modules')
