"""Patterns: none explodes, none is dead; files: what is opened is closed."""
import ast
import re
import warnings

import rx
from absint import AnalysisError, Cls, Engine, ListO, Ref, Tup
from names import Program
from props import prop
from props_image import concrete_re


def strings(E, v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, Tup):
        for x in v.items:
            for s in strings(E, x):
                yield s
    elif isinstance(v, Ref):
        o = E.base.get(v)
        if isinstance(o, ListO):
            for x in o.items:
                for s in strings(E, x):
                    yield s


def usable(s, flags=0):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            re.compile(s, flags)
        return True
    except (re.error, OverflowError):
        return False


def patterns(E, mods):
    """(pattern, flags, construct, line): patterns held by modules and classes, and patterns written where they are used."""
    out = {}
    lists = []

    def add(s, flags, construct, path, line):
        if usable(s, flags):
            out.setdefault((s, flags), (construct, '%s:%s' % (path, line)))
    for m in mods:
        path = E.modpath[m][len(E.repo) + 1:]
        ns = E.load(m)
        held = ns
        for k, v in held.items():
            if isinstance(v, Cls):
                if v.mod != m:
                    continue
                every = m == 'bglib.protocol.fibs'
                for a, w in v.attrs.items():
                    got = list(strings(E, w))
                    for s in got:
                        if every or '(?P<' in s or re.search(r'[\])][*+}]', s):
                            add(s, 0, '%s.%s.%s' % (m, v.name, a), path, getattr(v.node, 'lineno', '?'))
                    if len(got) > 1 and all('(?P<' in s for s in got):
                        lists.append((got, '%s.%s.%s' % (m, v.name, a), '%s:%s' % (path, getattr(v.node, 'lineno', '?'))))
            else:
                for s in strings(E, v):
                    if '(?P<' in s:
                        add(s, 0, '%s.%s' % (m, k), path, 1)
        for n in ast.walk(E.trees[E.modpath[m]]):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 're' and n.args:
                a = n.args[0]
                s = a.value if isinstance(a, ast.Constant) else ns.get(a.id) if isinstance(a, ast.Name) else None
                if isinstance(s, str):
                    names = {x.attr for x in ast.walk(ast.Tuple(elts=n.args[1:], ctx=ast.Load())) if isinstance(x, ast.Attribute)}
                    add(s, re.X if names & {'X', 'VERBOSE'} else 0, '%s re.%s' % (m, n.func.attr), path, n.lineno)
    return out, lists


@prop('T01', 'Every pattern of the sources is turned into an automaton; a state from which some word leads back to itself in two ways makes a backtracking matcher take exponential time. '
      'Alternatives that are tried in order are decided by a subset construction.',
      ['exponential: no pattern has a word that loops in two ways', 'dead-alternative: every alternative of a list of patterns is the first to match somewhere'],
      ['Patterns put together at run time are looked at part by part.', 'Letters outside Latin-1 behave like those inside of the same class.'])
def t01(chk, tier):
    E = Engine()
    concrete_re(E)
    mods = sorted(m for m in E.modpath if m.startswith('bglib') and not m.endswith('_test'))
    pats, lists = patterns(E, mods)
    for (s, flags), (construct, where) in sorted(pats.items()):
        tree = None
        if flags:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = rx.sre_parse.parse(s, flags)
        r = rx.exponential(s, tree)
        chk.count('patterns')
        if r is not None:
            chk.violation('exponential', construct, where, 'the pattern %r can go on in two ways with %r, so that it takes exponential time where it does not match in the end' % (s, r[1]))
    for got, construct, where in lists:
        chk.count('lists of alternatives')
        chk.count('alternatives', len(got))
        for i in rx.shadowed(got):
            chk.violation('dead-alternative', construct + ' ' + ''.join(re.findall(r'\(\?P<(\w+)>', got[i])[:1]), where, 'the alternative %r never matches, because another one before it does' % got[i])
    chk.functions = set(c for c, w in pats.values())
    if len(pats) < 250 or not lists:
        raise AnalysisError('only %d patterns and %d lists of alternatives' % (len(pats), len(lists)))
