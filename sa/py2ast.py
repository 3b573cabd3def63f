# -*- coding: us-ascii -*-
# Runs under Jython 2.7 only, as a *parser*: reads file names on argv, prints one
# JSON document {path: tree}.  Nothing of the analysed code is imported or run.
import sys
import ast
import json
import re
import tokenize
import StringIO


def conv(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for k in (n._fields or ()):
            d[k] = conv(getattr(n, k, None))
        if hasattr(n, 'lineno'):
            d['lineno'] = n.lineno
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if isinstance(n, unicode):
        return {'_': '$u', 's': n}
    if isinstance(n, str):
        return {'_': '$s', 's': n.decode('latin-1')}
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, (int, long)):
        return {'_': '$i', 's': '%d' % n}
    if isinstance(n, float):
        return {'_': '$f', 's': repr(n)}
    if isinstance(n, complex):
        return {'_': '$f', 's': repr(n.imag)}
    return {'_': '$s', 's': unicode(str(n))}


def dictcomps(src):
    """Jython's parser gives no access to the parts of a dict comprehension:
    read {k: v for ...} as dict(((k), (v)) for ...), on the same lines."""
    toks = [t for t in tokenize.generate_tokens(StringIO.StringIO(src).readline)
            if t[0] in (tokenize.OP, tokenize.NAME)]
    lines = src.split('\n')
    edits = []
    stack = []
    for t in toks:
        v, at = t[1], t[2]
        if v in ('{', '(', '['):
            stack.append([v, at, None, None, 0])
        elif v in ('}', ')', ']'):
            if not stack:
                return src
            b = stack.pop()
            if b[0] == '{' and b[2] is not None and b[3] is not None:
                edits += [(b[1], 1, 'dict((('), (b[2], 1, '), ('),
                          (b[3], 0, ')) '), (at, 1, ')')]
        elif stack:
            b = stack[-1]
            if v == 'lambda':
                b[4] += 1
            elif v == ':':
                if b[4]:
                    b[4] -= 1
                elif b[2] is None:
                    b[2] = at
            elif v == 'for' and b[3] is None:
                b[3] = at
    for (row, col), n, text in sorted(edits, reverse=True):
        l = lines[row - 1]
        lines[row - 1] = l[:col] + text + l[col + n:]
    return '\n'.join(lines)


def main():
    out = {}
    for p in sys.stdin.read().split('\n'):
        if not p:
            continue
        src = open(p, 'rb').read().replace('\r\n', '\n')
        try:
            if not src.endswith('\n'):
                src += '\n'
            if re.search(r'\{[^{}]*\bfor\b', src):
                src = dictcomps(src)
            out[p] = conv(ast.parse(src, p))
        except (SyntaxError, ValueError, tokenize.TokenError), e:
            out[p] = {'_': '$error', 's': str(e), 'lineno': getattr(e, 'lineno', 0)}
    json.dump(out, sys.stdout)

main()
