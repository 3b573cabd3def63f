"""Documents: the wiki formatter, its macros, and the wrapped formatters."""
import ast
import gc
import multiprocessing
import os
import re
import time

import rx
from absint import (Engine, Frame, St, Raised, Fn, Cls, Tup, Term, Ref, Bound, Inst, ListO, DictO, AnalysisError, Ext, Lin, isint, then)
import drive
from props import prop, WORKERS

WIKI = 'bglib.doc.bgwiki'
WSPUA = re.compile(r'\s+')
OPAQUE = '\uf900'


def doc_singles(E):
    """Characters the document modules name themselves."""
    out = set('<>&"\'? =!')
    for m in ('bgwiki', 'macro', 'doctree', 'html'):
        path = E.modpath['bglib.doc.' + m]
        for n in ast.walk(E.trees[path]):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) <= 3:
                out |= set(n.value)
    return ''.join(sorted(c for c in out if c in rx.UNIVERSE and not c.isalnum()))


def quoted(E, st, v):
    return ''.join(c if c in '_.-' or c.isalnum() and ord(c) < 128 else OPAQUE if rx.ispua(c) or c == OPAQUE else '+' if c == ' ' else
                   ''.join('%%%02X' % b for b in c.encode()) for c in flat(E, st, v))


def urlencode(E, st, args, kw, fr, n):
    """key=value pairs of a dictionary, both quoted; the order of a dictionary is arbitrary."""
    o = E.obj(st, args[0]) if isinstance(args[0], Ref) else None
    if o is None or not isinstance(o, DictO) or o.open:
        return None
    return [(st, '&'.join('%s=%s' % (quoted(E, st, k), quoted(E, st, v)) for k, v in o.items.items()))]


def substitute(E, st, o, args, kw, fr, n):
    """string.Template(text).substitute(name=value...)"""
    if not (isinstance(o, Term) and o.op == 'call' and isinstance(o.args[0], Ext) and o.args[0].path == 'string.Template'
            and isinstance(o.args[1], str)) or args:
        return None
    vals = {k: flat(E, st, v) for k, v in kw.items()}
    bad = [m.group(0) for m in re.finditer(r'\$(\$|\{?\w+\}?|)', o.args[1]) if m.group(1) != '$' and m.group(1).strip('{}') not in vals]
    if bad:
        raise AnalysisError('template names %s' % bad)
    return [(st, re.sub(r'\$(\$|\{?\w+\}?)', lambda m: '$' if m.group(1) == '$' else vals[m.group(1).strip('{}')], o.args[1]))]


FINER = []       # character classes that the code told apart outside of patterns


def loaded(modname, setup=None):
    """An engine with a partition of characters fine enough for every pattern of the module."""
    pats = list(FINER)
    for _ in range(60):
        E = Engine()
        E.maxrec = 80
        E.load('bglib.doc.doctree')
        part = rx.Partition(pats, SINGLES.get('doc') or '<>&"\'?! ')
        rx.install(E, part)
        E.exthooks['urllib.urlencode'] = urlencode
        E.methhooks['isoformat'] = lambda E, st, o, args, kw, fr, n: [(st, OPAQUE)]
        E.methhooks['substitute'] = substitute
        global WSPUA
        WSPUA = re.compile('[\\s%s]+' % ''.join(re.escape(c) for k in part.classes if k[0].isspace() and len(k) > 1
                                                for c in [part.char(k[0], i) for i in range(rx.STEP)]))
        if setup:
            setup(E)
        try:
            ns = E.load(modname)
            if not SINGLES.get('doc'):
                SINGLES['doc'] = doc_singles(E)
                continue
            for q in ('LineFormatter', 'WrappingFormatterElement'):
                c = ns.get(q)
                if isinstance(c, Cls):
                    v = c.attrs.get('_patterns')
                    o = E.obj(St({}, {}, {}), v) if isinstance(v, Ref) else None
                    if o is not None:
                        for p in o.items:
                            part.check('(%s)' % p)
            for e in E.module_errors:
                raise AnalysisError('%s line %s: %r' % (e[0], getattr(e[1], 'lineno', '?'), e[2]))
            return E, ns, part
        except rx.Finer as e:
            pats.append(e.pattern)
    raise AnalysisError('character classes do not settle')


SINGLES = {}


# ------------------------------------------------------------------ reading HTML
TAG = re.compile(r'<(/?)([a-zA-Z][a-zA-Z0-9]*)((?:\s+[a-zA-Z]+="[^"<>]*")*)\s*(/?)>')
ENT = re.compile(r'&(lt|gt|amp|quot|#39);')
ATTR = re.compile(r'([a-zA-Z]+)="([^"<>]*)"')
UNESC = {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', '#39': "'"}
VOID = ('br', 'img')


def unescape(s):
    return ENT.sub(lambda m: UNESC[m.group(1)], s)


def read_html(s):
    """(problems, visible text, tags) of an HTML fragment."""
    bad, text, tags, stack = [], [], [], []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            m = TAG.match(s, i)
            if not m:
                bad.append(('raw-markup', s[i:i + 30]))
                text.append(c)
                i += 1
                continue
            close, name, attrs, single = m.groups()
            ats = {}
            for k, v in ATTR.findall(attrs):
                for a in re.finditer('&', v):
                    if not ENT.match(v, a.start()):
                        bad.append(('raw-ampersand', v))
                if k in ats:
                    bad.append(('duplicate-attribute', m.group(0)))
                ats[k] = unescape(v)
            if close:
                if not stack or stack[-1] != name:
                    bad.append(('balanced', '</%s> in %s' % (name, '/'.join(stack))))
                    if name in stack:
                        while stack.pop() != name:
                            pass
                else:
                    stack.pop()
            else:
                tags.append((name, ats, tuple(stack), len(''.join(text))))
                if single and name in VOID:
                    pass
                elif single:
                    bad.append(('balanced', m.group(0)))
                else:
                    stack.append(name)
            i = m.end()
            continue
        if c == '&':
            m = ENT.match(s, i)
            if m:
                text.append(UNESC[m.group(1)])
                i = m.end()
                continue
            bad.append(('raw-ampersand', s[i:i + 20]))
        elif c == '>':
            bad.append(('raw-markup', s[max(0, i - 20):i + 1]))
        text.append(c)
        i += 1
    if stack:
        bad.append(('balanced', 'left open: ' + '/'.join(stack)))
    return bad, ''.join(text), tags


def squeeze(s):
    return WSPUA.sub('', s)


def flat(E, st, v):
    """Text of an abstract string; unknown parts become one opaque character."""
    v = E.norm(st, v)
    if isinstance(v, str):
        return v
    if isinstance(v, Term) and v.op == 'cat':
        return ''.join(flat(E, st, x) for x in v.args)
    if isinstance(v, Term) and v.kind == 'str' or isinstance(v, Term):
        return OPAQUE
    if isint(v):
        return str(v)
    raise AnalysisError('document text is %r' % (v,))


# ------------------------------------------------------------------ constructs
class Tok(object):
    def __init__(self, name, src, vis, kind='inline', cls=None, href=None, mid=True, start=True):
        self.name, self.src, self.vis, self.kind, self.cls, self.href, self.mid, self.start = name, src, vis, kind, cls, href, mid, start


TOGGLE = [("'''", 'BoldElement'), ("''", 'ItalicElement'), ('__', 'UnderlineElement'), ('~~', 'StrikeElement'), (',,', 'SubscriptElement'),
          ('^', 'SuperscriptElement'), ('`', 'MonospaceElement'), ('===', 'H3Element'), ('==', 'H2Element'), ('=', 'H1Element')]
URLCHARS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_~#=?./-&%'
GID = 'vzsAAFhu2xFABA:QYkqASAAIAAA'


def tokens(part):
    z = part.char('z', 1)
    Z = part.char('Z', 2)
    y = part.char('z', 3)
    T = []
    for k in part.classes:
        c = part.char(k[0], 4)
        if c in "=^`":
            continue
        if k[0].isspace():
            T.append(Tok('space', c, '', start=False))
        else:
            T.append(Tok('character ' + (c if not rx.ispua(c) else '[%s]' % k), c, c, start=c != '>'))
    for src, cls in TOGGLE:
        T.append(Tok(src, src, '', 'toggle', cls))
        T.append(Tok('!' + src, '!' + src, src))
    T.append(Tok("'''''", "'''''", '', 'toggle2'))
    T.append(Tok("!'''''", "!'''''", "'''''"))
    T.append(Tok('{{{ in a line', '{{{', '', 'open', 'MonospaceElement', start=False))
    T.append(Tok('}}} in a line', '}}}', '', 'close', 'MonospaceElement', start=False))
    T.append(Tok('!{{{', '!{{{', '{{{'))
    T.append(Tok('!}}}', '!}}}', '}}}'))
    for d in [part.char(k[0], 5) for k in part.classes if all(c in '0123456789' for c in k)]:
        e = d + part.char('9', 6)
        for src, url in (('#' + d, '/entry/' + d), ('#' + e, '/entry/' + e), ('entry:' + e, '/entry/' + e), ('query:' + e + d, '/query/' + e + d),
                         ('{' + d + '}', '/query/' + d), ('{' + e + '}', '/query/' + e), ('m' + e, '/match/' + e), ('match:' + e, '/match/' + e),
                         ('[' + d + ']', '/match/' + d), ('[' + e + ']', '/match/' + e)):
            T.append(Tok('link ' + part.rep(src), src, src, href=url))
            T.append(Tok('!link ' + part.rep(src), '!' + src, src))
    u = 'http://%s.%s/?%s=1&%s=2' % (z, y, z, y)
    T.append(Tok('url', u, u, href=u, ))
    T.append(Tok('https url', 'https://' + z, 'https://' + z, href='https://' + z))
    T.append(Tok('!url', '!' + u, u))
    for k in part.classes:
        if k[0] in URLCHARS:
            v = 'http://' + z + part.char(k[0], 4)
            T.append(Tok('url that ends with [%s]' % k, v, v, href=v))
            T.append(Tok('[url that ends with [%s]]' % k, '[' + v + ']', v, href=v))
            T.append(Tok('[url that ends with [%s] and text]' % k, '[%s %s]' % (v, z), z, href=v))
    T.append(Tok('[url]', '[' + u + ']', u, href=u))
    T.append(Tok('[url text]', '[%s %s<"&>%s]' % (u, z, y), '%s<"&>%s' % (z, y), href=u))
    T.append(Tok('![url text]', '![%s %s]' % (u, z), '[%s %s]' % (u, z)))
    T.append(Tok('[wiki:]', '[wiki:%s%s]' % (Z, z), Z + z, href='/' + Z + z))
    T.append(Tok('![wiki:]', '![wiki:%s%s]' % (Z, z), '[wiki:%s%s]' % (Z, z)))
    T.append(Tok('CamelCase', Z + z + Z + y, Z + z + Z + y, href='/' + Z + z + Z + y))
    T.append(Tok('!CamelCase', '!' + Z + z + Z + y, Z + z + Z + y))
    T.append(Tok('||', '||', '', 'cell', start=True))
    T.append(Tok('!||', '!||', '||'))
    T.append(Tok('[[BR]]', '[[BR]]', ''))
    T.append(Tok('[[Timestamp]]', '[[Timestamp]]', OPAQUE))
    T.append(Tok('[[Position(id)]]', '[[Position(%s)]]' % GID, ''))
    T.append(Tok('[[Position(bad)]]', '[[Position(%s)]]' % z, 'Bad args "%s" for Position' % z))
    T.append(Tok('[[Position]]', '[[Position]]', 'Bad args "None" for Position'))
    T.append(Tok('[[Analysis]]', '[[Analysis]]', 'Bad args "None" for Analysis'))
    T.append(Tok('[[unknown]]', '[[%s]]' % (z + Z), 'No such macro "%s" with argument "None"' % (z + Z)))
    T.append(Tok('[[unknown(args)]]', '[[%s(%s, %s)]]' % (z, y, z), 'No such macro "%s" with argument "%s, %s"' % (z, y, z)))
    # the tokens tried in every state reached; the others only from the first ones
    for t in T:
        t.deep = (t.kind != 'inline' or t.href == u or t.name.startswith('[[') or t.name in ('space', '!||', '!__')
                  or t.src in (part.char('z', 4), '<', '&', '>'))
    return T


LISTS = [('*', 'ul', {}, {}), ('+', 'ul', {'class': 'sign'}, {'class': 'plus'}), ('++', 'ul', {'class': 'sign'}, {'class': 'doubleplus'}),
         ('+++', 'ul', {'class': 'sign'}, {'class': 'tripleplus'}), ('-', 'ul', {'class': 'sign'}, {'class': 'minus'}),
         ('--', 'ul', {'class': 'sign'}, {'class': 'doubleminus'}), ('---', 'ul', {'class': 'sign'}, {'class': 'tripleminus'}),
         ('1', 'ol', {}, {}), ('2.', 'ol', {}, {}), ('a', 'ol', {'class': 'loweralpha'}, {}), ('b.', 'ol', {'class': 'loweralpha'}, {}),
         ('i', 'ol', {'class': 'lowerroman'}, {}), ('iv.', 'ol', {'class': 'lowerroman'}, {})]


MARKS = LISTS[:7] + [(c + dot, 'ol', {}, {}) for c in '12345678' for dot in ('', '.')] + \
    [(c + dot, 'ol', {'class': 'loweralpha'}, {}) for c in 'abcdefgh' for dot in ('', '.')] + \
    [(c + dot, 'ol', {'class': 'lowerroman'}, {}) for c in ('i', 'ii', 'iii', 'iv', 'v', 'vi', 'vii', 'viii') for dot in ('', '.')]


# ------------------------------------------------------------------ exploration
class Doc(object):
    """The formatter interpreted line by line."""

    def __init__(self, chk=None):
        self.E, self.ns, self.part = loaded(WIKI)
        E = self.E
        self.fr = Frame(WIKI, None, WIKI)
        self.chk = chk
        self.n = 0
        self.all_fns = set()
        self.obl = 0
        f = self.ns.get('Formatter')
        if not isinstance(f, Cls):
            raise AnalysisError('bglib.doc.bgwiki.Formatter is gone')
        outs = E.call(St({}, {}, {}), f, [None], {}, self.fr, None)
        if len(outs) != 1 or isinstance(outs[0][1], Raised):
            raise AnalysisError('Formatter(db) has %d outcomes' % len(outs))
        self.st0, self.ref = outs[0]

    def meth(self, st, name, args):
        E = self.E
        out = []
        for s, f in E.getattr(st, self.ref, name, self.fr, None):
            if isinstance(f, Raised):
                out.append((s, f))
            else:
                out.extend(E.call(s, f, args, {}, self.fr, None))
        return out

    def parse(self, st, text):
        self.n += 1
        self.all_fns |= set(map(str, self.E.seen_fns))
        self.E.seen_fns = {}
        return self.meth(st, 'parse', [text + '\n'])

    def handler(self):
        h = sorted(str(f) for f in self.E.seen_fns if '_handle' in str(f))
        m = sorted(str(f) for f in self.E.seen_fns if str(f).startswith('bglib.doc.macro.') and str(f).split('.')[-1][:1].isupper())
        return (m or h or [WIKI + '.LineFormatter.parse'])[0]

    def render(self, st):
        """HTML of the document so far and its state afterwards."""
        outs = self.meth(st, 'make_html', [])
        return outs

    # --- the shape of the tree, as far as the code can depend on it
    def attr(self, st, ref, name):
        o = self.E.obj(st, ref)
        return o.attrs.get(name) if isinstance(o, Inst) else None

    def editor(self, st):
        e = self.attr(st, self.ref, 'editor')
        if not isinstance(e, Ref):
            raise AnalysisError('Formatter.editor is gone')
        return e

    def spine(self, st):
        cur = self.attr(st, self.editor(st), 'current')
        if not isinstance(cur, Ref):
            raise AnalysisError('Editor.current is gone')
        out = []
        k = 0
        while isinstance(cur, Ref) and k < 200:
            out.append(cur)
            cur = self.attr(st, cur, 'parent')
            k += 1
        return out[::-1]

    def classes(self, st):
        return [self.E.obj(st, r).cls.name for r in self.spine(st)]

    def key(self, st):
        E = self.E
        sp = self.spine(st)
        out = []
        for r in sp:
            o = E.obj(st, r)
            k = o.cls.name
            if k == 'ListElement':
                a = E.obj(st, o.attrs['attrs'])
                k += ':' + ','.join(x for x in ('star', 'sign', 'ordered_numeric', 'ordered_alpha', 'ordered_roman') if a.items.get(x))
            if k == 'WrappingFormatterElement':
                w = o.attrs.get('wrapped')
                k += ':%s' % (E.obj(st, w).cls.name if isinstance(w, Ref) else None)
                k += ':%s' % bool(o.attrs.get('buf'))
            out.append(k)
        # nodes that were left implicitly
        cur = sp[-1]
        op = self.attr(st, cur, 'opened_in')
        inn = []
        n = 0
        while isinstance(op, Ref) and op not in sp and n < 50:
            inn.append(E.obj(st, op).cls.name)
            op = self.attr(st, op, 'parent')
            n += 1
        ch = self.attr(st, cur, 'children')
        last = None
        if isinstance(ch, Ref):
            its = E.obj(st, ch).items
            if its:
                last = E.obj(st, its[-1]).cls.name == 'Text'
        return tuple(out), tuple(inn), last


class Sink(object):
    def __init__(self):
        self.v = {}

    def violation(self, rule, construct, where, detail):
        L = self.v.setdefault((rule, construct), [])
        if len(L) < 5:
            L.append((where, detail))


def where(E, qual):
    try:
        return drive.describe(E, E.resolve(qual), qual)
    except AnalysisError:
        return qual


def expected(vis):
    return squeeze(vis)


class Step(object):
    """All one-line steps from one state, and what must be true of them."""

    def __init__(self, D, sink):
        self.D, self.sink = D, sink
        self.tok = tokens(D.part)
        self.z = D.part.char('z', 9)
        self.new = {}
        self.obl = 0

    def fail(self, rule, hist, line, detail, construct=None):
        D = self.D
        c = construct or self.h
        self.sink.violation(rule, c, where(D.E, c), 'lines %s: %s' % (
            [D.part.rep(x) for x in hist + (line,)], D.part.rep(str(detail))))

    def ok(self, cond, rule, hist, line, detail, construct=None):
        self.obl += 1
        if not cond:
            self.fail(rule, hist, line, detail, construct)

    def run(self, st, hist, line):
        """Outcomes of one more line; records exceptions and newly reached states."""
        D = self.D
        out = []
        for s, r in D.parse(st, line):
            self.h = D.handler()
            if isinstance(r, Raised):
                self.ok(False, 'no-exception', hist, line, '%s escapes' % drive.excname(D.E, s, r), r.fr.qual if r.fr is not None else None)
                continue
            self.obl += 1
            sp = D.spine(s)
            self.ok(sp and D.E.obj(s, sp[0]).cls.name == 'BgWikiElementRoot', 'inside-the-document', hist, line, [D.E.obj(s, x).cls.name for x in sp])
            k = D.key(s)
            self.new.setdefault(k, hist + (line,))
            out.append(s)
        return out

    def html(self, s, hist, line):
        D = self.D
        h = self.h
        res = []
        for s1, r in D.render(s):
            if isinstance(r, Raised):
                self.ok(False, 'no-exception', hist, line, 'rendering: %s escapes' % drive.excname(D.E, s1, r), r.fr.qual if r.fr is not None else None)
                continue
            t = flat(D.E, s1, r)
            res.append(t)
            for s2, r2 in D.render(s1):
                self.ok(not isinstance(r2, Raised) and flat(D.E, s2, r2) == t, 'rendering-is-repeatable', hist, line, 'second rendering differs',
                        WIKI + '.BaseFormatter.make_html')
        self.h = h
        return res

    def doc(self, s, hist, line, before, vis, href=None, tags0=None):
        """The document after the line: well formed, escaped, text in order."""
        for t in self.html(s, hist, line):
            bad, text, tags = read_html(t)
            for rule, d in bad:
                self.ok(False, rule, hist, line, d)
            self.obl += 3
            got, want = squeeze(text), before + expected(vis)
            if got != want:
                if squeeze(unescape(text)) == want or squeeze(text.replace('&amp;', '&')) == want:
                    self.fail('escaped-once', hist, line, '%r instead of %r' % (got, want))
                else:
                    self.fail('text-kept-in-order', hist, line, '%r instead of %r' % (got, want))
            if href is not None:
                self.ok(any(a.get('href') == href for n, a, stk, p in tags), 'link-target', hist, line,
                        '%r not in %r' % (href, [a.get('href') for n, a, stk, p in tags if 'href' in a]))
            for n, a, stk, p in tags:
                par = stk[-1] if stk else None
                if n == 'li':
                    self.ok(par in ('ul', 'ol'), 'list-items-in-lists', hist, line, '/'.join(stk))
                if 'src' in a and 'href' not in a:
                    self.ok(a['src'].startswith('/image?') or a['src'].startswith(OPAQUE), 'image-source', hist, line, a['src'])
            return tags
        return []

    def visible(self, st):
        """Visible text of the document before the step (squeezed)."""
        for s1, r in self.D.render(st):
            if isinstance(r, Raised):
                return None
            return squeeze(read_html(flat(self.D.E, s1, r))[1])

    def state(self, st, hist, leads, tails, deep, part=0, of=1):
        D, E, z = self.D, self.D.E, self.z
        before = self.visible(st)
        if before is None:
            return
        kcl = D.classes(st)
        if kcl[-1] == 'WrappingFormatterElement':
            return self.preformat(st, hist, before)
        # blank line
        for s in self.run(st, hist, ''):
            self.ok(D.classes(s) == ['BgWikiElementRoot'], 'blank-line-ends-blocks', hist, '', D.classes(s))
            self.doc(s, hist, '', before, '')
        for lead, lvis in leads:
            ref = [s for s in self.run(st, hist, lead + z)]
            for s in ref:
                self.doc(s, hist, lead + z, before, lvis + z)
            if len(ref) != 1:
                continue
            ref = ref[0]
            rk = D.key(ref)
            rcl = D.classes(ref)
            for i, t in enumerate(self.tok):
                if i % of != part:
                    continue
                if not deep and not t.deep:
                    continue
                if not (t.start if lead == '' else t.mid):
                    continue
                if t.name == 'space' and lead in ('  ', '||'):
                    continue
                line = lead + t.src
                for s in self.run(st, hist, line):
                    cl = D.classes(s)
                    if t.kind == 'inline':
                        self.ok(cl == rcl, 'inline-leaves-structure', hist, line, '%s instead of %s' % (cl, rcl))
                    elif t.kind in ('toggle', 'open', 'close'):
                        if t.kind != 'open' and t.cls in rcl:
                            i = len(rcl) - 1 - rcl[::-1].index(t.cls)
                            self.ok(cl == rcl[:i] or cl.count(t.cls) == rcl.count(t.cls) - 1 and cl == rcl[:len(cl)], 'markup-ends-innermost',
                                    hist, line, '%s from %s' % (cl, rcl))
                        elif t.kind == 'close':
                            self.ok(t.cls not in cl, 'markup-ends-innermost', hist, line, cl)
                        else:
                            self.ok(cl[-1] == t.cls, 'markup-begins', hist, line, '%s from %s' % (cl, rcl))
                    elif t.kind == 'toggle2':
                        if 'BoldElement' in rcl or 'ItalicElement' in rcl:
                            n = cl.count('BoldElement') + cl.count('ItalicElement')
                            m = rcl.count('BoldElement') + rcl.count('ItalicElement')
                            self.ok(n < m, 'markup-ends-innermost', hist, line, '%s from %s' % (cl, rcl))
                        else:
                            self.ok(cl[-2:] == ['BoldElement', 'ItalicElement'], 'markup-begins', hist, line, cl)
                    elif t.kind == 'cell':
                        pass
                    self.doc(s, hist, line, before, lvis + t.vis, t.href)
                    for tail, tvis in tails:
                        line2 = line + tail
                        if t.src[-1:] == "'" or t.src[-1:] == tail[:1] or t.name.startswith('url'):
                            continue
                        if t.vis == tail[:1] or t.src.endswith(' ') or t.src[-1:] in '0123456789':
                            pass
                        for s2 in self.run(st, hist, line2):
                            self.doc(s2, hist, line2, before, lvis + t.vis + tvis, t.href)
        if part == 0:
            self.blocks(st, hist, before, kcl)

    def blocks(self, st, hist, before, kcl):
        D, E, z = self.D, self.D.E, self.z
        for mark, tag, la, ia in (MARKS if not hist else LISTS):
            for n in (1, 2, 3):
                line = ' ' * n + mark + ' ' + z
                for s in self.run(st, hist, line):
                    cl = D.classes(s)
                    self.ok(cl.count('ListElement') == n, 'indentation-is-nesting', hist, line, cl)
                    self.ok('ItemizeElement' in cl[-1:], 'text-is-in-the-item', hist, line, cl)
                    tags = self.doc(s, hist, line, before, z)
                    if kcl.count('ListElement') < n and tags:
                        lists = [t for t in tags if t[0] in ('ul', 'ol')]
                        items = [t for t in tags if t[0] == 'li']
                        self.ok(lists and lists[-1][0] == tag and lists[-1][1] == la, 'list-kind', hist, line, lists[-1:])
                        self.ok(items and items[-1][1] == ia, 'list-item-kind', hist, line, items[-1:])
        for n in (1, 2, 3):
            line = '>' * n + ' ' + z
            for s in self.run(st, hist, line):
                cl = D.classes(s)
                self.ok(cl.count('CitationElement') == n, 'quoting-is-nesting', hist, line, cl)
                self.doc(s, hist, line, before, z)
        for s in self.run(st, hist, z):
            cl = D.classes(s)
            self.ok('CitationElement' not in cl, 'quoting-ends', hist, z, cl)
            self.ok('BlockQuoteElement' not in cl, 'quoting-ends', hist, z, cl)
        line = z + '::'
        for s in self.run(st, hist, line):
            cl = D.classes(s)
            self.ok('DefinitionBodyElement' in cl, 'definition-list', hist, line, cl)
            self.doc(s, hist, line, before, z)
            for s2 in self.run(s, hist + (line,), '  ' + z):
                cl = D.classes(s2)
                self.ok('DefinitionBodyElement' in cl, 'definition-list', hist + (line,), '  ' + z, cl)
                self.doc(s2, hist + (line,), '  ' + z, before + z, z)
        line = '||%s||%s||' % (z, self.D.part.char('z', 10))
        y = self.D.part.char('z', 10)
        for s in self.run(st, hist, line):
            self.doc(s, hist, line, before, z + y)
            cl = D.classes(s)
            if 'TableElement' not in kcl:
                self.ok(cl[-1:] == ['TableElement'], 'row-ends', hist, line, cl)
            for s2 in self.run(s, hist + (line,), line):
                tags = self.doc(s2, hist + (line,), line, before + z + y, z + y)
                if not any(x in kcl for x in ('TableElement', 'TableRowElement', 'TableCellElement')):
                    tr = [t for t in tags if t[0] == 'tr']
                    td = [t for t in tags if t[0] == 'td']
                    tb = [t for t in tags if t[0] == 'table']
                    self.ok(tags and len(tb) >= 1 and len(tr) >= 2 and len(td) >= 4 and all(t[2][-1:] == ('table',) for t in tr[-2:])
                            and all(t[2][-1:] == ('tr',) for t in td[-4:]), 'table-of-rows-of-cells', hist + (line,), line,
                            [(t[0], t[2]) for t in tags])
        text = ['{{{', z, '', '}}}', z + '::', '  ' + z, '', z]
        one = [(st, None)]
        for l in text:
            one = [x for s, r in one if not isinstance(r, Raised) for x in D.parse(s, l)]
        for end in ('\n', '\r\n'):
            D.n += 1
            two = D.meth(st, 'parse', [end.join(text)])
            a, b = [[(D.key(s), [flat(E, s1, h) for s1, h in D.render(s) if not isinstance(h, Raised)]) for s, r in k if not isinstance(r, Raised)] for k in (one, two)]
            self.ok(a == b, 'lines-may-come-together', hist, end.join(text), (a, b), WIKI + '.Formatter.parse')
        line = '{{{'
        for s in self.run(st, hist, line):
            self.doc(s, hist, line, before, '')
            self.ok(D.classes(s)[-1] == 'WrappingFormatterElement', 'preformatted-begins', hist, line, D.classes(s))
            h2 = hist + (line,)
            raw = [z + " '''<b>&amp;\"", '', '  = ||[[BR]] * }}}' + z, '   ', ' \t ' + z + '  ', '>> ' + z, '#!' + z, '#!' + z + '\t', '']
            s2s = [s]
            ls = ()
            for l in raw:
                s2s = [x for q in s2s for x in self.run(q, h2 + ls, l)]
                ls += (l,)
            for s2 in s2s:
                self.ok(D.classes(s2)[-1] == 'WrappingFormatterElement', 'preformatted-is-verbatim', h2, ls[-1], D.classes(s2))
                for s3 in self.run(s2, h2 + ls, '}}}'):
                    cl = D.classes(s3)
                    self.ok('WrappingFormatterElement' not in cl, 'preformatted-ends', h2 + ls, '}}}', cl)
                    self.doc(s3, h2 + ls, '}}}', before, ''.join(raw))
                    for t in self.html(s3, h2 + ls, '}}}'):
                        body = unescape(t)
                        self.ok('\n'.join(raw) in body, 'preformatted-is-verbatim', h2 + ls, '}}}', body[-200:])
                    for s4 in self.run(s3, h2 + ls + ('}}}',), z):
                        self.doc(s4, h2 + ls + ('}}}',), z, before + squeeze(''.join(raw)), z)

    def preformat(self, st, hist, before):
        D, z = self.D, self.z
        for l in (z, '', "'''" + z, '<', ' ' + z, '}}} ', ' }}}', '{{{'):
            for s in self.run(st, hist, l):
                self.ok(D.classes(s) == D.classes(st), 'preformatted-is-verbatim', hist, l, D.classes(s))
                self.doc(s, hist, l, before, l)


def ways(chk, D, rules):
    """Names of pages are looked for where the caller says."""
    if not rules('link-target'):
        return
    E, part = D.E, D.part
    n = part.char('Z', 2) + part.char('z', 1) + part.char('Z', 5) + part.char('z', 3)
    f = D.ns['Formatter']
    for way in ('/w/', 'http://x/?a='):
        for s, r in E.call(St({}, {}, {}), f, [None], {'wikipath': way}, D.fr, None):
            keep, D.ref = D.ref, r
            try:
                for src, want in ((n, way + n), ('[wiki:%s]' % n, way + n)):
                    for s1, r1 in D.parse(s, src):
                        for s2, h in D.render(s1):
                            hrefs = [a['href'] for x, a, stk, p in read_html(flat(E, s2, h))[2] if 'href' in a] if not isinstance(h, Raised) else []
                            if hrefs != [want]:
                                chk.violation('link-target', WIKI + '.LineFormatter.__init__', WIKI, '%r with pages at %s leads to %r' % (part.rep(src), way, hrefs))
                            chk.count('obligations')
            finally:
                D.ref = keep


LEADS = [('', ''), (None, None), ('  ', ''), ('> ', '')]


def explore(chk, levels, full, budget, rules):
    for _ in range(20):
        try:
            return explore1(chk, levels, full, budget, rules)
        except rx.Finer as e:
            if e.pattern in FINER:
                raise AnalysisError('character classes do not settle: %s' % e.pattern)
            FINER.append(e.pattern)
    raise AnalysisError('character classes do not settle')


def explore1(chk, levels, full, budget, rules):
    D = Doc()
    z = D.part.char('z', 8)
    leads = [('', ''), (z, z), ('  ', ''), ('> ', ''), ('||', '')]
    tails = [(D.part.char('é', 7), D.part.char('é', 7))]
    t0 = time.time()
    ways(chk, D, rules)
    known = {D.key(D.st0): ()}
    frontier = [(D.st0, ())]
    total = obl = 0
    seenfn = set()
    sink = Sink()
    for level in range(levels):
        _JOB.update(D=D, todo=frontier, leads=leads if level < full else leads[:2], tails=tails if level == 0 else [], t0=t0,
                    budget=budget, deep=level < full)
        of = 1 if len(frontier) >= WORKERS else 2 * WORKERS
        _JOB['todo'] = [(s, h, i, of) for s, h in frontier for i in range(of)]
        n = WORKERS
        _JOB['n'] = n
        if n <= 1:
            res = [_work(0)]
        else:
            with multiprocessing.get_context('fork').Pool(n) as pool:
                res = pool.map(_work, range(n), 1)
        nxt = []
        for v, new, o, steps, err, fns, done in res:
            for k, items in v.items():
                for w, d in items:
                    sink.violation(k[0], k[1], w, d)
            obl += o
            total += done
            chk.count('steps', steps)
            seenfn |= fns
            if isinstance(err, rx.Finer):
                raise err
            if err:
                raise AnalysisError(err)
            for k, h in sorted(new.items(), key=lambda t: (len(t[1]), t[1])):
                if k not in known:
                    known[k] = h
                    nxt.append(h)
        if sink.v and any(rules(k[0]) for k in sink.v):
            break
        if level + 1 < levels:
            frontier = []
            for h in nxt:
                sts = [D.st0]
                for l in h:
                    sts = [s for q in sts for s, r in D.parse(q, l) if not isinstance(r, Raised)]
                if sts:
                    frontier.append((sts[0], h))
    for (rule, c), items in sink.v.items():
        if rules(rule):
            for w, d in items:
                chk.violation(rule, c, w, d)
    chk.count('states_expanded', total)
    chk.count('states_reached', len(known))
    chk.count('obligations', obl)
    chk.cover['character_classes'] = len(D.part.classes)
    chk.functions = getattr(chk, 'functions', set()) | {f for f in seenfn if f.startswith('bglib')}
    chk.cover['functions_interpreted'] = len(chk.functions)
    if obl < 2000 and not chk.viol:
        raise AnalysisError('only %d obligations' % obl)


_JOB = {}


def _work(k):
    D, todo, n = _JOB['D'], _JOB['todo'], _JOB['n']
    sink = Sink()
    S = Step(D, sink)
    err = None
    done = 0
    gc.disable()
    D.n = 0
    fns = set()
    for i, (st, h, part, of) in enumerate(todo):
        if i % n != k:
            continue
        if time.time() - _JOB['t0'] > _JOB['budget']:
            break
        try:
            S.state(st, h, _JOB['leads'], _JOB['tails'], _JOB['deep'], part, of)
        except AnalysisError as e:
            err = 'after %r: %s' % (h, e)
            break
        except rx.Finer as e:
            err = e
            break
        except RecursionError:
            err = 'recursion limit in the analyser'
            break
        fns |= D.all_fns | set(map(str, D.E.seen_fns))
        done += part == 0
    return sink.v, S.new, S.obl, D.n, err, fns, done


WELL = ('no-exception', 'balanced', 'raw-markup', 'raw-ampersand', 'duplicate-attribute', 'escaped-once', 'inside-the-document',
        'rendering-is-repeatable', 'list-items-in-lists', 'image-source')
TEXT = ('no-exception', 'lines-may-come-together', 'text-kept-in-order', 'escaped-once', 'link-target', 'preformatted-begins', 'preformatted-is-verbatim', 'preformatted-ends',
        'rendering-is-repeatable')
HOW = ('Abstract interpretation of the wiki formatter. Characters are the atoms of the Boolean algebra of all character sets its regular expressions '
       'test; every construct is tried from every abstract editor state reached (open elements, implicitly left elements), breadth first. ')
BOUND = ['Characters: tab, printable ASCII and one representative each of letters, digits, symbols and spaces beyond; no line-break characters inside a line.',
         'Editor states that agree on the open elements and on what was left implicitly are explored once; depth of states is bounded by the tier.',
         'Unknown characters of one line are distinct classes members; tokens are combined two at a time.']


def depth(tier):
    return (3, 2, 600) if tier == 'thorough' else (2, 1, 400)


@prop('D01', HOW + 'Every rendering must be balanced, must contain no markup or entity that the formatter did not write itself, and must not raise.',
      list(WELL), BOUND)
def d01(chk, tier):
    l, f, b = depth(tier)
    explore(chk, l, f, b, lambda r: r in WELL)


@prop('D02', HOW + 'The visible text of the page after a line is the text before it followed by the visible text of the line.',
      list(TEXT), BOUND)
def d02(chk, tier):
    l, f, b = depth(tier)
    explore(chk, l, f, b, lambda r: r in TEXT)


@prop('D03', HOW + 'Structure: each mark opens or closes its innermost element, indentation and quoting depth are nesting, blank lines end blocks.',
      ['everything not in D01 and D02'], BOUND)
def d03(chk, tier):
    l, f, b = depth(tier)
    explore(chk, l, f, b, lambda r: r not in WELL[1:] and r not in TEXT[1:])
