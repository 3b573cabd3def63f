"""Macros: positions, analyses, tables of contents, and the settings of wrapped formatters."""
import itertools
import re
import urllib.parse

import drive
import rx
from absint import Cls, DictO, Ext, Lin, ListO, Raised, Ref, St, Term, Tup, AnalysisError, isint
from props import prop
import props_doc
from props_doc import Doc, Sink, read_html, squeeze, unescape, OPAQUE, GID

MACRO = 'bglib.doc.macro'
ROWTAG = re.compile(r'<(/?)(table|tr|th|td)\b([^<>]*)>')
ATTRS = re.compile(r'([a-zA-Z]+)="([^"<>]*)"')


def text_of(E, st, v):
    """Like props_doc.flat, but unknown values show their name."""
    v = E.norm(st, v)
    if isinstance(v, str):
        return v
    if isinstance(v, Term) and v.op == 'cat':
        return ''.join(text_of(E, st, x) for x in v.args)
    if isinstance(v, Term) and v.op.startswith('fmt1:'):
        return '{%s %s}' % (v.op[5:], text_of(E, st, v.args[0]).strip('{}'))
    if isinstance(v, Term) and v.op == 'str':
        return text_of(E, st, v.args[0])
    if isinstance(v, Term) and v.op in ('float', 'word'):
        return '{%s}' % v.args[0]
    if isinstance(v, Lin) or isinstance(v, Term) and v.op == 'sym':
        return '{%s}' % (v,)
    if isinstance(v, Term):
        return OPAQUE
    if isint(v):
        return str(v)
    raise AnalysisError('document text is %r' % (v,))


def tables(html):
    """[(attrs, [(attrs, [(tag, attrs, text)])])] of an HTML fragment without nested tables."""
    out, pos = [], 0
    cell = None
    for m in ROWTAG.finditer(html):
        close, tag, at = m.groups()
        at = dict(ATTRS.findall(at))
        if close:
            if tag in ('td', 'th') and cell is not None:
                if out and out[-1][1]:
                    out[-1][1][-1][1].append((cell[0], cell[1], re.sub('<[^<>]*>', '', html[cell[2]:m.start()]).strip()))
                cell = None
        elif tag == 'table':
            out.append((at, []))
        elif tag == 'tr':
            if not out:
                out.append(({}, []))
            out[-1][1].append((at, []))
        else:
            cell = (tag, at, m.end())
    return out


def widths(rows):
    """Number of columns of every row, counting the cells that reach into it."""
    reach = {}
    out = []
    for i, (at, cells) in enumerate(rows):
        w = reach.get(i, 0)
        for tag, a, t in cells:
            c, r = int(a.get('colspan', 1)), int(a.get('rowspan', 1))
            w += c
            for k in range(1, r):
                reach[i + k] = reach.get(i + k, 0) + c
        out.append(w)
    return out


class Run(object):
    def __init__(self, chk):
        self.chk = chk
        self.D = Doc()
        self.E = self.D.E
        self.obl = 0
        self.fns = set()
        if not isinstance(self.E.resolve(MACRO + '.dispatch'), object):
            raise AnalysisError('dispatch is gone')

    def where(self, q):
        try:
            return drive.describe(self.E, self.E.resolve(q), q)
        except AnalysisError:
            return q

    def ok(self, cond, rule, q, doc, detail):
        self.obl += 1
        if not cond:
            self.chk.violation(rule, q, self.where(q), 'document %r: %s' % (self.D.part.rep(doc), self.D.part.rep(str(detail))))

    def html(self, doc, q, st=None):
        """HTML of a document, in every case."""
        D, E = self.D, self.E
        sts = [st or D.st0]
        out = []
        for line in doc.split('\n'):
            nxt = []
            for s in sts:
                for s1, r in D.parse(s, line):
                    if isinstance(r, Raised):
                        self.ok(False, 'no-exception', q, doc, '%s in %s' % (drive.excname(E, s1, r), r))
                    else:
                        nxt.append(s1)
                self.fns |= set(map(str, E.seen_fns))
            sts = nxt
        for s in sts:
            E.seen_fns = {}
            for s1, r in D.render(s):
                if isinstance(r, Raised):
                    self.ok(False, 'no-exception', q, doc, 'rendering: ' + drive.excname(E, s1, r))
                    continue
                h = text_of(E, s1, r)
                for b in read_html(h)[0]:
                    self.ok(False, b[0], q, doc, b[1])
                out.append((s1, h))
            self.fns |= set(map(str, E.seen_fns))
        self.obl += 1
        return out

    def done(self, need):
        self.chk.count('obligations', self.obl)
        self.chk.functions = getattr(self.chk, 'functions', set()) | {f for f in self.fns if f.startswith('bglib')}
        self.chk.cover['functions_interpreted'] = len(self.chk.functions)
        if self.obl < need and not self.chk.viol:
            raise AnalysisError('only %d obligations' % self.obl)


def positions(R):
    q = MACRO + '.Position'
    n = 0
    for subset in itertools.product((0, 1), repeat=4):
        for sp in ('', ' ', '  '):
            opts = [('css', 'safari'), ('format', 'jpeg'), ('width', '1234'), ('height', '56')]
            src = GID + ''.join(',%s%s=%s' % (sp, k, v) for (k, v), on in zip(opts, subset) if on)
            want = {'gnubgid': [GID], 'css': ['minimal'], 'format': ['png'], 'width': ['400'], 'height': ['300']}
            want.update({k: [v] for (k, v), on in zip(opts, subset) if on})
            doc = '[[Position(%s)]]' % src
            for s, h in R.html(doc, q):
                tags = [t for t in read_html(h)[2] if t[0] == 'img']
                ok = len(tags) == 1 and tags[0][1].get('src', '').startswith('/image?')
                R.ok(ok, 'one-image', q, doc, h)
                if ok:
                    got = urllib.parse.parse_qs(tags[0][1]['src'][7:])
                    R.ok(got == want, 'image-of-the-position', q, doc, got)
                    R.ok(tags[0][2][-1:] == ('span',), 'image-in-a-span', q, doc, tags)
                    n += 1
    # any identifier
    z, Z, d = R.D.part.char('z', 1), R.D.part.char('Z', 2), R.D.part.char('2', 3)
    gid = ''.join((z, Z, d, '/', '+')[i % 5] for i in range(14)) + ':' + ''.join((z, d, '+', Z, '/')[i % 5] for i in range(12))
    for s, h in R.html('[[Position(%s)]]' % gid, q):
        tags = [t for t in read_html(h)[2] if t[0] == 'img']
        want = 'gnubgid=' + ''.join(OPAQUE if rx.ispua(c) else '%%%02X' % ord(c) for c in gid)
        R.ok(len(tags) == 1 and want in tags[0][1].get('src', '').replace('?', '&').split('&'), 'image-of-the-position', q, gid, tags)
    R.chk.count('positions', n)


NUM = ('Win', 'WinG', 'WinBg', 'Lose', 'LoseG', 'LoseBg')


DIFFS = (-2.5, -0.25, 0.0, 0.125, 1.0)


def num(name):
    return Term('float', name)


def analyses(R):
    E, D = R.E, R.D
    q = MACRO + '.Analysis'
    rows = {}

    def dicto(st, d):
        return E.new(st, DictO(dict(d)))

    asked = []

    def get_analysis(E, st, o, args, kw, fr, n):
        asked.append(tuple(E.norm(st, a) for a in args))
        items = []
        for r in rows['rows']:
            st, ref = dicto(st, r)
            items.append(ref)
        return [(st, Tup((rows['cube'], Tup(tuple(items)))))]
    E.methhooks['get_analysis'] = get_analysis
    f = E.resolve(MACRO + '.setup')
    outs = E.call(D.st0, f, [Term('db')], {}, D.fr, None)
    if len(outs) != 1 or isinstance(outs[0][1], Raised):
        raise AnalysisError('macro.setup')
    st0 = outs[0][0]
    put = [e for e in st0.events if e[0] == 'setglobal' and e[1] == MACRO]
    R.ok([e[3] for e in put] == [Term('db')], 'database-is-kept', MACRO + '.setup', 'macro.setup(db)', put)
    if not put:
        return
    ns = E.load(MACRO)
    old = ns.get(put[0][2])
    ns[put[0][2]] = Term('db')
    doc = '[[Analysis(%s)]]' % GID

    def common(kind, t, hrows, drows, n):
        R.ok(t[0].get('class') == kind, 'table-class', q, doc, t[0])
        w = widths(t[1])
        R.ok(len(set(w)) == 1, 'rows-have-the-same-columns', q, doc, '%s: %s' % (kind, w))
        R.ok(len(t[1]) == hrows + drows * n, 'one-row-per-alternative', q, doc, '%s: %d rows' % (kind, len(t[1])))

    # moves
    for n in (0, 1, 2, 3):
        for acts in ([()] if n == 0 else [tuple(i == k for i in range(n)) for k in range(-1, n)]):
            for diffs in itertools.product((None, 'diff') + (DIFFS if n == 1 else ()), repeat=n) if n < 3 else [(None, 'diff', 'diff'), (-0.25, 0.0, 0.125)]:
                rows['cube'] = False
                rows['rows'] = []
                for i in range(n):
                    r = {'nth': i + 1, 'move': '{move%d}' % i, 'ply': E.sym('ply%d' % i), 'equity': num('equity%d' % i),
                         'diff': num('diff%d' % i) if diffs[i] == 'diff' else diffs[i], 'actual': acts[i]}
                    for k in NUM:
                        r[k] = num('%s%d' % (k, i))
                    rows['rows'].append(r)
                del asked[:]
                full = 0
                outs = R.html(doc, q, st0)
                for s, h in outs:
                    R.ok(asked and all(a == (GID[:14], GID[15:]) for a in asked), 'analysis-of-the-position', q, doc, asked)
                    ts = tables(h)
                    R.ok(len(ts) == 1, 'one-table', q, doc, len(ts))
                    if len(ts) != 1:
                        continue
                    t = ts[0]
                    common('move', t, 2, 2, n)
                    if len(t[1]) != 2 + 2 * n or any(len(x[1]) < 4 for x in t[1]):
                        continue
                    head = [c[2] for c in t[1][1][1]]
                    R.ok([squeeze(c[2]) for c in t[1][0][1]] == ['#', 'move', 'Ply', 'Eq.(diff)'], 'column-titles', q, doc, t[1][0])
                    R.ok(sorted(head) == sorted(NUM), 'column-titles', q, doc, head)
                    for i in range(n):
                        a, b = t[1][2 + 2 * i], t[1][3 + 2 * i]
                        kl = 'actualrow' if acts[i] else ('evenrow', 'oddrow')[(i + 1) % 2]
                        R.ok(a[0].get('class') == kl and b[0].get('class') == kl, 'row-class', q, doc, (a[0], b[0], kl))
                        ca = [c[2] for c in a[1]]
                        cb = [c[2] for c in b[1]]
                        R.ok(ca[:3] == ['%d' % (i + 1), '{move%d}' % i, '{ply%d}' % i], 'value-in-its-column', q, doc, ca)
                        eq = '{%%+1.3f equity%d}' % i
                        df = '({%%+1.3f diff%d})' % i if diffs[i] == 'diff' else '(%+1.3f)' % (diffs[i] or 0.0)
                        R.ok(squeeze(ca[3]) in (squeeze(eq), squeeze(eq + df)) and (diffs[i] or squeeze(ca[3]) == squeeze(eq)),
                             'value-in-its-column', q, doc, ca)
                        full += diffs[i] == 'diff' and squeeze(ca[3]) == squeeze(eq + df)
                        R.ok(diffs[i] in (None, 'diff', 0.0) or squeeze(ca[3]) == squeeze(eq + df), 'difference-is-shown', q, doc, ca[3])
                        R.ok(len(cb) == 6 and all(cb[head.index(k)] == '{%%2.1f %s%d}' % (k, i) for k in NUM if k in head),
                             'value-in-its-column', q, doc, cb)
                R.ok(full >= sum(d == 'diff' for d in diffs), 'difference-is-shown', q, doc, (full, diffs))
    # cube actions
    strings = E.resolve('bglib.model.constants.CUBEACTION_STRINGS')
    types = E.resolve('bglib.model.constants.CUBEACTION_TYPES')
    strings, types = [list(x.items) for x in (strings, types)]
    for n in (0, 1, 2, 3):
        for actions in ([tuple(types[i] for i in range(n))] if n != 1 else [(a,) for a in types]):
            for act in range(-1, n):
                for diff in (None, 'diff') + (DIFFS if n == 1 else ()):
                    rows['cube'] = True
                    c = {'ply': E.sym('ply'), 'cubeless': num('cubeless'), 'money': num('money')}
                    for k in NUM:
                        c[k] = num(k)
                    rows['rows'] = [c]
                    for i in range(n):
                        rows['rows'].append({'nth': i + 1, 'action': actions[i], 'equity': num('equity%d' % i),
                                             'diff': num('diff%d' % i) if diff == 'diff' else diff, 'actual': act == i})
                    full = 0
                    for s, h in R.html(doc, q, st0):
                        ts = tables(h)
                        R.ok(len(ts) == 2, 'one-table', q, doc, len(ts))
                        if len(ts) != 2:
                            continue
                        common('cubeless', ts[0], 4, 0, 0)
                        common('cubeaction', ts[1], 1, 1, n)
                        r = ts[0][1]
                        if len(r) == 4 and len(r[1][1]) == 6 and len(r[3][1]) == 6 and len(r[2][1]) == 2:
                            head = [x[2] for x in r[1][1]]
                            R.ok(sorted(head) == sorted(NUM), 'column-titles', q, doc, head)
                            R.ok(all(r[3][1][head.index(k)][2] == '{%%2.1f %s}' % k for k in NUM if k in head), 'value-in-its-column', q, doc, r[3])
                            R.ok(r[2][1][0][2] == '{ply}' and squeeze(r[2][1][1][2]) == squeeze('{%+1.3f cubeless} (Money {%+1.3f money})'),
                                 'value-in-its-column', q, doc, r[2])
                        else:
                            R.ok(False, 'column-titles', q, doc, r)
                        for i, row in enumerate(ts[1][1][1:]):
                            kl = 'actualrow' if act == i else ('evenrow', 'oddrow')[(i + 1) % 2]
                            R.ok(row[0].get('class') == kl, 'row-class', q, doc, (row[0], kl))
                            cs = [x[2] for x in row[1]]
                            R.ok(len(cs) == 4 and cs[:3] == ['%d' % (i + 1), strings[actions[i]], '{%%+1.3f equity%d}' % i]
                                 and (cs[3] == '' and diff in (None, 'diff', 0.0) or
                                      cs[3] == ('{%%+1.3f diff%d}' % i if diff == 'diff' else '%+1.3f' % (diff or 0.0)) and diff is not None),
                                 'value-in-its-column', q, doc, cs)
                            full += bool(diff) and cs[3:] != ['']
                    R.ok(full >= n or not diff, 'difference-is-shown', q, doc, full)
    del E.methhooks['get_analysis']
    ns[put[0][2]] = old


ANCH = re.compile(r'<a\s+href="([^"]*)"\s*>(.*?)</a>', re.S)
HEAD = re.compile(r'<h([123])((?:\s+[a-z]+="[^"]*")*)\s*>(.*?)</h\1>', re.S)


def contents(R):
    q = MACRO + '.TableOfContent'
    p = R.D.part
    z, y, Z = p.char('z', 1), p.char('z', 2), p.char('Z', 3)
    texts = [lambda i: p.char('z', 4 + i) + ' ' + y, lambda i: p.char('z', 4 + i) + "'''" + y + "'''" + z,
             lambda i: '%s%s%s%s' % (Z, p.char('z', 4 + i), Z, y), lambda i: p.char('z', 4 + i) + '<&"' + y]
    n = 0
    for k in (0, 1, 2, 3):
        for levels in itertools.product((1, 2, 3), repeat=k):
            for at in range(k + 1) if k < 3 else (0, 2):
                for tx in range(len(texts)) if k < 3 else (0,):
                    lines = ['%s %s %s' % ('=' * l, texts[(tx + i) % 4](i), '=' * l) for i, l in enumerate(levels)]
                    lines[at:at] = ['[[TableOfContent]]']
                    doc = '\n\n'.join(lines)
                    for s, h in R.html(doc, q):
                        n += 1
                        tags = read_html(h)[2]
                        li = [i for i, t in enumerate(tags) if t[0] == 'li']
                        anch = [m for m in ANCH.finditer(h) if m.group(1).startswith('#')]
                        heads = [(int(m.group(1)), dict(ATTRS.findall(m.group(2))), squeeze(re.sub('<[^<>]*>', '', m.group(3)))) for m in HEAD.finditer(h)]
                        R.ok(len(heads) == k, 'headings', q, doc, h)
                        R.ok(len(anch) == k, 'every-heading-is-listed', q, doc, [m.group(1) for m in anch])
                        R.ok([m.group(1) for m in anch] == ['#' + str(a.get('id')) for l, a, t in heads] and
                             len({a.get('id') for l, a, t in heads}) == k, 'entry-leads-to-its-heading', q, doc,
                             ([m.group(1) for m in anch], [a for l, a, t in heads]))
                        R.ok([squeeze(re.sub('<[^<>]*>', '', m.group(2))) for m in anch] == [t for l, a, t in heads], 'entry-has-the-text-of-its-heading',
                             q, doc, h)
                        depth = [t[2].count('ol') + t[2].count('ul') for t in tags if t[0] == 'a' and t[1].get('href', '').startswith('#')]
                        R.ok(depth == list(levels), 'entry-is-nested-as-its-heading', q, doc, depth)
    R.chk.count('tables_of_content', n)
    # every kind of heading has its place
    hd = R.E.resolve('bglib.doc.doctree.HeadingElement')
    visitor = R.E.resolve(MACRO + '.TocVisitor')
    return n


def registry(R):
    """A registered macro answers to its name, and no longer when it is unregistered."""
    E, D, fr = R.E, R.D, R.D.fr
    q = MACRO + '.unregister'
    br = E.resolve(MACRO + '.BR')
    z = D.part.char('z', 1)

    def dispatch(st, name):
        out = []
        ed = D.editor(st)
        for s, r in E.call(st, E.resolve(MACRO + '.dispatch'), [ed, name, None], {}, fr, None):
            if isinstance(r, Raised):
                R.ok(False, 'no-exception', q, name, drive.excname(E, s, r))
                continue
            for s1, h in D.render(s):
                out.append(text_of(E, s1, h))
        return out
    for h in dispatch(D.st0, 'BR'):
        R.ok('<br' in h and 'No such macro' not in h, 'registered-macro-answers', MACRO + '.register', 'BR', h)
    for s, r in E.call(D.st0, E.resolve(q), ['BR', br], {}, fr, None):
        R.ok(not isinstance(r, Raised), 'no-exception', q, 'unregister(BR)', r)
        for h in dispatch(s, 'BR') if not isinstance(r, Raised) else ():
            R.ok('<br' not in h and 'No such macro' in h, 'unregistered-macro-is-unknown', q, 'BR', h)
        for h in dispatch(s, 'Timestamp') if not isinstance(r, Raised) else ():
            R.ok('No such macro' not in h, 'registered-macro-answers', q, 'Timestamp', h)


@prop('D04', 'Abstract interpretation of the document modules on every kind of macro call; unknown arguments and database values.',
      ['one image with exactly the given or default parameters', 'every analysis value in its own column and row', 'rows span the same columns',
       'table of contents: every heading, in order, with a link that resolves'],
      ['A database answers get_analysis with the rows the macro asserts.'])
def d04(chk, tier):
    R = Run(chk)
    positions(R)
    analyses(R)
    contents(R)
    registry(R)
    R.done(300)


# ------------------------------------------------------------------ wrapped formatters
def calls_to(st, what):
    """Recorded calls of an external function: [(positional, keyword)]."""
    out = []
    for e in st.events:
        if e[0] == 'callext' and e[1] == what:
            out.append((e[2], dict(e[3])))
        elif e[0] == 'callterm' and isinstance(e[1], Term) and e[1].op == 'attr' and e[1].args[1] == what:
            out.append((e[2], dict(e[3])))
    return out


def mapping(v):
    """A constant dictionary as recorded in an event."""
    if isinstance(v, Term) and v.op == 'dict':
        return {t.items[0]: t.items[1] for t in v.args if isinstance(t, Tup) and len(t.items) == 2}
    return None


def setting(kw, name):
    m = mapping(kw.get('settings_overrides'))
    return None if m is None else m.get(name)


def call(E, s, ref, name, args, fr):
    out = []
    for s1, f in E.getattr(s, ref, name, fr, None):
        out.extend(E.call(s1, f, args, {}, fr, None))
    return out


def wrapped(R):
    E, D, fr = R.E, R.D, R.D.fr
    E.record_ext = True
    a, b = 'text & <one>\n', 'text two\n'
    for mod in ('rst', 'mkdn'):
        q = 'bglib.doc.%s.Formatter' % mod
        f = E.resolve(q)
        if not isinstance(f, Cls):
            raise AnalysisError('%s is gone' % q)
        E.seen_fns = {}
        sts = E.call(St({}, {}, {}), f, [], {}, fr, None)
        n = 0
        for s, ref in sts:
            if isinstance(ref, Raised):
                R.ok(False, 'no-exception', q, 'Formatter()', drive.excname(E, s, ref))
                continue
            cur = [s]
            for t in (a, b):
                cur = [s2 for s1 in cur for s2, r in call(E, s1, ref, 'parse', [t], fr)]
            for again in (1, 2):
                nxt = []
                for s1 in cur:
                    for s2, r in call(E, s1, ref, 'make_html', [], fr):
                        nxt.append(s2)
                        if mod == 'rst':
                            c = calls_to(s2, 'docutils.core.publish_parts')
                            R.ok(len(c) == again, 'rendered-once', q, a + b, len(c))
                            if c:
                                ar, kw = c[-1]
                                src = kw.get('source', ar[0] if ar else None)
                                R.ok(src == a + b, 'whole-text-is-rendered', q, a + b, src)
                                for k in ('file_insertion_enabled', 'raw_enabled'):
                                    v = setting(kw, k)
                                    R.ok(v is not None and v in (0, False, ''), 'readers-files-stay-closed' if k[0] == 'f' else 'raw-html-is-refused', q, a + b,
                                         '%s=%r' % (k, v))
                                R.ok(kw.get('writer_name', ar[5] if len(ar) > 5 else None) in ('html', 'html4css1'), 'writes-html', q, a + b, kw.get('writer_name'))
                                R.ok('html_body' in repr(r), 'body-is-returned', q, a + b, r)
                        else:
                            m = calls_to(s2, 'markdown.Markdown')
                            R.ok(len(m) >= 1, 'rendered-once', q, a + b, m)
                            for ar, kw in m:
                                v = kw.get('safe_mode', ar[2] if len(ar) > 2 else None)
                                R.ok(v in ('escape', 'replace', 'remove', True, 1), 'raw-html-is-refused', q, a + b, 'safe_mode=%r' % (v,))
                            c = calls_to(s2, 'convert')
                            R.ok(c and c[-1][0] == (a + b,) and len(c) == again, 'whole-text-is-rendered', q, a + b, c)
                            R.ok('convert' in repr(r), 'body-is-returned', q, a + b, r)
                        n += 1
                cur = nxt
        if n < 2:
            raise AnalysisError('%s never rendered' % q)
        R.fns |= set(map(str, E.seen_fns))
    # inside a wiki page
    q = 'bglib.doc.bgwiki.WrappingFormatterElement'
    z = D.part.char('z', 1)
    body = [z + ' <b>', '', '* ' + z]
    ends = []
    for k in D.part.classes:
        c = D.part.char(k[0], 2)
        ends += [c, c + z, z + c]
    bodies = [body, ends, [''] + ends[::-1] + ['', ''], ['#!' + z], [z, '#!rst', '#!preformat'], ['#!rst '], ['   ', '\t', z], ['{{{', z], ['}}} ', ' }}}', '}}}' + z]]
    for name, kind, body in [(n, k, x) for n, k in (('rst', 'rst'), ('preformat', None), (z + z, None), (None, None)) for x in bodies]:
        if name is None and body[0].startswith('#!') and not body[0].endswith(' '):
            continue
        doc = '\n'.join(['{{{'] + (['#!' + name] if name else []) + body + ['}}}', z])
        for s, h in R.html(doc, q):
            c = calls_to(s, 'docutils.core.publish_parts')
            if kind == 'rst':
                R.ok(c and c[-1][1].get('source', c[-1][0][0] if c[-1][0] else None) == '\n'.join(body) + '\n', 'wrapped-text-is-complete', q, doc, c)
                for ar, kw in c:
                    R.ok(setting(kw, 'raw_enabled') in (0, False) and setting(kw, 'file_insertion_enabled') in (0, False), 'raw-html-is-refused', q, doc, kw)
            else:
                R.ok(not c and '\n'.join(body) in unescape(h), 'wrapped-text-is-complete', q, doc, h)
    E.record_ext = False


@prop('D05', 'Abstract interpretation of the formatters that wrap docutils and markdown; every call of the wrapped library is recorded with its abstract arguments.',
      ['raw html refused or escaped', 'no file inclusion', 'the whole text is rendered, once per rendering'],
      ['docutils and markdown honour their settings.'])
def d05(chk, tier):
    R = Run(chk)
    wrapped(R)
    R.done(20)
