"""Pictures: element trees, style sheets, drawing."""
import os

import drive
from absint import Engine, AnalysisError
from props import driver, prop

HOW = 'Abstract interpretation of the parsed sources over unknown inputs; obligations stated in drivers/. '


@prop('I01', HOW + 'ElementTree is built from boards with unknown numbers of chequers, every combination of the attributes that say what is going on, unknown dice, scores and cube.',
      ['every chequer is shown once, where it is', 'the cube is shown once, where it is', 'dice on the side of who rolled', 'an offered resignation is shown', 'length, scores and Crawford are shown',
       'the action names the player who is to act', 'trees share nothing'], ['States of the game: a cube is offered before the roll only.'])
def i01(chk, tier):
    driver(chk, 'image_tree.py', need=200, must_see=('bglib.image.base.ElementTree.set', 'bglib.image.base.ElementTree.create_tree'))


@prop('I02', HOW + 'Selectors of which nothing is known but whether they match; elements with unknown attributes; every attribute type.',
      ['a selector selects exactly what it describes', 'a rule applies to an element exactly when its selectors match the element and its ancestors in order', 'every element sees every rule in order',
       'an attribute gets the typed value of the last rule', 'inheritance from the nearest ancestor, then the default', 'values of the wrong type are refused', 'elements hold only what the document type allows', 'the rules of a file are read in order and the file is closed'],
      ['Rules of up to three selectors, paths of up to four elements.', 'Lines of style sheets in the forms the shipped themes use.'])
def i02(chk, tier):
    E = Engine()

    def setup(E, D):
        concrete_re(E)
        E.stub('sheetfile', os.path.join(drive.DRV, 'stubs', 'sheetfile.py'))
        E.exthooks['file'] = E.exthooks['open'] = lambda E, st, a, kw, fr, n: E.call(st, E.resolve('sheetfile.opened'), a, kw, fr, n)
    setup(E, None)
    driver(chk, 'css.py', need=200, E=E, setup=setup, must_see=('bglib.image.css.Rule.is_match', 'bglib.image.base.BaseElement.__getattr__'))


def concrete_re(E):
    """Regular expressions of constants on constants."""
    import re
    import absbuiltins
    import os
    from absint import BUILTINS, Builtin, Cls, Inst, Ref, AnalysisError, DictO, Tup, PYEXC, Raised
    RX = Cls('CompiledPattern', 're', (), {}, None, True)
    MT = Cls('Match', 're', (), {}, None, True)

    def const(st, v):
        v = E.norm(st, v)
        if not isinstance(v, str):
            raise AnalysisError('regular expression on an unknown text')
        return v

    def mk(st, m):
        if m is None:
            return [(st, None)]
        s, r = E.new(st, Inst(MT, {'m': m, 'lastgroup': m.lastgroup}))
        return [(s, r)]

    def pat(st, p, flags=0):
        p = E.norm(st, p)
        if isinstance(p, Ref):
            return E.obj(st, p).attrs['pattern']
        return re.compile(p, flags)

    def flag(a):
        f = 0
        for x in a:
            n = getattr(x, 'path', None)
            f |= {'re.VERBOSE': re.X, 're.X': re.X, 're.UNICODE': re.U, 're.U': re.U, 're.IGNORECASE': re.I, 're.I': re.I, 're.MULTILINE': re.M, 're.DOTALL': re.S}.get(n, 0) if n else int(x)
        return f

    def op(what, compiled):
        def h(E, st, a, kw, fr, n):
            r = pat(st, a[0], 0 if compiled else flag(a[2:]))
            return mk(st, getattr(r, what)(const(st, a[1])))
        return h
    for what in ('match', 'search'):
        E.exthooks['re.' + what] = op(what, False)
        nm = 'rxc.' + what
        RX.attrs[what] = BUILTINS[nm] = Builtin(nm)
        setattr(absbuiltins, 'b_rxc_' + what, op(what, True))

    from absint import ListO

    def listing(compiled):
        def h(E, st, a, kw, fr, n):
            r = pat(st, a[0], 0 if compiled else flag(a[2:]))
            s, l = E.new(st, ListO([Tup(x) if isinstance(x, tuple) else x for x in r.findall(const(st, a[1]))]))
            return [(s, l)]
        return h
    E.exthooks['re.findall'] = listing(False)
    RX.attrs['findall'] = BUILTINS['rxc.findall'] = Builtin('rxc.findall')
    absbuiltins.b_rxc_findall = listing(True)

    def place(what):
        return lambda E, st, a, kw, fr, n: [(st, getattr(E.obj(st, a[0]).attrs['m'], what)(*[E.norm(st, x) for x in a[1:]]))]
    for what in ('start', 'end'):
        MT.attrs[what] = BUILTINS['rxc.' + what] = Builtin('rxc.' + what)
        setattr(absbuiltins, 'b_rxc_' + what, place(what))

    def comp(E, st, a, kw, fr, n):
        s, r = E.new(st, Inst(RX, {'pattern': pat(st, a[0], flag(a[1:]))}))
        return [(s, r)]
    E.exthooks['re.compile'] = comp

    def group(E, st, a, kw, fr, n):
        m = E.obj(st, a[0]).attrs['m']
        try:
            r = m.group(*[E.norm(st, x) for x in a[1:]])
        except IndexError:
            return [(st, Raised(PYEXC['IndexError'], n, fr))]
        return [(st, Tup(r) if isinstance(r, tuple) else r)]
    MT.attrs['group'] = BUILTINS['rxc.group'] = Builtin('rxc.group')
    absbuiltins.b_rxc_group = group

    def groupdict(E, st, a, kw, fr, n):
        s, r = E.new(st, DictO(dict(E.obj(st, a[0]).attrs['m'].groupdict())))
        return [(s, r)]
    MT.attrs['groupdict'] = BUILTINS['rxc.groupdict'] = Builtin('rxc.groupdict')
    absbuiltins.b_rxc_groupdict = groupdict
    E.exthooks['os.path.dirname'] = lambda E, st, a, kw, fr, n: [(st, os.path.dirname(a[0]))] if isinstance(a[0], str) else [(st, Raised(PYEXC['AttributeError'], n, fr))]
    E.exthooks['os.path.join'] = lambda E, st, a, kw, fr, n: [(st, os.path.join(*a))] if all(isinstance(x, str) for x in a) else None


def realnumbers(E, D):
    """Lengths are scaled by an unknown factor; REAL compares up to rounding."""
    import absbuiltins
    import alg
    from absint import BUILTINS, Builtin, Term
    BUILTINS['REAL'] = Builtin('drv.REAL')
    BUILTINS['MAG'] = Builtin('drv.MAG')
    absbuiltins.b_drv_MAG = lambda E, st, a, kw, fr, n: [(st, Term('float', Term('mag'), kind='float'))]
    absbuiltins.b_drv_REAL = lambda E, st, a, kw, fr, n: [(st, alg.equal_up_to_rounding(E.val(st, a[0]), E.val(st, a[1]), lambda v: E.norm(st, v)))]


@prop('I03', HOW + 'Every kind of element is drawn with a recording context, with unknown places, sizes, scale, texts, images and fonts.',
      ['a die shows as many eyes as it has, apart and symmetric', 'a cube shows its value', 'as many chequers are shown as there are, or their number', 'texts are the values', 'everything is at its place and size',
       'drawing leaves elements alone'], ['Places are compared up to the rounding of divisions.', 'Up to five chequers.'])
def i03(chk, tier):
    driver(chk, 'drawing.py', need=200, setup=realnumbers, must_see=('bglib.image.base.Die.draw', 'bglib.image.base.Chequer.draw'))


def rounding(E, D):
    import absbuiltins
    import alg
    from absint import BUILTINS, Builtin
    E.realorder = alg.order(E)
    BUILTINS['SAMEREAL'] = Builtin('drv.SAMEREAL')
    absbuiltins.b_drv_SAMEREAL = lambda E, st, a, kw, fr, n: [(st, alg.equal(E.val(st, a[0]), E.val(st, a[1]), lambda v: E.norm(st, v)))]


@prop('I04', HOW + 'Whole boards are drawn on recording canvases; the imaging library is represented by its contract, the metrics of fonts are unknown.',
      ['a drawing fits its bounds, rounding included', 'every element is drawn once, after the one that contains it, its background first', 'every drawing starts with a fresh canvas',
       'images and fonts are those asked for whatever was used before', 'shapes and texts are where they are told, texts as large as they fit'],
      ['Image, ImageDraw and ImageFont keep the contracts of drivers/stubs.', 'Places of texts of up to eleven pixels in height.'])
def i04(chk, tier):
    driver(chk, 'canvas.py', need=40, setup=rounding, must_see=('bglib.image.base.Board.set_mag', 'bglib.image.draw.Draw.draw'))
    E = Engine()
    E.split_loops = 8

    def setup(E, D):
        for x in ('Image', 'ImageDraw', 'ImageFont'):
            E.stub(x, os.path.join(drive.DRV, 'stubs', x + '.py'))
    driver(chk, 'pil.py', need=60, E=E, setup=setup, must_see=('bglib.image.PIL.Draw.draw_text', 'bglib.image.PIL.Draw.load_image'))


def themes(E, D):
    """The style sheets of the library, and what files there are."""
    import absbuiltins
    import glob
    from absint import BUILTINS, Builtin, Cls, Inst, ListO, Tup
    concrete_re(E)
    root = os.path.join(E.repo, 'bglib', 'image', 'resource')
    names = sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(os.path.join(root, '*', 'default.css')))
    BUILTINS['THEMES'] = Tup(tuple(names))
    FILE = Cls('TextFile', 'file', (), {}, None, True)

    def opened(E, st, a, kw, fr, n):
        s, r = E.new(st, Inst(FILE, {'path': a[0], 'closed': False}))
        return [(s, r)]
    E.exthooks['file'] = E.exthooks['open'] = opened

    def lines(E, st, a, kw, fr, n):
        with open(E.obj(st, a[0]).attrs['path'], encoding='latin-1') as f:
            return [E.new(st, ListO(f.readlines()))]

    def prim(name, fn):
        BUILTINS[name] = Builtin('drv.' + name)
        setattr(absbuiltins, 'b_drv_' + name, fn)
    prim('FILE', lambda E, st, a, kw, fr, n: [(st, os.path.join(root, a[0], 'default.css'))])
    prim('EXISTS', lambda E, st, a, kw, fr, n: [(st, isinstance(a[0], str) and os.path.isfile(a[0]))])
    prim('NAME', lambda E, st, a, kw, fr, n: [(st, os.path.relpath(a[0], root) if isinstance(a[0], str) else repr(a[0]))])
    for nm, fn in (('readlines', lines), ('close', lambda E, st, a, kw, fr, n: [(st, None)])):
        FILE.attrs[nm] = BUILTINS['rxfile.' + nm] = Builtin('rxfile.' + nm)
        setattr(absbuiltins, 'b_rxfile_' + nm, fn)


@prop('I05', HOW + 'The style sheets of the library are applied to boards with every number of chequers, every die, cube, score and resignation, and what is drawn is compared.',
      ['every part has a place on the board', 'the files a theme names are there', 'chequers, dice, cubes, resignations and scores are shown', 'different values look different', 'players look different'],
      ['What pictures and fonts look like is not looked at: different files are different pictures.', 'Chequers at home need not be shown, nor their number where a theme hides it.', 'Shown at a scale of one.'])
def i05(chk, tier):
    E = Engine()
    themes(E, None)
    driver(chk, 'themes.py', need=300, E=E, setup=themes, must_see=('bglib.image.css.load', 'bglib.image.base.Chequer.draw'))


def xmlparse(E, st, a, kw, fr, n):
    """XMLPARSE(text): ('ok', events, (root, url), encoding) or ('bad', why). Unknown pieces are numbers written out, never markup."""
    import re
    from absint import Tup, Term
    v = E.norm(st, a[0])
    parts = list(v.args) if isinstance(v, Term) and v.op == 'cat' else [v]
    holes, s = [], ''
    for x in parts:
        if isinstance(x, str):
            if '\ue000' in x:
                raise AnalysisError('private use character in a document')
            s += x
        else:
            while isinstance(x, Term) and x.op == 'str.replace' and isinstance(x.args[1], str) and x.args[1] and not set(x.args[1]) & set('-+.0123456789e'):
                x = x.args[0]
            if not (isinstance(x, Term) and x.op == 'str'):
                return [(st, Tup(('bad', 'a piece that is not known to be free of markup: %r' % (x,))))]
            s += '\ue000%d\ue001' % len(holes)
            holes.append(x)

    def back(t):
        t = re.sub(r'&(lt|gt|amp|quot|apos);', lambda m: {'lt': '<', 'gt': '>', 'amp': '\ue002', 'quot': '"', 'apos': "'"}[m.group(1)], t)
        if '&' in t:
            return None
        t = t.replace('\ue002', '&')
        out = [holes[int(x)] if i % 2 else x for i, x in enumerate(re.split('\ue000(\\d+)\ue001', t))]
        out = [x for x in out if x != '']
        return '' if not out else out[0] if len(out) == 1 else Term('cat', *out, kind='str')
    bad = lambda why: [(st, Tup(('bad', why)))]
    doctype = encoding = None
    m = re.match(r'\s*<\?xml version="1\.[01]"(?:\s+encoding="([A-Za-z0-9._-]+)")?\s*\?>', s)
    if m:
        if s[:1] != '<':
            return bad('the declaration is not at the start')
        encoding = m.group(1)
        s = s[m.end():]
    m = re.match(r'\s*<!DOCTYPE\s+(\w+)\s+SYSTEM\s+"([^"]*)"\s*>', s)
    if m:
        doctype = Tup((m.group(1), m.group(2)))
        s = s[m.end():]
    ev, stack, i, roots = [], [], 0, 0
    NAME = r'[A-Za-z_][A-Za-z0-9_.-]*'
    tok = re.compile(r'<(/?)(%s)((?:\s+%s\s*=\s*"[^"<]*")*)\s*(/?)>|([^<]+)' % (NAME, NAME))
    while i < len(s):
        m = tok.match(s, i)
        if not m:
            return bad('no markup: %s' % s[i:i + 40])
        i = m.end()
        if m.group(5) is not None:
            t = m.group(5)
            if ']]>' in t:
                return bad(']]> in a text')
            if not t.strip():
                continue
            if not stack:
                return bad('text outside: %s' % t[:40])
            u = back(t.strip())
            if u is None:
                return bad('a bare &: %s' % t[:40])
            ev.append(Tup(('text', u)))
        elif m.group(1):
            if not stack or stack.pop() != m.group(2):
                return bad('</%s> closes nothing' % m.group(2))
            ev.append(Tup(('close', m.group(2))))
        else:
            if not stack:
                roots += 1
            at = []
            for k, w in re.findall(r'(%s)\s*=\s*"([^"]*)"' % NAME, m.group(3)):
                u = back(w)
                if u is None:
                    return bad('a bare & in %s' % k)
                at.append(Tup((k, u)))
            if len(set(x.items[0] for x in at)) != len(at):
                return bad('an attribute twice: %s' % m.group(0)[:60])
            ev.append(Tup(('open', m.group(2), Tup(tuple(at)))))
            if m.group(4):
                ev.append(Tup(('close', m.group(2))))
            else:
                stack.append(m.group(2))
    if stack or roots != 1:
        return bad('%d roots, %d open at the end' % (roots, len(stack)))
    return [(st, Tup(('ok', Tup(tuple(ev)), doctype, encoding)))]


def dtdparse(E, st, a, kw, fr, n):
    """DTDPARSE(text): (((element, contents), ..), ((element, attributes), ..)), or ((), why)."""
    import re
    from absint import Tup
    s = E.norm(st, a[0])
    bad = lambda why: [(st, Tup((Tup(()), why)))]
    if not isinstance(s, str):
        return bad('unknown text')
    NAME = r'[A-Za-z_][A-Za-z0-9_.-]*'
    els, atts, i = [], [], 0
    while s[i:].strip():
        i += len(s[i:]) - len(s[i:].lstrip())
        m = re.compile(r'<!ELEMENT\s+(%s)\s+\(\s*([^()<>]*?)\s*\)\*\s*>' % NAME).match(s, i)
        k = re.compile(r'<!ATTLIST\s+(%s)((?:\s+%s\s+CDATA\s+#IMPLIED)*)\s*>' % (NAME, NAME)).match(s, i)
        if m:
            c = [x.strip() for x in m.group(2).split('|')]
            if any(x != '#PCDATA' and not re.match(NAME + '$', x) for x in c):
                return bad('contents: ' + m.group(0))
            els.append(Tup((m.group(1), Tup(tuple(c)))))
        elif k:
            atts.append(Tup((k.group(1), Tup(tuple(re.findall(r'(%s)\s+CDATA' % NAME, k.group(2)))))))
        else:
            return bad('no declaration: ' + s[i:i + 60])
        i = (m or k).end()
    return [(st, Tup((Tup(tuple(els)), Tup(tuple(atts)))))]


@prop('I06', HOW + 'The texts of the document and of the document type are read back by an XML reader that knows which pieces are written out numbers, and compared with the tree.',
      ['the document type is consistent', 'well formed', 'valid for the document type', 'all of the tree, in order, with all values', 'no value is taken for markup', 'the committed document type is the same'],
      ['Attribute values contain each of the characters special in XML in turn.'])
def i06(chk, tier):
    def setup(E, D):
        import absbuiltins
        from absint import BUILTINS, Builtin
        import front

        def dtdfile(E, st, a, kw, fr, n):
            try:
                with open(os.path.join(front.REPO, 'bglib/image/backgammon.dtd'), encoding='ascii') as f:
                    return [(st, f.read())]
            except OSError:
                raise AnalysisError('bglib/image/backgammon.dtd cannot be read')
        for k, f in (('XMLPARSE', xmlparse), ('DTDPARSE', dtdparse), ('DTDFILE', dtdfile)):
            BUILTINS[k] = Builtin('drv.' + k)
            setattr(absbuiltins, 'b_drv_' + k, f)
    driver(chk, 'xmltree.py', need=2000, setup=setup, must_see=('bglib.image.base.ElementTree.xml', 'bglib.image.base.ElementFactory.make_dtd'))


@prop('F04', HOW + 'Sentences of FIBS with names made of each class of characters FIBS allows and every number the classes of the patterns tell apart.',
      ['dice in order', 'the name', 'the taker', 'points', 'every part of a move: from, to, how far, hit'], ['Names of letters and underscores, as FIBS requires them.'])
def f04(chk, tier):
    E = Engine()
    concrete_re(E)
    driver(chk, 'fibs_reports.py', need=300, E=E, setup=lambda E, D: concrete_re(E), must_see=('bglib.encoding.FIBS.get_dice', 'bglib.encoding.FIBS.get_move'))
