"""The XML of a board: well formed, valid for the document type that goes with it, and the tree itself."""
from bglib.model.board import Board
from bglib.model.constants import (YOU, HIM, CENTER, ON_GOING, NOT_STARTED, RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON)
from bglib.image.base import ElementTree, BaseElement, Element

X = 'bglib.image.base.ElementTree.xml'
F = 'bglib.image.base.BaseElement.format'
S = 'bglib.image.base.BaseElement.__str__'
MD = 'bglib.image.base.ElementFactory.make_dtd'
FULL = (2, 0, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 5) + (0,) * 12
FEW = (0, 1, 0, 0, 0, 3) + (0,) * 18 + (2,)


def declared():
    """name -> (what it may contain, the attributes it may have), from the text of the document type."""
    elements, attlists = DTDPARSE(Element.make_dtd())
    return dict(elements), dict(attlists)


def check_dtd():
    elements, attlists = DTDPARSE(Element.make_dtd())
    CHECK(elements != (), 'the document type can be read', MD, attlists)
    names = [n for n, c in elements]
    for n, c in elements:
        CHECK(len([m for m in names if m == n]) == 1, 'every element is declared once', MD, n)
        CHECK('#PCDATA' not in c[1:], 'text comes first in mixed content', MD, n, c)
        CHECK(len(set(c)) == len(c), 'nothing is allowed twice', MD, n, c)
        for x in c:
            CHECK(x == '#PCDATA' or x in names, 'what is allowed is declared', MD, n, x)
    for n, c in attlists:
        CHECK(n in names, 'attributes of declared elements', MD, n)
        CHECK(len(set(c)) == len(c), 'no attribute twice', MD, n, c)
    for n in names:
        CHECK(len([m for m, c in attlists if m == n]) == 1, 'every element has its attributes', MD, n)
    els = dict(elements)
    for n in ('board', 'match', 'position', 'action', 'length', 'crawford', 'score', 'cubeholder', 'field', 'home', 'bar', 'point', 'cube', 'die', 'chequer', 'resign'):
        CHECK(n in names, 'every kind of element is declared', MD, n)
    for n in ('length', 'crawford', 'score', 'action', 'point', 'cube', 'die', 'chequer', 'resign'):
        CHECK('#PCDATA' in els[n], 'what has a text may have one', MD, n)


def check_file():
    """The document type that comes with the library says the same."""
    elements, attlists = DTDPARSE(Element.make_dtd())
    felements, fattlists = DTDPARSE(DTDFILE())
    where = 'bglib/image/backgammon.dtd'
    CHECK(felements != (), 'the committed document type is the same', where, fattlists)
    for mine, theirs in ((dict(elements), dict(felements)), (dict(attlists), dict(fattlists))):
        for n in mine:
            CHECK(n in theirs and sorted(theirs[n]) == sorted(mine[n]), 'the committed document type is the same', where, n)
        for n in theirs:
            CHECK(n in mine, 'the committed document type is the same', where, n)


def expected(e, out):
    out.append(('open', e.name, tuple([(n, str(v.get())) for n, v in e.attributes.items()])))
    for c in e.children:
        if isinstance(c, BaseElement):
            expected(c, out)
        else:
            out.append(('text', str(c)))
    out.append(('close', e.name))
    return out


def compare(got, tree, anchor):
    CHECK(got[0] != 'bad', 'well formed', anchor, got)
    if got[0] == 'bad':
        return
    events = [x for x in got[1]]
    want = expected(tree, [])
    CHECK(len(events) == len(want), 'all of the tree, nothing else', anchor, len(events), len(want))
    for g, w in zip(events, want):
        CHECK(g[0] == w[0], 'in the order of the tree', anchor, g, w)
        if g[0] != w[0]:
            return
        if g[0] == 'open':
            CHECK(g[1] == w[1], 'in the order of the tree', anchor, g, w)
            CHECK(sorted([n for n, v in g[2]]) == sorted([n for n, v in w[2]]), 'every attribute once', anchor, g, w)
            have = dict(w[2])
            for n, v in g[2]:
                CHECK(v == have[n], 'values are kept', anchor, g[1], n, v, have[n])
        else:
            CHECK(g[1] == w[1], 'values are kept' if g[0] == 'text' else 'in the order of the tree', anchor, g, w)


def valid(events, anchor):
    els, atts = declared()
    stack = []
    for e in events:
        if e[0] == 'open':
            CHECK(e[1] in els, 'only declared elements', anchor, e)
            if stack:
                CHECK(e[1] in els[stack[-1]], 'elements only where they are allowed', anchor, stack[-1], e[1])
            for n, v in e[2]:
                CHECK(n in atts[e[1]], 'only declared attributes', anchor, e[1], n)
            stack.append(e[1])
        elif e[0] == 'close':
            stack.pop()
        else:
            CHECK('#PCDATA' in els[stack[-1]], 'text only where it is allowed', anchor, stack[-1], e[1])


def document(t):
    got = XMLPARSE(t.xml())
    CHECK(got[0] != 'bad', 'well formed', X, got)
    if got[0] == 'bad':
        return
    CHECK(got[2] == ('board', Element.dtd_url()), 'the document type is named', X, got[2])
    CHECK(got[3] == 'us-ascii', 'the encoding is named', X, got[3])
    compare(got, t.board, X)
    valid(got[1], X)


def check_states(action=(YOU, HIM), inner=(YOU, HIM), doubled=(False, True), owner=(YOU, HIM, CENTER), dice=((0, 0), (3, 1), (6, 6))):
    offered = inner != action and not doubled
    t = ElementTree(Board(game_state=ON_GOING, on_action=action, on_inner_action=inner, doubled=doubled, crawford=owner == CENTER and dice == (3, 1),
                          resign_offer=RESIGN_GAMMON if offered else RESIGN_NONE, rolled=dice, match_length=7, score=(3, 4), cube_in_logarithm=2, cube_owner=owner,
                          position=(FULL, FEW)))
    document(t)


def check_numbers():
    t = ElementTree(Board(game_state=ON_GOING, on_action=YOU, on_inner_action=YOU, doubled=False, crawford=False, resign_offer=RESIGN_NONE, rolled=(SYM('d1', 1, 6), SYM('d2', 1, 6)),
                          match_length=SYM('match', 0), score=(SYM('s1', 0), SYM('s2', 0)), cube_in_logarithm=SYM('cube', 0), cube_owner=CENTER,
                          position=((SYM('a', 1, 15),) * 25, (SYM('b', 1, 15),) * 25)))
    document(t)


def check_empty():
    document(ElementTree())


def parts(e, out):
    out.append(e)
    for c in e.children:
        if isinstance(c, BaseElement):
            parts(c, out)
    return out


def check_values(text=('plain', 'a&b', 'a<b', 'a>b', 'a&amp;b', "a'b", '&lt;', '<!--', ']]>', 'a=b', 'a b'), name=('board', 'die', 'point', 'cube')):
    """Whatever directories and colours are named in a style sheet."""
    t = ElementTree(Board(game_state=ON_GOING, on_action=YOU, on_inner_action=YOU, doubled=False, crawford=False, resign_offer=RESIGN_NONE, rolled=(2, 1),
                          match_length=0, score=(0, 0), cube_in_logarithm=0, cube_owner=CENTER, position=(FULL, FEW)))
    for e in parts(t.board, []):
        if e.name == name:
            e.image = text + '/x.png'
            e.background = text
            e.x = SYM('x')
            e.mag = 1.5
            e.flip = True
    document(t)


def check_quote(name=('board', 'point'), text=('a"b', '"', '" x="')):
    t = ElementTree(Board())
    for e in parts(t.board, []):
        if e.name == name:
            e.color = text
    document(t)


def check_text(text=('a&b', 'a<b', '&amp;', '</length>')):
    """An element with some text, whatever it is."""
    e = Element('length')
    e.append(text)
    compare(XMLPARSE(e.format(0)), e, F)
    compare(XMLPARSE(e.format(4)), e, F)
