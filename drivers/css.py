"""A style rule applies to exactly the elements its selector selects, and gives them the values it says."""
import bglib.image.base
from bglib.image.base import BaseElement, Element, ElementTree, BaseAttribute
from bglib.image.css import Selector, Rule, Binder, CSSParser, load
from bglib.model.board import Board
import sheetfile

C = 'bglib.image.css.'
B = 'bglib.image.base.'


# --- selectors
def check_selector(kind=('point', 'chequer'), name=(None, 'x', 'player', 'flip'), value=(None, '42', 'you', 'True'), data=(None, '2'), have=(0, 1, 2, 3)):
    """Element, attribute and text must all be as selected."""
    if (name is None) != (value is None):
        return
    if name is not None and {'x': '42', 'player': 'you', 'flip': 'True'}[name] != value:
        return
    e = Element('chequer')
    if have & 1:
        e.x = SYM('x')
        e.player = 'you' if SYM('you', 0, 1) else 'him'
        e.flip = True if SYM('flip', 0, 1) else False
    if have & 2:
        e.append('2' if SYM('two', 0, 1) else '3')
        e.append(Element('chequer')) if False else None
    got = Selector(kind, name, value, data).is_match(e)
    want = kind == 'chequer'
    if name is not None:
        if not have & 1:
            want = False
        elif name == 'x':
            want = want and e.x == 42
        elif name == 'player':
            want = want and e.player == 'you'
        else:
            want = want and e.flip == True
    if data is not None:
        want = want and have & 2 != 0 and e.children[0] == '2'
    if want:
        CHECK(got, 'a selector selects what it describes', C + 'Selector.is_match', kind, name, value, data)
    else:
        CHECK(not got, 'a selector selects nothing else', C + 'Selector.is_match', kind, name, value, data)


class Maybe(object):
    """A selector of which nothing is known."""
    def __init__(self, i):
        self.i = i

    def is_match(self, e):
        return True if SYM('m%d%d' % (self.i, e.i), 0, 1) else False


class Node(object):
    def __init__(self, i):
        self.i = i
        self.name = 'e%d' % i
        self.css_lineno = []

    def apply(self, path, block):
        MARK('applied', self.i, path, block)


def below(k, p, n):
    """Is there an element for each of the first k selectors, outermost first, among the first n elements?"""
    if k == 0:
        return True
    if n < k:
        return False
    if p.pattern[k - 1].is_match(Node(n - 1)):
        if below(k - 1, p, n - 1):
            return True
    return below(k, p, n - 1)


def check_rule(k=(1, 2, 3, 4), n=(1, 2, 3, 4, 5, 6)):
    """The last selector is for the element, the others for ancestors in order."""
    r = Rule('theme/default.css', 7)
    for i in range(k):
        r.add(Maybe(i))
    block = {'x': '1'}
    r.update(block)
    path = [Node(i) for i in range(n)]
    got = r.is_match(path)
    want = False
    if r.pattern[k - 1].is_match(path[n - 1]):
        want = below(k - 1, r, n - 1)
    if want:
        CHECK(got, 'a rule applies to what its selectors select', C + 'Rule.is_match', k, n)
    else:
        CHECK(not got, 'a rule applies to nothing else', C + 'Rule.is_match', k, n)
    CHECK(len(r.pattern) == k, 'matching leaves the rule alone', C + 'Rule.is_match', len(r.pattern))
    r.apply(path)
    ev = EVENTS('applied')
    if want:
        CHECK(len(ev) == 1, 'a rule that matches is applied once', C + 'Rule.apply', ev)
        CHECK(ev[0][1] == n - 1 and ev[0][2] == 'theme/default.css', 'a rule is applied to the element selected', C + 'Rule.apply', ev)
    else:
        CHECK(ev == [], 'a rule that does not match is not applied', C + 'Rule.apply', ev)


class Watch(Rule):
    def apply(self, path):
        MARK('visit', self.lineno, [(e.name, len(e.children)) for e in path])


def check_binder():
    """Every element sees every rule, once, in the order of the sheet, with its ancestors."""
    t = ElementTree()
    b = Binder()
    b.append(Watch('a', 1))
    b.append(Watch('a', 2))
    b.apply(t)
    want = []
    expect(t.board, [], want)
    got = EVENTS('visit')
    CHECK(len(got) == 2 * len(want), 'every element sees every rule once', C + 'Binder.apply', len(got), len(want))
    for i in range(len(want)):
        CHECK(got[2 * i][1] == 1 and got[2 * i + 1][1] == 2, 'rules are applied in their order', C + 'Binder.apply', got[2 * i])
        CHECK(list(got[2 * i][2]) == want[i] or got[2 * i] == ('visit', 1, want[i]) or SAME(got[2 * i][2], SNAP(want[i])), 'rules see the ancestors of an element', B + 'ElementTree.visit', got[2 * i][2])


def expect(e, path, out):
    path = path + [(e.name, len(e.children))]
    out.append(path)
    for c in e.children:
        if isinstance(c, BaseElement):
            expect(c, path, out)


# --- values
def check_values(name=('x', 'mag', 'color', 'image', 'flip', 'player', 'background', 'font', 'hide_count', 'max_count', 'x_offset'), old=(0, 1)):
    """A value from a sheet has the type of its attribute; later rules replace earlier ones."""
    text = {'x': '12', 'mag': '1.5', 'color': '#fff', 'image': 'uri("a.jpg")', 'flip': 'True', 'player': 'him', 'background': 'red', 'font': 'uri("b.ttf")', 'hide_count': 'True',
            'max_count': '5', 'x_offset': '-18'}
    want = {'x': 12, 'mag': 1.5, 'color': '#fff', 'image': 'theme/a.jpg', 'flip': True, 'player': 'him', 'background': 'red', 'font': 'theme/b.ttf', 'hide_count': True, 'max_count': 5, 'x_offset': -18}
    before = {'x': '1', 'mag': '2.0', 'color': 'red', 'image': 'uri("z.jpg")', 'flip': 'True', 'player': 'you', 'background': 'blue', 'font': 'uri("z.ttf")', 'hide_count': 'True',
              'max_count': '4', 'x_offset': '1'}
    e = Element('chequer')
    if old:
        e.apply('other/default.css', {name: before[name]})
    e.apply('theme/default.css', {name: text[name]})
    got = getattr(e, name)
    CHECK(got == want[name], 'an attribute gets the value of the last rule', B + 'BaseElement.apply', name, got)
    CHECK(isinstance(e.attributes[name], BaseAttribute), 'attributes stay attributes', B + 'BaseElement.__setattr__', name)


def check_false(name=('flip', 'fill', 'hide_count'), kind=('point', 'chequer')):
    if (name == 'hide_count') != (kind == 'chequer'):
        return
    e = Element(kind)
    e.apply('theme/default.css', {name: 'False'})
    CHECK(getattr(e, name) == False, 'what is written False is false', B + 'BoolAttribute.parse', name)
    f = Element(kind)
    f.apply('theme/default.css', {name: 'True'})
    CHECK(getattr(f, name) == True, 'what is written True is true', B + 'BoolAttribute.parse', name)


def check_unknown():
    e = Element('bar')
    try:
        e.apply('theme/default.css', {'no_such': '1'})
        FAIL('an attribute the element does not have is reported', B + 'BaseElement.apply')
    except KeyError:
        CHECK(True, 'an attribute the element does not have is reported', B + 'BaseElement.apply')


def check_bad(name=('x', 'flip', 'player', 'parity', 'mag'), bad=('12', 12, None, 'x', 1.5, True)):
    """Values of the wrong type are refused and change nothing."""
    good = {'x': 7, 'flip': False, 'player': 'you', 'parity': 'odd', 'mag': 0.5}
    ok = {'x': isinstance(bad, int), 'flip': isinstance(bad, bool), 'player': False, 'parity': False, 'mag': isinstance(bad, float)}
    e = Element('point' if name != 'player' else 'home')
    setattr(e, name, good[name])
    try:
        setattr(e, name, bad)
        CHECK(ok[name], 'values of the wrong type are refused', B + 'BaseAttribute.set', name, bad)
    except TypeError:
        CHECK(not ok[name], 'values of the right type are accepted', B + 'BaseAttribute.set', name, bad)
        CHECK(getattr(e, name) == good[name], 'a refused value changes nothing', B + 'BaseAttribute.set', name)


# --- inheritance
def check_inherit(name=('x', 'flip', 'font', 'mag', 'color', 'image', 'background'), mask=(0, 1, 2, 3, 4, 5, 6, 7)):
    """An inheritable attribute comes from the nearest element that has one, then from its default; the others only from the element."""
    value = {'x': (1, 2, 3), 'flip': (True, False, True), 'font': ('a', 'b', 'c'), 'mag': (1.0, 2.0, 3.0), 'color': ('r', 'g', 'b'), 'image': ('i', 'j', 'k'), 'background': ('p', 'q', 's')}
    chain = [Element('position'), Element('point'), Element('chequer')]
    chain[0].append(chain[1])
    chain[1].append(chain[2])
    for i in range(3):
        if mask & (1 << i):
            setattr(chain[i], name, value[name][i])
    inherits = name in ('x', 'flip', 'font', 'mag')
    want = None
    if mask & 4:
        want = value[name][2]
    elif inherits and mask & 2:
        want = value[name][1]
    elif inherits and mask & 1:
        want = value[name][0]
    elif name == 'flip':
        want = False
    try:
        got = getattr(chain[2], name)
    except AttributeError:
        got = None
    CHECK(got == want, 'an attribute comes from the nearest element that has it', B + 'BaseElement.__getattr__', name, got, want)
    CHECK(hasattr(chain[2], name) == (want is not None), 'an attribute comes from the nearest element that has it', B + 'BaseElement.__getattr__', name)
    for i in range(3):
        CHECK((name in chain[i].attributes) == (mask & (1 << i) != 0), 'asking gives nobody an attribute', B + 'BaseElement.__getattr__', name, i)


def check_default():
    """The default of an attribute that the parent does not have."""
    p = Element('position')
    q = Element('point')
    CHECK(q.fill == True, 'an attribute nobody sets has its default', B + 'BaseElement.__getattr__')
    p.append(q)
    CHECK(hasattr(q, 'fill') and q.fill == True, 'an attribute nobody sets has its default', B + 'BaseElement.__getattr__')


# --- the parser
def check_parse(i=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)):
    s, pattern, block = (
        ('point {width: 18; height:88}', [('point', None, None, None)], {'width': '18', 'height': '88'}),
        ('point:data(24) {x: 248 ; y:   5 ; flip:  True  }', [('point', None, None, '24')], {'x': '248', 'y': '5', 'flip': 'True'}),
        ('home[player=him] chequer{x:269; y:90 ;y_offset: -18}', [('home', 'player', 'him', None), ('chequer', None, None, None)], {'x': '269', 'y': '90', 'y_offset': '-18'}),
        ('board {font:uri("A-b.ttf")}', [('board', None, None, None)], {'font': 'uri("A-b.ttf")'}),
        ('field[player=you] die[id=left]:data(3) {background:#3ca7e4;}', [('field', 'player', 'you', None), ('die', 'id', 'left', '3')], {'background': '#3ca7e4'}),
        ('', None, None),
        ('#; flip: True', None, None),
        ('  \n', None, None),
        ('top_frame {x:0}\n', [('top_frame', None, None, None)], {'x': '0'}),
        ('a b c {x: 1; x: 2}', [('a', None, None, None), ('b', None, None, None), ('c', None, None, None)], {'x': '2'}),
    )[i]
    r = CSSParser().rule('theme/default.css', 3, s)
    if pattern is None:
        CHECK(r is None, 'a line that is no rule gives none', C + 'CSSParser.rule', s)
    else:
        CHECK(r is not None, 'every rule of a sheet is read', C + 'CSSParser.rule', s)
        got = [(p.element, p.name, p.value, p.data) for p in r.pattern]
        CHECK(got == pattern, 'the selectors of a rule are read in order', C + 'CSSParser.selector', got)
        CHECK(r.block == block, 'all declarations of a rule are read', C + 'CSSParser.block', r.block)
        CHECK(r.lineno == 3 and r.css_path == 'theme/default.css', 'a rule knows where it stands', C + 'CSSParser.rule')


# --- shape
def check_append(parent=('board', 'match', 'position', 'point', 'bar', 'home', 'field', 'cubeholder', 'die', 'cube', 'chequer'), child=('match', 'point', 'chequer', 'die', 'cube', 'resign', 'board', 'text')):
    allowed = {'board': ('match', 'position'), 'match': ('action', 'length', 'crawford', 'score'), 'position': ('cubeholder', 'field', 'home', 'bar', 'point', 'top_frame', 'bottom_frame'),
               'point': ('text', 'chequer'), 'bar': ('text', 'chequer'), 'home': ('text', 'cube', 'chequer'), 'field': ('text', 'die', 'cube', 'resign'), 'cubeholder': ('text', 'cube'),
               'die': ('text',), 'cube': ('text',), 'chequer': ('text',)}
    p = Element(parent)
    c = 'text' if child == 'text' else Element(child)
    try:
        p.append(c)
        CHECK(child in allowed[parent], 'elements hold only what the document type allows', B + 'BaseElement.append', parent, child)
        CHECK(len(p.children) == 1 and p.children[0] is c, 'what is appended is there', B + 'BaseElement.append', parent, child)
    except TypeError:
        CHECK(child not in allowed[parent], 'elements hold what the document type allows', B + 'BaseElement.append', parent, child)
        CHECK(p.children == [], 'a refused child is not there', B + 'BaseElement.append', parent, child)


# --- files
def check_files(how=(0, 1), bad=(0, 1)):
    """The rules of a file are read in order with the places where they stand, and the file is closed whatever happens."""
    lines = ['/* a theme */\n', '\n', 'point {x: 10}\n', 'chequer {x: 1; y: 2}\n']
    sheetfile.FILES['a/b.css'] = lines + (['{x: 1}\n'] if bad else []) + ['point {x: 30}\n']
    at = C + 'load' if how else B + 'ElementTree.css'
    try:
        if how:
            rules = load('a/b.css').rules
            got = [(r.css_path, r.lineno, [s.element for s in r.pattern], r.block) for r in rules]
            CHECK(got == [('a/b.css', 3, ['point'], {'x': '10'}), ('a/b.css', 4, ['chequer'], {'x': '1', 'y': '2'}), ('a/b.css', 5 + bad, ['point'], {'x': '30'})], 'the rules of a file are read in order', at, got)
        else:
            t = ElementTree(Board())
            t.css('a/b.css')
            CHECK([t.points[i].x for i in range(1, 25)] == [30] * 24, 'the rules of a file are read in order', at, t.points[1].x)
    except AssertionError:
        CHECK(bad, 'a sheet is read', at)
    CHECK(len(sheetfile.OPENED) == 1 and sheetfile.OPENED[0].closed, 'a sheet is closed after reading, whatever happens', at)
