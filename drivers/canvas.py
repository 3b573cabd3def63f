"""A drawing fits its bounds and shows every element once, on a fresh canvas."""
from bglib.image.base import Element, BaseElement, ElementTree
from bglib.image.css import Binder
from bglib.model.board import Board
import bglib.image.draw

B = 'bglib.image.base.'
D = 'bglib.image.draw.Draw.'


def check_bounds():
    """The picture is scaled to the largest that fits, whatever its size and the bounds."""
    w, h = SYM('width', 1), SYM('height', 1)
    bound = (SYM('bound_x', 1), SYM('bound_y', 1))
    b = Element('board', x=0, y=0, width=w, height=h)
    b.set_mag(bound)
    s = b.calc_mag((w, h))
    CHECK(s[0] <= bound[0] and s[1] <= bound[1], 'a drawing fits its bounds', B + 'Board.set_mag', s, bound)
    CHECK(SAMEREAL(b.mag * w, bound[0]) or SAMEREAL(b.mag * h, bound[1]), 'a drawing fills its bounds in one direction', B + 'Board.set_mag', b.mag)


class Sheet(object):
    """A style sheet that gives every element a place and, as asked, an image of its own and a background."""
    def __init__(self, images, backgrounds, colors):
        self.images, self.backgrounds, self.colors = images, backgrounds, colors
        self.seen = []
        self.parents = []

    def apply(self, tree):
        self.seen = []
        self.parents = []
        self.visit(tree.board, None)

    def visit(self, e, parent):
        n = len(self.seen)
        self.seen.append(e.name)
        self.parents.append(parent)
        e.x = n
        e.y = 0
        e.width = 10
        e.height = 10
        if e.name == 'chequer':
            e.max_count = 1
        if e.name in self.images:
            e.image = 'image of ' + str(n)
        if e.name in self.backgrounds:
            e.background = 'background of ' + str(n)
        if e.name in self.colors:
            e.color = 'color'
        for c in e.children:
            if isinstance(c, BaseElement):
                self.visit(c, n)


class Canvas(bglib.image.draw.Draw):
    """Records on the canvas what is asked of it; may fail once."""
    def __init__(self, css):
        bglib.image.draw.Draw.__init__(self, css)
        self.fail = None
        self.sizes = []
        self.shown = None

    def create_dc(self, size):
        bglib.image.draw.Draw.create_dc(self, size)
        self.sizes.append(size)
        self.dc.append('canvas')
        self.shown = self.dc

    def load_image(self, uri, size, flip):
        if uri == self.fail:
            self.fail = None
            raise IOError(uri)
        return uri

    def paste_image(self, src, position, size):
        self.dc.append(src)

    def draw_rect(self, position, size, fill=None):
        self.dc.append(fill)

    def draw_ellipse(self, position, size, fill=None):
        self.dc.append('ellipse')

    def draw_text(self, position, size, text, font, fill):
        self.dc.append('text')

    def draw_polygon(self, points, fill=None):
        self.dc.append('polygon')


ALL = ('board', 'match', 'action', 'length', 'crawford', 'score', 'position', 'top_frame', 'bottom_frame', 'cubeholder', 'field', 'die', 'cube', 'resign', 'home', 'bar', 'point')


def expected(sheet):
    out = ['canvas']
    for i in range(len(sheet.seen)):
        if sheet.seen[i] in sheet.backgrounds:
            out.append('background of ' + str(i))
        if sheet.seen[i] in sheet.images:
            out.append('image of ' + str(i))
    return out


EMPTY = (0,) * 25


def check_elements(case=('all', 'images', 'backgrounds', 'some', 'points', 'none')):
    images = dict(all=ALL, images=ALL, backgrounds=(), some=('board', 'position', 'cube'), points=('point',), none=())[case]
    backgrounds = dict(all=ALL, images=(), backgrounds=ALL, some=('position', 'action', 'cubeholder'), points=('position',), none=())[case]
    s = Sheet(images + ('chequer',), backgrounds, ())
    c = Canvas(s)
    b = Board(cube_in_logarithm=1, rolled=(3, 1))
    r = c.draw(b, (700, 500))
    CHECK(c.sizes == [(700, 500)], 'the canvas has the size asked for', D + 'draw', c.sizes)
    want = expected(s)
    CHECK(r == want, 'every element is drawn once, after the one that contains it, its background first', D + 'draw_element', case, r, want)
    CHECK(c.dc is None, 'a canvas is used once', D + 'draw')


def check_again(fail=(None, 'image of 0', 'image of 7')):
    """What was drawn before, or failed to be, is not seen on a later drawing."""
    s = Sheet(ALL, ALL, ())
    c = Canvas(s)
    b = Board(position=(EMPTY, EMPTY))
    c.fail = fail
    first = None
    try:
        first = c.draw(b, (700, 500))
    except IOError:
        CHECK(fail is not None, 'a drawing fails only when an image is missing', D + 'draw')
    else:
        CHECK(fail is None, 'a missing image is reported', D + 'draw')
        keep = first[:]
    r = c.draw(b, (350, 250))
    CHECK(c.sizes == [(700, 500), (350, 250)], 'the canvas has the size asked for', D + 'draw', c.sizes)
    want = expected(s)
    CHECK(r == want, 'every drawing starts with a fresh canvas', D + 'draw', r, want)
    if first is not None:
        CHECK(r is not first and first == keep, 'a later drawing leaves the earlier one alone', D + 'draw', first)


def check_dispatch(image=(False, True), color=(False, True), background=(False, True)):
    """An element is drawn exactly when it has an image or a colour."""
    s = Sheet(('point',) if image else (), ('point',) if background else (), ('point',) if color else ())
    c = Canvas(s)
    r = c.draw(Board(position=(EMPTY, EMPTY)), (700, 500))
    got = len([x for x in r if x == 'polygon' or str(x).startswith('image')])
    CHECK(got == (24 if image or color else 0), 'elements are drawn exactly when they have an image or a colour', D + 'draw_element', r)
    CHECK(len([x for x in r if str(x).startswith('background')]) == (24 if background else 0), 'backgrounds are drawn exactly when given', D + 'draw_element', r)
