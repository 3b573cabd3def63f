"""Drawing an element shows what it stands for, at its place and size."""
from bglib.image.base import Element, BaseElement, ElementTree
from bglib.model.constants import YOU, HIM, PLAYER_STRING, RESIGN_STRINGS

B = 'bglib.image.base.'
# texts that are not empty
IMAGE = STR('line', 'image')
FONT = STR('line', 'font')
COLOR = STR('line', 'color')


class Pen(object):
    def __init__(self):
        self.log = []

    def load_image(self, uri, size, flip):
        return ('image', uri, tuple(size), flip)

    def paste_image(self, image, position, size):
        self.log.append(('paste', image, tuple(position), tuple(size)))

    def draw_text(self, position, size, text, font, fill):
        self.log.append(('text', text, tuple(position), tuple(size), font, fill))

    def draw_ellipse(self, position, size, fill=None):
        self.log.append(('ellipse', tuple(position), tuple(size), fill))

    def draw_polygon(self, points, fill=None):
        self.log.append(('polygon', [tuple(p) for p in points], fill))

    def draw_rect(self, position, size, fill=None):
        self.log.append(('rect', tuple(position), tuple(size), fill))


def geometry():
    return dict(x=SYM('x'), y=SYM('y'), width=SYM('width', 0), height=SYM('height', 0), mag=MAG())


def place(d):
    return ((scaled(d['x']), scaled(d['y'])), (scaled(d['width']), scaled(d['height'])))


def scaled(x):
    return int(x * MAG())


def look(e, image, font, color=True):
    if image:
        e.image = IMAGE
    if font:
        e.font = FONT
    if color:
        e.color = COLOR


def drawn(e):
    p = Pen()
    e.draw(p)
    return p.log


def one_image(log, e, d, anchor, flip):
    at, size = place(d)
    CHECK(len(log) == 1, 'an image is shown once', anchor, log)
    CHECK(log[0] == ('paste', ('image', IMAGE, size, flip), at, size), 'an image is shown at its place and size', anchor, log[0], at, size)


def one_text(log, e, d, anchor, text, color=True):
    at, size = place(d)
    CHECK(len(log) == 1, 'a text is shown once', anchor, log)
    CHECK(log[0][0] == 'text' and log[0][1] == text, 'the text shown is the value', anchor, log[0], text)
    CHECK(log[0][2] == at and log[0][3] == size, 'a text is shown at its place and size', anchor, log[0])
    CHECK(log[0][4] == FONT, 'a text is shown in its font', anchor, log[0])
    if color:
        CHECK(log[0][5] == COLOR, 'a text is shown in its colour', anchor, log[0])


def check_text(kind=('action', 'length', 'score'), image=(False, True), font=(False, True), flip=(False, True)):
    d = geometry()
    e = Element(kind, flip=flip, **d)
    e.append(STR('value'))
    look(e, image, font)
    log = drawn(e)
    anchor = B + {'action': 'Action', 'length': 'Length', 'score': 'Score'}[kind] + '.draw'
    if image:
        one_image(log, e, d, anchor, flip)
    elif font:
        one_text(log, e, d, anchor, STR('value'))
    else:
        CHECK(log == [], 'nothing is shown without an image or a font', anchor, log)


def check_crawford(value=('True', 'False'), image=(False, True), font=(False, True)):
    d = geometry()
    e = Element('crawford', flip=False, **d)
    e.append(value)
    look(e, image, font)
    log = drawn(e)
    if image:
        one_image(log, e, d, B + 'Crawford.draw', False)
    elif font and value == 'True':
        CHECK(len(log) == 1 and log[0][0] == 'text', 'a Crawford game is marked', B + 'Crawford.draw', log)
    else:
        CHECK(log == [], 'only a Crawford game is marked', B + 'Crawford.draw', log)


def check_field(image=(False, True), font=(False, True), text=(False, True)):
    d = geometry()
    e = Element('field', flip=False, **d)
    if text:
        e.text = STR('line', 'text')
    look(e, image, font)
    log = drawn(e)
    if image:
        one_image(log, e, d, B + 'Field.draw', False)
    elif text and font:
        one_text(log, e, d, B + 'Field.draw', STR('line', 'text'))
    else:
        CHECK(log == [], 'nothing is shown without an image or a font', B + 'Field.draw', log)


def check_die(n=(1, 2, 3, 4, 5, 6), style=('dot', 'numeric', None), image=(False, True), flip=(False, True)):
    d = geometry()
    e = Element('die', id='right', flip=flip, eyesize=SYM('eyesize', 0), **d)
    if style is not None:
        e.diestyle = style
    e.append(str(n))
    look(e, image, True)
    log = drawn(e)
    if image:
        one_image(log, e, d, B + 'Die.draw', flip)
        return
    if style == 'numeric':
        one_text(log, e, d, B + 'Die.draw', str(n))
        return
    at, size = place(d)
    eye = scaled(SYM('eyesize', 0))
    CHECK(len(log) == n, 'a die shows as many eyes as it has', B + 'Die.draw', n, len(log))
    spots = []
    for x in log:
        CHECK(x[0] == 'ellipse' and x[2] == (eye, eye), 'the eyes of a die are dots of the given size', B + 'Die.draw', n, x)
        CHECK(x[3] == COLOR, 'the eyes of a die have its colour', B + 'Die.draw', n, x)
        at4 = [[k for k in (1, 2, 3) if REAL(x[1][i] + eye / 2, at[i] + size[i] * k / 4)] for i in (0, 1)]
        CHECK(len(at4[0]) == 1 and len(at4[1]) == 1, 'the eyes of a die are within it, in its raster', B + 'Die.draw', n, x)
        spots.append((at4[0][0], at4[1][0]))
    for s in spots:
        CHECK(len([t for t in spots if t == s]) == 1, 'no two eyes are in the same place', B + 'Die.draw', n, spots)
        CHECK((4 - s[0], 4 - s[1]) in spots, 'the eyes of a die are symmetric', B + 'Die.draw', n, spots)
    if n in (2, 3):
        CHECK((1, 1) in spots or (1, 3) in spots, 'two and three are diagonal', B + 'Die.draw', n, spots)


def check_cube(first=(False, True), image=(False, True), initial=(False, True)):
    n = 0 if first else SYM('log', 1)
    if not first:
        ASSUME(pow(2, n) != 1)
    d = geometry()
    e = Element('cube', flip=False, **d)
    e.append(str(n))
    if initial:
        e = Element('cube', flip=False, initialCube=STR('initial'), **d)
        e.append(str(n))
    look(e, image, True)
    log = drawn(e)
    if image:
        one_image(log, e, d, B + 'Cube.draw', False)
    elif first and initial:
        one_text(log, e, d, B + 'Cube.draw', STR('initial'))
    else:
        one_text(log, e, d, B + 'Cube.draw', str(pow(2, n)))


def check_resign(n=(1, 2, 3), image=(False, True)):
    d = geometry()
    e = Element('resign', x_offset=SYM('x_offset'), y_offset=SYM('y_offset'), **d)
    e.append(str(n))
    look(e, image, True)
    log = drawn(e)
    if not image:
        one_text(log, e, d, B + 'Resign.draw', RESIGN_STRINGS[n])
        return
    at, size = place(d)
    CHECK(len(log) == n, 'a resignation shows as many images as points are resigned', B + 'Resign.draw', n, len(log))
    for x in log:
        CHECK(x[0] == 'paste' and x[1] == ('image', IMAGE, size, False) and x[3] == size, 'an image is shown at its place and size', B + 'Resign.draw', x)
    for i in range(1, len(log)):
        step = [log[i][2][k] - log[i - 1][2][k] for k in (0, 1)]
        CHECK(REAL(step[0], scaled(SYM('x_offset'))) and REAL(step[1], scaled(SYM('y_offset'))), 'images are set off from each other', B + 'Resign.draw', step)


def check_chequer(count=(1, 2, 3, 4, 5), most=(1, 2, 3, 4, 5), image=(False, True), font=(False, True), hide=(None, False, True)):
    d = geometry()
    parent = Element('point', **geometry())
    e = Element('chequer', x_offset=SYM('x_offset'), y_offset=SYM('y_offset'), max_count=most, flip=False, **d)
    if hide is not None:
        e.hide_count = hide
    parent.append(e)
    e.append(str(count))
    look(e, image, font)
    log = drawn(e)
    at, size = place(d)
    A = B + 'Chequer.draw'
    n = count if count < most else most
    shapes = [x for x in log if x[0] in ('ellipse', 'paste')]
    CHECK(len(shapes) == n, 'as many chequers are shown as there are, up to the most', A, count, most, len(shapes))
    for x in shapes:
        if image:
            CHECK(x[:2] == ('paste', ('image', IMAGE, size, False)) and x[3] == size, 'chequers have their image and size', A, x)
        else:
            CHECK(x[0] == 'ellipse' and x[2] == size and x[3] == COLOR, 'chequers have their colour and size', A, x)
    where = [x[2] if image else x[1] for x in shapes]
    CHECK(where[0] == at, 'the first chequer is at its place', A, where[0], at)
    for i in range(1, n):
        CHECK(REAL(where[i][0] - where[i - 1][0], scaled(SYM('x_offset'))) and REAL(where[i][1] - where[i - 1][1], scaled(SYM('y_offset'))),
              'chequers are set off from each other', A, where)
    words = log[n:]
    if count > most and font and not hide:
        CHECK(len(words) == 1 and words[0][0] == 'text' and words[0][1] == str(count), 'when not all chequers are shown their number is', A, words)
        CHECK(words[0][3] == size and words[0][4] == FONT and words[0][5] == COLOR, 'when not all chequers are shown their number is', A, words)
    else:
        CHECK(words == [], 'the number of chequers is shown only when not all of them are', A, words)


def check_point(image=(False, True), flip=(False, True), fill=(False, True)):
    d = geometry()
    e = Element('point', flip=flip, fill=fill, **d)
    look(e, image, False)
    log = drawn(e)
    at, size = place(d)
    A = B + 'Point.draw'
    if image:
        one_image(log, e, d, A, flip)
        return
    CHECK(len(log) == 1 and log[0][0] == 'polygon' and len(log[0][1]) == 3, 'a point is a triangle', A, log)
    x0, x1, xm = at[0], at[0] + size[0], at[0] + size[0] / 2
    y0, y1 = at[1], at[1] + size[1]
    if flip:
        want = [(x0, y0), (x1, y0), (xm, y1)]
    else:
        want = [(x0, y1), (x1, y1), (xm, y0)]
    for w in want:
        CHECK(len([p for p in log[0][1] if REAL(p[0], w[0]) and REAL(p[1], w[1])]) == 1, 'a point has its base at the edge of the board and fills its place', A, flip, log[0][1], w)
    CHECK(log[0][2] == (COLOR if fill else None), 'a point is filled with its colour', A, log[0])


def check_plain(kind=('board', 'match', 'position', 'cubeholder', 'home', 'bar', 'top_frame', 'bottom_frame'), image=(False, True), flip=(False, True)):
    d = geometry()
    e = Element(kind, flip=flip, **d)
    look(e, image, True)
    log = drawn(e)
    if image:
        one_image(log, e, d, B + 'BaseElement.draw', flip)
    else:
        CHECK(log == [], 'nothing is shown without an image', B + 'BaseElement.draw', log)


def check_background(kind=('board', 'die', 'action')):
    d = geometry()
    e = Element(kind, background=STR('background'), **d)
    p = Pen()
    e.bg_draw(p)
    at, size = place(d)
    CHECK(p.log == [('rect', at, size, STR('background'))], 'a background fills the place of its element', B + 'BaseElement.bg_draw', p.log)


def check_drawing_leaves(kind=('chequer', 'die', 'resign', 'cube', 'score')):
    """Drawing the same element again shows the same."""
    d = geometry()
    parent = Element('point', **geometry())
    kw = dict(d)
    if kind == 'chequer':
        kw.update(max_count=3, x_offset=SYM('x_offset'), y_offset=SYM('y_offset'))
    if kind == 'die':
        kw.update(eyesize=SYM('eyesize', 0))
    e = Element(kind, flip=False, **kw)
    e.parent = parent
    e.append('2')
    look(e, kind == 'resign', True)
    a = drawn(e)
    b = drawn(e)
    CHECK(a == b, 'drawing leaves the element alone', B + 'BaseElement.draw', kind)
