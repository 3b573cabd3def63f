"""Every theme that comes with the library can show every board, and shows different boards differently."""
from bglib.image.base import Element, BaseElement, ElementTree
from bglib.model.board import Board
from bglib.model.constants import YOU, HIM, CENTER, PLAYER_STRING, RESIGN_NONE
import bglib.image.css

EMPTY = (0,) * 25
CSS = 'bglib/image/resource/%s/default.css '


class Pen(object):
    def __init__(self):
        self.log = []

    def load_image(self, uri, size, flip):
        return (uri, tuple(size), flip)

    def paste_image(self, image, position, size):
        self.log.append(('image', tuple(position), tuple(size), image))

    def draw_text(self, position, size, text, font, fill):
        self.log.append(('text', tuple(position), tuple(size), text, font, fill))

    def draw_ellipse(self, position, size, fill=None):
        self.log.append(('ellipse', tuple(position), tuple(size), fill))

    def draw_polygon(self, points, fill=None):
        xs = [p[0] for p in points]
        ys = [p[1] for p in points]
        self.log.append(('polygon', (min(xs), min(ys)), (max(xs) - min(xs), max(ys) - min(ys)), [tuple(p) for p in points], fill))

    def draw_rect(self, position, size, fill=None):
        self.log.append(('rect', tuple(position), tuple(size), fill))


def sheet(theme):
    return bglib.image.css.load(FILE(theme))


def paths(e, above, out):
    path = above + [e]
    out.append(path)
    for c in e.children:
        if isinstance(c, BaseElement):
            paths(c, path, out)
    return out


def dress(rules, path):
    """The rules of the sheet, in order, for the elements of a path."""
    for i in range(len(path)):
        e = path[i]
        if not e.css_lineno and not ('dressed' in e.__dict__):
            for r in rules.rules:
                if r.pattern[-1].element == e.name:
                    r.apply(path[:i + 1])
            e.dressed = True


def show(theme, path, what):
    """What is seen of an element."""
    e = path[-1]
    pen = Pen()
    e.draw(pen)
    for x in pen.log:
        for f in ([x[3][0]] if x[0] == 'image' else [x[4]] if x[0] == 'text' else []):
            CHECK(EXISTS(f), 'the files of a theme are there', CSS % theme + NAME(f), what)
        if e.name != 'board':
            b = path[0]
            CHECK(0 <= x[1][0] - b.x and 0 <= x[1][1] - b.y, 'nothing is shown outside the board', CSS % theme + e.name, what, x)
            CHECK(x[1][0] + x[2][0] <= b.x + b.width and x[1][1] + x[2][1] <= b.y + b.height, 'nothing is shown outside the board', CSS % theme + e.name, what, x)
    return pen.log


def tree(rules, **kw):
    d = dict(position=(EMPTY, EMPTY))
    d.update(kw)
    t = ElementTree(Board(**d))
    return t


def find(t, rules, *names):
    """The dressed paths to the elements with a name in a place with a name."""
    out = []
    for p in paths(t.board, [], []):
        if p[-1].name == names[-1] and (len(names) == 1 or p[-2].name == names[0]):
            dress(rules, p)
            out.append(p)
    return out


def label(p):
    return ' '.join([e.name + (' ' + e.attributes['player'].get() if 'player' in e.attributes else '') for e in p[1:]])


def drawn(p):
    return hasattr(p[-1], 'image') or hasattr(p[-1], 'color')


def check_parts(theme=THEMES):
    """Every part of a board has a place, and backgrounds and images are shown."""
    rules = sheet(theme)
    t = tree(rules)
    t.board.mag = 1.0
    for p in paths(t.board, [], []):
        dress(rules, p)
        e = p[-1]
        if hasattr(e, 'background'):
            pen = Pen()
            e.bg_draw(pen)
            CHECK(len(pen.log) == 1, 'backgrounds are shown', CSS % theme + label(p))
        if drawn(p):
            show(theme, p, label(p))
    pts = find(t, rules, 'point')
    for p in pts:
        for q in pts:
            if p is not q:
                CHECK((p[-1].x, p[-1].y) != (q[-1].x, q[-1].y), 'points have places of their own', CSS % theme, p[-1].children[0], q[-1].children[0])


def check_words(theme=THEMES, kind=('score', 'length', 'crawford')):
    """Scores and match lengths are seen."""
    rules = sheet(theme)
    seen = []
    values = (0, 1, 2, 3, 5, 7, 9, 11, 15, 21, 25) if kind != 'crawford' else (0, 1)
    for v in values:
        t = tree(rules, score=(v, v), match_length=v, crawford=bool(v))
        t.board.mag = 1.0
        for p in find(t, rules, kind):
            if drawn(p):
                seen.append((label(p), v, show(theme, p, (kind, v))))
    apart(theme, kind, seen)


def apart(theme, kind, seen):
    """Different values of one thing look different."""
    for a in seen:
        for b in seen:
            if a[0] == b[0] and a[1] < b[1]:
                CHECK(a[2] != b[2], 'different values look different', CSS % theme + kind, a[0], a[1], b[1])


def check_dice(theme=THEMES):
    rules = sheet(theme)
    seen = []
    for n in (1, 2, 3, 4, 5, 6):
        for who in (YOU, HIM):
            t = tree(rules, rolled=(n, n), on_action=who, on_inner_action=who)
            t.board.mag = 1.0
            ps = find(t, rules, 'field', 'die')
            CHECK(len(ps) == 2, 'two dice are shown', CSS % theme)
            two = []
            for p in ps:
                CHECK(drawn(p), 'dice are shown', CSS % theme, label(p))
                log = show(theme, p, ('die', n))
                CHECK(log != [], 'dice are shown', CSS % theme, label(p), n)
                two.append(log)
                seen.append((label(p) + p[-1].attributes['id'].get(), n, log))
            CHECK(two[0][0][1] != two[1][0][1], 'dice have places of their own', CSS % theme, who)
    apart(theme, 'die', seen)


def check_cube(theme=THEMES):
    rules = sheet(theme)
    seen = []
    for n in (0, 1, 2, 3, 4, 5):
        states = [dict(cube_owner=CENTER, cube_in_logarithm=n), dict(cube_owner=YOU, cube_in_logarithm=n), dict(cube_owner=HIM, cube_in_logarithm=n)]
        if n > 0:
            states += [dict(cube_owner=CENTER, cube_in_logarithm=n - 1, doubled=True, on_action=YOU, on_inner_action=HIM),
                       dict(cube_owner=CENTER, cube_in_logarithm=n - 1, doubled=True, on_action=HIM, on_inner_action=YOU)]
        where = []
        for d in states:
            t = tree(rules, **d)
            t.board.mag = 1.0
            ps = find(t, rules, 'cube')
            CHECK(len(ps) == 1, 'one cube is shown', CSS % theme, d)
            p = ps[0]
            CHECK(drawn(p), 'the cube is shown', CSS % theme + label(p))
            log = show(theme, p, ('cube', n))
            CHECK(len(log) == 1, 'the cube is shown', CSS % theme + label(p), n)
            seen.append((label(p), n, log))
            where.append((log[0][1], label(p)))
        for a in where:
            for b in where:
                CHECK(a[1] == b[1] or a[0] != b[0], 'the owner of the cube is seen', CSS % theme, a, b)
    apart(theme, 'cube', seen)


def check_resign(theme=THEMES):
    rules = sheet(theme)
    seen = []
    for n in (1, 2, 3):
        for who, other in ((YOU, HIM), (HIM, YOU)):
            t = tree(rules, resign_offer=n, on_action=who, on_inner_action=other)
            t.board.mag = 1.0
            for p in find(t, rules, 'resign'):
                CHECK(drawn(p), 'a resignation is shown', CSS % theme + label(p))
                log = show(theme, p, ('resign', n))
                CHECK(log != [], 'a resignation is shown', CSS % theme + label(p), n)
                seen.append((label(p), n, log))
    apart(theme, 'resign', seen)


def check_chequers(theme=THEMES, place=('bar', 'home', 'point 1', 'point 2', 'point 13', 'point 24')):
    """Any number of chequers, of both players, wherever they are."""
    rules = sheet(theme)
    seen = {YOU: [], HIM: []}
    for who in (YOU, HIM):
        t = tree(rules)
        t.board.mag = 1.0
        if place == 'bar':
            parent = t.bar[who]
        elif place == 'home':
            parent = t.home[who]
        else:
            parent = t.points[int(place.split(' ')[1])]
        for c in [c for c in parent.children if isinstance(c, BaseElement)]:
            parent.children.remove(c)
        above = [q for q in paths(t.board, [], []) if q[-1] is parent][0]
        dress(rules, above)
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15):
            e = Element('chequer', player=PLAYER_STRING[who])
            e.append(str(n))
            parent.append(e)
            p = above + [e]
            dress(rules, p)
            if place == 'home' and not drawn(p):
                break
            CHECK(drawn(p), 'chequers are shown', CSS % theme + label(p))
            log = show(theme, p, (place, n))
            CHECK(log != [], 'chequers are shown', CSS % theme + label(p), n)
            for old in range(len(seen[who]) if place != 'home' or not p[-1].hide_count else 0):
                CHECK(log != seen[who][old], 'different values look different', CSS % theme + label(p), old + 1, n)
            seen[who].append(log)
            if who == HIM:
                CHECK(log != seen[YOU][n - 1], 'the chequers of the players look different', CSS % theme + 'chequer', place, n)
            parent.children.remove(e)
