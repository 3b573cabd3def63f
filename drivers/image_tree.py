"""The element tree of a board shows the whole position, and nothing else."""
from bglib.model.board import Board
from bglib.model.constants import (YOU, HIM, CENTER, ON_GOING, NOT_STARTED, PLAYER_STRING, RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON)
from bglib.image.base import ElementTree, BaseElement, Element

T = 'bglib.image.base.ElementTree.'
EMPTY = (0,) * 25


def attrs(**kw):
    d = dict(game_state=ON_GOING, on_action=YOU, on_inner_action=YOU, doubled=False, crawford=ENUM('crawford', False, True), resign_offer=RESIGN_NONE, rolled=(0, 0),
             match_length=SYM('match_length', 0), score=(SYM('your_score', 0), SYM('his_score', 0)), cube_in_logarithm=SYM('cube', 0), cube_owner=CENTER, position=(EMPTY, EMPTY))
    d.update(kw)
    return d


def texts(e):
    return [c for c in e.children if not isinstance(c, BaseElement)]


def inside(e):
    return [c for c in e.children if isinstance(c, BaseElement)]


def attribute(e, name):
    if name in e.attributes:
        return e.attributes[name].get()
    return None


def walk(e, where, out):
    """(kind of the container, its player or text, kind, player, id, text) of everything that shows something."""
    for c in inside(e):
        CHECK(c.parent is e, 'everything hangs from its parent', T + 'create_tree', c.name)
        if c.name in ('chequer', 'cube', 'die', 'resign'):
            label = attribute(e, 'player')
            if e.name == 'point':
                label = texts(e)[0]
            CHECK(len(texts(c)) == 1, 'everything shown has one value', T + 'set', c.name)
            out.append((e.name, label, c.name, attribute(c, 'player'), attribute(c, 'id'), texts(c)[0]))
        walk(c, where + (e.name,), out)
    return out


def shown(t, *kinds):
    return [x for x in walk(t.board, (), []) if x[2] in kinds]


def same(got, want, rule, anchor):
    CHECK(len(got) == len(want), rule, anchor, got, want)
    for w in want:
        CHECK(len([g for g in got if g == w]) == 1, rule, anchor, got, w)


def place(who, i):
    """Where the chequers of a player's i-th point are shown."""
    if i == 24:
        return ('bar', PLAYER_STRING[who])
    if who == YOU:
        return ('point', str(i + 1))
    return ('point', str(24 - i))


def check_point(who=(YOU, HIM), i=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24)):
    """Any number of chequers on any one point; the others are borne off."""
    n = SYM('n', 0, 15)
    side = tuple([n if j == i else 0 for j in range(25)])
    position = (side, EMPTY) if who == YOU else (EMPTY, side)
    t = ElementTree(Board(**attrs(position=position)))
    other = HIM if who == YOU else YOU
    want = [('home', PLAYER_STRING[other], 'chequer', PLAYER_STRING[other], None, '15')]
    if n > 0:
        x = place(who, i)
        want.append((x[0], x[1], 'chequer', PLAYER_STRING[who], None, str(n)))
    if n < 15:
        want.append(('home', PLAYER_STRING[who], 'chequer', PLAYER_STRING[who], None, str(15 - n)))
    same(shown(t, 'chequer'), want, 'every chequer is shown once, where it is', T + 'set')


def check_all_points():
    """Every point occupied by both (more than can be): nothing depends on what is elsewhere."""
    you = tuple([SYM('y%i' % i, 1, 15) for i in range(25)])
    him = tuple([SYM('h%i' % i, 1, 15) for i in range(25)])
    t = ElementTree(Board(**attrs(position=(you, him))))
    want = []
    for who, side in ((YOU, you), (HIM, him)):
        for i in range(25):
            x = place(who, i)
            want.append((x[0], x[1], 'chequer', PLAYER_STRING[who], None, str(side[i])))
        if sum(side) != 15:
            want.append(('home', PLAYER_STRING[who], 'chequer', PLAYER_STRING[who], None, str(15 - sum(side))))
    same(shown(t, 'chequer'), want, 'every chequer is shown once, where it is', T + 'set')


def check_match(i=(0,)):
    d = attrs()
    t = ElementTree(Board(**d))
    got = [(c.name, attribute(c, 'player'), texts(c)) for e in inside(t.board) if e.name == 'match' for c in inside(e)]
    for name, who, value in (('length', None, str(d['match_length'])), ('crawford', None, str(d['crawford'])),
                             ('score', PLAYER_STRING[YOU], str(d['score'][YOU])), ('score', PLAYER_STRING[HIM], str(d['score'][HIM]))):
        x = [g[2] for g in got if g[0] == name and g[1] == who]
        CHECK(x == [[value]], 'length, scores and Crawford are shown once', T + 'set', name, x, value)


def check_state(action=(YOU, HIM), inner=(YOU, HIM), doubled=(False, True), dice=(False, True), owner=(YOU, HIM, CENTER)):
    """Cube, dice, resignation and who is to act, in every state a game can be in."""
    if doubled and inner != action and dice:
        return      # nobody rolls before the cube is taken
    offered = inner != action and not doubled
    resign = ENUM('resign', RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON) if offered else RESIGN_NONE
    rolled = (SYM('die1', 1, 6), SYM('die2', 1, 6)) if dice else (0, 0)
    cube = SYM('cube', 0)
    t = ElementTree(Board(**attrs(on_action=action, on_inner_action=inner, doubled=doubled, rolled=rolled, cube_in_logarithm=cube, cube_owner=owner, resign_offer=resign)))
    if doubled and inner != action:
        want = [('field', PLAYER_STRING[inner], 'cube', None, None, str(cube + 1))]
    elif owner == CENTER:
        want = [('cubeholder', None, 'cube', None, None, str(cube))]
    else:
        want = [('home', PLAYER_STRING[owner], 'cube', None, None, str(cube))]
    same(shown(t, 'cube'), want, 'the cube is shown once, where it is, with its value', T + 'set')
    want = []
    if dice:
        want = [('field', PLAYER_STRING[action], 'die', None, 'right', str(rolled[0])), ('field', PLAYER_STRING[action], 'die', None, 'left', str(rolled[1]))]
    same(shown(t, 'die'), want, 'the dice are shown once, on the side of who rolled', T + 'set')
    want = []
    if offered:
        want = [('field', PLAYER_STRING[inner], 'resign', None, None, str(resign))]
    same(shown(t, 'resign'), want, 'an offered resignation is shown, on the side of who is to answer', T + 'set')
    acts = [c for e in inside(t.board) if e.name == 'match' for c in inside(e) if c.name == 'action']
    CHECK(len(acts) == 1, 'there is one action', T + 'create_tree')
    a = acts[0]
    CHECK(len(texts(a)) == 1 and texts(a)[0] != '', 'the action is described', T + 'set', texts(a))
    who = ' doubled' if doubled and inner != action else ''
    CHECK(attribute(a, 'player') == PLAYER_STRING[inner], 'the action names the player who is to act' + (' on a double by ' + PLAYER_STRING[action] if who else ''),
          T + 'set' + '', 'action', action, attribute(a, 'player'), PLAYER_STRING[inner])
    w = texts(a)[0]
    CHECK((PLAYER_STRING[inner] + ' to ') in w or (offered or who) and w.startswith(PLAYER_STRING[inner] + ' to '), 'the text says who is to act', T + 'set', w)
    other = HIM if inner == YOU else YOU
    CHECK((PLAYER_STRING[other] + ' to ') not in w, 'the text says who is to act', T + 'set', w)


def check_shape():
    """The parts of the board are there once, with no position and with one."""
    for t in (ElementTree(), ElementTree(Board(**attrs()))):
        names = []
        collect(t.board, names)
        for n, k in (('match', 1), ('position', 1), ('action', 1), ('length', 1), ('crawford', 1), ('score', 2), ('cubeholder', 1), ('field', 2), ('home', 2), ('bar', 2), ('point', 24)):
            CHECK(len([x for x in names if x[0] == n]) == k, 'every part of the board is there once', T + 'create_tree', n)
        for n in ('score', 'field', 'home', 'bar'):
            CHECK(sorted([x[1] for x in names if x[0] == n]) == sorted([PLAYER_STRING[YOU], PLAYER_STRING[HIM]]), 'both players have their parts', T + 'create_tree', n)
        pts = [x[2] for x in names if x[0] == 'point']
        for i in range(1, 25):
            CHECK([p for p in pts if p[0] == str(i)] != [], 'all points are there', T + 'create_tree', i)
        for x in names:
            if x[0] == 'point':
                CHECK(x[3] == ('odd' if int(x[2][0]) % 2 else 'even'), 'points alternate', T + 'create_tree', x[2], x[3])


def collect(e, out):
    for c in inside(e):
        out.append((c.name, attribute(c, 'player'), texts(c), attribute(c, 'parity')))
        collect(c, out)


def check_own():
    """Two trees share nothing."""
    a = ElementTree(Board(**attrs(position=((1,) + (0,) * 24, EMPTY))))
    b = ElementTree(Board(**attrs()))
    x = []
    y = []
    elements(a.board, x)
    elements(b.board, y)
    for p in x:
        for q in y:
            CHECK(p is not q, 'two trees share no element', T + 'create_tree', p.name)
            CHECK(p.children is not q.children, 'two elements share no children', 'bglib.image.base.BaseElement.__init__', p.name)
            CHECK(p.attributes is not q.attributes, 'two elements share no attributes', 'bglib.image.base.BaseElement.__init__', p.name)


def elements(e, out):
    out.append(e)
    for c in inside(e):
        elements(c, out)


def check_board_stays():
    """Showing a board leaves it alone."""
    d = attrs(position=((2,) + (0,) * 24, (3,) + (0,) * 24))
    b = Board(**d)
    ElementTree(b)
    for k in d:
        CHECK(getattr(b, k) == d[k], 'showing a board leaves it alone', T + 'set', k)
