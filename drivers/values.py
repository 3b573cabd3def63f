"""Boards as values: immutable, compared by every attribute, copied without sharing;
point names; dice bookkeeping."""
import copy
from bglib.model.board import Board, AbstractBoard
from bglib.model.boardeditor import BoardEditor
from bglib.model.move import AvailableToPlay, PartialMove, Move, MoveFactory
from bglib.model import util
from bglib.model.constants import (YOU, HIM, CENTER, NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT,
                                   RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON, BAR, OFF)

BD = 'bglib.model.board.Board.'
AB = 'bglib.model.board.AbstractBoard.'
ED = 'bglib.model.boardeditor.BoardEditor.'
UT = 'bglib.model.util.'
AV = 'bglib.model.move.AvailableToPlay.'
MV = 'bglib.model.move.Move.'
KEYS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
        'doubled', 'resign_offer', 'rolled', 'match_length', 'score')


def side(name):
    return tuple([SYM('%s%i' % (name, i), 0, 15) for i in range(25)])


def attrs(p):
    return dict(game_state=ENUM(p + 'game_state', NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT),
                on_action=ENUM(p + 'on_action', YOU, HIM),
                on_inner_action=ENUM(p + 'on_inner_action', YOU, HIM),
                doubled=ENUM(p + 'doubled', False, True),
                crawford=ENUM(p + 'crawford', False, True),
                resign_offer=ENUM(p + 'resign_offer', RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON),
                rolled=(SYM(p + 'die1', 0, 6), SYM(p + 'die2', 0, 6)),
                match_length=SYM(p + 'match_length', 0, None),
                score=(SYM(p + 'your_score', 0, None), SYM(p + 'his_score', 0, None)),
                cube_in_logarithm=SYM(p + 'cube', 0, None),
                cube_owner=ENUM(p + 'cube_owner', YOU, HIM, CENTER),
                position=(side(p + 'y'), side(p + 'h')))


def check_attributes():
    """The attributes compared and dumped are exactly the twelve of a game."""
    for k in KEYS:
        CHECK(k in AbstractBoard.defaults, 'attribute-set', AB + 'defaults', k)


def check_construct(key=KEYS):
    d = attrs('a')
    b = Board(**d)
    CHECK(getattr(b, key) == d[key], 'keeps-what-it-was-given', BD + '__new__', key)
    e = BoardEditor(b)
    CHECK(getattr(e, key) == d[key], 'edit-starts-equal', ED + '__init__', key)
    f = e.freeze()
    CHECK(isinstance(f, Board), 'freeze-gives-board', ED + 'freeze')
    CHECK(getattr(f, key) == d[key], 'freeze-keeps', ED + 'freeze', key)
    c = copy.copy(b)
    CHECK(getattr(c, key) == d[key], 'copy-equal', BD + '__copy__', key)


def check_defaults(key=KEYS):
    b = Board()
    CHECK(getattr(b, key) == AbstractBoard.defaults[key], 'default', BD + '__new__', key)
    e = BoardEditor()
    CHECK(getattr(e, key) == AbstractBoard.defaults[key], 'default', ED + '__init__', key)
    CHECK(getattr(b, key) == START[key], 'a board made of nothing is the start of a money game', AB + 'defaults', key)


START = dict(position=((0, 0, 0, 0, 0, 5, 0, 3, 0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0),) * 2, cube_in_logarithm=0, cube_owner=CENTER, on_action=YOU,
             crawford=False, game_state=NOT_STARTED, on_inner_action=YOU, doubled=False, resign_offer=RESIGN_NONE, rolled=(0, 0), match_length=0, score=(0, 0))


def check_dump(key=KEYS):
    """The text of a position tells every attribute."""
    for b in (Board(), Board(score=(SYM('a'), SYM('b')), cube_in_logarithm=SYM('c'), crawford=True, doubled=True)):
        CHECK(key + ': ' + str(getattr(b, key)) in b.__repr__(), 'the text of a position tells every attribute', AB + '__repr__', key)


def check_immutable(key=KEYS + ('anything_else',), how=('set', 'delete')):
    d = attrs('a')
    b = Board(**d)
    try:
        if how == 'set':
            setattr(b, key, 1)
        else:
            delattr(b, key)
    except TypeError:
        ok = True
    else:
        ok = False
    CHECK(ok, 'attribute-' + how + '-refused', BD + '__setattr__', key)
    for k in KEYS:
        CHECK(getattr(b, k) == d[k], 'unchanged', BD + '__setattr__', k)


def check_unknown_attribute():
    try:
        Board(no_such_attribute=1)
    except AssertionError:
        ok = True
    except TypeError:
        ok = True
    else:
        ok = False
    CHECK(ok, 'unknown-attribute-refused', BD + '__new__')


def check_editor_isolated(key=KEYS, src=('board', 'editor', 'defaults')):
    """Editing never reaches the source of the editor, nor a board frozen earlier."""
    d = attrs('a')
    if src == 'board':
        b = Board(**d)
    elif src == 'editor':
        b = BoardEditor(Board(**d))
    else:
        b = None
        d = dict(AbstractBoard.defaults)
    e = BoardEditor(b)
    f = e.freeze()
    v = TERM('new')
    setattr(e, key, v)
    CHECK(SAME(getattr(e, key), v), 'edit-takes', ED + '__setattr__', key)
    for k in KEYS:
        if k != key:
            CHECK(getattr(e, k) == d[k], 'edit-touches-one', ED + '__setattr__', k)
        if b is not None:
            CHECK(getattr(b, k) == d[k], 'source-unchanged', ED + '__init__', k)
        CHECK(getattr(f, k) == d[k], 'frozen-unchanged', ED + 'freeze', k)
        CHECK(getattr(BoardEditor(), k) == INITIAL(k), 'defaults-unchanged', ED + '__init__', k)


def INITIAL(k):
    return getattr(Board(), k)


def check_editor_arguments(key=KEYS):
    """Keyword arguments override the source, one by one."""
    d = attrs('a')
    n = attrs('b')
    e = BoardEditor(Board(**d), **dict([(key, n[key])]))
    for k in KEYS:
        if k == key:
            CHECK(getattr(e, k) == n[k], 'argument-overrides', ED + '__init__', k)
        else:
            CHECK(getattr(e, k) == d[k], 'rest-from-source', ED + '__init__', k)


def check_equality(key=KEYS):
    """Equal iff every attribute is; != is the negation; equal boards hash alike."""
    d = attrs('a')
    x, y = Board(**d), Board(**d)
    CHECK(x == y, 'equal-when-same', AB + '__eq__')
    CHECK(not (x != y), 'ne-negates-eq', AB + '__ne__')
    CHECK(hash(x) == hash(y), 'equal-hash-equal', BD + '__hash__')
    n = attrs('b')
    z = Board(**dict(d, **dict([(key, n[key])])))
    if n[key] == d[key]:
        CHECK(x == z, 'equal-when-same', AB + '__eq__', key)
        CHECK(not (x != z), 'ne-negates-eq', AB + '__ne__', key)
    else:
        CHECK(not (x == z), 'differs-when-one-differs', AB + '__eq__', key)
        CHECK(x != z, 'ne-negates-eq', AB + '__ne__', key)
    e, g = BoardEditor(x), BoardEditor(z)
    if n[key] == d[key]:
        CHECK(e == g, 'equal-when-same', AB + '__eq__', key)
    else:
        CHECK(e != g, 'differs-when-one-differs', AB + '__ne__', key)


def check_equality_foreign():
    for o in (None, 1, 'board'):
        try:
            r = Board() == o
        except TypeError:
            r = False
        CHECK(not r, 'never-equals-a-non-board', AB + '__eq__')


# ------------------------------------------------------------------ point notation
def check_points(who=(YOU, HIM), n=range(-1, 25)):
    s = util.position_ntop(n, who)
    CHECK(util.position_pton(s, who) == n, 'position-name-inverse', UT + 'position_ntop', n, s)
    m = util.move_ntop(n)
    CHECK(util.move_pton(m) == n, 'move-name-inverse', UT + 'move_ntop', n, m)
    if 0 <= n and n < 24:
        CHECK(util.flip_point(util.flip_point(n)) == n, 'flip-involution', UT + 'flip_point', n)
        CHECK(util.position_ntop(n, YOU) == util.position_ntop(util.flip_point(n), HIM), 'two-views-one-point',
              UT + 'position_ntop', n)
        CHECK(util.position_ntop(n, YOU) == m, 'move-uses-own-view', UT + 'move_ntop', n)


def check_usual_names(n=range(-1, 25)):
    """The names are the ones players use."""
    CHECK(util.move_ntop(n) == ('off' if n == -1 else 'bar' if n == 24 else str(n + 1)), 'the usual names', UT + 'move_ntop', n)
    for who, whose in ((YOU, 'your'), (HIM, 'his')):
        want = whose + ' home' if n == -1 else whose + ' bar' if n == 24 else str(n + 1) if who == YOU else str(24 - n)
        CHECK(util.position_ntop(n, who) == want, 'the usual names', UT + 'position_ntop', n, who)
    if 0 <= n and n < 24:
        x = SYM('x', None, None)
        ASSUME(x != YOU and x != HIM)
        CHECK(raises(util.position_ntop, n, x), 'non-player-refused', UT + 'position_ntop', n)


def check_names_distinct(n=range(-1, 25), m=range(-1, 25)):
    if n != m:
        for who in (YOU, HIM):
            CHECK(util.position_ntop(n, who) != util.position_ntop(m, who), 'names-distinct', UT + 'position_ntop', n, m)
        CHECK(util.move_ntop(n) != util.move_ntop(m), 'names-distinct', UT + 'move_ntop', n, m)
    else:
        CHECK(True, 'names-distinct', UT + 'move_ntop')


def raises(f, *a):
    try:
        f(*a)
    except ValueError:
        return True
    return False


def check_reject_high(who=(YOU, HIM)):
    n = SYM('n', 25, None)
    CHECK(raises(util.position_ntop, n, who), 'out-of-range-refused', UT + 'position_ntop')
    CHECK(raises(util.move_ntop, n), 'out-of-range-refused', UT + 'move_ntop')


def check_reject_name(who=(YOU, HIM), p=('0', '25', '26', '-1', '-2', '100')):
    CHECK(raises(util.position_pton, p, who), 'out-of-range-refused', UT + 'position_pton', p)
    if p in ('26', '-1', '-2', '100'):
        CHECK(raises(util.move_pton, p), 'out-of-range-refused', UT + 'move_pton', p)


def check_reject_text(who=(YOU, HIM)):
    for p in ('', 'bar ', 'Bar', 'x', '3x', 'your', 'his point'):
        CHECK(raises(util.position_pton, p, who), 'nonsense-refused', UT + 'position_pton', p)
        CHECK(raises(util.move_pton, p), 'nonsense-refused', UT + 'move_pton', p)


def check_opponent():
    CHECK(util.get_opp(YOU) == HIM, 'opponent', UT + 'get_opp')
    CHECK(util.get_opp(HIM) == YOU, 'opponent', UT + 'get_opp')
    x = SYM('x', None, None)
    ASSUME(x != YOU and x != HIM)
    CHECK(raises(util.get_opp, x), 'non-player-refused', UT + 'get_opp')


# ------------------------------------------------------------------ dice
def count(av):
    t = 0
    for d in range(1, 7):
        t = t + av[d]
    return t


def check_roll(a=range(1, 7), b=range(1, 7)):
    av = AvailableToPlay((a, b))
    for d in range(1, 7):
        if a == b:
            want = 4 if d == a else 0
        else:
            want = 1 if d == a or d == b else 0
        CHECK(av[d] == want, 'roll-gives-dice', AV + '__init__', a, b, d)
        CHECK((d in av) == (want > 0), 'contains-iff-left', AV + '__contains__', d)
    CHECK(len(av) == (4 if a == b else 2), 'length-counts', AV + '__len__')
    CHECK(av.is_doubles() == (a == b), 'doubles', AV + 'is_doubles')
    CHECK(av.get_max() == max(a, b), 'largest', AV + 'get_max')


def check_no_roll():
    av = AvailableToPlay((0, 0))
    CHECK(len(av) == 0, 'nothing-rolled', AV + '__init__')
    CHECK(av.get_max() is None, 'nothing-rolled', AV + 'get_max')


def anydice():
    av = AvailableToPlay((0, 0))
    for d in range(1, 7):
        av[d] = SYM('left%i' % d, 0, 4)
    return av


def check_consume(die=range(1, 7)):
    av = anydice()
    old = [av[d] for d in range(1, 7)]
    n = len(av)
    had = die in av
    try:
        av.consume(die)
    except Exception:
        CHECK(not had, 'consume-refuses-only-missing', AV + 'consume', die)
        CHECK([av[d] for d in range(1, 7)] == old, 'refused-unchanged', AV + 'consume')
        return
    CHECK(had, 'consume-needs-a-die', AV + 'consume', die)
    for d in range(1, 7):
        CHECK(av[d] == old[d - 1] - (1 if d == die else 0), 'consume-one', AV + 'consume', d)
    CHECK(len(av) == n - 1, 'length-counts', AV + '__len__')
    av.add(die)
    for d in range(1, 7):
        CHECK(av[d] == old[d - 1], 'add-inverts-consume', AV + 'add', d)
    CHECK(len(av) == n, 'length-counts', AV + '__len__')


def check_dice_copy(die=range(1, 7)):
    av = anydice()
    ASSUME(die in av)
    c = AvailableToPlay(copy_src=av)
    for d in range(1, 7):
        CHECK(c[d] == av[d], 'copy-equal', AV + '__init__', d)
    old = av[die]
    c.consume(die)
    CHECK(av[die] == old, 'copy-independent', AV + '__init__', die)
    c.add(die)
    c.add(die)
    CHECK(av[die] == old, 'copy-independent', AV + '__init__', die)


def check_max():
    av = anydice()
    m = av.get_max()
    if m is None:
        for d in range(1, 7):
            CHECK(av[d] == 0, 'largest', AV + 'get_max', d)
        CHECK(len(av) == 0, 'largest', AV + 'get_max')
    else:
        CHECK(av[m] > 0, 'largest', AV + 'get_max')
        for d in range(1, 7):
            if d > m:
                CHECK(av[d] == 0, 'largest', AV + 'get_max', d)


def check_bad_die():
    av = AvailableToPlay((6, 5))
    for d in (0, 7, -1):
        try:
            av.add(d)
        except AssertionError:
            CHECK(True, 'no-such-die', AV + 'add')
        else:
            CHECK(False, 'no-such-die', AV + 'add', d)


# ------------------------------------------------------------------ move lists
def key(pm):
    return (pm.die, pm.src, pm.dest, pm.is_hitting)


def check_move_list():
    """A move is the list of its parts in order; a part and its inverse cancel, nothing else does."""
    p = PartialMove(5, 23, 18, True)
    q = PartialMove(6, 18, 12, False)
    m = Move()
    m.append(p)
    m.append(q)
    CHECK([key(x) for x in m] == [key(p), key(q)], 'keeps-order', MV + 'append')
    CHECK(len(m) == 2, 'length', MV + '__len__')
    c = Move(src=m)
    c.append(PartialMove(6, 12, 18, False))
    CHECK([key(x) for x in c] == [key(p)], 'undo-cancels-last', MV + 'append')
    CHECK([key(x) for x in m] == [key(p), key(q)], 'copy-independent', MV + '__init__')
    c.append(PartialMove(5, 18, 23, True))
    CHECK(len(c) == 0, 'undo-cancels-last', MV + 'append')
    for r in (PartialMove(5, 12, 18, False), PartialMove(6, 12, 18, True), PartialMove(6, 11, 18, False),
              PartialMove(6, 12, 17, False), PartialMove(6, 18, 12, False)):
        c = Move(src=m)
        c.append(r)
        CHECK(len(c) == 3, 'only-the-inverse-cancels', MV + 'append', key(r))
    t = Move()
    t.add(m)
    CHECK([key(x) for x in t] == [key(p), key(q)], 'add-appends-all', MV + 'add')


def check_inverse():
    """are_invertible_element holds exactly for the reversed part."""
    p = PartialMove(SYM('die', 1, 6), SYM('s', -1, 24), SYM('d', -1, 24), ENUM('h', False, True))
    q = PartialMove(SYM('die2', 1, 6), SYM('s2', -1, 24), SYM('d2', -1, 24), ENUM('h2', False, True))
    got = p.are_invertible_element(q)
    want = p.die == q.die and p.src == q.dest and p.dest == q.src and p.is_hitting == q.is_hitting
    a = 'bglib.model.move.PartialMove.are_invertible_element'
    if got:
        CHECK(want, 'inverse-table', a)
    else:
        CHECK(not want, 'inverse-table', a)


def check_direction():
    p = PartialMove(SYM('die', 1, 6), SYM('s', -1, 24), SYM('d', -1, 24), False)
    u, n = p.is_undo(), p.is_dance()
    a = 'bglib.model.move.PartialMove.is_undo'
    if u:
        CHECK(p.dest > p.src, 'direction', a)
    else:
        CHECK(p.dest <= p.src, 'direction', a)
    CHECK(not (u and n), 'direction', a)
    if n:
        CHECK(p.dest == p.src, 'direction', a)
    else:
        CHECK(p.dest != p.src, 'direction', a)
