"""The byte form kept in a database: an immutable, lossless copy of a board."""
from bglib.encoding.dbbyte import (DatabaseBytesExpression, encode_position, decode_position, signedchr, signedord, distance)
from bglib.model.board import Board
from bglib.model.boardeditor import BoardEditor
from bglib.model.constants import YOU, HIM, CENTER

DB = 'bglib.encoding.dbbyte.DatabaseBytesExpression'
M = 'bglib.encoding.dbbyte.'
KEYS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
        'doubled', 'resign_offer', 'rolled', 'match_length', 'score')


def board(who, position):
    return Board(game_state=SYM('game_state', 0, 4), on_action=who, on_inner_action=ENUM('on_inner_action', YOU, HIM),
                 doubled=ENUM('doubled', False, True), crawford=ENUM('crawford', False, True),
                 resign_offer=SYM('resign_offer', 0, 3), rolled=(SYM('die1', 0, 6), SYM('die2', 0, 6)),
                 match_length=SYM('match_length', 0, None), score=(SYM('your_score', 0, None), SYM('his_score', 0, None)),
                 cube_in_logarithm=SYM('cube', 0, None), cube_owner=ENUM('cube_owner', YOU, HIM, CENTER),
                 position=position)


def zeros():
    return [0 for i in range(25)]


def place(which, n):
    """A position with an unknown number of one player's chequers on point n."""
    y, h = zeros(), zeros()
    (y if which == YOU else h)[n] = SYM('n', 1, 15)
    return tuple(y), tuple(h)


def check_byte():
    n = SYM('n', -128, 127)
    CHECK(signedord(signedchr(n)) == n, 'byte-roundtrip', M + 'signedord')


def check_byte_range():
    n = SYM('n', -15, 15)
    c = signedchr(n)
    CHECK(len(c) == 1, 'one-byte', M + 'signedchr')


def check_position(which=(YOU, HIM), n=range(0, 25)):
    p = place(which, n)
    s = encode_position(p)
    CHECK(len(s) == 26, 'length', M + 'encode_position')
    CHECK(decode_position(s) == p, 'position-roundtrip', M + 'decode_position')


def check_both(n=range(0, 25), m=range(0, 25)):
    """One point of each player (never the same point of the board)."""
    if n < 24 and m < 24 and n + m == 23:
        CHECK(True, 'position-roundtrip', M + 'decode_position')
        return
    y, h = zeros(), zeros()
    y[n] = SYM('n', 1, 15)
    h[m] = SYM('m', 1, 15)
    p = (tuple(y), tuple(h))
    CHECK(decode_position(encode_position(p)) == p, 'position-roundtrip', M + 'decode_position')


def check_full(pattern=('yours', 'his', 'even', 'odd', 'near', 'far')):
    """A whole position: who owns each point is fixed, every number of chequers is unknown."""
    y, h = zeros(), zeros()
    for i in range(24):
        mine = (pattern == 'yours' or pattern == 'even' and i % 2 == 0 or pattern == 'odd' and i % 2 == 1 or
                pattern == 'near' and i < 9 or pattern == 'far' and i > 14)
        if mine:
            y[i] = SYM('y%i' % i, 1, 15)
        else:
            h[23 - i] = SYM('h%i' % (23 - i), 1, 15)
    y[24] = SYM('ybar', 1, 15)
    h[24] = SYM('hbar', 1, 15)
    p = (tuple(y), tuple(h))
    s = encode_position(p)
    CHECK(len(s) == 26, 'length', M + 'encode_position')
    CHECK(decode_position(s) == p, 'position-roundtrip', M + 'decode_position')


def check_board(who=(YOU, HIM), which=(YOU, HIM), n=(0, 3, 12, 23, 24)):
    b = board(who, place(which, n))
    e = DatabaseBytesExpression(b)
    for k in KEYS:
        if k != 'position':
            CHECK(getattr(e, k) == getattr(b, k), 'attributes-kept', DB, k)
    r = e.tomodel()
    CHECK(isinstance(r, Board), 'gives-a-board', DB)
    for k in KEYS:
        CHECK(getattr(r, k) == getattr(b, k), 'board-roundtrip', DB, k)


def check_mover_relative(which=(YOU, HIM), n=range(0, 25)):
    """The bytes are seen from the player on action."""
    y, h = place(which, n)
    a = DatabaseBytesExpression(board(YOU, (y, h)))
    b = DatabaseBytesExpression(board(HIM, (h, y)))
    CHECK(a.position == b.position, 'seen-from-the-player-on-action', DB)


def check_default():
    e = DatabaseBytesExpression()
    for k in KEYS:
        if k != 'position':
            CHECK(getattr(e, k) == Board.defaults[k], 'default-board', DB, k)
    CHECK(e.tomodel().position == Board.defaults['position'], 'default-board', DB)


def check_immutable(key=KEYS + ('anything_else',)):
    b = board(YOU, place(YOU, 5))
    e = DatabaseBytesExpression(b)
    try:
        setattr(e, key, 0)
    except (TypeError, AttributeError):
        refused = True
    else:
        refused = False
    CHECK(refused, 'immutable', DB, key)
    for k in KEYS:
        if k != 'position':
            CHECK(getattr(e, k) == getattr(b, k), 'immutable', DB, k)
    CHECK(e.tomodel().position == b.position, 'immutable', DB)


def check_unknown_attribute():
    e = DatabaseBytesExpression(board(YOU, place(YOU, 5)))
    try:
        e.no_such_attribute
    except AttributeError:
        refused = True
    else:
        refused = False
    CHECK(refused, 'unknown-attribute', DB)


def one(which, i, n):
    y, h = zeros(), zeros()
    (y if which == YOU else h)[i] = n
    return encode_position((tuple(y), tuple(h)))


def check_distance(which=(YOU, HIM), i=(0, 7, 23, 24)):
    """The sum of the squares of the differences, point by point; nothing between equal positions."""
    n = SYM('n', 1, 15)
    m = SYM('m', 1, 15)
    a = one(which, i, n)
    b = one(which, i, m)
    CHECK(distance(a, a) == 0, 'distance-to-self', M + 'distance')
    d = distance(a, b)
    CHECK(d == (n - m) ** 2 or d == (m - n) ** 2, 'sum-of-squares', M + 'distance')


def check_distance_points(which=(YOU, HIM), i=(0, 7, 23, 24), other=(YOU, HIM), j=(3, 12, 20)):
    """Chequers on different points, of either player, add up."""
    n = SYM('n', 1, 15)
    a = one(which, i, n)
    b = one(other, j, 2)
    d = distance(a, b)
    if which != other and i < 24 and i + j == 23:
        want = (n + 2) ** 2
    else:
        want = n ** 2 + 4
    CHECK(d == want or d == 4 + n ** 2, 'sum-of-squares', M + 'distance')
