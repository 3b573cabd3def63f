"""XGIDs: one XG player becomes one bglib player in every field; malformed text is refused."""
from bglib.encoding import EncodingError, DecodeError, InconsistentData
from bglib.encoding.xgid import decode, decode_position
from bglib.model.boardeditor import BoardEditor
from bglib.model.board import Board
from bglib.model.constants import YOU, HIM, CENTER, ON_GOING

DE = 'bglib.encoding.xgid.decode'
DP = 'bglib.encoding.xgid.decode_position'
# XG writes its lower case player as -1, the upper case player as 1
USED = 7    # no player
LOWER, UPPER = '-abcdefghijklmno', '-ABCDEFGHIJKLMNO'
WHO = ((-1, YOU), (1, HIM))
EMPTY = '-' * 26


def text(position=EMPTY, cube='0', owner='0', turn='1', roll='00', a='0', b='0', flag='0', length='0', cmax='10'):
    return ':'.join([position, cube, owner, turn, roll, a, b, flag, length, cmax])


def point(n, c):
    return '-' * n + c + '-' * (25 - n)


def check_lower(n=range(0, 26), c=range(1, 16)):
    """n chequers of the lower case player on a point: 0 is his bar, 24..1 his points 1..24 seen by the other."""
    if n == 25:
        CHECK(True, 'chequers-of-each-player', DP)
        return
    p = decode_position(point(n, LOWER[c]))
    CHECK(len(p) == 2 and len(p[0]) == 25 and len(p[1]) == 25, 'shape', DP)
    for i in range(25):
        CHECK(p[YOU][i] == (c if i == 24 - n else 0), 'chequers-of-each-player', DP, i)
        CHECK(p[HIM][i] == 0, 'chequers-of-each-player', DP, i)


def check_upper(n=range(0, 26), c=range(1, 16)):
    if n == 0:
        CHECK(True, 'chequers-of-each-player', DP)
        return
    p = decode_position(point(n, UPPER[c]))
    CHECK(len(p) == 2 and len(p[0]) == 25 and len(p[1]) == 25, 'shape', DP)
    for i in range(25):
        CHECK(p[HIM][i] == (c if i == n - 1 else 0), 'chequers-of-each-player', DP, i)
        CHECK(p[YOU][i] == 0, 'chequers-of-each-player', DP, i)


def run(s):
    """Decode into a fresh board and into a used one: (refused, board)."""
    e = BoardEditor()
    u = BoardEditor()
    u.position = ((1,) * 25, (2,) * 25)
    u.cube_in_logarithm = 9
    u.cube_owner = USED
    u.on_action = USED
    u.on_inner_action = USED
    u.rolled = (7, 7)
    u.score = (77, 78)
    u.match_length = 79
    u.crawford = True
    bad = refused(e, s)
    CHECK(refused(u, s) == bad, 'what was there before does not matter', DE, s)
    if not bad:
        for k in ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'on_inner_action', 'rolled', 'score', 'match_length', 'crawford'):
            CHECK(getattr(u, k) == getattr(e, k), 'what was there before does not matter', DE, k)
    return bad, e


def refused(e, s):
    try:
        decode(e, s)
    except EncodingError:
        return True
    return False


def check_length(n=(0, 1, 25, 27, 52)):
    bad, e = run(text(position='-' * n))
    CHECK(bad, 'wrong-position-length-refused', DP)


def check_fields(n=(1, 2, 8, 9, 11, 12, 20)):
    bad, e = run(':'.join(['0'] * n))
    CHECK(bad, 'wrong-number-of-fields-refused', DE)


def check_empty(s=('', None)):
    bad, e = run(s)
    CHECK(bad, 'empty-refused', DE)


def isint(w):
    try:
        int(w)
    except ValueError:
        return False
    return True


def check_cube(turn=('1', '-1'), owner=('0', '1', '-1')):
    w = WORD('w')
    bad, e = run(text(cube=w, turn=turn, owner=owner))
    CHECK(bad == (not isint(w)), 'non-number-refused', DE, 'cube')
    if not bad:
        CHECK(e.cube_in_logarithm == int(w), 'field-kept', DE, 'cube')


def check_owner(turn=('1', '-1'), cube=('0', '3')):
    w = WORD('w')
    bad, e = run(text(owner=w, turn=turn, cube=cube))
    ok = isint(w) and (int(w) == 0 or int(w) == 1 or int(w) == -1)
    CHECK(bad == (not ok), 'bad-cube-owner-refused', DE)
    if not bad:
        CHECK(e.cube_owner == (CENTER if int(w) == 0 else YOU if int(w) == -1 else HIM), 'one-player-throughout', DE, 'cube owner')


def check_turn():
    w = WORD('w')
    bad, e = run(text(turn=w))
    ok = isint(w) and (int(w) == 1 or int(w) == -1)
    CHECK(bad == (not ok), 'bad-turn-refused', DE)
    if not bad:
        who = YOU if int(w) == -1 else HIM
        CHECK(e.on_action == who, 'one-player-throughout', DE, 'turn')
        CHECK(e.on_inner_action == who, 'one-player-throughout', DE, 'inner turn')


def check_turn_short(w=('1', '-1')):
    bad, e = run(text(turn=w))
    CHECK(not bad, 'valid-accepted', DE)
    CHECK(e.on_action == (YOU if w == '-1' else HIM), 'one-player-throughout', DE, 'turn')


def check_roll(turn=('1', '-1')):
    a, b = CHAR('a'), CHAR('b')
    bad, e = run(text(roll=a + b, turn=turn))
    CHECK(bad == (not (isint(a) and isint(b))), 'bad-roll-refused', DE)
    if not bad:
        CHECK(e.rolled == (int(a), int(b)), 'field-kept', DE, 'roll')


def check_roll_length(w=('', '1', '123')):
    bad, e = run(text(roll=w))
    CHECK(bad, 'bad-roll-refused', DE)


def check_score(turn=('1', '-1'), owner=('0', '1', '-1'), flag='01', length=('0', '5')):
    a, b = WORD('a'), WORD('b')
    bad, e = run(text(a=a, b=b, turn=turn, owner=owner, flag=flag, length=length))
    CHECK(bad == (not (isint(a) and isint(b))), 'bad-score-refused', DE)
    if not bad:
        # the upper case player's points are written first
        CHECK(e.score[HIM] == int(a), 'one-player-throughout', DE, 'score')
        CHECK(e.score[YOU] == int(b), 'one-player-throughout', DE, 'score')


def check_match(turn=('1', '-1')):
    f, l = WORD('flag'), WORD('length')
    bad, e = run(text(flag=f, length=l, turn=turn))
    ok = isint(f) and isint(l) and int(l) >= 0 and 0 <= int(f) and int(f) <= (3 if int(l) == 0 else 1)
    CHECK(bad == (not ok), 'bad-match-refused', DE)
    if not bad:
        CHECK(e.match_length == int(l), 'field-kept', DE, 'match length')
        CHECK(e.crawford == (int(l) > 0 and int(f) == 1), 'crawford-only-in-matches', DE)


def check_all(owner=('1', '-1'), turn=('1', '-1')):
    """Everything at once: the fields do not disturb each other."""
    cube, a, b, x, y = WORD('cube'), WORD('a'), WORD('b'), CHAR('x'), CHAR('y')
    s = text(position=point(6, 'e'), cube=cube, owner=owner, turn=turn, roll=x + y, a=a, b=b, flag='1', length='7', cmax=WORD('cmax'))
    ok = isint(cube) and isint(a) and isint(b) and isint(x) and isint(y)
    bad, e = run(s)
    CHECK(bad == (not ok), 'refused-iff-malformed', DE)
    if not bad:
        CHECK(e.position == decode_position(point(6, 'e')), 'field-kept', DE, 'position')
        CHECK(e.cube_in_logarithm == int(cube), 'field-kept', DE, 'cube')
        CHECK(e.cube_owner == (YOU if owner == '-1' else HIM), 'one-player-throughout', DE, 'cube owner')
        CHECK(e.on_action == (YOU if turn == '-1' else HIM), 'one-player-throughout', DE, 'turn')
        CHECK(e.rolled == (int(x), int(y)), 'field-kept', DE, 'roll')
        CHECK(e.score == (int(b), int(a)), 'one-player-throughout', DE, 'score')
        CHECK(e.match_length == 7, 'field-kept', DE, 'match length')
        CHECK(e.crawford, 'crawford-only-in-matches', DE)
        CHECK(e.game_state == ON_GOING, 'game-going-on', DE)
        for k in ('doubled', 'resign_offer'):
            CHECK(getattr(e, k) == Board.defaults[k], 'nothing-else-changes', DE, k)
