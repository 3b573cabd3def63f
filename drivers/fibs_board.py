"""FIBS board lines: every field of the documented layout reaches the board attribute it describes."""
from bglib.encoding import FIBS
from bglib.encoding.FIBS import decode, _FIBSBoardState
from bglib.model.boardeditor import BoardEditor
from bglib.model.board import Board
from bglib.model.constants import YOU, HIM, CENTER, ON_GOING, FINISHED, RESIGN_NONE

DE = 'bglib.encoding.FIBS.decode'
BS = 'bglib.encoding.FIBS._FIBSBoardState'
# http://www.fibs.com/fibs_interface.html#board_state, in order
NAMES = ('you', 'him', 'matchlength', 'your_score', 'his_score') + ('board',) * 26 + (
    'turn', 'your_dice', 'your_dice', 'his_dice', 'his_dice', 'doubling_cube', 'you_may_double', 'he_may_double', 'was_doubled',
    'your_colour', 'your_direction', 'your_home', 'your_bar', 'your_chequers_on_home', 'his_chequers_on_home',
    'your_chequers_on_bar', 'his_chequers_on_bar', 'your_chequers_to_play', 'forced_move_and_did_crawford',
    'forced_move_and_did_crawford', 'redoubles')


def line(values):
    return ':'.join(['board', 'You', 'someplayer'] + [str(v) for v in values])


def numbers(**known):
    """Everything after the names; unknown numbers unless given."""
    out = []
    seen = {}
    for n in NAMES[2:]:
        i = seen.get(n, 0)
        seen[n] = i + 1
        if n in known:
            v = known[n]
            out.append(v[i] if isinstance(v, tuple) else v)
        else:
            out.append(SYM('%s%i' % (n, i), 0, 6))
    return out


def check_layout(name=('matchlength', 'your_score', 'his_score', 'board', 'turn', 'your_dice', 'his_dice', 'doubling_cube',
                       'you_may_double', 'he_may_double', 'was_doubled', 'your_colour', 'your_direction', 'your_home', 'your_bar',
                       'your_chequers_on_home', 'his_chequers_on_home', 'your_chequers_on_bar', 'his_chequers_on_bar',
                       'your_chequers_to_play', 'redoubles')):
    vs = numbers()
    want = [v for n, v in zip(NAMES[2:], vs) if n == name]
    got = getattr(_FIBSBoardState(line(vs)), name)
    CHECK(got == (want[0] if len(want) == 1 else tuple(want)), 'field-at-its-place', BS, name)


def check_names():
    b = _FIBSBoardState(line(numbers()))
    CHECK(b.you == 'You', 'field-at-its-place', BS, 'you')
    CHECK(b.him == 'someplayer', 'field-at-its-place', BS, 'him')


def owned(colour, pattern):
    """26 numbers: who owns each place is fixed, how many chequers is not."""
    out = []
    for i in range(26):
        mine = (pattern == 'mine' or pattern == 'even' and i % 2 == 0 or pattern == 'odd' and i % 2 == 1 or
                pattern == 'low' and i < 13 or pattern == 'high' and i > 12)
        n = SYM('n%i' % i, 1, 15)
        out.append(n * colour if mine else n * -colour)
    return tuple(out)


def check_position(colour=(1, -1), direction=(1, -1), pattern=('mine', 'his', 'even', 'odd', 'low', 'high', 'empty')):
    board = (0,) * 26 if pattern == 'empty' else owned(colour, pattern)
    vs = numbers(board=board, your_colour=colour, your_direction=direction, turn=colour, doubling_cube=1, was_doubled=0)
    y, h = _FIBSBoardState(line(vs)).position()
    CHECK(len(y) == 25 and len(h) == 25, 'shape', BS)
    for p in range(1, 26):
        # point p of the player moving down is place p, of the other 25 - p; 25 is the bar
        down, up = board[p], board[25 - p]
        mine, his = (down, up) if direction < 0 else (up, down)
        mine, his = mine * colour, his * -colour
        CHECK(y[p - 1] == (mine if mine > 0 else 0), 'point-of-each-player', BS, p)
        CHECK(h[p - 1] == (his if his > 0 else 0), 'point-of-each-player', BS, p)


def decoded(**kw):
    known = dict(board=(0,) * 26, doubling_cube=1, was_doubled=0, you_may_double=1, he_may_double=1, your_direction=-1,
                 your_colour=1, turn=1)
    known.update(kw)
    vs = numbers(**known)
    m = BoardEditor()
    decode(m, line(vs))
    return m, vs


def value(vs, name, i=0):
    return [v for n, v in zip(NAMES[2:], vs) if n == name][i]


def check_turn(colour=(1, -1), turn=(1, -1, 0), doubled=(0, 1)):
    m, vs = decoded(your_colour=colour, turn=turn, was_doubled=doubled)
    if turn == 0:
        CHECK(m.game_state == FINISHED, 'game-state', DE)
        CHECK(m.rolled == (0, 0), 'dice-of-the-player-on-turn', DE)
    else:
        who, name = (YOU, 'your_dice') if turn == colour else (HIM, 'his_dice')
        CHECK(m.game_state == ON_GOING, 'game-state', DE)
        CHECK(m.on_action == who, 'player-on-turn', DE)
        CHECK(m.on_inner_action == (who if not doubled else HIM if who == YOU else YOU), 'player-to-answer', DE)
        CHECK(m.rolled == (value(vs, name, 0), value(vs, name, 1)), 'dice-of-the-player-on-turn', DE)
        CHECK(m.doubled == bool(doubled), 'doubled', DE)


def check_cube(mine=(0, 1), his=(0, 1)):
    m, vs = decoded(you_may_double=mine, he_may_double=his)
    CHECK(m.cube_owner == (CENTER if mine == his else YOU if mine else HIM), 'cube-owner', DE)
    CHECK(m.crawford == (not mine and not his), 'crawford', DE)


def check_cube_value(n=range(0, 11)):
    m, vs = decoded(doubling_cube=1 << n)
    CHECK(m.cube_in_logarithm == n, 'cube-value', DE)


def check_match():
    m, vs = decoded()
    CHECK(m.match_length == value(vs, 'matchlength'), 'match', DE)
    CHECK(m.score == (value(vs, 'your_score'), value(vs, 'his_score')), 'match', DE)
    CHECK(m.resign_offer == RESIGN_NONE, 'nothing-else-changes', DE)

