"""Decision tables for who may do what, stated independently of the code and compared
on every combination of board attributes; and the same table with the players swapped."""
from bglib.model.board import Board
from bglib.model.boardeditor import BoardEditor
from bglib.model.constants import (YOU, HIM, CENTER, NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT, MONEY_GAME,
                                   RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON, BAR, OFF)

B = 'bglib.model.board.AbstractBoard.'


def attrs(**kw):
    d = dict(game_state=ENUM('game_state', NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT),
             on_action=ENUM('on_action', YOU, HIM),
             on_inner_action=ENUM('on_inner_action', YOU, HIM),
             doubled=ENUM('doubled', False, True),
             crawford=ENUM('crawford', False, True),
             resign_offer=ENUM('resign_offer', RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON),
             rolled=(SYM('die1', 0, 6), SYM('die2', 0, 6)),
             match_length=SYM('match_length', 0, None),
             score=(SYM('your_score', 0, None), SYM('his_score', 0, None)),
             cube_in_logarithm=SYM('cube', 0, None),
             cube_owner=ENUM('cube_owner', YOU, HIM, CENTER))
    d.update(kw)
    return d


def same(got, want, rule, anchor):
    if got:
        CHECK(want, rule, anchor, 'code says yes, rule says no')
    else:
        CHECK(not want, rule, anchor, 'code says no, rule says yes')


def classes():
    return (Board, BoardEditor)


def make(cls, d):
    if cls is Board:
        return Board(**d)
    return BoardEditor(Board(**d))


def check_roll():
    for cls in classes():
        for who in (YOU, HIM):
            b = make(cls, attrs())
            got = b.is_leagal_to_roll(who)
            same(got, b.game_state == ON_GOING and b.resign_offer == RESIGN_NONE and b.rolled == (0, 0)
                 and b.on_action == who and b.on_inner_action == who, 'roll-table', B + 'is_leagal_to_roll')


def check_move():
    for cls in classes():
        for who in (YOU, HIM):
            b = make(cls, attrs())
            got = b.is_leagal_to_move(who)
            same(got, b.game_state == ON_GOING and b.resign_offer == RESIGN_NONE and b.rolled != (0, 0)
                 and b.on_action == who and b.on_inner_action == who, 'move-table', B + 'is_leagal_to_move')


def check_roll_excludes_move():
    for who in (YOU, HIM):
        b = make(Board, attrs())
        r = b.is_leagal_to_roll(who)
        m = b.is_leagal_to_move(who)
        CHECK(not (r and m), 'roll-xor-move', B + 'is_leagal_to_roll')


def check_double():
    for cls in classes():
        for who in (YOU, HIM):
            b = make(cls, attrs(game_state=ON_GOING, rolled=(0, 0)))
            got = b.is_leagal_to_double(who)
            mine = b.score[who]
            same(got, (not b.crawford) and (not b.doubled) and b.on_action == who and b.on_inner_action == who
                 and (b.cube_owner == CENTER or b.cube_owner == who)
                 and (b.match_length == MONEY_GAME or mine + pow(2, b.cube_in_logarithm) < b.match_length),
                 'double-table', B + 'is_leagal_to_double')


def check_double_refused():
    """With dice on the board, or no game going on, the answer is never yes."""
    for who in (YOU, HIM):
        b = make(Board, attrs())
        ASSUME(b.game_state != ON_GOING or b.rolled != (0, 0))
        try:
            got = b.is_leagal_to_double(who)
        except AssertionError:
            got = False
        CHECK(not got, 'double-only-before-roll', B + 'is_leagal_to_double')


def check_take():
    for cls in classes():
        for who in (YOU, HIM):
            b = make(cls, attrs())
            want = b.doubled and b.on_inner_action == who and b.on_action != who
            same(b.is_cube_take_or_pass(who), want, 'take-table', B + 'is_cube_take_or_pass')
            b = make(cls, attrs())
            want = b.doubled and b.on_inner_action == who and b.on_action != who and b.match_length == MONEY_GAME
            same(b.is_leagal_to_redouble(who), want, 'redouble-table', B + 'is_leagal_to_redouble')


def check_resign():
    for cls in classes():
        for who in (YOU, HIM):
            b = make(cls, attrs())
            same(b.is_leagal_to_resign(who), b.on_action == who and b.on_inner_action == who,
                 'resign-table', B + 'is_leagal_to_resign')
            b = make(cls, attrs())
            same(b.is_to_accept_resign(who), b.resign_offer != RESIGN_NONE and b.on_inner_action == who,
                 'accept-resign-table', B + 'is_to_accept_resign')


def check_rolled():
    for cls in classes():
        b = make(cls, attrs())
        same(b.has_rolled(), b.rolled != (0, 0), 'rolled-table', B + 'has_rolled')
        b = make(cls, attrs())
        ASSUME(b.rolled != (0, 0))
        same(b.is_doubles(), b.rolled[0] == b.rolled[1], 'doubles-table', B + 'is_doubles')


def side(name):
    return tuple([SYM('%s%i' % (name, i), 0, 15) for i in range(25)])


def check_open(cls=(Board, BoardEditor), who=(YOU, HIM), n=range(-1, 24)):
    you = side('y')
    him = side('h')
    other = him if who == YOU else you
    b = make(cls, attrs(position=(you, him), on_action=who))
    got = b.is_open_to_land(n)
    same(got, n == OFF or other[23 - n] <= 1, 'open-table', B + 'is_open_to_land')


def check_hit(cls=(Board, BoardEditor), who=(YOU, HIM), n=range(-1, 24)):
    you = side('y')
    him = side('h')
    other = him if who == YOU else you
    b = make(cls, attrs(position=(you, him), on_action=who))
    got = b.is_hitting_to_land(n)
    same(got, n != OFF and other[23 - n] == 1, 'hit-table', B + 'is_hitting_to_land')


def check_movable(cls=(Board, BoardEditor), who=(YOU, HIM), n=range(0, 25)):
    you = side('y')
    him = side('h')
    mine = you if who == YOU else him
    b = make(cls, attrs(position=(you, him), on_action=who))
    got = b.has_chequer_to_move(n)
    same(got, mine[n] > 0 and (n == BAR or mine[BAR] == 0), 'movable-table', B + 'has_chequer_to_move')


def none_at(mine, lo):
    for i in range(lo, 25):
        if mine[i] > 0:
            return False
    return True


def check_bearoff(cls=(Board, BoardEditor), who=(YOU, HIM), n=range(0, 25), die=range(1, 7)):
    you = side('y')
    him = side('h')
    mine = you if who == YOU else him
    b = make(cls, attrs(position=(you, him), on_action=who))
    got = b.is_ok_to_bearoff_from(n, die)
    if n + 1 == die:
        want = none_at(mine, 6) and mine[n] > 0
    elif n + 1 < die:
        ASSUME(mine[n] > 0)
        want = none_at(mine, n + 1)
    else:
        want = False
    same(got, want, 'bearoff-table', B + 'is_ok_to_bearoff_from')


def check_bearoff_source(who=(YOU, HIM), die=range(1, 7)):
    """The chequer that a die bears off: the exact one, else the highest below it when
    nothing stands above, else none."""
    you = side('y')
    him = side('h')
    mine = you if who == YOU else him
    b = make(Board, attrs(position=(you, him), on_action=who))
    got = b.find_src_of_bearoff_with(die)
    if not none_at(mine, 6):
        want = None
    elif mine[die - 1] > 0:
        want = die - 1
    elif not none_at(mine, die):
        want = None
    else:
        want = None
        for i in range(die - 2, -1, -1):
            if mine[i] > 0:
                want = i
                break
    CHECK(got == want, 'bearoff-source-table', B + 'find_src_of_bearoff_with', got, want)
