"""Every question and every action gives, on the board with the players swapped, the
swapped answer.  Both runs share the same unknowns, so agreement is decided exactly."""
from bglib.model.board import Board
from bglib.model.boardeditor import BoardEditor
from bglib.model.move import PartialMove, MoveFactory
from bglib.model.constants import (YOU, HIM, CENTER, NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT, MONEY_GAME,
                                   RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON, BAR, OFF)

B = 'bglib.model.board.AbstractBoard.'
ED = 'bglib.model.boardeditor.BoardEditor.'
MF = 'bglib.model.move.MoveFactory.'
KEYS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
        'doubled', 'resign_offer', 'rolled', 'match_length', 'score')


def opp(who):
    return HIM if who == YOU else YOU


def attrs(on_action, owner, **kw):
    d = dict(game_state=ENUM('game_state', NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT),
             on_action=on_action,
             on_inner_action=ENUM('on_inner_action', YOU, HIM),
             doubled=ENUM('doubled', False, True),
             crawford=ENUM('crawford', False, True),
             resign_offer=ENUM('resign_offer', RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON),
             rolled=(SYM('die1', 0, 6), SYM('die2', 0, 6)),
             match_length=SYM('match_length', 0, None),
             score=(SYM('your_score', 0, None), SYM('his_score', 0, None)),
             cube_in_logarithm=SYM('cube', 0, None),
             cube_owner=owner,
             position=(side('y'), side('h')))
    d.update(kw)
    return d


def swapped(d):
    y, h = d['position']
    p, q = d['score']
    o = d['cube_owner']
    return dict(d, position=(h, y), score=(q, p), on_action=opp(d['on_action']),
                on_inner_action=opp(d['on_inner_action']),
                cube_owner=(CENTER if o == CENTER else opp(o)))


def side(name):
    return tuple([SYM('%s%i' % (name, i), 0, 15) for i in range(25)])


def ask(b, q, *args):
    try:
        if getattr(b, q)(*args):
            return 'yes'
        return 'no'
    except AssertionError:
        return 'refused'


def check_query(on_action=(YOU, HIM), owner=(YOU, HIM, CENTER), who=(YOU, HIM),
                q=('is_leagal_to_roll', 'is_leagal_to_move', 'is_leagal_to_double', 'is_leagal_to_redouble',
                   'is_leagal_to_resign', 'is_to_accept_resign', 'is_cube_take_or_pass')):
    d = attrs(on_action, owner)
    x = ask(Board(**d), q, who)
    y = ask(Board(**swapped(d)), q, opp(who))
    CHECK(x == y, 'mirrored-answer', B + q, x, y)


def check_point_query(on_action=(YOU, HIM), n=range(0, 25),
                      q=('is_open_to_land', 'is_hitting_to_land', 'has_chequer_to_move')):
    if n == BAR and q != 'has_chequer_to_move':
        CHECK(True, 'mirrored-answer', B + q)
        return
    d = attrs(on_action, CENTER)
    x = ask(Board(**d), q, n)
    y = ask(Board(**swapped(d)), q, n)
    CHECK(x == y, 'mirrored-answer', B + q, x, y)


def check_bearoff_query(on_action=(YOU, HIM), die=range(1, 7), n=range(0, 6)):
    d = attrs(on_action, CENTER)
    x = ask(Board(**d), 'is_ok_to_bearoff_from', n, die)
    y = ask(Board(**swapped(d)), 'is_ok_to_bearoff_from', n, die)
    CHECK(x == y, 'mirrored-answer', B + 'is_ok_to_bearoff_from', x, y)


def check_bearoff_source(on_action=(YOU, HIM), die=range(1, 7)):
    d = attrs(on_action, CENTER)
    x = Board(**d).find_src_of_bearoff_with(die)
    y = Board(**swapped(d)).find_src_of_bearoff_with(die)
    CHECK(x == y, 'mirrored-answer', B + 'find_src_of_bearoff_with', x, y)


def act(b, op, args):
    try:
        getattr(b, op)(*args)
    except AssertionError:
        return 'refused'
    return 'done'


def check_action(on_action=(YOU, HIM), owner=(YOU, HIM, CENTER), who=(YOU, HIM),
                 op=('double', 'take', 'drop', 'accept_resign', 'reject_resign', 'offer_resign', 'pickupdice')):
    d = attrs(on_action, owner)
    b = BoardEditor(Board(**d))
    m = BoardEditor(Board(**swapped(d)))
    if op == 'pickupdice':
        x = act(b, op, ())
        y = act(m, op, ())
    elif op == 'offer_resign':
        k = ENUM('kind', RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON)
        x = act(b, op, (who, k))
        y = act(m, op, (opp(who), k))
    else:
        x = act(b, op, (who,))
        y = act(m, op, (opp(who),))
    CHECK(x == y, 'mirrored-action', ED + op, x, y)
    s = swapped(dict([(k, getattr(b, k)) for k in KEYS]))
    for k in KEYS:
        CHECK(s[k] == getattr(m, k), 'mirrored-action', ED + op, k)


def check_partial_move(on_action=(YOU, HIM), hit=(False, True), src=(24, 23, 12, 5, 0, -1), dest=(23, 17, 11, 5, 3, 0, -1)):
    if src == dest:
        CHECK(True, 'mirrored-action', ED + 'make_partial_move')
        return
    d = attrs(on_action, CENTER)
    b = BoardEditor(Board(**d))
    m = BoardEditor(Board(**swapped(d)))
    b.make_partial_move(PartialMove(1, src, dest, hit and dest >= 0 and src >= 0 and max(src, dest) < 24))
    m.make_partial_move(PartialMove(1, src, dest, hit and dest >= 0 and src >= 0 and max(src, dest) < 24))
    s = swapped(dict([(k, getattr(b, k)) for k in KEYS]))
    for k in KEYS:
        CHECK(s[k] == getattr(m, k), 'mirrored-action', ED + 'make_partial_move', k)


def check_flip(on_action=(YOU, HIM), owner=(YOU, HIM, CENTER)):
    d = attrs(on_action, owner)
    b = BoardEditor(Board(**d))
    b.flip()
    s = swapped(d)
    for k in KEYS:
        CHECK(s[k] == getattr(b, k), 'flip-is-the-mirror', ED + 'flip', k)


def pm_key(pm):
    if pm:
        return (pm.die, pm.src, pm.dest, pm.is_hitting)
    return None


def check_suggest_from_source(on_action=(YOU,), roll=((6, 5), (3, 1), (2, 2), (6, 1), (4, 2)), src=range(0, 25)):
    d = attrs(on_action, CENTER, rolled=roll)
    x = pm_key(MoveFactory(BoardEditor(Board(**d))).guess_your_single_pm_from_source(src))
    y = pm_key(MoveFactory(BoardEditor(Board(**swapped(d)))).guess_your_single_pm_from_source(src))
    CHECK(x == y, 'mirrored-suggestion', MF + 'guess_your_single_pm_from_source', x, y)


def check_suggest_from_dest(on_action=(YOU,), roll=((6, 5), (3, 1), (2, 2), (6, 1), (4, 2)), dest=range(-1, 18)):
    d = attrs(on_action, CENTER, rolled=roll)
    x = pm_key(MoveFactory(BoardEditor(Board(**d))).guess_your_single_pm_from_dest(dest))
    y = pm_key(MoveFactory(BoardEditor(Board(**swapped(d)))).guess_your_single_pm_from_dest(dest))
    CHECK(x == y, 'mirrored-suggestion', MF + 'guess_your_single_pm_from_dest', x, y)
