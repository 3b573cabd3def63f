"""Asking never changes the answerer: every question on an editable board leaves all of it."""
from bglib.model.board import Board, AbstractBoard
from bglib.model.boardeditor import BoardEditor
from bglib.model.constants import (YOU, HIM, CENTER, NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT,
                                   RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON, BAR, OFF)

AB = 'bglib.model.board.AbstractBoard.'
KEYS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
        'doubled', 'resign_offer', 'rolled', 'match_length', 'score')


def side(name):
    return tuple([SYM('%s%i' % (name, i), 0, 15) for i in range(25)])


def attrs():
    return dict(game_state=ENUM('game_state', NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT),
                on_action=ENUM('on_action', YOU, HIM),
                on_inner_action=ENUM('on_inner_action', YOU, HIM),
                doubled=ENUM('doubled', False, True),
                crawford=ENUM('crawford', False, True),
                resign_offer=ENUM('resign_offer', RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON),
                rolled=(SYM('die1', 0, 6), SYM('die2', 0, 6)),
                match_length=SYM('match_length', 0, None),
                score=(SYM('your_score', 0, None), SYM('his_score', 0, None)),
                cube_in_logarithm=SYM('cube', 0, None),
                cube_owner=ENUM('cube_owner', YOU, HIM, CENTER),
                position=(side('y'), side('h')))


def ask(q, args):
    d = attrs()
    b = BoardEditor(Board(**d))
    try:
        getattr(b, q)(*args)
    except AssertionError:
        pass
    for k in KEYS:
        CHECK(getattr(b, k) == d[k], 'question-leaves-board', AB + q, k)
    for k in KEYS:
        CHECK(getattr(Board(), k) == AbstractBoard.defaults[k], 'question-leaves-defaults', AB + q, k)


def check_who(who=(YOU, HIM), q=('is_leagal_to_roll', 'is_leagal_to_move', 'is_leagal_to_double', 'is_leagal_to_redouble',
                                 'is_leagal_to_resign', 'is_to_accept_resign', 'is_cube_take_or_pass')):
    ask(q, (who,))


def check_point(n=(0, 5, 12, 23), q=('is_open_to_land', 'is_hitting_to_land', 'has_chequer_to_move')):
    ask(q, (n,))


def check_die(die=(1, 3, 6), n=(0, 2, 5)):
    ask('is_ok_to_bearoff_from', (n, die))


def check_source(die=(1, 3, 6)):
    ask('find_src_of_bearoff_with', (die,))


def check_plain(q=('has_rolled', 'is_doubles', '__repr__')):
    ask(q, ())


def check_compare():
    d = attrs()
    x, y = BoardEditor(Board(**d)), BoardEditor(Board(**d))
    x == y
    x != y
    for k in KEYS:
        CHECK(getattr(x, k) == d[k], 'question-leaves-board', AB + '__eq__', k)
        CHECK(getattr(y, k) == d[k], 'question-leaves-board', AB + '__eq__', k)
