"""What each action of a game does to the record of it: exactly these fields change."""
from bglib.model.board import Board, AbstractBoard
from bglib.model.boardeditor import BoardEditor
from bglib.model.constants import (YOU, HIM, CENTER, NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT, MONEY_GAME,
                                   RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON, BAR, OFF)

ED = 'bglib.model.boardeditor.BoardEditor.'
KEYS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
        'doubled', 'resign_offer', 'rolled', 'match_length', 'score')


def side(name):
    return tuple([SYM('%s%i' % (name, i), 0, 15) for i in range(25)])


def attrs(**kw):
    d = dict(game_state=ENUM('game_state', NOT_STARTED, ON_GOING, FINISHED, RESIGNED, DOUBLED_OUT),
             on_action=ENUM('on_action', YOU, HIM),
             on_inner_action=ENUM('on_inner_action', YOU, HIM),
             doubled=ENUM('doubled', False, True),
             crawford=ENUM('crawford', False, True),
             resign_offer=ENUM('resign_offer', RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON),
             rolled=(SYM('die1', 0, 6), SYM('die2', 0, 6)),
             match_length=SYM('match_length', 0, None),
             score=(SYM('your_score', 0, None), SYM('his_score', 0, None)),
             cube_in_logarithm=SYM('cube', 0, None),
             cube_owner=ENUM('cube_owner', YOU, HIM, CENTER),
             position=(side('y'), side('h')))
    d.update(kw)
    return d


def expect(b, before, rule, anchor, **changed):
    """Fields named in `changed` have that value, all others the one they had."""
    for k in KEYS:
        if k in changed:
            CHECK(getattr(b, k) == changed[k], rule + ':' + k, anchor, getattr(b, k), changed[k])
        else:
            CHECK(getattr(b, k) == before[k], rule + ':' + k, anchor, getattr(b, k), before[k])


def refused(b, before, rule, anchor):
    for k in KEYS:
        CHECK(getattr(b, k) == before[k], rule + ':refused-unchanged', anchor, k)


def opp(who):
    return HIM if who == YOU else YOU


def check_double(who=(YOU, HIM)):
    d = attrs(game_state=ON_GOING, rolled=(0, 0))
    b = BoardEditor(Board(**d))
    legal = b.is_leagal_to_double(who)
    try:
        b.double(who)
    except AssertionError:
        CHECK(not legal, 'double:permitted', ED + 'double')
        refused(b, d, 'double', ED + 'double')
        return
    CHECK(legal, 'double:guarded', ED + 'double')
    expect(b, d, 'double', ED + 'double', on_inner_action=opp(who), doubled=True)
    CHECK(b.is_cube_take_or_pass(opp(who)), 'double:opponent-answers', ED + 'double')
    CHECK(not b.is_cube_take_or_pass(who), 'double:opponent-answers', ED + 'double')
    CHECK(not b.is_leagal_to_roll(who), 'double:no-roll-while-pending', ED + 'double')
    CHECK(not b.is_leagal_to_roll(opp(who)), 'double:no-roll-while-pending', ED + 'double')


def check_take(who=(YOU, HIM)):
    d = attrs()
    b = BoardEditor(Board(**d))
    legal = b.is_cube_take_or_pass(who)
    try:
        b.take(who)
    except AssertionError:
        CHECK(not legal, 'take:permitted', ED + 'take')
        refused(b, d, 'take', ED + 'take')
        return
    CHECK(legal, 'take:guarded', ED + 'take')
    expect(b, d, 'take', ED + 'take', on_inner_action=d['on_action'], doubled=False,
           cube_owner=who, cube_in_logarithm=d['cube_in_logarithm'] + 1)


def check_drop(who=(YOU, HIM)):
    d = attrs()
    b = BoardEditor(Board(**d))
    legal = b.is_cube_take_or_pass(who)
    try:
        b.drop(who)
    except AssertionError:
        CHECK(not legal, 'drop:permitted', ED + 'drop')
        refused(b, d, 'drop', ED + 'drop')
        return
    CHECK(legal, 'drop:guarded', ED + 'drop')
    y, h = d['score']
    v = pow(2, d['cube_in_logarithm'])
    expect(b, d, 'drop', ED + 'drop', game_state=DOUBLED_OUT, score=((y, h + v) if who == YOU else (y + v, h)))


def check_offer_resign(who=(YOU, HIM), kind=(RESIGN_NONE, RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON)):
    d = attrs()
    b = BoardEditor(Board(**d))
    legal = b.is_leagal_to_resign(who) and kind != RESIGN_NONE
    try:
        b.offer_resign(who, kind)
    except AssertionError:
        CHECK(not legal, 'offer_resign:permitted', ED + 'offer_resign')
        refused(b, d, 'offer_resign', ED + 'offer_resign')
        return
    CHECK(legal, 'offer_resign:guarded', ED + 'offer_resign')
    expect(b, d, 'offer_resign', ED + 'offer_resign', resign_offer=kind, on_inner_action=opp(who))
    CHECK(b.is_to_accept_resign(opp(who)), 'offer_resign:opponent-answers', ED + 'offer_resign')
    CHECK(not b.is_to_accept_resign(who), 'offer_resign:opponent-answers', ED + 'offer_resign')


def check_accept_resign(who=(YOU, HIM)):
    d = attrs()
    b = BoardEditor(Board(**d))
    legal = b.is_to_accept_resign(who)
    try:
        b.accept_resign(who)
    except AssertionError:
        CHECK(not legal, 'accept_resign:permitted', ED + 'accept_resign')
        refused(b, d, 'accept_resign', ED + 'accept_resign')
        return
    CHECK(legal, 'accept_resign:guarded', ED + 'accept_resign')
    y, h = d['score']
    v = d['resign_offer'] * pow(2, d['cube_in_logarithm'])
    expect(b, d, 'accept_resign', ED + 'accept_resign', game_state=RESIGNED,
           score=((y + v, h) if who == YOU else (y, h + v)))


def check_reject_resign(who=(YOU, HIM)):
    d = attrs()
    b = BoardEditor(Board(**d))
    legal = b.is_to_accept_resign(who)
    try:
        b.reject_resign(who)
    except AssertionError:
        CHECK(not legal, 'reject_resign:permitted', ED + 'reject_resign')
        refused(b, d, 'reject_resign', ED + 'reject_resign')
        return
    CHECK(legal, 'reject_resign:guarded', ED + 'reject_resign')
    expect(b, d, 'reject_resign', ED + 'reject_resign', resign_offer=RESIGN_NONE, on_inner_action=opp(who))


def check_offer_then_reject(who=(YOU, HIM), kind=(RESIGN_SINGLE, RESIGN_GAMMON, RESIGN_BACKGAMMON)):
    """A refused resignation leaves the game exactly where it was."""
    d = attrs(resign_offer=RESIGN_NONE)
    b = BoardEditor(Board(**d))
    ASSUME(b.is_leagal_to_resign(who))
    b.offer_resign(who, kind)
    b.reject_resign(opp(who))
    expect(b, d, 'offer-reject', ED + 'reject_resign')


def check_double_then_take(who=(YOU, HIM)):
    """After an accepted double the doubler is on roll, the cube has doubled and the
    doubler cannot double again."""
    d = attrs(game_state=ON_GOING, rolled=(0, 0), resign_offer=RESIGN_NONE)
    b = BoardEditor(Board(**d))
    ASSUME(b.is_leagal_to_double(who))
    b.double(who)
    b.take(opp(who))
    CHECK(b.is_leagal_to_roll(who), 'double-take:doubler-rolls', ED + 'take')
    CHECK(not b.is_leagal_to_double(who), 'double-take:no-second-double', ED + 'take')
    CHECK(not b.is_leagal_to_double(opp(who)), 'double-take:no-second-double', ED + 'take')


def check_pickupdice(who=(YOU, HIM)):
    d = attrs()
    b = BoardEditor(Board(**d))
    b.pickupdice()
    expect(b, d, 'pickupdice', ED + 'pickupdice', rolled=(0, 0), on_action=opp(d['on_action']),
           on_inner_action=opp(d['on_inner_action']))


def swapped(d):
    y, h = d['position']
    p, q = d['score']
    o = d['cube_owner']
    return dict(d, position=(h, y), score=(q, p), on_action=opp(d['on_action']),
                on_inner_action=opp(d['on_inner_action']),
                cube_owner=(CENTER if o == CENTER else opp(o)))


def check_flip():
    d = attrs()
    b = BoardEditor(Board(**d))
    b.flip()
    m = swapped(d)
    expect(b, d, 'flip', ED + 'flip', position=m['position'], score=m['score'], on_action=m['on_action'],
           on_inner_action=m['on_inner_action'], cube_owner=m['cube_owner'])


def check_flip_twice():
    d = attrs()
    b = BoardEditor(Board(**d))
    b.flip()
    b.flip()
    expect(b, d, 'flip-flip', ED + 'flip')
