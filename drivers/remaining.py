"""Suggestions use the dice that remain, and each no more often than it remains."""
from bglib.model.board import Board
from bglib.model.boardeditor import BoardEditor
from bglib.model.move import MoveFactory, AvailableToPlay
from bglib.model.constants import YOU, HIM, ON_GOING, OFF

MF = 'bglib.model.move.MoveFactory.'


def left_of(roll, used):
    """The dice that remain: of a double a number of them, else those not played."""
    av = AvailableToPlay(roll)
    if roll[0] == roll[1]:
        for i in range(used):
            av.consume(roll[0])
    else:
        if used in (1, 3):
            av.consume(roll[0])
        if used in (2, 3):
            av.consume(roll[1])
    return av


def within(parts, av, rule, a):
    count = {}
    for pm in parts:
        count[pm.die] = count.get(pm.die, 0) + 1
    for d in count:
        CHECK(d in (1, 2, 3, 4, 5, 6) and count[d] <= av[d], rule, a, d, count[d])


def distances(roll):
    x, y = roll
    if x == y:
        return [k * x for k in range(1, 8)]
    return [x, y, x + y, 2 * x, 2 * y, 2 * x + y, x + 2 * y]


def check_sequence(who=(YOU, HIM), roll=((2, 2), (3, 3), (1, 1), (6, 5), (2, 1), (3, 1)), used=range(0, 4), src=(24, 16, 8),
                   k=range(0, 8)):
    n = src - (distances(roll) + [src + 1])[k]
    ASSUME(n >= OFF)
    stops = distances(roll)
    mine = tuple([SYM('m', 0, 3) if i == src else 0 for i in range(25)])
    other = tuple([SYM('o%i' % i, 0, 2) if (23 - i < src) and (src - 23 + i) in stops else 0 for i in range(25)])
    y, h = (mine, other) if who == YOU else (other, mine)
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    av = left_of(roll, used)
    mf = MoveFactory(b, available=av)
    a = MF + 'guess_your_multiple_pms'
    mv = mf.guess_your_multiple_pms(src, n)
    if mv:
        within(mv, av, 'no die more often than it remains', a)
    CHECK(len(mf.available) == len(av), 'asking uses no die', a)


def check_single(who=(YOU, HIM), roll=((2, 2), (6, 5), (2, 1), (3, 1)), used=range(0, 5), at=(24, 16, 4, 1)):
    ASSUME(used < 4 or roll[0] == roll[1])
    mine = tuple([SYM('m%i' % i, 0, 2) if i in (at, at - 1, at + 1, at + 2, at + 5, at + 6) else 0 for i in range(25)])
    y, h = (mine, (0,) * 25) if who == YOU else ((0,) * 25, mine)
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    av = left_of(roll, used)
    mf = MoveFactory(b, available=av)
    pm = mf.guess_your_single_pm_from_source(at)
    if pm:
        within([pm], av, 'no die more often than it remains', MF + 'guess_your_single_pm_from_source')
    pm = mf.guess_your_single_pm_from_source(at, available=av)
    if pm:
        within([pm], av, 'no die more often than it remains', MF + 'guess_your_single_pm_from_source')
    for dest in (at, at - 2):
        if dest < 24:
            pm = mf.guess_your_single_pm_from_dest(dest)
            if pm:
                within([pm], av, 'no die more often than it remains', MF + 'guess_your_single_pm_from_dest')
            if dest >= 0:
                pms = mf.guess_your_making_point(dest)
                if pms:
                    within(pms, av, 'no die more often than it remains', MF + 'guess_your_making_point')
    CHECK(len(mf.available) == len(av), 'asking uses no die', MF + 'guess_your_single_pm_from_dest')
