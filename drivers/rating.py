"""The rating formulas: what one wins the other can lose, chances add up to one."""
import math
from bglib.stat.rating import upset_chance, winning_chance, gain_on_win
from bglib.stat.tourney import tourney_chance, prize_handicap, entryfee_handicap

R = 'bglib.stat.rating.'
T = 'bglib.stat.tourney.'


def chance(a, b, length):
    """The rating system's chance of a against b."""
    return 1 / (10.0 ** ((b - a) * math.sqrt(length) / 2000.0) + 1)


def ratings():
    return SYM('a'), SYM('b'), SYM('length', 1)


def check_chances():
    a, b, n = ratings()
    if a >= b:
        u = upset_chance(a, b, n)
        w = winning_chance(a, b, n)
        CHECK(ALGEQ(u, chance(b, a, n)), 'chances follow the rating formula', R + 'upset_chance', u)
        CHECK(ALGEQ(w, chance(a, b, n)), 'chances follow the rating formula', R + 'winning_chance', w)
        CHECK(ALGEQ(u + w, 1), 'the chances of both players add up to one', R + 'winning_chance', u, w)


def check_gain():
    a, b, n = ratings()
    x = gain_on_win(a, b, n)
    y = gain_on_win(b, a, n)
    CHECK(ALGEQ(x, n * (1 - chance(a, b, n))), 'gains follow the rating formula', R + 'gain_on_win', x)
    CHECK(ALGEQ(y, n * (1 - chance(b, a, n))), 'gains follow the rating formula', R + 'gain_on_win', y)
    CHECK(ALGEQ(x + y, n), 'the gains of both players add up to the length of the match', R + 'gain_on_win', x, y)


def check_fair():
    """Before the match nobody expects to gain."""
    a, b, n = ratings()
    if a >= b:
        w = winning_chance(a, b, n)
        CHECK(ALGEQ(w * gain_on_win(a, b, n), upset_chance(a, b, n) * gain_on_win(b, a, n)), 'nobody expects to gain', R + 'gain_on_win')


def check_tourney(rounds=(1, 2, 3, 4, 5, 6)):
    a, b, n = ratings()
    p = chance(a, b, n)
    w, r = tourney_chance(a, b, rounds, n)
    CHECK(ALGEQ(w, p ** rounds), 'who wins a tourney wins every round', T + 'tourney_chance', w)
    CHECK(ALGEQ(r, p ** (rounds - 1) * (1 - p)), 'the runner-up wins every round but the last', T + 'tourney_chance', r)


def check_handicaps(rounds=(1, 2, 3, 4)):
    a, b, n = ratings()
    first = SYM('first', 1)
    second = SYM('second', 0)
    fee = SYM('fee', 0)
    w, r = tourney_chance(a, b, rounds, n)
    aw, ar = tourney_chance(b, b, rounds, n)
    hw, hr = prize_handicap(a, b, rounds, n, first, second)
    CHECK(ALGEQ(hw * w, aw * first), 'a handicapped prize is worth as much as to the average player', T + 'prize_handicap', hw)
    CHECK(ALGEQ(hr * r, ar * second), 'a handicapped prize is worth as much as to the average player', T + 'prize_handicap', hr)
    f = entryfee_handicap(a, b, rounds, n, fee)
    CHECK(ALGEQ(f * aw, fee * w), 'the fee follows the chance to win', T + 'entryfee_handicap', f)
