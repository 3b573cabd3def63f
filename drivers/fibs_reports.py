"""What FIBS says about a game, read back from the sentence."""
from bglib.encoding import FIBS
from bglib.model.constants import YOU, HIM

M = 'bglib.encoding.FIBS.'
NAMES = ('a', 'Z', '_', 'You', 'gBOTworldclass', 'x_Y')
POINTS = ('1', '2', '6', '9', '10', '12', '13', '18', '19', '20', '23', '24')
PAIRS = (('24', '23'), ('24', '18'), ('13', '7'), ('10', '9'), ('6', '1'), ('2', '1'), ('bar', '24'), ('bar', '19'), ('bar', '20'), ('6', 'off'), ('1', 'off'), ('22', '20'))
NUM = {'off': 0, 'bar': 25}


def number(p):
    return NUM[p] if p in NUM else int(p)


def check_dice(name=('a', 'Z', '_', 'You', 'gBOTworldclass', 'x_Y'), a='123456', b='123456'):
    CHECK(FIBS.get_dice(name + ' rolls ' + a + ' and ' + b + '.') == (int(a), int(b)), 'dice in the order they were rolled', M + 'get_dice', name)


def check_name(name=('a', 'Z', '_', 'You', 'gBOTworldclass', 'x_Y'), rest=(' rolls 3 and 4.', ' accepts the double. The cube shows 2.', ' doubles.', ' wants to resign.', ': hello')):
    CHECK(FIBS.get_name(name + rest) == name, 'the name the message begins with', M + 'get_name', name, rest)
    t = FIBS.get_taker_name(name + rest)
    CHECK(t == (name if rest.startswith(' accepts') else None), 'who took the double', M + 'get_taker_name', name, rest, t)


def check_noname(text=(' x', '', '** error', '1 a accepts')):
    CHECK(FIBS.get_name(text) is None, 'no name, no answer', M + 'get_name', text)
    CHECK(FIBS.get_taker_name(text) is None, 'no name, no answer', M + 'get_taker_name', text)


def check_score(name=('a', 'You', 'x_Y'), n=('1', '2', '3', '8', '12', '64', '192')):
    CHECK(FIBS.get_score(name + ' wins the game and gets ' + n + ' points.') == int(n), 'the points of a game', M + 'get_score', n)
    CHECK(FIBS.get_resign_score(name + ' wants to resign. You will win ' + n + ' points.') == int(n), 'the points of a resignation', M + 'get_resign_score', n)


def check_match(a=('0', '3', '12'), b=('0', '4', '10'), l=('5', '25')):
    CHECK(FIBS.get_match_scores('a-' + a + ' b-' + b + ' length ' + l) == (int(a), int(b), int(l)), 'the numbers of a match', M + 'get_match_scores', a, b, l)


def moves(name, parts):
    return name + ' moves ' + ' '.join(parts) + ' .'


def read(parts, who, name='x_Y'):
    mv = FIBS.get_move(moves(name, parts), who)
    return [pm for pm in mv]


def check_move(i=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11), j=(0, 3, 6, 9), hit=('', '*')):
    a, b = PAIRS[i], PAIRS[j]
    got = read([a[0] + '-' + a[1] + hit, b[0] + '-' + b[1]], YOU)
    CHECK(len(got) == 2, 'every part of a move, in order', M + 'get_move', len(got))
    for pm, x, h in zip(got, (a, b), (hit == '*', False)):
        CHECK(pm.src == number(x[0]) - 1, 'from where', M + 'get_move', x, pm.src)
        CHECK(pm.dest == number(x[1]) - 1, 'to where', M + 'get_move', x, pm.dest)
        CHECK(pm.is_hitting == h, 'whether it hits', M + 'get_move', x)
        CHECK(pm.die == number(x[0]) - number(x[1]), 'how far', M + 'get_move', x, pm.die)


def check_number(n=(1, 2, 3, 4)):
    CHECK(len(read([PAIRS[i][0] + '-' + PAIRS[i][1] for i in range(n)], YOU)) == n, 'every part of a move, in order', M + 'get_move', n)
    CHECK(len(read([PAIRS[i][1] + '-' + PAIRS[i][0] for i in range(n)], HIM)) == n, 'every part of a move, in order', M + 'get_move', n)


def check_his_move(i=(0, 1, 2, 3, 4, 5, 11), hit=('', '*')):
    a = PAIRS[i]
    got = read([a[1] + '-' + a[0] + hit], HIM)
    CHECK(len(got) == 1, 'every part of a move, in order', M + 'get_move', len(got))
    for pm in got:
        CHECK(pm.src == number(a[1]) - 1, 'from where', M + 'get_move', a, pm.src)
        CHECK(pm.dest == number(a[0]) - 1, 'to where', M + 'get_move', a, pm.dest)
        CHECK(pm.is_hitting == (hit == '*'), 'whether it hits', M + 'get_move', a)
        CHECK(pm.die == number(a[0]) - number(a[1]), 'how far', M + 'get_move', a, pm.die)


def check_his_ends(text=('22-off', '24-off', 'bar-3', 'bar-6')):
    """He moves upwards: his bar is below 1 and his home beyond 24."""
    got = read([text], HIM)
    a, b = text.split('-')
    want = 25 - int(a) if b == 'off' else int(b)
    for pm in got:
        CHECK(pm.die == want, 'how far, for him', M + 'get_move', text, pm.die)
