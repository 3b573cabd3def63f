"""Match records in Snowie's text format are accepted exactly when their lines are in order, and chopped into games."""
from bglib.record.snowietxt import Validator, chop

R = 'bglib.record.snowietxt.'
KINDS = ('emptyline', 'mathclength', 'gameheader', 'playerheader', 'moves', 'results2', 'baddata')
PREFIXES = ((), ('mathclength',), ('mathclength', 'emptyline'), ('mathclength', 'gameheader'), ('mathclength', 'emptyline', 'gameheader', 'playerheader'),
            ('mathclength', 'gameheader', 'playerheader', 1), ('mathclength', 'gameheader', 'playerheader', 1, 2), ('mathclength', 'gameheader', 'playerheader', 1, 2, 3, 'results2'),
            ('mathclength', 'gameheader', 'playerheader', 1, 2, 'emptyline'), ('mathclength', 'gameheader', 'playerheader', 1, 2, 'gameheader'),
            ('mathclength', 'gameheader', 'playerheader', 1, 2, 'results2', 'emptyline', 'emptyline'),
            ('mathclength', 'gameheader', 'playerheader', 1, 2, 'emptyline', 'gameheader', 'playerheader'),
            ('mathclength', 'gameheader', 'playerheader', 1, 2, 'emptyline', 'gameheader', 'playerheader', 1))


class Line(object):
    """A line of which the kind and, if it is one of moves, the number is known."""
    def __init__(self, kind, number, size):
        self.kind, self.number, self.size = kind, number, size

    def groupdict(self):
        return dict(nthmove=self.number)

    def __len__(self):
        return self.size


def line(x, i=0):
    if isinstance(x, int):
        return Line('moves', x, 10)
    return Line(x, 0, 10)


def expected(xs):
    """Where the lines are in a record, or None: (last kind, number of the last move)."""
    at, n = 'start', 0
    for x in xs:
        kind, number = x.kind, x.number
        if kind == 'baddata':
            return None
        elif kind == 'mathclength':
            if at != 'start':
                return None
            at = 'length'
        elif kind == 'emptyline':
            if at == 'start':
                return None
            at = 'gap'
        elif kind == 'gameheader':
            if at not in ('length', 'gap', 'moves'):
                return None
            at = 'game'
        elif kind == 'playerheader':
            if at != 'game':
                return None
            at, n = 'players', 0
        elif kind == 'moves':
            if at not in ('players', 'moves') or number != n + 1:
                return None
            at, n = 'moves', n + 1
    return at


def feed(v, xs):
    for x in xs:
        v.feed(x)


def check_order(prefix=PREFIXES, then=KINDS, last=KINDS):
    """Lines are accepted exactly in the order of the format, moves numbered from one in each game."""
    xs = [line(x) for x in prefix] + [Line(then, SYM('n1', 0, 99), 7), Line(last, SYM('n2', 0, 99), 8)]
    v = Validator()
    at = R + 'Validator.feed'
    if prefix == () and (then == 'emptyline' or then == 'results2' and last == 'emptyline'):
        at = 'bglib/record/snowietxt.py empty line before the length'
    try:
        feed(v, xs)
    except ValueError:
        CHECK(expected(xs) is None, 'a record in order is accepted', at, prefix, then, last)
    else:
        CHECK(expected(xs) is not None, 'a record out of order is refused', at, prefix, then, last)
        CHECK(v.done().fed == xs, 'the hash is that of all lines', R + 'Validator.feed', prefix)
        CHECK(v.size == sum([len(x) for x in xs]), 'the size is that of all lines', R + 'Validator.feed', prefix)


def too_long(sizes, limit):
    n = 0
    for s in sizes:
        n += s
        if n >= limit:
            return True
    return False


def check_size(n=(0, 1, 2, 3, 4, 5)):
    """A record is refused exactly when it is as long as the limit; without a limit no record is too long."""
    xs = [line(x) for x in ('mathclength', 'gameheader', 'playerheader', 1, 2)][:n]
    sizes = []
    for i in range(n):
        xs[i].size = SYM('size%d' % i, 0)
        sizes.append(xs[i].size)
    limit = SYM('limit', 1)
    h = Validator().validate(xs)
    CHECK(h.fed == xs, 'the hash is that of all lines', R + 'Validator.validate', n)
    h = Validator(0).validate(xs)
    CHECK(h.fed == xs, 'the hash is that of all lines', R + 'Validator.validate', n)
    v = Validator(max_size=limit)
    try:
        h = v.validate(xs)
    except ValueError:
        CHECK(too_long(sizes, limit), 'only what is too long is refused', R + 'Validator.validate', n)
    else:
        CHECK(not too_long(sizes, limit), 'what is too long is refused', R + 'Validator.validate', n)
        CHECK(h.fed == xs, 'the hash is that of all lines', R + 'Validator.validate', n)


def check_apart():
    """Validators know nothing of each other."""
    a, b = Validator(), Validator()
    feed(a, [line('mathclength'), line('gameheader'), line('playerheader'), line(1)])
    feed(b, [line('mathclength')])
    feed(a, [line(2)])
    feed(b, [line('gameheader')])
    CHECK(len(a.done().fed) == 5 and len(b.done().fed) == 2, 'validators know nothing of each other', R + 'Validator')


GAMES = (' Game 1\n zoonk,1666 : 0                   nori,1699 : 0\n  1)                             26: 24/18 13/11\n',
         ' Game 2\n DianaIN : 0      bgnori : 2\n  1) 61: 13/7 8/7             21: 24/23 13/11\n  2) 33:                       Doubles => 2\n  3)  Takes                    54: 8/4 7/2\n                                   Wins 1 point and the match\n',
         ' Game 3\n a : 10      b : 2\n  1) 61: 13/7 8/7*             21: 24/23 13/11\n  2)  Doubles => 64                       Drops\n      Wins 1 point\n',
         ' Game 12\n a_b : 10      b.c,1500 : 2\n' + ''.join([' %2d) 61: 13/7 8/7             21: 24/23 13/11\n' % i for i in range(1, 12)]))


def check_chop(games=((0,), (1,), (0, 1), (1, 0), (1, 2), (0, 2, 1, 3), (3, 3), (2, 2, 2)), gap=('', '\n', '\n\n'), length=('5', '11', '1'), end=('', '\n')):
    """Every line of a game is in the text of that game, which can be read by itself."""
    first = ' %s point match\n' % length
    txt = first + '\n' + gap.join([GAMES[g] for g in games]) + end
    got = list(chop(txt))
    CHECK(len(got) == len(games), 'a record is chopped into its games', R + 'chop', games, got)
    for i in range(len(games)):
        CHECK(got[i] == first + '\n' + GAMES[games[i]], 'a game has all its lines and the length of the match', R + 'chop', games, got[i])
    for g in got:
        again = list(chop(g))
        CHECK(again == [g], 'a game can be read by itself', R + 'chop', again)


def check_forms(line=(' 5 point match\n', ' 15 point match\n', ' Game 1\n', ' Game 10\n', ' DianaIN : 0                         bgnori : 0\n', ' zoonk,1666 : 0                   nori,1699 : 0\n',
                      '  1) 31: 8/5 6/5                     41: 24/23 13/9\n', ' 13) 53:                              Doubles => 2\n', ' 14)  Takes                          54: 8/4 7/2\n',
                      '100) 31: 8/5 6/5                     41: 24/23 13/9\n', '  5)  Doubles => 2                    Drops\n', ' 26) 63: 7/1 3/0                     Wins 2 points\n', '\n', '  \n', '',
                      'hogehoge\n', '5 point\n', ' 1 31: 8/5\n', ' Round 1\n', ' name\n')):
    """Lines have the kinds of the format."""
    kind = 'baddata'
    for k, part in (('mathclength', 'point match'), ('gameheader', 'Game'), ('playerheader', ' : '), ('moves', ') ')):
        if part in line:
            kind = k
    if line.strip() == '':
        kind = 'emptyline'
    after = {'mathclength': (), 'gameheader': ('mathclength',), 'playerheader': ('mathclength', 'gameheader'), 'moves': ('mathclength', 'gameheader', 'playerheader'), 'emptyline': ('mathclength',), 'baddata': ('mathclength',)}[kind]
    v = Validator()
    n = line.strip().split(')')[0]
    feed(v, [Line(k, 0, 1) for k in after])
    if kind == 'moves':
        feed(v, [Line('moves', i, 1) for i in range(1, int(n))])
    try:
        v.feed(line)
    except ValueError:
        CHECK(kind == 'baddata', 'a line in the format is recognised', R + 'LineValidator', line)
    else:
        CHECK(kind != 'baddata', 'a line not in the format is refused', R + 'LineValidator', line)
        try:
            v.feed(Line('gameheader', 0, 1))
        except ValueError:
            CHECK(kind in ('gameheader', 'playerheader'), 'a line is taken for what it is', R + 'LineValidator', line)
        else:
            CHECK(kind in ('mathclength', 'emptyline', 'moves'), 'a line is taken for what it is', R + 'LineValidator', line)
