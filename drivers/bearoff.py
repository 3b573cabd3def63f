"""Bear-off databases: a record is read whole from its own place or not at all; every index has a position."""
import bglib.encoding.bearoff
from bglib.encoding.bearoff import nori, trice, gnubgdb, DBReader
from bglib.encoding.bearoff import D, count, backward, C

RR = 'bglib.encoding.bearoff.DBReader.rawread'
N = 'bglib.encoding.bearoff.nori.'


class Chunk(object):
    """Bytes start..start+n of the file."""
    def __init__(self, start, n):
        self.start = start
        self.n = n

    def __len__(self):
        return self.n

    def __nonzero__(self):
        return self.n > 0

    def __radd__(self, other):
        if other == '':
            return self
        raise TypeError('not adjacent')

    def __add__(self, other):
        if other.start != self.start + self.n:
            raise TypeError('not adjacent')
        return Chunk(self.start, self.n + other.n)

    def __getslice__(self, lo, hi):
        if hi > self.n:
            hi = self.n
        return Chunk(self.start + lo, hi - lo)


class File(object):
    def __init__(self, portions):
        self.portions = list(portions)
        self.pos = SYM('oldpos', 0, None)

    def seek(self, n):
        self.pos = n

    def read(self, n):
        if not self.portions:
            return Chunk(self.pos, 0)
        k = self.portions[0]
        self.portions = self.portions[1:]
        if k > n:
            k = n
        c = Chunk(self.pos, k)
        self.pos = self.pos + k
        return c


READERS = (nori.DBRreader, trice.DBRreader, gnubgdb.DBRreader)


def check_record(cls=READERS, portions=((16,), (8, 8), (1, 15), (5, 5, 6), (15, 1))):
    r = cls()
    r.f = File(portions)
    i = SYM('index', 0, None)
    b = r.rawread(i)
    CHECK(b.n == 16, 'whole-record', RR)
    CHECK(b.start == i * 16, 'own-record', RR)


def check_record_twice(cls=READERS):
    r = cls()
    r.f = File((16, 16))
    i, j = SYM('index', 0, None), SYM('other', 0, None)
    r.rawread(i)
    b = r.rawread(j)
    CHECK(b.start == j * 16, 'own-record', RR)


def check_short(cls=READERS, portions=((), (8,), (15,), (1, 7))):
    r = cls()
    r.f = File(portions)
    try:
        r.rawread(SYM('index', 0, None))
    except IndexError:
        refused = True
    else:
        refused = False
    CHECK(refused, 'partial-record-refused', RR)


def check_every_index(c=range(0, 16)):
    """The indices of the positions with c chequers are those from sigma(c-1) up to sigma(c)."""
    lo = 0
    for k in range(c):
        lo = lo + C(k + 5, k)
    n = SYM('n', lo, lo + C(c + 5, c) - 1)
    t = nori.oneside_upto6_k2t(n)
    CHECK(len(t) == 6, 'six-points', N + 'oneside_upto6_k2t')
    CHECK(sum(t) == c, 'every-index-has-a-position', N + 'oneside_upto6_k2t')
    e = EVENTS('C_RHash')
    CHECK(len(e) == 1 and e[0][1] == n - lo and e[0][2] == 5 + c and e[0][3] == c, 'index-within-its-class', N + 'oneside_upto6_k2t')


def check_index_class(a=(0, 1, 3, 6), b=(0, 2, 4), d=(0, 1, 5)):
    t = (a, b, 0, 0, 0, d)
    c = a + b + d
    lo = 0
    for k in range(c):
        lo = lo + C(k + 5, k)
    n = nori.oneside_upto6_t2k(t)
    e = EVENTS('C_Hash')
    CHECK(len(e) == 1 and n == lo + e[0][3], 'index-within-its-class', N + 'oneside_upto6_t2k')
    CHECK(e[0][2] == c, 'index-within-its-class', N + 'oneside_upto6_t2k')
    # unary, last point first
    want = []
    for i in t:
        want = want + [1] * i + [0]
    CHECK(tuple(reversed(e[0][1])) == tuple(want), 'position-written-in-unary', N + 'oneside_upto6_t2k')


def check_helpers(n=range(0, 25)):
    t = [0] * 25
    t[n] = SYM('n', 1, 15)
    CHECK(backward(t) == n + 1, 'furthest-point', 'bglib.encoding.bearoff.backward')
    for i in range(n):
        t[i] = SYM('k%i' % i, 0, 15)
    CHECK(backward(t) == n + 1, 'furthest-point', 'bglib.encoding.bearoff.backward')
    s = 0
    for x in t:
        s = s + x
    CHECK(count(t) == s, 'number-of-chequers', 'bglib.encoding.bearoff.count')


def check_D(n=range(1, 8), m=range(1, 16)):
    """Ways to put m chequers on n points: the first point is empty or has one more than it had."""
    CHECK(D(n, m) == (D(n, m - 1) + D(n - 1, m) if n > 1 else 1), 'counting-recurrence', 'bglib.encoding.bearoff.D')


def check_human(cls=(nori, trice)):
    t = (TERM('center'), TERM('his'), TERM('mine'), TERM('cpw'))
    r = cls.human_readable_eq(t)
    CHECK(len(r) == 4 and SAME(r[0], t[0]) and SAME(r[3], t[3]), 'equities', N + 'human_readable_eq')


def check_combinations():
    """A position is chosen by where the m points of one side are, how its chequers lie on them, and how the others lie on the rest."""
    t = 0
    for m in range(16):
        want = C(24, m) * C(16, 15 - m) * C(40 - m, 15)
        CHECK(bglib.encoding.bearoff.BackgammonCombination(m) == want, 'number of positions', 'bglib.encoding.bearoff.BackgammonCombination', m)
        CHECK(bglib.encoding.bearoff.BackgammonCombination_allC(m) == want, 'number of positions',
              'bglib.encoding.bearoff.BackgammonCombination_allC', m)
        t = t + want
    CHECK(t == bglib.encoding.bearoff.WTN, 'number of positions', 'bglib.encoding.bearoff.BackgammonCombination', t)


FOUR = (nori.DBRreader, trice.DBRreader)


def check_dump(cls=FOUR, portions=((16,), (8, 8))):
    """A record is four floats, in the order they are stored."""
    r = cls()
    r.f = File(portions)
    i = SYM('index', 0, None)
    t = r.dump(i)
    a = 'bglib.encoding.bearoff.DBReader.rawread'
    e = EVENTS('unpack')
    CHECK(len(e) == 1 and e[0][1] in ('ffff', '<ffff', '4f', '<4f', '=ffff', '=4f') and e[0][2] == i * 16 and e[0][3] == 16, 'record-unpacked', a, e)
    CHECK(len(t) == 4, 'record-unpacked', a)
    for k in range(4):
        CHECK(SAME(t[k], TERM('u%i' % k)), 'record-unpacked', a, k)


def check_readable(cls=FOUR, n=(1, 2, 171, 24281655)):
    """Position n, counted from one, is told by the record before it; what a doubled cube makes of it is doubled."""
    r = cls()
    r.f = File((16,))
    t = r.human_readable(n)
    a = N + 'human_readable_eq'
    e = EVENTS('unpack')
    CHECK(len(e) == 1 and e[0][2] == (n - 1) * 16, 'own-record', a, e)
    CHECK(len(t) == 4 and SAME(t[0], TERM('u0')) and SAME(t[3], TERM('u3')), 'equities', a)
    CHECK(SAME(t[1], TERM('u1') * 2) and SAME(t[2], TERM('u2') * 2), 'equities', a)
