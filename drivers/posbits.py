"""The unary bit packing of gnubg position ids, transition by transition."""
from bglib.encoding.gnubgid import seq2bytes, byts2seq, twoside_encode, twoside_decode
from bglib.encoding import gnubgid

S = 'bglib.encoding.gnubgid.seq2bytes'
T = 'bglib.encoding.gnubgid.twoside_encode'
B = 'bglib.encoding.gnubgid.byts2seq'


def unary(xs):
    bits = []
    for x in xs:
        bits = bits + [1] * x + [0]
    return bits


def pack(bits):
    """Little endian bytes, zero padded to whole bytes."""
    out = []
    for k in range((len(bits) + 7) // 8):
        v = 0
        for j in range(8):
            i = 8 * k + j
            if i < len(bits):
                v = v + bits[i] * (1 << j)
        out.append(chr(v))
    return out


def check_write(p=range(0, 8), x=range(0, 16)):
    """From any bit offset (p ones and a zero before), any number is written in unary."""
    CHECK(list(seq2bytes([p, x])) == pack(unary([p, x])), 'unary-little-endian', S)


def check_write_after(x=(0, 1, 2, 5, 6, 7, 8, 9, 14, 15), y=(0, 1, 3, 7, 8, 15)):
    CHECK(list(seq2bytes([x, y, 2, 0, 1])) == pack(unary([x, y, 2, 0, 1])), 'unary-little-endian', S)


def check_length(n=range(0, 31), bar=(0, 24)):
    """However many chequers are left, a position is ten bytes."""
    xs, ys = [0] * 25, [0] * 25
    a = n if n < 15 else 15
    xs[bar] = a
    ys[3] = n - a
    s = twoside_encode((tuple(xs), tuple(ys)))
    CHECK(len(s) == 10, 'ten-bytes', T)
    want = pack(unary(xs + ys))
    CHECK(s == ''.join(want) + '\x00' * (10 - len(want)), 'unary-little-endian', T)
    CHECK(twoside_decode(s) == (tuple(xs), tuple(ys)), 'reading-inverts-writing', B)


def bits_of(name):
    return [SYM('%s%i' % (name, i), 0, 1) for i in range(8)]


def byte(bits):
    v = 0
    for j in range(8):
        v = v + bits[j] * (1 << j)
    return chr(v)


def counted(bits):
    out, n = [], 0
    for b in bits:
        if b == 1:
            n = n + 1
        else:
            out.append(n)
            n = 0
    out.append(n)
    return out


def check_read():
    bits = bits_of('b')
    CHECK(list(byts2seq(byte(bits))) == counted(bits), 'reads-unary', B)


def check_read_carry(lead=(0, 1, 7, 8), first=(1, 0)):
    """A run of ones goes on in the next byte."""
    one = [first] * (8 - lead) + [1] * lead
    two = bits_of('b')
    CHECK(list(byts2seq(byte(one) + byte(two))) == counted(one + two), 'reads-unary', B)


def check_sides():
    """Both halves are packed in the order given."""
    xs = tuple([1 if i % 3 else 0 for i in range(25)])
    ys = tuple([2 if i % 5 == 0 else 0 for i in range(25)])
    want = pack(unary(list(xs) + list(ys)))
    CHECK(twoside_encode((xs, ys)) == ''.join(want) + '\x00' * (10 - len(want)), 'sides-in-order', T)


def check_split():
    s = byte([0] * 8) * 5 + byte([1, 0, 1, 1, 0, 0, 0, 0]) + byte([0] * 8)
    xs = list(byts2seq(s))
    p = twoside_decode(s)
    CHECK(len(p) == 2 and list(p[0]) == xs[:25] and list(p[1]) == xs[25:50], 'sides-in-order', 'bglib.encoding.gnubgid.twoside_decode')


def check_inverse(p=range(0, 8), x=range(0, 16)):
    xs = [p, x]
    got = list(byts2seq(''.join(list(seq2bytes(xs)))))
    CHECK(got[:2] == xs, 'reading-inverts-writing', B)
