"""Contract of tonic.combination: C counts combinations; C_RHash(i, n, r) is the i-th of the C(n, r) bit lists of
length n with r ones, in the order C_Hash numbers them."""


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r = r * i
    return r


def C(n, r):
    if r < 0 or r > n:
        return 0
    t = 1
    for i in range(r):
        t = t * (n - i) // (i + 1)
    return t


def C_Hash(xs, c):
    n = SYM('hash', 0, None)
    MARK('C_Hash', tuple(xs), c, n)
    return n


def C_RHash(i, n, r):
    if i < 0 or i >= C(n, r):
        raise ValueError('no such combination')
    MARK('C_RHash', i, n, r)
    # which one it is depends on i; the first in order stands for all
    return [0] * (n - r) + [1] * r
