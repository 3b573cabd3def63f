"""Contract of the base64 functions used: decode inverts encode once the padding is complete."""
from tonic import Blob


class Text(object):
    def __init__(self, blob, need, have):
        self.blob = blob
        self.need = need
        self.have = have

    def rstrip(self, chars):
        if chars == '=':
            return Text(self.blob, self.need, 0)
        raise ValueError('unexpected rstrip')

    def __contains__(self, x):
        if x == '=':
            return self.have > 0
        raise ValueError('unexpected membership')

    def __add__(self, x):
        if x == '=':
            return Text(self.blob, self.need, self.have + 1)
        raise ValueError('unexpected concatenation')

    def __str__(self):
        return STR('b64text')


def standard_b64encode(b):
    n = SYM('padding', 0, 2)
    if n == 0:
        return Text(b, 0, 0)
    if n == 1:
        return Text(b, 1, 1)
    return Text(b, 2, 2)


def standard_b64decode(s):
    if s.have < s.need:
        raise TypeError('Incorrect padding')
    return s.blob
