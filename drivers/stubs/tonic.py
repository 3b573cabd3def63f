"""Contract of the third-party tonic.BitsArray, as abstract source.

A bit array of `size` bits: a field written to [begin:end) is read back from exactly that
range; writing any overlapping range destroys it; a value that does not fit in its range
does not survive.
"""


class Blob(object):
    """The binary text of a bit array or of a packed position."""
    def __init__(self, what, content):
        self.what = what
        self.content = content


class BitsArray(object):
    def __init__(self, size, binary=None, endian='<'):
        self.size = size
        self.endian = endian
        self.fields = {}
        if binary is not None:
            n, e, f = binary.content
            if n != size or e != endian:
                raise ValueError('binary of another layout')
            self.fields = dict(f)

    def set_shiftable(self, value, begin, end):
        if begin < 0 or begin >= end or end > self.size:
            raise ValueError('bad range')
        if value < 0 or value >= 1 << (end - begin):
            raise ValueError('the value does not fit in its bits')
        kept = {}
        for b, e in self.fields.keys():
            if e <= begin or end <= b:
                kept[(b, e)] = self.fields[(b, e)]
        kept[(begin, end)] = value
        self.fields = kept

    def _view(self, begin, end):
        if begin < 0 or begin >= end or end > self.size:
            raise ValueError('bad range')
        v = BitsArray(end - begin)
        for b, e in self.fields.keys():
            if begin <= b and e <= end:
                v.fields[(b - begin, e - begin)] = self.fields[(b, e)]
        return v

    def __getslice__(self, begin, end):
        return self._view(begin, end)

    def __len__(self):
        return self.size

    def _value(self):
        if (0, self.size) not in self.fields:
            raise ValueError('no field was written to this range')
        return self.fields[(0, self.size)]

    def __int__(self):
        return int(self._value())

    def __nonzero__(self):
        return bool(self._value())

    @property
    def binary(self):
        return Blob('bits', (self.size, self.endian, dict(self.fields)))
