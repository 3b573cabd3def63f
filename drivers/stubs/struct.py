"""Contract of struct for the formats used."""


def pack(fmt, v):
    if fmt != '<B' and fmt != 'B' and fmt != '>B':
        raise ValueError('format not covered')
    if v < 0 or v > 255:
        raise ValueError('ubyte format requires 0 <= number <= 255')
    return chr(v)


def unpack(fmt, s):
    if fmt == '<B' or fmt == 'B' or fmt == '>B':
        if len(s) != 1:
            raise ValueError('unpack requires a string argument of length 1')
        return (ord(s),)
    if hasattr(s, 'start'):
        MARK('unpack', fmt, s.start, len(s))
    else:
        MARK('unpack', fmt, s)
    return (TERM('u0'), TERM('u1'), TERM('u2'), TERM('u3'))
