"""The unary bit packing of a position, as a lossless container (its bit arithmetic is not in question here)."""
from tonic import Blob


def twoside_encode(xs):
    return Blob('position', list(xs[0]) + list(xs[1]))


def twoside_decode(b):
    xs = b.content
    return tuple(xs[:25]), tuple(xs[25:50])
