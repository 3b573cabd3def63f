"""Contract of the imaging library: images are values, nothing changes one in place but paste."""
FLIP_TOP_BOTTOM = 'flip top bottom'


class Picture(object):
    def __init__(self, uri, size, flips, mode):
        self.uri, self.size, self.flips, self.mode = uri, size, flips, mode
        self.pasted = []

    def transpose(self, how):
        if how != FLIP_TOP_BOTTOM:
            raise ValueError(how)
        return Picture(self.uri, self.size, not self.flips, self.mode)

    def resize(self, size):
        if not isinstance(size, tuple):
            raise TypeError('resize')
        return Picture(self.uri, size, self.flips, self.mode)

    def paste(self, im, box, mask=None):
        if (box[2] - box[0], box[3] - box[1]) != im.size:
            raise ValueError('images do not match')
        self.pasted.append((im, box, mask))


def open(uri):
    return Picture(uri, ('own size of', uri), False, 'RGBA' if uri.endswith('png') else 'RGB')


def new(mode, size):
    if not isinstance(size, tuple):
        raise TypeError('new')
    return Picture(None, size, False, mode)
