"""Contract: a font has a file and a size; how large a text is in it is unknown."""


class Font(object):
    def __init__(self, uri, size):
        self.uri, self.size = uri, size

    def getsize(self, text):
        return self.measure(text)


def truetype(uri, size):
    return Font(uri, size)
