"""Contract of files: the lines of a file, until it is closed."""
FILES = {}
OPENED = []


class Opened(object):
    def __init__(self, path):
        self.path, self.closed, self.lines = path, False, list(FILES[path])

    def readlines(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return list(self.lines)

    def read(self):
        return ''.join(self.readlines())

    def readline(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self.lines.pop(0) if self.lines else ''

    def xreadlines(self):
        return iter(self.readlines())

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.closed = True

    def close(self):
        self.closed = True


def opened(path, mode='r', size=None):
    f = Opened(path)
    OPENED.append(f)
    return f
