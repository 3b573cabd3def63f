"""Contract of xml.parsers.expat as far as validation goes: a parser takes a document in pieces; text that is not well-formed is
refused where it is met, or at the end; a parser that was told of the end takes no more."""


class ExpatError(Exception):
    pass


error = ExpatError


class Parser(object):
    def __init__(self, number):
        self.number = number
        self.ended = False

    def Parse(self, text, isfinal=False):
        if self.ended:
            raise ExpatError('parsing finished')
        MARK('parse', self.number, text, bool(isfinal))
        if isfinal:
            self.ended = True
        if '<bad' in text:
            raise ExpatError('not well-formed')


def ParserCreate(encoding=None, namespace_separator=None):
    MARK('parser')
    return Parser(len(EVENTS('parser')))
