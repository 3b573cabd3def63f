"""Fuzzing: a text that breaks a formatter is told from one that does not, and the text can be had again."""
from bglib.doc.fuzzing import Gene, FormatError, ParseError

G = 'bglib.doc.fuzzing.Gene.'


class Trouble(Exception):
    pass


class Formatter(object):
    """Raises what it is told to, where it is told to."""
    def __init__(self, where, what, html):
        self.where = where
        self.what = what
        self.html = html
        self.texts = []

    def parse(self, text):
        self.texts.append(text)
        if self.where == 'parse':
            raise self.what

    def make_html(self):
        self.texts.append('made')
        if self.where == 'make':
            raise self.what
        return self.html


class Longer(Gene):
    multi = ['[[', '||', '\n', 'CamelCase']


class Other(Gene):
    single = ['x']
    multi = ['yy', 'zzz']


WHAT = (Trouble('t'), AssertionError('a'), ValueError('v'), KeyError('k'), IndexError('i'), TypeError('x'), AttributeError('y'),
        NotImplementedError('n'), RuntimeError('r'))


def check_text(cls=(Gene, Longer, Other), length=(0, 1, 2)):
    """The text is that of the letters, one after the other, and always the same."""
    g = cls(length)
    letters = list(cls.single) + list(cls.multi)
    CHECK(len(g.code) == length, 'as long as asked', G + 'get_text')
    want = ''
    for c in g.code:
        CHECK(0 <= c and c < len(letters), 'letters of the kind', G + 'get_text')
        want = want + letters[c]
    CHECK(g.get_text() == want, 'the text is that of the code', G + 'get_text', g.get_text())
    CHECK(g.get_text() == g.get_text(), 'the same text again', G + 'get_text')
    CHECK(hash(g) == hash(g), 'the same text again', G + 'get_text')


def check_letters(cls=(Gene, Longer, Other)):
    g = cls(0)
    letters = list(cls.single) + list(cls.multi)
    for i in range(len(letters)):
        g.code = (i,)
        CHECK(g.get_text() == letters[i], 'every letter can be had', G + 'get_text', i)
        g.code = (i, 0, i)
        CHECK(g.get_text() == letters[i] + letters[0] + letters[i], 'the text is that of the code', G + 'get_text', i)


def check_broken(where=('parse', 'make'), what=WHAT, length=(0, 1, 3)):
    g = Gene(length)
    f = Formatter(where, what, '<p>fine</p>')
    r = g.format(f)
    CHECK(not r, 'a formatter that breaks is found out', G + 'format')
    CHECK(isinstance(r, FormatError), 'a formatter that breaks is found out', G + 'format')
    CHECK(r.exception is what, 'the error is told', G + 'format')
    CHECK(f.texts[0] == g.get_text() and len(f.texts) == (1 if where == 'parse' else 2), 'the formatter gets the text', G + 'format')
    CHECK(g.html is None, 'no page of a broken formatter', G + 'format')


def check_whole(html=('<p>fine</p>', '<bad', 'x' * 40), length=(0, 1, 3)):
    g = Gene(length)
    f = Formatter(None, None, html)
    r = g.format(f)
    CHECK(r, 'a formatter that works is not accused', G + 'format')
    CHECK(f.texts == [g.get_text(), 'made'], 'the formatter gets the text', G + 'format', f.texts)
    CHECK(g.html == html, 'the page is kept', G + 'format')


def check_verify(html=('<p>fine</p>', '<bad', 'text <bad attr=>', '<i>x</i><bad>', 'plain page')):
    g = Gene(2)
    g.format(Formatter(None, None, html))
    r = g.verify()
    if '<bad' in html:
        CHECK(not r and isinstance(r, ParseError) and not isinstance(r, FormatError), 'a page that is not well-formed is found out', G + 'verify')
    else:
        CHECK(r, 'a well-formed page is not accused', G + 'verify')
    e = EVENTS('parse')
    doc = ''
    for x in e:
        CHECK(x[1] == e[0][1], 'one document', G + 'verify')
        doc = doc + x[2]
    if '<bad' not in html:
        CHECK(len(e) > 0 and e[-1][3], 'the whole page is checked', G + 'verify')
        at = doc.find(html)
        CHECK(at > 0 and doc[:at].count('<body>') == 1 and doc[at + len(html):].strip() == '</body></html>', 'the whole page is checked', G + 'verify', doc)
    CHECK(g.html == html, 'the page is kept', G + 'verify')


def check_again(where=('parse', 'make')):
    """A text tried on one formatter can be tried on another."""
    g = Gene(3)
    g.format(Formatter(where, Trouble('t'), '<p>no</p>'))
    f = Formatter(None, None, '<p>yes</p>')
    CHECK(g.format(f), 'a formatter that works is not accused', G + 'format')
    CHECK(g.html == '<p>yes</p>' and f.texts[0] == g.get_text(), 'the page is kept', G + 'format')
    CHECK(g.verify(), 'a well-formed page is not accused', G + 'verify')
