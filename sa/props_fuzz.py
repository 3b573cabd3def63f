"""Fuzzing of formatters."""
import os

import drive
from absint import Raised, ListO, Tup, Ref, isint
from absbuiltins import PYEXC, exc
from dom import IntSet, Lin, lin_add
from props import driver, prop

STUBS = os.path.join(drive.DRV, 'stubs')


def setup(E, D):
    for name, f in (('xml', 'package'), ('xml.parsers', 'package'), ('xml.parsers.expat', 'expat')):
        E.stub(name, os.path.join(STUBS, f + '.py'))
        E.pkg.add('xml')
        E.pkg.add('xml.parsers')
    fresh = [0]

    def between(E, st, lo, hi, fr, n):
        if not (isinstance(lo, int) and isinstance(hi, int)):
            return None
        if lo > hi:
            return exc(st, 'ValueError', n, fr)
        fresh[0] += 1
        return [(st, E.sym('random%i' % fresh[0], IntSet.range(lo, hi)))]
    E.exthooks['random.randint'] = lambda E, st, a, kw, fr, n: between(E, st, a[0], a[1], fr, n)
    E.exthooks['random.randrange'] = lambda E, st, a, kw, fr, n: between(E, st, a[0] if len(a) > 1 else 0,
                                                                        (a[1] if len(a) > 1 else a[0]) - 1, fr, n)


@prop('D06', 'Abstract interpretation of genes of unknown letters and of formatters that fail in every place; the XML parser is a contract that records what it is given.',
      ['the text is that of the letters, always the same', 'a formatter that raises is found out, whatever it raises and wherever', 'a page that is not well-formed is found out',
       'formatters and pages without fault are not accused', 'the whole page is checked, once, within one document'],
      ['random gives some number within its bounds.', 'xml.parsers.expat keeps the contract of drivers/stubs.'])
def d06(chk, tier):
    driver(chk, 'fuzz.py', need=60, setup=setup, must_see=('bglib.doc.fuzzing.Gene.format', 'bglib.doc.fuzzing.Gene.verify'))
