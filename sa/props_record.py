"""Match records."""
import os

import drive
from absint import Engine
from props import driver, prop
from props_image import concrete_re


@prop('R01', 'Abstract interpretation over sequences of lines of known kinds with unknown numbers and sizes, and constant propagation for the forms of lines.',
      ['records are accepted exactly when their lines are in order', 'moves are numbered from one in each game', 'the hash and size are those of all lines', 'too long records are refused',
       'every line of a game is in the text of that game', 'lines are taken for what they are'],
      ['tonic.lineparser, decorator and sha behave as their contracts in drivers/stubs say.', 'Orders are checked from a representative of every state for two further lines.'])
def r01(chk, tier):
    E = Engine()

    def setup(E, D):
        concrete_re(E)
        E.pkg.add('tonic')
        for m, f in (('tonic', 'tonic'), ('tonic.lineparser', 'lineparser'), ('decorator', 'decorator'), ('sha', 'sha')):
            E.stub(m, os.path.join(drive.DRV, 'stubs', f + '.py'))
    setup(E, None)
    driver(chk, 'snowie.py', need=200, E=E, setup=setup, must_see=('bglib.record.snowietxt.Validator.feed', 'bglib.record.snowietxt.chop'))
