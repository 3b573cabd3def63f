import os
from props import prop, driver
import drive
from absint import AnalysisError

STUBS = os.path.join(drive.DRV, 'stubs')
HOW = ('Abstract interpretation of the Jython-parsed syntax tree of /repo over unknown inputs; obligations stated in drivers/. ')


def setup_gnubg(E, D):
    E.stub('tonic', os.path.join(STUBS, 'tonic.py'))
    E.stub('base64', os.path.join(STUBS, 'base64.py'))
    E.stub('positionbits', os.path.join(STUBS, 'positionbits.py'))
    for a in ('twoside_encode', 'twoside_decode'):
        E.resolve('bglib.encoding.gnubgid.' + a)
    pb = E.load('positionbits')

    def enc(E, st, fn, args, kw, fr, n):
        return E.call_fn(st, pb['twoside_encode'], args, kw, fr, n)

    def dec(E, st, fn, args, kw, fr, n):
        return E.call_fn(st, pb['twoside_decode'], args, kw, fr, n)
    E.hooks['bglib.encoding.gnubgid.twoside_encode'] = enc
    E.hooks['bglib.encoding.gnubgid.twoside_decode'] = dec


def setup_bearoff(E, D):
    E.stub('tonic', os.path.join(STUBS, 'tonic.py'))
    E.pkg.add('tonic')
    E.stub('tonic.combination', os.path.join(STUBS, 'combination.py'))
    E.stub('struct', os.path.join(STUBS, 'struct.py'))


def setup_posbits(E, D):
    E.stub('tonic', os.path.join(STUBS, 'tonic.py'))
    E.stub('base64', os.path.join(STUBS, 'base64.py'))
    E.stub('struct', os.path.join(STUBS, 'struct.py'))


AT = ['The third-party modules tonic, base64 and struct behave as their contracts in drivers/stubs say.']


@prop('E01', HOW + 'A board with unknown attributes is encoded and decoded; the bit positions written and read are compared with the '
      'published layout, and the decoded board with the encoded one, attribute by attribute, for either player on action.',
      ['decode(encode(board)) == board for every attribute that fits the format', 'every field is at its published bit range',
       'encoding leaves the board', 'padded text is refused'],
      AT + ['The packing of the position part is a lossless container here; E02 decides it.'])
def e01(chk, tier):
    driver(chk, 'gnubg.py', need=200, setup=setup_gnubg)


@prop('E02', HOW + 'The packer is a finite transducer (bit offset x next number): every transition is interpreted; the reader is '
      'interpreted over unknown bits.',
      ['numbers are written in unary, little endian, zero terminated, from every bit offset', 'reading unknown bits counts the runs of ones '
       'also across bytes', 'a position takes exactly ten bytes', 'the two sides keep their order'], AT)
def e02(chk, tier):
    driver(chk, 'posbits.py', need=200, setup=setup_posbits)


@prop('E03', HOW + 'Texts made of unknown fields are decoded; every branch of the decoder is covered.',
      ['turn, cube owner, score and chequers of one XG player all go to one bglib player', 'fields are kept',
       'text with wrong counts, non-numbers or bad flags is refused with an encoding error and nothing else escapes'],
      ['Unknown fields contain no separator.'])
def e03(chk, tier):
    driver(chk, 'xgid.py', need=200)


@prop('E04', HOW + 'A board line of 51 unknown numbers is decoded.',
      ['each named field is at its documented place', 'chequers, dice, turn, cube and score of each player go to that player for either '
       'colour and direction', 'lines with either player or nobody on turn are decoded'],
      ['Numbers are written in decimal.'])
def e04(chk, tier):
    driver(chk, 'fibs_board.py', need=200)


@prop('E05', HOW + 'Positions with unknown numbers of chequers, over every ownership pattern listed in the driver and every pair of points.',
      ['bytes -> position inverts position -> bytes', 'the byte form keeps every attribute, is immutable and gives back an equal board',
       'the bytes are seen from the player on action'], ['No point is held by both players.'])
def e05(chk, tier):
    driver(chk, 'dbbyte.py', need=200)


@prop('E06', HOW + 'A record is read from an unknown index of a file that returns its bytes in several portions.',
      ['a whole record from its own place, or IndexError', 'every index below the number of positions is decoded within its class',
       'the furthest point and chequer count are right', 'numbers of positions agree with their definition',
       'a record is four floats, shown with the equities of owned cubes doubled'], AT)
def e06(chk, tier):
    driver(chk, 'bearoff.py', need=100, setup=setup_bearoff)
