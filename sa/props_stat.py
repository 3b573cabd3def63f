"""Ratings and tourneys."""
import ast

import alg
from absint import BUILTINS, Builtin, Term
from props import driver, prop


def algebra(E, D):
    import absbuiltins
    BUILTINS['ALGEQ'] = Builtin('drv.ALGEQ')
    absbuiltins.b_drv_ALGEQ = lambda E, st, a, kw, fr, n: [(st, alg.equal(E.val(st, a[0]), E.val(st, a[1]), lambda v: E.norm(st, v)))]
    E.exthooks['math.sqrt'] = lambda E, st, a, kw, fr, n: [(st, Term('sqrt', E.val(st, a[0]), kind='float'))]
    E.exthooks['math.pow'] = lambda E, st, a, kw, fr, n: E.binop(ast.Pow(), Term('float', E.val(st, a[0]), kind='float'), a[1], st, fr, n)
    fresh = [0]

    def chance(E, st, a, kw, fr, n):
        fresh[0] += 1
        return [(st, Term('chance', fresh[0], kind='float'))]
    E.exthooks['random.random'] = chance
    # the order of the players is one of the driver's cases
    E.exthooks['random.shuffle'] = lambda E, st, a, kw, fr, n: [(st, None)]


@prop('S01', 'Abstract interpretation over unknown ratings and match lengths; the resulting formulas are compared as quotients of polynomials over opaque powers and roots.',
      ['chances follow the rating formula and add up to one', 'the gains of both players add up to the length of the match', 'nobody expects to gain', 'tourney chances are powers of the chance of a round',
       'handicaps make the expectation that of the average player'], ['Floating point numbers are taken for the real numbers they stand for.', 'Tourneys have at most six rounds.'])
def s01(chk, tier):
    driver(chk, 'rating.py', need=30, setup=algebra, must_see=('bglib.stat.rating.gain_on_win', 'bglib.stat.tourney.prize_handicap'))


@prop('S02', 'Abstract interpretation of one round of a tourney over unknown ratings and lives, with every outcome of every match.',
      ['everybody is either alive or dead, and dead when out of lives', 'everybody plays once in a round, except one of an odd number', 'every match costs its loser one life and nobody else anything',
       'a player wins with the chance the ratings give'], ['Tourneys of up to five players.', 'The shuffle is some permutation.'])
def s02(chk, tier):
    driver(chk, 'tourney.py', need=30, setup=algebra, must_see=('bglib.stat.tourney.Tourney.round', 'bglib.stat.tourney.Player.lost'))
