"""Moves and dice are written the way players write them, and nothing gets lost in the writing."""
from bglib.model.move import PartialMove, Move, AvailableToPlay
from bglib.model.util import move_pton

P = 'bglib.model.move.PartialMove.__str__'
M = 'bglib.model.move.Move.__str__'
AV = 'bglib.model.move.AvailableToPlay.__str__'


def name(n):
    if n == -1:
        return 'off'
    if n == 24:
        return 'bar'
    return '%i' % (n + 1)


def check_part(src=range(-1, 25), hit=(False, True)):
    for dest in range(-1, 25):
        s = str(PartialMove(SYM('die', 1, 6), src, dest, hit))
        CHECK(s == name(src) + '/' + name(dest) + ('*' if hit else ''), 'a part names its ends and its hit', P, src, dest, s)
        ends = s.rstrip('*').split('/')
        CHECK(len(ends) == 2 and move_pton(ends[0]) == src and move_pton(ends[1]) == dest, 'a part can be read back', P, src, dest)


def check_bad_part(end=('src', 'dest')):
    """What is no point has no name: nothing is written for it."""
    n = SYM('n', 25, None)
    try:
        str(PartialMove(1, n, 3, False) if end == 'src' else PartialMove(1, 3, n, False))
    except ValueError:
        refused = True
    else:
        refused = False
    CHECK(refused, 'no name for what is no point', P)


MOVES = ((), ((24, 20, True),), ((12, 7, False), (12, 6, True)), ((2, -1, False), (1, -1, False), (1, -1, False), (0, -1, False)),
         ((5, 3, False), (5, 3, False), (5, 3, False)), ((7, 4, True), (5, 4, False)), ((23, 17, False), (17, 12, False)))


def check_move(parts=MOVES):
    mv = Move()
    want = []
    for src, dest, hit in parts:
        mv.append(PartialMove(SYM('d', 1, 6), src, dest, hit))
        want.append(name(src) + '/' + name(dest) + ('*' if hit else ''))
    s = str(mv)
    if parts:
        CHECK(s == ', '.join(want), 'a move names all of its parts in order', M, s, want)
    else:
        CHECK(s == 'o-o', 'no move is written as a dance', M, s)
    CHECK(len(mv) == len(parts), 'writing changes nothing', M)


def check_move_hits(hit=(False, True), second=(False, True)):
    mv = Move()
    mv.append(PartialMove(6, 20, 14, hit))
    mv.append(PartialMove(5, 14, 9, second))
    CHECK(str(mv) == '21/15' + ('*' if hit else '') + ', 15/10' + ('*' if second else ''), 'a move names all of its parts in order', M, str(mv))


def check_dice(roll=tuple([(a, b) for a in range(1, 7) for b in range(1, 7)]), used=range(0, 5)):
    av = AvailableToPlay(roll)
    left = [roll[0]] * 4 if roll[0] == roll[1] else [roll[0], roll[1]]
    ASSUME(used <= len(left))
    for i in range(used):
        av.consume(left[i])
    left = left[used:]
    s = str(av)
    CHECK(s.startswith('Available to play: '), 'the dice that remain are named', AV, s)
    names = s[len('Available to play: '):].split(', ')
    if left:
        CHECK(sorted(names) == sorted(['%i' % d for d in left]), 'the dice that remain are named', AV, s, left)
    else:
        CHECK(names == [''], 'the dice that remain are named', AV, s, left)
    CHECK(len(av) == len(left), 'writing changes nothing', AV)
