"""Moves: conservation of chequers, undo, suggestions obey the rules of the game."""
from bglib.model.board import Board
from bglib.model.boardeditor import BoardEditor
from bglib.model.move import PartialMove, MoveFactory, AvailableToPlay, Move
from bglib.model.constants import YOU, HIM, CENTER, ON_GOING, BAR, OFF

ED = 'bglib.model.boardeditor.BoardEditor.'
MF = 'bglib.model.move.MoveFactory.'
KEYS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
        'doubled', 'resign_offer', 'rolled', 'match_length', 'score')
ROLLS = tuple([(a, b) for a in range(1, 7) for b in range(1, a + 1)])


def side(name):
    return tuple([SYM('%s%i' % (name, i), 0, 15) for i in range(25)])


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def check_partial_move(who=(YOU, HIM), hit=(False, True), src=range(0, 25), step=range(1, 7)):
    dest = src - step
    if dest < OFF:
        dest = OFF
    y, h = side('y'), side('h')
    mine, other = (y, h) if who == YOU else (h, y)
    hit = hit and dest >= 0
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h)))
    before = [getattr(b, k) for k in KEYS if k != 'position']
    b.make_partial_move(PartialMove(step, src, dest, hit))
    a = ED + 'make_partial_move'
    n, o = (b.position[0], b.position[1]) if who == YOU else (b.position[1], b.position[0])
    CHECK(len(n) == 25 and len(o) == 25, 'shape', a)
    CHECK([getattr(b, k) for k in KEYS if k != 'position'] == before, 'only-position-changes', a)
    for i in range(25):
        want = mine[i]
        if i == src:
            want = want - 1
        if i == dest:
            want = want + 1
        CHECK(n[i] == want, 'chequer-moves', a, i, n[i], want)
        want = other[i]
        if hit and i == 23 - dest:
            want = want - 1
        if hit and i == BAR:
            want = want + 1
        CHECK(o[i] == want, 'hit-goes-to-bar', a, i, o[i], want)
    CHECK(total(n) == total(mine) - (1 if dest == OFF else 0), 'mover-conserved', a)
    CHECK(total(o) == total(other), 'opponent-conserved', a)
    b.make_partial_move(PartialMove(step, dest, src, hit))
    CHECK(b.position == (y, h), 'undo-restores', a, b.position)


def same_avail(x, y):
    for d in range(1, 7):
        if x[d] != y[d]:
            return False
    return True


def check_factory_append(who=(YOU, HIM), hit=(False, True), roll=((6, 5), (3, 3), (2, 1)), src=(24, 13, 6, 5, 2)):
    """Appending a move and its inverse to a factory restores board, dice and move list."""
    die = roll[0]
    dest = src - die
    if dest < OFF:
        dest = OFF
    hit = hit and dest >= 0
    y, h = side('y'), side('h')
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    mf = MoveFactory(b)
    a = MF + 'append'
    CHECK(len(mf.available) == (4 if roll[0] == roll[1] else 2), 'dice-of-the-roll', a)
    mf.append(PartialMove(die, src, dest, hit))
    CHECK(len(mf.available) == (3 if roll[0] == roll[1] else 1), 'die-consumed', a)
    CHECK(len(mf.move) == 1, 'move-recorded', a)
    mf.append(PartialMove(die, dest, src, hit))
    CHECK(len(mf.move) == 0, 'undo-cancels', a)
    CHECK(same_avail(mf.available, AvailableToPlay(roll)), 'die-given-back', a)
    CHECK(b.position == (y, h), 'undo-restores', a)


def empty_from(mine, lo):
    for i in range(lo, 25):
        if mine[i] > 0:
            return False
    return True


def legal(mine, other, src, die):
    """The rules: may the chequer on src be moved by die?"""
    if mine[src] <= 0:
        return False
    if src != BAR and mine[BAR] > 0:
        return False
    dest = src - die
    if dest >= 0:
        return other[23 - dest] <= 1
    if not empty_from(mine, 6):
        return False
    return dest == OFF or empty_from(mine, src + 1)


def dice_of(roll):
    if roll[0] == roll[1]:
        return (roll[0],)
    return (max(roll), min(roll))


def check_from_source(who=(YOU, HIM), roll=ROLLS, src=range(0, 25)):
    y, h = side('y'), side('h')
    mine, other = (y, h) if who == YOU else (h, y)
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    mf = MoveFactory(b)
    pm = mf.guess_your_single_pm_from_source(src)
    a = MF + 'guess_your_single_pm_from_source'
    CHECK(b.position == (y, h), 'question-leaves-board', a)
    CHECK(same_avail(mf.available, AvailableToPlay(roll)), 'question-leaves-dice', a)
    CHECK(len(mf.move) == 0, 'question-leaves-move', a)
    found = None
    for d in dice_of(roll):
        if legal(mine, other, src, d):
            found = d
            break
    if pm:
        CHECK(found is not None, 'suggestion-legal', a, pm.die, pm.src, pm.dest)
        if found is None:
            return
        CHECK(pm.die == found, 'suggestion-uses-largest-playable-die', a, pm.die, found)
        CHECK(pm.src == src, 'suggestion-source', a, pm.src)
        dest = src - pm.die
        CHECK(pm.dest == (dest if dest >= 0 else OFF), 'suggestion-destination', a, pm.dest)
        if dest >= 0:
            if pm.is_hitting:
                CHECK(other[23 - dest] == 1, 'suggestion-hit-flag', a)
            else:
                CHECK(other[23 - dest] == 0, 'suggestion-hit-flag', a)
        else:
            CHECK(not pm.is_hitting, 'suggestion-hit-flag', a)
    else:
        CHECK(found is None, 'suggestion-complete', a, found)


def check_from_dest(who=(YOU, HIM), roll=ROLLS, dest=range(-1, 24)):
    y, h = side('y'), side('h')
    mine, other = (y, h) if who == YOU else (h, y)
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    mf = MoveFactory(b)
    a = MF + 'guess_your_single_pm_from_dest'
    pm = mf.guess_your_single_pm_from_dest(dest)
    CHECK(b.position == (y, h), 'question-leaves-board', a)
    CHECK(same_avail(mf.available, AvailableToPlay(roll)), 'question-leaves-dice', a)
    CHECK(len(mf.move) == 0, 'question-leaves-move', a)
    if pm:
        CHECK(pm.die in dice_of(roll), 'suggestion-uses-available-die', a, pm.die)
        CHECK(pm.dest == dest, 'suggestion-destination', a, pm.dest)
        CHECK(legal(mine, other, pm.src, pm.die), 'suggestion-legal', a, pm.die, pm.src, pm.dest)
        if dest >= 0:
            CHECK(pm.src - pm.die == dest, 'suggestion-source', a)
            if pm.is_hitting:
                CHECK(other[23 - dest] == 1, 'suggestion-hit-flag', a)
            else:
                CHECK(other[23 - dest] == 0, 'suggestion-hit-flag', a)
        else:
            CHECK(not pm.is_hitting, 'suggestion-hit-flag', a)
            CHECK(pm.src - pm.die <= OFF, 'suggestion-source', a)
    else:
        for d in dice_of(roll):
            if dest >= 0:
                CHECK(dest + d > BAR or not legal(mine, other, dest + d, d), 'suggestion-complete', a, d)
            else:
                for s in range(0, d):
                    CHECK(not legal(mine, other, s, d), 'suggestion-complete', a, d, s)


# ------------------------------------------------------------------ several steps
def play(mine, other, mv, src, dest, roll, a):
    """Replay a suggested move on (mine, other): every step legal, dice of the roll, chained."""
    left = {}
    for d in range(1, 7):
        left[d] = 0
    if roll[0] == roll[1]:
        left[roll[0]] = 4
    else:
        left[roll[0]] = 1
        left[roll[1]] = 1
    mine, other = list(mine), list(other)
    at = src
    for pm in mv:
        CHECK(pm.src == at, 'steps-chained', a, pm.src, at)
        CHECK(left[pm.die] > 0, 'each-die-once', a, pm.die)
        CHECK(legal(mine, other, pm.src, pm.die), 'each-step-legal', a, pm.src, pm.dest)
        if pm.dest >= 0:
            CHECK(pm.dest == pm.src - pm.die, 'step-length', a)
            if pm.is_hitting:
                CHECK(other[23 - pm.dest] == 1, 'step-hit-flag', a)
                other[23 - pm.dest] = 0
            else:
                CHECK(other[23 - pm.dest] == 0, 'step-hit-flag', a)
            mine[pm.dest] = mine[pm.dest] + 1
        else:
            CHECK(not pm.is_hitting, 'step-hit-flag', a)
        mine[pm.src] = mine[pm.src] - 1
        left[pm.die] = left[pm.die] - 1
        at = pm.dest
    CHECK(at == dest, 'arrives', a, at, dest)


def check_multiple(who=(YOU, HIM), roll=((6, 5), (2, 1), (3, 3), (4, 3)), src=(24, 23, 12, 7, 3), dest=range(-1, 24)):
    if dest >= src or src - dest > 13:
        CHECK(True, 'steps-chained', MF + 'guess_your_multiple_pms')
        return
    y, h = side('y'), side('h')
    mine, other = (y, h) if who == YOU else (h, y)
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    mf = MoveFactory(b)
    a = MF + 'guess_your_multiple_pms'
    mv = mf.guess_your_multiple_pms(src, dest)
    CHECK(b.position == (y, h), 'question-leaves-board', a)
    CHECK(same_avail(mf.available, AvailableToPlay(roll)), 'question-leaves-dice', a)
    CHECK(len(mf.move) == 0, 'question-leaves-move', a)
    if mv:
        play(mine, other, mv, src, dest, roll, a)


def check_undoes(who=(YOU, HIM), first=(24, 13, 8), die=(3, 5), steps=(1, 2), back=(1, 2), hit=(False, True)):
    """Suggested take-backs: the inverse parts of moves made, last first, arriving where asked."""
    y, h = side('y'), side('h')
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=(die, die)))
    mf = MoveFactory(b)
    at = first
    for i in range(steps):
        if at - die < 0:
            break
        mf.append(PartialMove(die, at, at - die, hit))
        at = at - die
    pos = b.position
    n = len(mf.move)
    ASSUME(at + back * die <= 24)
    a = MF + 'guess_your_multiple_partial_undoes'
    mv = mf.guess_your_multiple_partial_undoes(at, at + back * die)
    CHECK(b.position == pos, 'question-leaves-board', a)
    CHECK(len(mf.move) == n, 'question-leaves-move', a)
    CHECK(len(mf.available) == 4 - n, 'question-leaves-dice', a)
    if mv:
        CHECK(back <= n, 'only-what-was-moved', a)
        for pm in mv:
            CHECK(pm.src == at and pm.dest == at + die and pm.die == die and pm.is_hitting == hit, 'undo-is-inverse', a)
            at = pm.dest
        CHECK(len(mv) == back, 'arrives', a)
    else:
        CHECK(back > n or at + back * die > first, 'finds-the-undo', a)


def check_making_point(who=(YOU, HIM), roll=((6, 5), (3, 1), (2, 2), (6, 4)), dest=(4, 6, 17, 20, 22)):
    """Two chequers to one point, each by a die of its own, both legal."""
    y, h = side('y'), side('h')
    mine, other = (y, h) if who == YOU else (h, y)
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    mf = MoveFactory(b)
    a = MF + 'guess_your_making_point'
    pms = mf.guess_your_making_point(dest)
    CHECK(b.position == (y, h), 'question-leaves-board', a)
    CHECK(same_avail(mf.available, AvailableToPlay(roll)), 'question-leaves-dice', a)
    CHECK(len(mf.move) == 0, 'question-leaves-move', a)
    if pms:
        CHECK(len(pms) == 2, 'two-chequers', a)
        p, q = pms[0], pms[1]
        CHECK(p.dest == dest and q.dest == dest, 'same-point', a)
        if roll[0] != roll[1]:
            CHECK(p.die != q.die, 'each-die-once', a, p.die, q.die)
        CHECK(p.die in roll and q.die in roll, 'dice-of-the-roll', a, p.die, q.die)
        CHECK(legal(mine, other, p.src, p.die), 'each-step-legal', a)
        m = list(mine)
        m[p.src] = m[p.src] - 1
        m[dest] = m[dest] + 1
        o = list(other)
        if p.is_hitting:
            CHECK(other[23 - dest] == 1, 'step-hit-flag', a)
            o[23 - dest] = 0
        else:
            CHECK(other[23 - dest] == 0, 'step-hit-flag', a)
        CHECK(not q.is_hitting, 'step-hit-flag', a)
        CHECK(legal(m, o, q.src, q.die), 'each-step-legal', a)
        CHECK(p.src - p.die == dest and q.src - q.die == dest, 'step-length', a)


def check_given_dice(who=(YOU, HIM), roll=((6, 5), (3, 1), (2, 2)), at=(24, 12, 5, 2),
                     ask=('source', 'dest', 'making')):
    """Dice the caller passes to a question stay as they are."""
    y, h = side('y'), side('h')
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    mf = MoveFactory(b)
    av = AvailableToPlay(roll)
    if ask == 'source':
        a = MF + 'guess_your_single_pm_from_source'
        mf.guess_your_single_pm_from_source(at, available=av)
    elif ask == 'dest':
        a = MF + 'guess_your_single_pm_from_dest'
        mf.guess_your_single_pm_from_dest(at if at < 24 else OFF, available=av)
    else:
        a = MF + 'guess_your_making_point'
        mf.guess_your_making_point(at if at < 24 else 3, available=av)
    CHECK(same_avail(av, AvailableToPlay(roll)), 'question-leaves-dice', a)
    CHECK(same_avail(mf.available, AvailableToPlay(roll)), 'question-leaves-dice', a)
    CHECK(b.position == (y, h), 'question-leaves-board', a)


def sparse(points, name):
    return tuple([SYM('%s%i' % (name, i), 0, 4) if i in points else 0 for i in range(25)])


def check_pickup(who=(YOU, HIM), roll=((6, 5), (3, 1), (4, 4)),
                 points=((24, 12), (23, 7), (3, 1), (8, 5), (12,)), used=(0, 1, 2)):
    """Dice stay while any of them can still be played; with none left they may go;
    asking changes nothing."""
    mine = sparse(points, 'm')
    lands = [23 - (p - d) for p in points for d in roll if p >= d]
    other = sparse(lands, 'o')
    y, h = (mine, other) if who == YOU else (other, mine)
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    av = AvailableToPlay(roll)
    if roll[0] == roll[1]:
        for i in range(2 * used):
            av.consume(roll[0])
    else:
        for i in range(used):
            av.consume(roll[i])
    left = [d for d in range(6, 0, -1) if d in av]
    mf = MoveFactory(b, available=av)
    a = MF + 'is_leagal_to_pickup_dice'
    CHECK(len(mf.available) == len(av), 'dice-left-as-given', MF + '__init__')
    try:
        got = mf.is_leagal_to_pickup_dice()
    except AssertionError:
        FAIL('answers', a)
        return
    CHECK(b.position == (y, h), 'question-leaves-board', a)
    CHECK(same_avail(mf.available, av), 'question-leaves-dice', a)
    CHECK(len(mf.move) == 0, 'question-leaves-move', a)
    if not left:
        CHECK(got, 'all-dice-played', a)
    elif got:
        for s in points:
            for d in left:
                CHECK(not legal(mine, other, s, d), 'no-pickup-while-playable', a, s, d)
    else:
        found = False
        for s in points:
            for d in left:
                if not found and legal(mine, other, s, d):
                    found = True
        CHECK(found, 'pickup-when-nothing-is-playable', a)


def check_pickup_after_move(who=(YOU, HIM), roll=((6, 5), (4, 1), (2, 4), (5, 6), (3, 3)), src=(24, 23, 12), hit=(False, True)):
    """The same question in the middle of a turn: moves made stay made."""
    die = roll[0]
    mine = sparse((src, 4), 'm')
    other = sparse([23 - (p - d) for p in (src, src - die, 4) for d in roll if p >= d], 'o')
    ASSUME(legal(mine, other, src, die))
    ASSUME((other[23 - (src - die)] == 1) == hit)
    y, h = (mine, other) if who == YOU else (other, mine)
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    mf = MoveFactory(b)
    mf.append(PartialMove(die, src, src - die, hit))
    a = MF + 'is_leagal_to_pickup_dice'
    pos = b.position
    got = mf.is_leagal_to_pickup_dice()
    CHECK(b.position == pos, 'question-leaves-board', a)
    CHECK(mf.available[roll[1]] == (3 if die == roll[1] else 1) and len(mf.available) == mf.available[roll[1]], 'question-leaves-dice', a)
    CHECK(len(mf.move) == 1, 'question-leaves-move', a)
    m, o = played(mine, other, src, die)
    if got:
        for s in (src, 4, src - die):
            CHECK(not legal(m, o, s, roll[1]), 'no-pickup-while-playable', a, s)
    else:
        found = False
        for s in (src, 4, src - die):
            if not found and legal(m, o, s, roll[1]):
                found = True
        if not found and die != roll[1] and both_playable(mine, other, (src, 4), roll):
            found = True
        if not found and die < roll[1]:
            # the larger die could have been played in place of this one
            for s in (src, 4):
                if not found and legal(mine, other, s, roll[1]):
                    found = True
        CHECK(found, 'pickup-when-nothing-is-playable', a)


def played(mine, other, src, die):
    m, o = list(mine), list(other)
    dest = src - die
    m[src] = m[src] - 1
    if dest >= 0:
        m[dest] = m[dest] + 1
        if other[23 - dest] == 1:
            o[23 - dest] = 0
            o[BAR] = o[BAR] + 1
    return m, o


def both_playable(mine, other, points, roll):
    for x, y in ((roll[0], roll[1]), (roll[1], roll[0])):
        for s in points:
            if legal(mine, other, s, x):
                m, o = played(mine, other, s, x)
                for s2 in points + (s - x,):
                    if s2 >= 0 and legal(m, o, s2, y):
                        return True
    return False


PLAYS = (((4, 24, 20, True), (4, 20, 16, False), (4, 16, 12, False), (4, 24, 20, False)),
         ((6, 23, 17, True), (5, 17, 12, True)),
         ((3, 8, 5, False), (3, 8, 5, False), (3, 8, 5, False), (3, 8, 5, False)),
         ((2, 1, -1, False), (1, 2, 1, False)),
         ((6, 9, 3, False), (6, 9, 3, True)))


def check_whole_move(who=(YOU, HIM), play=PLAYS, n=range(0, 5)):
    """Making a move makes each of its parts, once, in order; adding it to a turn does the same and uses its dice."""
    play = play[:n]
    y, h = side('y'), side('h')
    roll = (4, 4) if len(play) > 2 else (6, 5)
    mv = Move()
    want = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h)))
    for die, src, dest, hit in play:
        mv.append(PartialMove(die, src, dest, hit))
        want.make_partial_move(PartialMove(die, src, dest, hit))
    b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h)))
    b.make(mv)
    CHECK(b.position == want.position, 'every-part-made-once', ED + 'make', b.position, want.position)
    CHECK(len(mv) == len(play), 'move-unchanged', ED + 'make')
    if play:
        d = play[0][0]
        for p in play:
            if p[0] != d:
                break
        else:
            b = BoardEditor(Board(on_action=who, game_state=ON_GOING, position=(y, h), rolled=(d, d)))
            mf = MoveFactory(b)
            mf.add(mv)
            CHECK(b.position == want.position, 'every-part-made-once', MF + 'add', b.position, want.position)
            CHECK(len(mf.available) == 4 - len(play), 'dice-used', MF + 'add', len(mf.available))
            CHECK([str(p) for p in mf.move] == [str(p) for p in mv], 'move-recorded', MF + 'add')
    both = Move(src=mv)
    extra = Move()
    extra.append(PartialMove(1, 22, 21, False))
    both.add(extra)
    CHECK([str(p) for p in both] == [str(p) for p in mv] + [str(PartialMove(1, 22, 21, False))],
          'moves-joined-in-order', 'bglib.model.move.Move.add')
    CHECK(len(mv) == len(play), 'copy-apart', 'bglib.model.move.Move.add')


def check_factory_pickupdice(who=(YOU, HIM), roll=((6, 5), (4, 4)), used=(0, 1, 2)):
    """Picking up the dice ends the turn when no die can be played, and is refused otherwise."""
    mine = sparse((24, 12), 'm')
    other = sparse([23 - (p - d) for p in (24, 12) for d in roll], 'o')
    y, h = (mine, other) if who == YOU else (other, mine)
    b = BoardEditor(Board(on_action=who, on_inner_action=who, game_state=ON_GOING, position=(y, h), rolled=roll))
    av = AvailableToPlay(roll)
    for i in range(used):
        if roll[0] == roll[1]:
            av.consume(roll[0])
            av.consume(roll[0])
        else:
            av.consume(roll[i])
    mf = MoveFactory(b, available=av)
    a = MF + 'pickupdice'
    ok = mf.is_leagal_to_pickup_dice()
    try:
        mf.pickupdice()
        done = True
    except AssertionError:
        done = False
    CHECK(b.position == (y, h), 'position-stays', a)
    if ok:
        CHECK(done, 'allowed-when-legal', a)
        CHECK(b.rolled == (0, 0), 'dice-gone', a)
        CHECK(b.on_action == (HIM if who == YOU else YOU), 'turn-passes', a)
        CHECK(b.on_inner_action == (HIM if who == YOU else YOU), 'turn-passes', a)
    else:
        CHECK(not done, 'refused-when-playable', a)
        CHECK(b.rolled == roll, 'refused-keeps-dice', a)
        CHECK(b.on_action == who, 'refused-keeps-turn', a)
