"""One round of a tourney."""
import math
from bglib.stat.tourney import Tourney, Player

T = 'bglib.stat.tourney.'


def players(n):
    return dict([(i, Player(SYM('lives%d' % i, 1), SYM('rating%d' % i))) for i in range(n)])


def check_round(n=(0, 1, 2, 3, 4, 5)):
    ps = players(n)
    who = [ps[i] for i in range(n)]
    t = Tourney(n, entries=ps)
    before = [p.lives for p in who]
    ratings = [p.rating for p in who]
    t.round()
    lost = [before[i] - who[i].lives for i in range(n)]
    CHECK(sum(lost) == n / 2, 'every match costs its loser one life', T + 'Tourney.round', lost)
    for i in range(n):
        CHECK(lost[i] == 0 or lost[i] == 1, 'nobody loses more than once in a round', T + 'Tourney.round', lost)
        CHECK(who[i].rating == ratings[i], 'a round leaves the ratings alone', T + 'Tourney.round')
        CHECK((i in t.alive) != (i in t.dead), 'everybody is either alive or dead', T + 'Tourney.round', i)
        if i in t.alive:
            CHECK(t.alive[i] is who[i], 'everybody keeps their name', T + 'Tourney.round', i)
            CHECK(who[i].lives > 0, 'who is alive has lives left', T + 'Tourney.round', who[i].lives)
        elif i in t.dead:
            CHECK(t.dead[i] is who[i], 'everybody keeps their name', T + 'Tourney.round', i)
            CHECK(who[i].lives <= 0, 'who is dead has no lives left', T + 'Tourney.round', who[i].lives)
    CHECK(len(t.alive) + len(t.dead) == n, 'nobody joins', T + 'Tourney.round')
    if n:
        CHECK(len(t.alive) > 0, 'somebody is left', T + 'Tourney.round')


def chance(a, b, length):
    """The rating system's chance of a against b."""
    return 1 / (10.0 ** ((b - a) * math.sqrt(length) / 2000.0) + 1)


def check_matches(n=(2, 3, 4, 5)):
    """Every match is between two players, who play one match, and the winner is the one the random number says."""
    ps = players(n)
    who = [ps[i] for i in range(n)]
    t = Tourney(n, entries=ps)
    before = [p.lives for p in who]
    t.round()
    lost = [before[i] - who[i].lives for i in range(n)]
    ev = EVENTS('chance')
    CHECK(len(ev) == n / 2, 'one chance decides a match', T + 'Tourney.round', ev)
    seen = []
    for e in ev:
        limit = e[1]
        below = e[2]
        found = False
        for a in range(n):
            for b in range(n):
                if a != b and ALGEQ(limit, chance(who[a].rating, who[b].rating, t.matchlength)):
                    # a wins if the random number is below the limit
                    if lost[a] == (0 if below else 1) and lost[b] == (1 if below else 0) and a not in seen and b not in seen and not found:
                        found = True
                        seen.extend([a, b])
        CHECK(found, 'two players meet, once in a round, and each wins with the chance the ratings give', T + 'Tourney.round', limit, below, lost)


def check_new(n=(0, 1, 2, 3, 4)):
    t = Tourney(n)
    CHECK(len(t.alive) == n and len(t.dead) == 0, 'a new tourney has everybody alive', T + 'Tourney.__init__')
    ids = []
    for i in t.alive:
        p = t.alive[i]
        CHECK(p.lives > 0 and not p.isdead(), 'a new tourney has everybody alive', T + 'Tourney.__init__', p.lives)
        for q in ids:
            CHECK(p is not q, 'everybody has lives of their own', T + 'Tourney.__init__')
        ids.append(p)


def check_entries_kept(n=(2, 3)):
    """The caller's dict of entries is the caller's."""
    ps = players(n)
    t = Tourney(n, entries=ps)
    t.round()
    CHECK(len(ps) == n, "the caller's entries stay as they are", T + 'Tourney.__init__', len(ps))


def check_player():
    p = Player(SYM('lives'), SYM('rating'))
    n = p.lives
    p.lost()
    CHECK(p.lives == n - 1, 'a lost match costs one life', T + 'Player.lost', p.lives)
    CHECK(p.isdead() == (p.lives <= 0), 'a player without lives is dead', T + 'Player.isdead', p.lives)
