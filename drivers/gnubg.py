"""gnubg IDs: what is encoded is decoded, field by field, for either player on action."""
from tonic import Blob
from base64 import Text
from bglib.encoding import gnubgid, DecodeError
from bglib.encoding.gnubgid import encode, decode
from bglib.model.board import Board
from bglib.model.boardeditor import BoardEditor
from bglib.model.constants import YOU, HIM, CENTER

EN = 'bglib.encoding.gnubgid.encode'
DE = 'bglib.encoding.gnubgid.decode'
KEYS = ('position', 'cube_in_logarithm', 'cube_owner', 'on_action', 'crawford', 'game_state', 'on_inner_action',
        'doubled', 'resign_offer', 'rolled', 'match_length', 'score')
# layout of a gnubg match id (gnubg manual, "A technical description of the Match ID")
FIELDS = ((0, 4, 'cube_in_logarithm'), (4, 6, 'cube_owner'), (6, 7, 'on_action'), (7, 8, 'crawford'), (8, 11, 'game_state'),
          (11, 12, 'on_inner_action'), (12, 13, 'doubled'), (13, 15, 'resign_offer'), (15, 18, 'rolled', 0), (18, 21, 'rolled', 1),
          (21, 36, 'match_length'), (36, 51, 'score', 0), (51, 66, 'score', 1))


def side(name):
    return tuple([SYM('%s%i' % (name, i), 0, 15) for i in range(25)])


def unknown(who, money):
    return Board(game_state=ENUM('game_state', 0, 1, 2, 3, 4), on_action=who,
                 on_inner_action=ENUM('on_inner_action', YOU, HIM), doubled=ENUM('doubled', False, True),
                 crawford=ENUM('crawford', False, True), resign_offer=ENUM('resign_offer', 0, 1, 2, 3),
                 rolled=(SYM('die1', 0, 6), SYM('die2', 0, 6)),
                 match_length=0 if money else SYM('match_length', 1, 32767),
                 score=(0, 0) if money else (SYM('your_score', 0, 32767), SYM('his_score', 0, 32767)),
                 cube_in_logarithm=SYM('cube', 0, 15), cube_owner=ENUM('cube_owner', YOU, HIM, CENTER),
                 position=(side('y'), side('h')))


def check_roundtrip(who=(YOU, HIM), money=(False, True)):
    b = unknown(who, money)
    pid, mid = encode(b)
    CHECK('=' not in pid, 'no-padding', EN)
    CHECK('=' not in mid, 'no-padding', EN)
    e = BoardEditor()
    decode(e, pid, mid)
    for k in KEYS:
        CHECK(getattr(e, k) == getattr(b, k), 'decode-inverts-encode', DE, k)


def check_layout(who=(YOU, HIM), money=(False, True)):
    b = unknown(who, money)
    pid, mid = encode(b)
    size, endian, f = mid.blob.content
    CHECK(size == 66 and endian == '<', 'match-id-layout', EN)
    CHECK(len(f) == len(FIELDS), 'match-id-layout', EN)
    for x in FIELDS:
        v = getattr(b, x[2])
        if len(x) == 4:
            v = v[x[3]]
        CHECK(f.get((x[0], x[1])) == v, 'match-id-layout', EN, x[2])
    other, mover = (b.position[1], b.position[0]) if who == HIM else (b.position[0], b.position[1])
    # gnubg packs the player who is not on roll last, seen from the player on action
    CHECK(pid.blob.content == list(mover) + list(other) or pid.blob.content == list(other) + list(mover), 'both-sides-packed', EN)


def check_swapped():
    """The position part does not depend on which player is on action: only on who moves."""
    b = unknown(YOU, False)
    y, h = b.position
    c = BoardEditor(b)
    c.on_action = HIM
    c.position = (h, y)
    p1, m1 = encode(b)
    p2, m2 = encode(c)
    CHECK(p1.blob.content == p2.blob.content, 'position-id-is-from-the-mover', EN)


def check_encode_leaves(who=(YOU, HIM), money=(False, True)):
    b = unknown(who, money)
    before = [getattr(b, k) for k in KEYS]
    encode(b)
    CHECK([getattr(b, k) for k in KEYS] == before, 'encode-leaves-board', EN)


def check_padded_refused():
    t = Text(Blob('bits', (66, '<', {})), 1, SYM('have', 1, 2))
    for f in (gnubgid.decode_match, gnubgid.decode_position):
        try:
            f(t)
        except TypeError:
            refused = True
        else:
            refused = False
        CHECK(refused, 'padded-text-refused', DE)


def check_short_refused(n=(0, 1, 24, 25, 26, 49, 50, 51, 64), pad=(0, 1, 2)):
    """A position id with too few numbers for two sides is refused, any other is the first fifty."""
    xs = [SYM('n%i' % i, 0, 15) for i in range(n)]
    t = Text(Blob('position', xs), pad, 0)
    try:
        p = gnubgid.decode_position(t)
        refused = False
    except DecodeError:
        refused = True
    CHECK(refused == (n < 50), 'short-position-refused', 'bglib.encoding.gnubgid.decode_position', n)
    if not refused:
        CHECK(len(p) == 2 and list(p[0]) == xs[:25] and list(p[1]) == xs[25:50], 'reading-a-position-id', 'bglib.encoding.gnubgid.decode_position', n)


def check_position_text():
    xs = (tuple([SYM('a%i' % i, 0, 15) for i in range(25)]), tuple([SYM('b%i' % i, 0, 15) for i in range(25)]))
    t = gnubgid.encode_position(xs)
    CHECK('=' not in t, 'ids-have-no-padding', 'bglib.encoding.gnubgid.encode_position')
    CHECK(gnubgid.decode_position(t) == xs, 'reading-a-position-id', 'bglib.encoding.gnubgid.decode_position')
