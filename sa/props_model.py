from props import prop, driver

A = ['The oracle is the rules of backgammon as written in drivers/, independently of the code; reviewed by hand.',
     'Board attributes are integers in the ranges the driver states (points 0..15, dice 0..6, players 0/1).']
HOW = ('Abstract interpretation of the Jython-parsed syntax tree of /repo: every call in the driver is interpreted over '
       'unknown inputs (interval/finite-set facts, linear relations, abstract heap), all branches covered, joined where '
       'they agree; a stated obligation that some abstract state does not imply is reported with its construct and region. ')


@prop('M01', HOW + 'Each query and action is interpreted on a board and on the same board with the players exchanged.',
      ['answer(swap(board), swap(player)) == answer(board, player) for every query',
       'action(swap(board), swap(player)) == swap(action(board, player)) for every action',
       'suggested moves are the same up to swapping'], A)
def m01(chk, tier):
    driver(chk, 'symmetry.py', need=1000)


@prop('M02', HOW + 'The answer of each legality question must equal the rule-book formula on every abstract board.',
      ['is_leagal_to_roll/move/double/redouble/resign, is_to_accept_resign, is_cube_take_or_pass == rule table',
       'is_open_to_land, is_hitting_to_land, has_chequer_to_move, bear-off questions == rule table'], A)
def m02(chk, tier):
    driver(chk, 'legality.py', need=1000)


@prop('M03', HOW + 'Each action is interpreted on every abstract board: either it is illegal and refused with every attribute '
      'unchanged, or the resulting attributes are exactly the specified ones.',
      ['post-state of each action == transition table', 'refused action leaves all attributes',
       'offer+reject restores; flip twice restores'], A)
def m03(chk, tier):
    driver(chk, 'editor.py', need=500)


@prop('M04', HOW + 'Every source point, die and hit flag of both players is a separate partition; point contents are unknown.',
      ['one chequer leaves the source and reaches the destination', 'a hit chequer reaches the bar',
       'chequers per player are conserved', 'playing a move and taking it back restores the position'], A)
def m04(chk, tier):
    driver(chk, 'moves.py', ['check_partial_move', 'check_factory_append', 'check_whole_move'], need=500)


SUGGEST = ['check_from_source', 'check_from_dest', 'check_multiple', 'check_undoes',
           'check_making_point', 'check_pickup', 'check_pickup_after_move', 'check_factory_pickupdice']


@prop('M05', HOW + 'Every suggestion produced for any abstract position, roll and point is tested against the rules.',
      ['a suggestion starts at a point with a chequer, uses an available die, enters from the bar first, lands on an open point, '
       'bears off only when allowed', 'a compound suggestion leads from the asked source to the asked destination',
       'dice may be picked up exactly when no legal move remains'], A)
def m05(chk, tier):
    driver(chk, 'moves.py', SUGGEST, need=500, rules=lambda r: not r.startswith('question-'))


def _reach(a, b):
    return (a, b, a + b, 2 * a, 3 * a, 8)


FEW = {'check_from_source': lambda c: c[1] in ((6, 5), (3, 3)) and c[2] in (24, 13, 3),
       'check_from_dest': lambda c: c[1] in ((6, 5), (3, 3)) and c[2] in (-1, 4, 18),
       'check_multiple': lambda c: c[2] in (24, 12, 7) and c[2] - c[3] in _reach(*tuple(c[1].items if hasattr(c[1], 'items') else c[1])),
       'check_making_point': lambda c: c[1] in ((3, 1), (2, 2)) and c[2] in (4, 20)}


@prop('M06', HOW + 'Every question is interpreted on every abstract board; all attributes of the board, the remaining dice and the '
      'move so far are compared before and after. In particular no question writes into shared state on any path.',
      ['question-leaves-board', 'question-leaves-dice', 'question-leaves-move', 'question-leaves-defaults'], A)
def m06(chk, tier):
    driver(chk, 'queries.py', need=300, rules=lambda r: r.startswith('question-'))
    driver(chk, 'moves.py', SUGGEST + ['check_given_dice'], need=100, rules=lambda r: r.startswith('question-'),
           case_ok=(lambda n, c: True) if tier == 'thorough' else (lambda n, c: n not in FEW or FEW[n](c)))


@prop('M07', HOW + 'Boards over unknown attribute values: construction, equality, hashing, immutability, editor isolation.',
      ['attributes given are attributes read', 'immutable boards refuse every change', 'an editor never writes through to its source',
       'equal iff every attribute is equal; equal implies equal hash', 'what is not given is as at the start of a money game', 'the text of a position tells every attribute'], A)
def m07(chk, tier):
    driver(chk, 'values.py', ['check_attributes', 'check_construct', 'check_defaults', 'check_dump', 'check_immutable', 'check_unknown_attribute',
                              'check_editor_isolated', 'check_editor_arguments', 'check_equality', 'check_equality_foreign'], need=100)


@prop('M08', HOW + 'The finite set of points and players is enumerated as abstract partitions; rejected text is unknown.',
      ['point -> name -> point is the identity', 'names are distinct', 'anything that is not a point is refused',
       'the opponent of the opponent is the player'], A)
def m08(chk, tier):
    driver(chk, 'values.py', ['check_points', 'check_usual_names', 'check_names_distinct', 'check_reject_high', 'check_reject_name', 'check_reject_text',
                              'check_opponent'], need=100)


@prop('M09', HOW + 'Every roll is a partition; the played die is checked against the multiset of dice that remain.',
      ['a roll gives two dice, doubles four', 'a die can be used only while it remains and using it removes exactly one',
       'copies do not share dice', 'a move list is a sequence of its partial moves', 'no suggestion uses a die more often than it remains', 'inverting a partial move twice is the identity'], A)
def m09(chk, tier):
    driver(chk, 'values.py', ['check_roll', 'check_no_roll', 'check_consume', 'check_dice_copy', 'check_max', 'check_bad_die',
                              'check_move_list', 'check_inverse', 'check_direction'], need=100)
    driver(chk, 'remaining.py', ['check_sequence', 'check_single'], need=100)


@prop('M10', HOW + 'The texts of moves and dice are computed for every pair of ends, hits and dice and compared with the notation.',
      ['a part is written as source/destination, a star for a hit, bar and off by name', 'the text of a part leads back to its ends',
       'a move is the list of its parts in order, o-o for none', 'the dice that remain are named, each as often as it remains'], A)
def m10(chk, tier):
    driver(chk, 'notation.py', need=300)
