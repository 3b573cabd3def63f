"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def p(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, thorough=True, state=None, observe=None):
    anchors = {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': None}
    if state:
        anchors['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe:
        anchors['observe_at'] = observe
    P.append((dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text},
                   why_tests_cant=why, anchors=anchors), technique, note, na))


AI = 'abstract interpretation of the parsed source (interval, finite-set and linear-relation domains over an abstract heap)'
NOTE = ('Sound for the interpreted subset of Python up to the modelled builtins; every branch over unknown inputs is covered. Trusts the '
        'Jython parser, the analyser in sa/, and the written oracle in drivers/.')

MODEL = ['bglib/model/boardeditor.py', 'bglib/model/board.py', 'bglib/model/util.py', 'bglib/model/constants.py']
MOVE = ['bglib/model/move.py'] + MODEL

p('M01', 'Rules are the same for both players',
  'Exchanging the two players of a position exchanges the answers: every legality question and every game action (roll, double, take, pass, resign, '
  'move) gives, for one player in the exchanged position, what it gave for the other in the original one. The moves suggested for a player are '
  'likewise unaffected by which of the two the player is.',
  ['inputs'], 'all positions, cube states, scores, match lengths, rules and dice, both players',
  'A test checks one player in a few positions; a rule written twice, once per player, can differ in a position no test visits.',
  MOVE, [('player-indexed legality questions', 'bglib/model/boardeditor.py'), ('suggested moves', 'bglib/model/move.py')], AI, NOTE)

p('M02', 'Legality questions follow the rules of backgammon',
  'For any position, the library says a player may roll, double, redouble, move, bear off, land, hit or resign exactly when the rules of backgammon say so: '
  'it is the player\'s turn, nothing is on offer, the cube is centred or owned, the match is not Crawford and the cube is not dead, '
  'all chequers are home before bearing off, and a point is open unless the opponent holds two chequers.',
  ['inputs'], 'all positions, cube states, scores, match lengths and players',
  'The conditions interact (cube owner, offer, Crawford, score, turn); tests sample a few combinations out of an unbounded space.',
  MODEL, [('is_leagal_to_* and related questions', 'bglib/model/boardeditor.py'), ('bear-off and landing questions', 'bglib/model/boardeditor.py')], AI, NOTE)

p('M03', 'Game actions change exactly what they should',
  'A game action that is legal leads to exactly the position the rules give: a take doubles the cube and gives it to the taker, a pass or accepted '
  'resignation ends the game, a rejected offer leaves what was there before, a roll sets the dice. An action that is refused raises an error and changes nothing.',
  ['inputs', 'histories'], 'all positions and every action by either player, and offer-then-answer sequences',
  'A test checks the attributes it names after one sample call; leaving a stray attribute changed or a refused action half done goes unseen.',
  MODEL, [('actions of the board editor', 'bglib/model/boardeditor.py')], AI, NOTE)

p('M04', 'Playing a chequer conserves chequers and can be undone',
  'Playing one die moves one chequer of that player from its point to the destination and, when it hits, the opponent\'s blot to the bar; the number of '
  'chequers of each player stays the same and no count becomes negative. Taking a played move back restores the position exactly.',
  ['inputs', 'histories'], 'all positions, every source point, die and hit, both players',
  'Tests play a few moves on the opening position; conservation must hold on every point, including bar and off.',
  MOVE, [('applying and undoing a partial move', 'bglib/model/move.py')], AI, NOTE)

p('M05', 'Suggested moves are legal',
  'Every move the library suggests for a click or drag is legal: it starts where the player has a chequer, uses a die that is still available, enters from the bar first, '
  'lands on an open point and bears off only when that is allowed. A suggested sequence of moves leads from the chosen point to the chosen point. '
  'The dice may be picked up exactly when no legal move remains.',
  ['inputs'], 'all positions, rolls, sources and destinations, both players',
  'The suggestions depend on every point between source and destination; tests try a few positions.',
  MOVE, [('guess_your_* functions and MoveFactory', 'bglib/model/move.py')], AI, NOTE)

p('M06', 'Asking a question changes nothing',
  'Legality questions, move suggestions and the check whether the dice may be picked up leave the position, the remaining dice and the move played so far exactly as they were.',
  ['inputs', 'histories'], 'all positions, rolls and clicks, both players; any sequence of questions',
  'A test reads the answer, rarely the untouched state; aliasing between caller and question shows only in later calls.',
  MOVE, [('questions on the board editor', 'bglib/model/boardeditor.py'), ('suggestions', 'bglib/model/move.py')], AI, NOTE)

p('M07', 'Positions are immutable values',
  'A position has exactly the attributes it was made with, and those of the start of a money game where none were given; its text form tells all of them. It cannot be changed or have attributes deleted, equals another position exactly when every attribute is equal, '
  'and equal positions have equal hashes. Editing goes through an editor that never changes the position it started from.',
  ['inputs', 'histories'], 'all attribute values and all editing sequences',
  'Sharing between an editor and its source shows only after a particular edit; tests edit a handful of attributes.',
  ['bglib/model/board.py', 'bglib/model/boardeditor.py'], [('Board', 'bglib/model/board.py'), ('BoardEditor', 'bglib/model/boardeditor.py')], AI, NOTE)

p('M08', 'Point names and numbers correspond one to one',
  'Every point of the board, the bar and the tray have one name, the name leads back to the same point, and anything that is no point is refused with an error. '
  'The opponent of a player\'s opponent is that player.',
  ['inputs'], 'all points and names, and all other numbers and text',
  'Tests check a few points; the refusal must hold for every other value.',
  ['bglib/model/util.py', 'bglib/model/constants.py'], [('move_pton, move_ntop', 'bglib/model/util.py')], AI, NOTE)

p('M09', 'Each die is used at most as often as it was rolled',
  'A roll provides each die once and a double four times; a die can be used only while it remains, and using it removes exactly one. No suggestion uses a die more often than it remains. Copies of the remaining dice are independent, '
  'and a move keeps its parts in the order played.',
  ['inputs', 'histories'], 'all rolls and every sequence of uses',
  'The histories of uses and copies are unbounded; tests use one or two.',
  ['bglib/model/move.py'], [('AvailableToPlay, Move, PartialMove', 'bglib/model/move.py')], AI, NOTE)

p('M10', 'Moves and dice are written as players write them',
  'The text of a part of a move is its source, a slash and its destination, counted from the mover, with bar and off by name and a star for a hit, and leads back to the same points. '
  'The text of a move lists its parts in the order played, and is o-o when nothing could be moved. The text of the dice names each die as often as it remains.',
  ['inputs', 'histories'], 'all parts of moves, moves of up to four parts, all rolls and uses',
  'The text is what a reader sees of a move; tests of moves compare numbers and hardly any text.',
  ['bglib/model/move.py', 'bglib/model/util.py'], [('PartialMove, Move and AvailableToPlay as texts', 'bglib/model/move.py')], AI, NOTE)

p('E01', 'GNU Backgammon match ids round trip',
  'Encoding a position and match state as a GNU Backgammon match id and decoding it gives back every attribute the format can hold, for either player on turn, '
  'and each field is at the bit positions GNU Backgammon documents. Encoding does not change the position it is given.',
  ['inputs'], 'all match states that fit the format, both players on turn',
  'Tests compare a dozen published ids; a shifted or clipped field shows only for particular values.',
  ['bglib/encoding/gnubgid.py'], [('MatchProxy bit fields', 'bglib/encoding/gnubgid.py'), ('encode, decode', 'bglib/encoding/gnubgid.py')], AI, NOTE)

p('E02', 'GNU Backgammon position ids encode every position',
  'Each chequer count is written in unary with a terminating zero, in little-endian bit order, and read back to the same count wherever it falls in the bytes. '
  'A position id is always ten bytes and keeps the order of the two sides.',
  ['inputs'], 'all chequer counts at all bit offsets',
  'Counts crossing byte boundaries depend on all earlier counts; tests try a few positions.',
  ['bglib/encoding/gnubgid.py'], [('oneside_encode, twoside_encode and decode', 'bglib/encoding/gnubgid.py')], AI, NOTE)

p('E03', 'XGIDs are decoded consistently or refused',
  'Decoding an XGID assigns the chequers, score, cube and turn of each of the two players to one and the same player, and keeps every field. '
  'Malformed text (wrong number of fields, non-numbers, bad flags) is refused with the documented decoding error and nothing else escapes.',
  ['inputs'], 'all XGID texts: well-formed ones with any field values, and malformed ones',
  'A mix-up of players is invisible in symmetric samples, and the malformed inputs are unlimited.',
  ['bglib/encoding/xgid.py'], [('decode', 'bglib/encoding/xgid.py')], AI, NOTE)

p('E04', 'FIBS board lines are decoded consistently',
  'Every field of a FIBS board line is read from its documented place, and the chequers, dice, turn, cube permission and score of each player go to that player whichever colour and direction he plays. '
  'Lines with either player or nobody on turn are decoded.',
  ['inputs'], 'all board lines with any numbers, both colours and directions',
  'Tests decode two captured lines; colour and direction combine in four ways with every field.',
  ['bglib/encoding/FIBS.py'], [('decode and translation', 'bglib/encoding/FIBS.py')], AI, NOTE)

p('E05', 'Database bytes round trip',
  'The byte form of a position read back gives the same chequers and the byte form of a board keeps every attribute. The bytes are seen from the player on action. '
  'The distance of two byte forms is the sum, over the points, of the squares of the differences in chequers, his counting negative.',
  ['inputs'], 'all positions without a point held by both players',
  'Tests try a handful of positions.',
  ['bglib/encoding/dbbyte.py'], [('encode, decode', 'bglib/encoding/dbbyte.py')], AI, NOTE)

p('E06', 'Bearoff databases are read record by record',
  'Looking up a record in a bearoff database gives the whole record at that index, however the file delivers its bytes, or an index error outside the range. '
  'Every index below the number of positions of a class is decoded to a position of that class. '
  'A record read is four equities in the order stored, shown with those of owned cubes doubled, and the numbers of positions agree with their definition.',
  ['inputs', 'fault_sequences'], 'all indices and short reads',
  'Tests read a few records from complete files.',
  ['bglib/encoding/bearoff/__init__.py', 'bglib/encoding/bearoff/t2k.py', 'bglib/encoding/bearoff/trice.py', 'bglib/encoding/bearoff/nori.py', 'bglib/encoding/bearoff/gnubgdb.py'],
  [('DBReader', 'bglib/encoding/bearoff/__init__.py'), ('index conversions', 'bglib/encoding/bearoff/t2k.py')], AI, NOTE)

exec(open(os.path.join(ROOT, 'tools', 'catalog2.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'catalog2.py')) else None

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, _, _, _ in P:
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
       'notes': 'Every check parses /repo as it is at the time of the run; the parse cache is keyed by file content. Exit 3: no answer (anchor vanished or unsupported construct).'}
for d, tech, note, na in P:
    if na:
        man['not_applicable'].append({'property': d['id'], 'reason': na})
    else:
        man['checks'].append({'property': d['id'], 'quick_cmd': 'python3 check.py ' + d['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % d['id'],
                              'technique': tech, 'level': 'other', 'level_note': note})
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
