DOC = ['bglib/doc/bgwiki.py', 'bglib/doc/doctree.py', 'bglib/doc/macro.py', 'bglib/doc/html.py']
DAI = ('abstract interpretation of the parsed source: characters abstracted to the atoms of the regular expressions\' character sets, '
       'editor states explored breadth first')

p('D01', 'Wiki pages are well-formed HTML without foreign markup',
  'Whatever text is written on a wiki page, rendering it raises no error and gives well-formed HTML: every element is closed in order, and every <, >, & and " of the text is '
  'escaped exactly once, in text and in attributes, so that no text can add markup of its own. Rendering the same page again gives the same HTML.',
  ['inputs', 'histories'], 'all texts: every character and every construct of the markup, from every state an earlier line can leave',
  'Markup constructs nest and end each other in unlimited combinations; tests render a few dozen pages.',
  DOC, [('LineFormatter and its handlers', 'bglib/doc/bgwiki.py'), ('element tree and HTML writer', 'bglib/doc/doctree.py'), ('escape', 'bglib/doc/html.py')], DAI, NOTE)

p('D02', 'Wiki pages keep the whole text in order',
  'The text of a wiki page appears on the rendered page completely, once, and in the order in which it was written; only the marks of the markup disappear, and a mark preceded by ! '
  'appears as text. Links lead where their text says. Preformatted blocks are shown verbatim.',
  ['inputs', 'histories'], 'all texts: every character and every construct of the markup, from every state an earlier line can leave',
  'Text is attached to elements that may be closed, moved further up, or re-opened; only a few such combinations are tested.',
  DOC, [('LineFormatter.parse and handlers', 'bglib/doc/bgwiki.py'), ('Editor.append, append_text, leave', 'bglib/doc/doctree.py')], DAI, NOTE)

p('D03', 'Wiki markup gives the structure it stands for',
  'A mark of emphasis or a heading opens its element when none is open and closes the innermost open one otherwise; inline constructs leave the open elements as they are. '
  'Lists, quotations, definitions and tables are nested by indentation and depth of the mark; lists have the kind of their marks; a blank line ends all blocks, '
  'an unquoted line ends quotations.',
  ['inputs', 'histories'], 'all lines, from every state an earlier line can leave',
  'Each line is interpreted in the state left by all earlier ones.',
  DOC, [('handlers of LineFormatter', 'bglib/doc/bgwiki.py'), ('acceptables, enter, leave', 'bglib/doc/doctree.py')], DAI, NOTE)

p('D04', 'Macros show what they refer to',
  'A position macro shows one image of exactly the position given, with the given or default theme, format and size. An analysis macro asks for the analysis of exactly that position and shows '
  'every value in its own row and column, alternating rows, marking the alternative that was played. A table of contents lists every heading of the page in order, '
  'nested by level, with the heading\'s text and a link to it. Unknown macros and bad arguments are reported on the page.',
  ['inputs', 'histories'], 'all positions, options and analyses; all sequences of headings',
  'Tests render a few samples and compare them with recorded HTML.',
  ['bglib/doc/macro.py', 'bglib/doc/doctree.py', 'bglib/doc/bgwiki.py'],
  [('Position, Analysis', 'bglib/doc/macro.py'), ('TocVisitor, TableOfContentNode', 'bglib/doc/macro.py')], DAI, NOTE)

p('D05', 'Wrapped formatters keep the reader safe and the text whole',
  'Restructured text and markdown are rendered whole and once per rendering, with raw HTML refused or escaped and without including files; '
  'a preformatted block naming a processor gives exactly its text to that processor and unknown processors show it verbatim.',
  ['inputs'], 'all texts',
  'Tests render harmless samples; the settings that matter show only with hostile text.',
  ['bglib/doc/rst.py', 'bglib/doc/mkdn.py', 'bglib/doc/bgwiki.py'],
  [('rst.Formatter', 'bglib/doc/rst.py'), ('mkdn.Formatter', 'bglib/doc/mkdn.py'), ('WrappingFormatterElement', 'bglib/doc/bgwiki.py')], DAI, NOTE)

p('D06', 'Fuzzing tells formatters that break from those that do not',
  'A fuzzed text is made of its letters, each of which can occur, and is the same whenever it is asked for. Trying it on a formatter reports a failure exactly when the formatter raises, '
  'with the error it raised, and checking the page reports a failure exactly when the whole page is not well-formed.',
  ['inputs', 'fault_sequences'], 'all genes, all places and kinds of failure of a formatter',
  'A fuzzer that overlooks a failure looks like a formatter without faults; tests try one kind of error in one place.',
  ['bglib/doc/fuzzing.py', 'bglib/doc/html.py'], [('Gene', 'bglib/doc/fuzzing.py'), ('validate', 'bglib/doc/html.py')], DAI, NOTE)

GN = ('No level of the schema names static analysis of unbounded inputs; the deciding step resolves names and calls over all parsed sources at once. '
      'Attributes of objects whose class is not determined are not judged.')
p('G01', 'No path of the library runs into an undefined name',
  'Whatever path a caller takes through the library, every name and every attribute of a bglib module, class or object that the code there refers to exists: no rarely used method, '
  'error path or backend stops with a name error, an attribute error or an import error of the library\'s own making, and no variable is read before it can have been set.',
  ['inputs', 'histories'], 'all paths of all modules',
  'A missing name shows only when the very statement runs; tests do not run most error paths and backends.',
  ['bglib/model/', 'bglib/encoding/', 'bglib/doc/', 'bglib/image/', 'bglib/protocol/', 'bglib/record/', 'bglib/stat/'],
  [('all functions and classes', 'bglib/')], 'whole-program name resolution over the syntax trees with may-assigned dataflow for local variables', GN)

p('G02', 'Callers and callees agree about arguments',
  'Every call inside the library passes arguments that the called function, method or constructor accepts, also when a subclass provides the method, '
  'and every message that is put together from a format has exactly the values its format asks for.',
  ['inputs', 'histories'], 'all call sites whose callee is determined; all formats',
  'A wrong call shows only when the very call is made with the very subclass; messages are put together on error paths.',
  ['bglib/model/', 'bglib/encoding/', 'bglib/doc/', 'bglib/image/', 'bglib/protocol/', 'bglib/record/', 'bglib/stat/'],
  [('all call sites', 'bglib/')], 'whole-program call resolution over the syntax trees, arguments matched with parameters; format strings parsed', GN)

p('F01', 'A FIBS message gets the right cookie whatever came before',
  'In each state of a session (login, message of the day, run) every message that the FIBS and CLIP protocols define for the state gets the cookie the protocol gives it, for every '
  'player name, number and text it may carry; a message that is none of them gets the default cookie of the state; and neither depends on which messages were classified before.',
  ['inputs', 'histories'], 'all messages of the protocol in all states, after any earlier messages',
  'There are over two hundred kinds of messages with unbounded texts in them and a classifier that reorders its own table; tests try a few lines in one order.',
  ['bglib/protocol/fibs.py'], [('LoginState', 'bglib/protocol/fibs.py'), ('MOTDState', 'bglib/protocol/fibs.py'), ('RunState', 'bglib/protocol/fibs.py')],
  'abstract interpretation of the classifier over an unknown message, the languages read off its paths compared by automata inclusion and intersection',
  'No level of the schema names static analysis of unbounded inputs; the oracle is the table of the protocol in sa/fibs_messages.py.')
p('F02', 'A FIBS session goes from login to the message of the day to the run',
  'The classifier starts in the login state, goes over to the message of the day when that begins and to the run when it ends, and leaves the run only when FIBS says goodbye, '
  'whatever other messages come in between; every message is classified by the state it arrives in.',
  ['inputs', 'histories'], 'all sequences of messages, up to the classifier\'s abstract states',
  'A wrong transition shows only after a particular sequence of messages.',
  ['bglib/protocol/fibs.py'], [('CookieMonster', 'bglib/protocol/fibs.py')],
  'abstract interpretation of the state machine over unknown messages; exploration of its abstract states',
  'Which state the classifier is in is observed by what it answers to an empty line.')
p('F03', 'A session tells every subscriber everything once, in order, and ends cleanly',
  'Every line that arrives is dispatched exactly once, in order, with its cookie, to every subscriber registered at the time, in the order of registration, also when subscribers come '
  'and go while a message is dispatched; after close nothing more is dispatched; however the listener ends, its end is signalled; lines are sent whole; the lock is released on every '
  'path, is never held while waiting for the network, and guards everything that the listener and the callers share.',
  ['inputs', 'schedules', 'histories'], 'scripts of arriving lines with every end of the connection; all accesses to shared attributes',
  'Races, a lock that is not released on an error path and a lost message need a particular schedule or error.',
  ['bglib/protocol/session.py'], [('Session', 'bglib/protocol/session.py'), ('Transport', 'bglib/protocol/session.py'), ('synchronized_with', 'bglib/protocol/session.py')],
  'abstract interpretation against contracts of telnetlib, socket, thread and threading; lockset analysis over the same paths',
  'The network and the scheduler are represented by contracts; timing and liveness are outside the analysis.')

RL = 'No level of the schema names static analysis of unbounded inputs; floating point numbers are taken for the real numbers they stand for.'
p('S01', 'Ratings and handicaps follow their formulas and balance',
  'For all ratings and match lengths the chance of an upset follows the rating formula, the chances of both players add up to one, what one stands to gain and the other stands to gain '
  'add up to the length of the match, and nobody expects to gain from a match against anyone. The chances of winning a tourney and of being its runner-up are those of winning the rounds '
  'it takes, and handicapped prizes and entry fees give every player the expectation of an average one.',
  ['inputs'], 'all ratings, match lengths, prizes and fees; tourneys of up to six rounds',
  'The formulas agree by chance on the round numbers that tests use; the identities must hold for all ratings on both sides of the case distinction.',
  ['bglib/stat/rating.py', 'bglib/stat/tourney.py'], [('upset_chance, gain_on_win', 'bglib/stat/rating.py'), ('tourney_chance, prize_handicap, entryfee_handicap', 'bglib/stat/tourney.py')],
  'abstract interpretation to formulas, decided as equalities of quotients of polynomials', RL)
p('S02', 'A tourney round is played by everybody once and costs each loser one life',
  'In a round of a tourney everybody alive plays exactly one match, except one of an odd number; each match costs its loser one life and nobody else anything, and is won with the chance '
  'the ratings give; everybody entered is at any time either alive or dead, dead exactly when out of lives.',
  ['inputs', 'histories'], 'all ratings, numbers of lives, pairings and outcomes of up to five players',
  'Outcomes are random; a test sees one of many and cannot tell a wrong chance.',
  ['bglib/stat/tourney.py'], [('Tourney.round', 'bglib/stat/tourney.py'), ('Player.lost', 'bglib/stat/tourney.py')],
  'abstract interpretation of a round, every outcome of every match followed', RL)
p('I01', 'The element tree of a board shows the whole position',
  'The tree made from a board shows every chequer once on the point, bar or home where it is; the cube once, with its value, where it is or in the field of the player it is offered to; the dice '
  'on the side of the player who rolled; an offered resignation on the side of who is to answer; length, scores and Crawford; and it names the player who is to act. Making it leaves the board alone, '
  'and trees share nothing.',
  ['inputs'], 'all boards',
  'Tests compare a few boards with recorded XML.',
  ['bglib/image/base.py'], [('ElementTree.set, create_tree', 'bglib/image/base.py'), ('BaseElement.append', 'bglib/image/base.py')],
  'abstract interpretation over boards with unknown contents', 'No level of the schema names static analysis of unbounded inputs.')
p('I02', 'Style rules apply to exactly the elements they describe, in order',
  'A rule of a style sheet applies to an element exactly when its last selector describes the element and its other selectors describe ancestors of it in order, and the last rule that applies '
  'decides about an attribute. An attribute has the typed value of the text given; without one it has that of the nearest ancestor if it is inherited, and otherwise its default; values of the wrong type and elements in the wrong '
  'place are refused.',
  ['inputs', 'histories'], 'all patterns of matching and not matching of rules of up to three selectors on paths of up to four elements; all attribute types',
  'Tests try a few selectors; the order of rules and inheritance combine without limit.',
  ['bglib/image/css.py', 'bglib/image/base.py'], [('Selector, Rule, Binder', 'bglib/image/css.py'), ('BaseElement attributes', 'bglib/image/base.py')],
  'abstract interpretation over selectors of which only whether they match is known', 'No level of the schema names static analysis of unbounded inputs.')
p('I03', 'Every element of a board is drawn as what it is',
  'A die is drawn with as many eyes as it shows, apart from each other, inside the die and symmetric; a cube with its value; as many chequers as there are, or their number where only some are drawn; texts and '
  'numbers as the values of the board. Everything is drawn at the place and in the size that the element has, scaled, with its own image, colour and font, and drawing leaves the element alone.',
  ['inputs'], 'all places, sizes, scales, values, colours, images and fonts',
  'A picture is compared by eye; tests record the calls for one size of one board.',
  ['bglib/image/base.py'], [('draw of each element', 'bglib/image/base.py'), ('calc_mag, apply_mag', 'bglib/image/base.py')],
  'abstract interpretation with a recording context; places as rational functions of unknown places and sizes', 'No level of the schema names static analysis of unbounded inputs.')
p('I04', 'A drawing fits its bounds and shows all elements, the inner over the outer',
  'A board is scaled to the largest size that fits the bounds asked for. Every element that has a look is drawn exactly once, after the element that contains it and after its own background; each drawing starts with a fresh canvas; '
  'the imaging backend loads the image or font that was asked for, in the size asked for, whatever was loaded before, and puts shapes and texts where it is told, texts as large as they fit.',
  ['inputs', 'histories'], 'all bounds and sizes; all sequences of two drawings, images and fonts; metrics of fonts unknown',
  'Sizes and font metrics vary without limit, and caches only show in sequences of drawings.',
  ['bglib/image/base.py', 'bglib/image/draw.py', 'bglib/image/PIL.py'], [('Board.set_mag', 'bglib/image/base.py'), ('Draw.draw', 'bglib/image/draw.py'), ('load_image, load_font, draw_text', 'bglib/image/PIL.py')],
  'abstract interpretation with a contract of the imaging library; rounding followed by an order that every rounding respects', 'No level of the schema names static analysis of unbounded inputs.')
p('I05', 'The themes that come with the library show different boards differently',
  'With each style sheet that comes with the library every part of a board has a place inside the board, the image and font files it names are there, dice, cubes, resignations and chequers on points and on the bar are shown, '
  'different values of each look different, and chequers of the players look different.',
  ['inputs'], 'all shipped style sheets; all dice, cubes up to 32, resignations, numbers of chequers in each kind of place, and a range of scores',
  'A test draws one board with one theme; a rule lost among hundreds shows for one number of chequers of one player in one place.',
  ['bglib/image/css.py', 'bglib/image/base.py', 'bglib/image/resource/*/default.css'], [('load', 'bglib/image/css.py'), ('draw of each element', 'bglib/image/base.py'), ('default.css', 'bglib/image/resource')],
  'constant propagation through parser, cascade and drawing for every style sheet in the tree', 'No level of the schema names static analysis of a finite family of sheets.')
p('I06', 'A board written as XML is well-formed, valid and complete',
  'The XML of a board is well-formed whatever the position and whatever values the style sheet gave (directories and colours with &, <, > or quotes are escaped), names the encoding and the document type, and contains every element of the tree, '
  'in order, with each of its attributes and its text. It is valid for the document type that the library writes for it: only declared elements and attributes, elements and text only where they are allowed; '
  'the document type declares every element once, with text first, and everything it allows, and is the one that comes with the library.',
  ['inputs'], 'all boards, attribute values with every special character',
  'The only tests for it ask a validator on the network.', ['bglib/image/base.py'],
  [('ElementTree.xml, BaseElement.format', 'bglib/image/base.py'), ('ElementFactory.make_dtd', 'bglib/image/base.py')],
  'abstract interpretation of the writers; the abstract documents are read back and compared with the tree and the document type', 'Unknown pieces of a document must be numbers written out.')
p('F04', 'What FIBS reports about a game is read as it was reported',
  'From a sentence of FIBS the library reads the dice in the order they were rolled, the name the sentence begins with (of letters and underscores), who accepted a double, the points of a game, a resignation or a match, '
  'and every part of a move in order: from which point, to which point, bar and home included, how many pips it goes in the direction its player moves, and whether it hits.',
  ['inputs'], 'all names of letters and underscores, dice, points, moves of one to four parts for either player',
  'No test reads these sentences.', ['bglib/encoding/FIBS.py'],
  [('get_dice, get_name, get_taker_name, get_move, get_score, get_match_scores, get_resign_score', 'bglib/encoding/FIBS.py')],
  'abstract interpretation over sentences with a name of every kind and every number the patterns tell apart', 'Names as FIBS requires them.')
p('R01', 'Match records are accepted exactly in order and chopped into their games',
  'A match record in Snowie\'s text format is accepted exactly when its lines come in the order of the format: the length of the match, then games, each with its header, its players and its moves numbered from one without a gap. '
  'The checksum is that of all its bytes and a record that reaches the limit of size is refused. Chopped into games, every line of a game is in the text of that game, in order, after the length of the match, so that each game can be read by itself.',
  ['inputs', 'histories'], 'all sequences of lines, numbers of moves, sizes and limits',
  'Tests check recorded matches and shuffled ones; a line out of place in one particular state goes unseen.',
  ['bglib/record/snowietxt.py'], [('LineValidator, statevalidate', 'bglib/record/snowietxt.py'), ('Validator.feed, validate', 'bglib/record/snowietxt.py'), ('chop', 'bglib/record/snowietxt.py')],
  'abstract interpretation of the line automaton over lines of unknown number and size from every state', 'The line parser (tonic), the hash and the decorator library are represented by contracts.')
p('T01', 'No text makes its recognition explode, and every notation is recognised somewhere',
  'Whatever text a page, message, record, style sheet or position is read from, recognising it takes no time that grows exponentially with its length: no pattern has two ways to go on with the same text that it can repeat. '
  'Where alternatives are tried in order, each of them is the first to match for some text.',
  ['inputs'], 'all texts, all patterns of the library',
  'The texts that explode are ones nobody writes in a test, and a dead alternative shows only for its own notation.',
  ['bglib/doc/bgwiki.py', 'bglib/doc/html.py', 'bglib/doc/macro.py', 'bglib/encoding/FIBS.py', 'bglib/image/css.py', 'bglib/protocol/fibs.py', 'bglib/record/snowietxt.py'],
  [('_patterns', 'bglib/doc/bgwiki.py'), ('patterns of messages', 'bglib/protocol/fibs.py'), ('CSSParser', 'bglib/image/css.py')],
  'ambiguity of loops decided on the product of each pattern\'s automaton with itself; dead alternatives by subset construction', 'Patterns are read off the sources by constant propagation.')
p('P01', 'An installed library is complete',
  'What setup.py installs is all that the library needs: every package, every module that an installed module imports, the style sheet of every theme and every file a style sheet names; and everything it lists exists.',
  ['configurations'], 'all packages, imports, style sheets and the files they name',
  'Tests run in the source tree, where everything is there.', ['setup.py', 'bglib/image/resource', 'bglib/image/theme.py'],
  [('setup()', 'setup.py'), ('style sheets', 'bglib/image/resource')],
  'constant evaluation of setup() compared with the package tree, the import graph and the files named by style sheets', 'setuptools installs what is listed.')
p('N01', 'Every position of a bearoff class has an index of its own',
  'Within a class of positions the index of a position leads back to that position, and the indices of the class are exactly the numbers below its size.',
  ['inputs'], 'all positions of the class', 'There are millions of positions.',
  ['bglib/encoding/bearoff/__init__.py', 'bglib/encoding/bearoff/t2k.py', 'bglib/encoding/bearoff/trice.py', 'bglib/encoding/bearoff/gnubgdb.py'], [('C, D, index conversions', 'bglib/encoding/bearoff/__init__.py')],
  na='The claim is a bijection between sums of binomial coefficients and bit lists that third-party tables compute; it needs induction over combinatorial identities, which no dataflow or type argument in reach expresses. E06 decides what is decidable: ranges and whole records.')
p('N02', 'A picture shows, to the eye, what was drawn',
  'Overlapping parts stay visible, texts are readable and colours can be told from each other in every theme and size.',
  ['inputs'], 'all boards, sizes and themes', 'A test compares recorded calls.',
  ['bglib/image/PIL.py', 'bglib/image/resource/'], [('draw_text, paste_image', 'bglib/image/PIL.py')],
  na='Depends on pixels of image and font files and on rasterisation in the imaging library; nothing in the sources decides it. I03 to I05 decide places, sizes, values and files.')
p('N03', 'A lost connection is noticed in bounded time',
  'When the network or the server stops answering, the session ends within the time it was told.',
  ['schedules', 'fault_sequences'], 'all schedules and failures of the network', 'Tests have no network.',
  ['bglib/protocol/session.py'], [('listen', 'bglib/protocol/session.py')],
  na='Real time of sockets and of the scheduler; no static argument bounds it. F03 decides that the listener signals its end on every path.')
