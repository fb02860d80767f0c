prop('C01', 'No text crashes, corrupts memory in, or hangs the Narsese parser',
 'For every byte sequence given to the sentence parser, reading ends with a task, a syntax-error result or an ordinary exception: it never reads or writes memory it does not own, never uses freed or uninitialised memory, never loops forever, and leaves the parser usable and destructible. Rendering an accepted sentence as text is equally safe. This includes texts of any length, nesting, and texts that end inside a token or a construct.',
 'all byte strings up to the bounds, all places and values of an edit in sentences that together use every construct, lengths around the internal buffer sizes, and sequences of texts through one parser',
 'The tests parse a fixed list of well-formed sentences; malformed, truncated and oversized texts, and one parser fed several of them, are never tried, and memory errors are not observed at all.',
 PARSER + INTERP, [('table-driven scanner and its lookahead', 'Narsese/Parser/Parser.cpp, Narsese/Parser/narsese.cpp'), ('growing parser stack', 'Narsese/Parser/Parser.cpp'), ('semantic actions', 'Narsese/Parser/NarseseParser.cpp')],
 [run('C01.cpp', 'MODE=0', 'NSYM=4', what='every text of 4 bytes (shorter ones end early at a zero byte or a newline).', reach=['task', 'syntax', 'printed', 'parser destroyed']),
  run('C01.cpp', 'MODE=1', what='24 sentences that use every construct, with one arbitrary byte put over any byte or inserted anywhere, or cut anywhere.', reach=['task', 'syntax', 'printed', 'parser destroyed']),
  run('C01.cpp', 'MODE=2', what='12 shapes of long texts (names, quoted names, numbers, blanks, nesting, wide compounds) at lengths around powers of two, with an arbitrary byte inside.', reach=['task', 'syntax', 'printed', 'parser destroyed'], instr=400000000),
  run('C01.cpp', 'MODE=3', what='three texts through one parser, the first two arbitrary in one byte (thorough: up to two) after six different beginnings.', reach=['task', 'syntax', 'parser destroyed']),
  run('C01.cpp', 'MODE=0', 'NSYM=5', what='every text of 5 bytes.', reach=['task', 'syntax', 'printed'], tier='thorough', time_thorough=2400)],
 'all texts of up to 4 bytes (thorough: 5); one edit in each of 24 sentences (thorough: two adjacent bytes too); lengths up to 640 bytes; nesting up to 320; loops up to 60 million instructions per path (longer is reported as a hang).',
 'texts with more than one independent edit, longer than 640 bytes, allocation failure, deep recursion beyond nesting 320.')

prop('C02', 'What a parser reads does not depend on what it read before',
 'A text gives the same outcome, the same term structure, numbers and times whether it is the first text given to a parser or comes after any other texts, including texts that were rejected, ended in an exception or were cut short. Variables, budget, truth, tense and partly built terms of an earlier sentence never leak into a later one, and tasks returned earlier are not changed by later parsing.',
 'all first texts within the bounds followed by each of five second texts, compared with a fresh parser and with the documented reading',
 'The tests use one sentence per parser state; a state that leaks after a rejected or unusual sentence needs a history they never build.',
 PARSER, [('per-parse reset', 'NarseseParser::parse*, Narsese/Parser/NarseseParser.cpp'), ('members that live across parses', 'Narsese/Parser/NarseseParser.h')],
 [run('C02.cpp', 'MODE=0', 'NSYM=2', what='any first text of 2 bytes, then one of five texts.', reach=['first rejected', 'second accepted', 'second rejected']),
  run('C02.cpp', 'MODE=1', what='seven first sentences with an arbitrary byte over any byte, or cut anywhere (thorough: or inserted), then one of five texts.', reach=['first accepted', 'first rejected', 'second accepted', 'second rejected']),
  run('C02.cpp', 'MODE=2', what='every history of two or three texts (thorough: five) out of 13, well-formed and broken, then one of five texts.', reach=['first accepted', 'first rejected', 'second accepted', 'second rejected']),
  run('C02.cpp', 'MODE=0', 'NSYM=3', what='any first text of 3 bytes.', tier='thorough', time_thorough=1200, reach=['first rejected', 'second accepted'])],
 'two texts, the first any 2 bytes (thorough: 3) or one edit of seven sentences, the second one of five; histories of two or three (thorough: five) fixed texts before the last one.', 'longer histories; the input counter and clock, which are meant to advance.', over=('histories', 'inputs'))

prop('C03', 'The task that is read is the one the sentence describes',
 'Reading a well-formed sentence yields a term with exactly the written structure: the copula or connector, the components in the written order (as a set for order-insensitive connectors), atoms with the written names, variables of the written kind and sharing, intervals and operations as written, and the written punctuation, tense and occurrence time. Distinct written names denote distinct terms; equal names the same. Integers that cannot be represented are rejected, never silently changed.',
 'all terms of depth up to 2 over all copulas and connectors, all pairs of names of one or two arbitrary bytes, all punctuations and tenses at any clock, all integers of the given number of digits',
 'The tests compare a handful of sentences with strings; all pairs of nesting, order, connector, sharing of variables and extreme integers cannot be listed.',
 PARSER + TERMS, [('semantic actions', 'Narsese/Parser/NarseseParser.cpp'), ('grammar', 'Narsese/Parser/narsese.par')],
 [run('C03.cpp', 'MODE=0', what='each of 31 kinds of terms over each pair of 7 kinds of leaves, with equal or different names.', reach=['read']),
  run('C03.cpp', 'MODE=1', what='each of 31 kinds of terms inside each of 31 kinds of terms, at two places (thorough: three), over the four punctuations and five tenses.', reach=['read']),
  run('C03.cpp', 'MODE=2', what='arbitrary names of one or two word bytes, in six terms that use them twice.', reach=['read']),
  run('C03.cpp', 'MODE=3', what='any clock and temporal duration, every punctuation and tense.', reach=['read']),
  run('C03.cpp', 'MODE=4', what='intervals and explicit times of up to 5 arbitrary digits (thorough: 10), and 4 arbitrary digits around 2^15 and 2^24, 2 around the limits of int, 1 around 2^32, with and without a minus; 19 and 22 digits.', reach=['read'], time_thorough=1200),
  run('C03.cpp', 'MODE=5', what='names of 3 to 257 bytes, equal but for one arbitrary byte put in or replaced at the start, in the middle or at the end, in seven terms with atoms, variables of each kind, operations and quoted words.', reach=['read']),
  run('C03.cpp', 'MODE=6', what='compounds of up to 200 components, nesting up to 200 deep, up to 200 different variables.', reach=['read'])],
 'terms of depth 2 with up to 3 components; names of up to 2 arbitrary bytes, and of 19 lengths up to 257 with one arbitrary byte; clocks of 16 bits; integers of up to 5 digits (thorough: 10) and around the limits of the integer types; four families of wide and deep terms up to 200.',
 'other deep or wide terms, names longer than 2 bytes with all bytes arbitrary.')

prop('C04', 'Equivalent notations are read as the same term',
 'Every alternative notation of the language denotes the same term as its canonical form: infix and prefix compounds, products without connector, negation as --t and (--, t), operations written op(a, b), (^op, a, b) or <(*, a, b) --> ^op>, statements in angle brackets or in parentheses, the instance, property and instance-property copulas as inheritance with one-element sets, and any amount of blanks between tokens. The two readings are equal terms, are rendered alike and have the same attributes.',
 'all pairs of notations over all pairs of 12 kinds of components',
 'The tests try one or two notations with fixed atoms; every notation against every kind of component (variables, sets, operations, negations) is a product no list covers.',
 PARSER, [('desugaring in semantic actions', 'Narsese/Parser/NarseseParser.cpp')],
 [run('C04.cpp', what='eight families of notations over all pairs of 12 kinds of components.', reach=['same'])],
 'components of depth up to 1, compounds of two or three components.', 'deeper components; tabs (a tab may be read as a blank or as part of a word).')

prop('C05', 'Exactly the sentences of the documented grammar are accepted',
 'The parser accepts a text exactly when it is a sentence of the documented Narsese grammar (narsese.par), up to the first end-of-input character, and then reads it with the structure, numbers, punctuation and tense that grammar assigns to it. Texts with missing or extra tokens, wrong brackets, wrong arity, bad numbers or trailing text are rejected; no well-formed sentence is rejected.',
 'all short texts inside 13 frames and all one-byte replacements, insertions, deletions and cuts of 24 sentences that together use every construct',
 'The tests contain well-formed sentences only; nothing checks that a malformed one is rejected, and the generated tables cannot be reviewed by eye.',
 PARSER, [('generated tables', 'Narsese/Parser/narsese.cpp'), ('grammar', 'Narsese/Parser/narsese.par')],
 [run('C05.cpp', 'MODE=0', 'NSYM=4', what='texts of 4 arbitrary bytes, and 3 arbitrary bytes (thorough: 4) in 12 frames, against a reference reader.', reach=['accepted', 'rejected']),
  run('C05.cpp', 'MODE=1', what='24 sentences with an arbitrary byte over any byte.', reach=['accepted', 'rejected']),
  run('C05.cpp', 'MODE=2', what='24 sentences with an arbitrary byte inserted anywhere.', reach=['accepted', 'rejected']),
  run('C05.cpp', 'MODE=3', what='24 sentences cut anywhere, or with one or two bytes dropped.', reach=['accepted', 'rejected']),
  run('C05.cpp', 'MODE=5', what='nine shapes of long words, long blanks, nesting and wide compounds with an arbitrary byte inside.', reach=['accepted', 'rejected']),
  run('C05.cpp', 'MODE=4', what='24 sentences with two arbitrary adjacent bytes.', reach=['accepted', 'rejected'], tier='thorough', time_thorough=2400)],
 'texts of 4 bytes, frames with 3 (thorough: 4) bytes, one edit of one byte in 24 sentences (thorough: two adjacent bytes); tokens of up to 257 bytes, nesting and width up to 11 (thorough: 23).',
 'texts further from the corpus; completeness for texts with a tab.',
 assumptions=['the reference reader (harness/ref.h), written from the grammar and the documentation, is right'])

prop('C06', 'Truth and budget numbers are kept, defaulted and bounded as documented',
 'A frequency, confidence, evidence horizon, priority, durability or quality written in a sentence is the value of the task read, to the precision of a float; an omitted one takes the configured default of its kind (per punctuation), and an omitted quality with a written budget is derived from the truth value. Frequency, priority and quality are always in [0, 1]; a written confidence or durability stays strictly between 0 and 1, also after rounding; questions and quests have no truth value.',
 'all digits of all notations of the numbers, all subsets of omitted values, all punctuations, any configuration',
 'The tests use a few numbers such as 1.0 and 0.9; the defaults are compared for one configuration; extreme and rounded numbers are not tried.',
 PARSER + ['Narsese/include/Truth.h', 'Narsese/src/Truth.cpp', 'Narsese/include/Budget.h', 'Narsese/src/Budget.cpp', 'Config.h', 'Config.cpp'], [('budget and truth actions', 'Narsese/Parser/NarseseParser.cpp')],
 [run('C06.cpp', 'MODE=0', what='budgets of 0 to 3 numbers in all notations, with arbitrary digits.', reach=['question', 'judgement or goal']),
  run('C06.cpp', 'MODE=1', what='truth values of 0 to 3 numbers in all notations, with arbitrary digits.', reach=['judgement or goal']),
  run('C06.cpp', 'MODE=2', what='any configuration of the defaults, budgets and truth values of 0 to 3 numbers.', reach=['question', 'judgement or goal']),
  run('C06.cpp', 'MODE=3', what='numbers that round to the limits of their range.', reach=['judgement or goal'])],
 'numbers of up to 2 arbitrary digits after the point (thorough: 3) and the extremes listed in the harness; configured values anywhere in [0, 1].', 'longer digit strings with all digits arbitrary; configurations outside [0, 1].', over=('inputs', 'configurations'))
