# C16-C31: truth, budgets, stamps, rendering, the dictionary, bindings, lifetime
NAL = ['NAL/Functions/include/TruthFunctions.h', 'NAL/Functions/include/ExtendedBooleanFunction.h', 'NAL/Functions/include/UncertaintyMappingFunctions.h', 'Narsese/include/Truth.h']
prop('C16', 'Truth functions stay in range and obey the laws of the logic',
     'For all truth values: deduction yields frequency and confidence in [0, 1] not above those of either premise and keeps the evidential horizon; induction and comparison yield a frequency in [0, 1] and the confidence of at most one unit of evidence; revision yields a confidence in (0, 1) not below that of either premise and a frequency between those of the premises, whatever their order; no truth function changes a premise it should not. Conjunction and disjunction of degrees stay in [0, 1], below respectively above every degree.',
     'all pairs of single-precision truth values in the stated ranges', 'The ranges are properties of rounding and of the extremes; tests sample a few values.', NAL,
     [('truth_deduction, truth_induction, truth_comparison, truth_revision', 'NAL/Functions/include/TruthFunctions.h'), ('And, Or', 'NAL/Functions/include/ExtendedBooleanFunction.h')],
     [run('C16.cpp', 'MODE=4', what='And and Or of two to four degrees and of a list', reach=['connectives'], opts=['--fp-ms', '20000']),
      run('C16.cpp', 'MODE=0', what='deduction', bounds='confidence below 1, horizon in [0.25, 4]', reach=['deduction'], opts=['--fp-ms', '20000']),
      run('C16.cpp', 'MODE=1', what='induction', bounds='confidence below 1', reach=['induction'], opts=['--fp-ms', '20000']),
      run('C16.cpp', 'MODE=2', what='comparison', bounds='frequencies from 0.001', reach=['comparison'], opts=['--fp-ms', '20000']),
      run('C16.cpp', 'MODE=3', what='confidence of a revision', bounds='confidence in [0.001, 0.9999], three horizons', reach=['revision'], opts=['--fp-ms', '20000']),
      run('C16.cpp', 'MODE=6', what='frequency of a revision, for every pair of frequencies and 16 pairs of confidences', reach=['revision'], opts=['--fp-ms', '20000']),
      run('C16.cpp', 'MODE=7', what='frequency of a revision, for every pair of confidences and 16 pairs of frequencies', reach=['revision'], opts=['--fp-ms', '60000'], tier='thorough', time_thorough=600),
      run('C16.cpp', 'MODE=5', what='order of the premises of a revision', reach=['order'], opts=['--fp-ms', '20000'])],
     'every single-precision frequency and confidence in the ranges given for each function', 'Confidence so close to 1 that the amount of evidence is not representable (revision); a comparison of two frequencies below 0.001; the exact value of a result.',
     note='Decided over the reals with rounding error bounds where that suffices, otherwise bit-precisely.')
prop('C17', 'Expectation, quality and amounts of evidence are in range and agree with each other',
     'For every truth value: the expectation is in [0, 1], between the frequency and 0.5; the quality computed for a judgement or goal is in (0.42, 1] and is the larger of the expectation and three quarters of its complement; the amounts of evidence are not negative, the positive and negative ones are parts of the whole and add up to it; computing a truth value from amounts of evidence (set_w, truth_from_w) gives back the truth value these amounts came from and keeps the evidential horizon; no evidence gives frequency 0.5 and confidence 0.',
     'all single-precision truth values in the stated ranges', 'Agreement between the mappings must hold for every value, including the extremes.', NAL + ['NAL/Functions/src/UncertaintyMappingFunctions.cpp', 'Narsese/include/Budget.h'],
     [('Truth::e, w, w_p, w_m, set_w', 'Narsese/include/Truth.h'), ('Budget::quality_from_truth', 'Narsese/include/Budget.h'), ('w_to_f, w_to_c, truth_from_w, w_from_truth', 'NAL/Functions/include/UncertaintyMappingFunctions.h')],
     [run('C17.cpp', 'MODE=0', what='expectation', reach=['expectation'], opts=['--fp-ms', '20000']), run('C17.cpp', 'MODE=1', what='quality', reach=['quality'], opts=['--fp-ms', '20000']),
      run('C17.cpp', 'MODE=2', what='signs of the amounts of evidence', bounds='confidence below 1, horizon in [0.25, 4]', reach=['amounts'], opts=['--fp-ms', '20000']),
      run('C17.cpp', 'MODE=3', what='parts and sum of the amounts of evidence', bounds='confidence below 1 (sum: in [0.001, 0.999]), three horizons', reach=['split'], opts=['--fp-ms', '20000']),
      run('C17.cpp', 'MODE=4', 'NK=1', what='set_w is the inverse of w and w_p', bounds='confidence in [0.001, 0.999]', reach=['set_w'], opts=['--fp-ms', '20000']),
      run('C17.cpp', 'MODE=5', what='the mapping functions', bounds='confidence in [0.001, 0.999], three horizons', reach=['mappings'], opts=['--fp-ms', '20000']),
      run('C17.cpp', 'MODE=6', what='no evidence', reach=['none'], opts=['--fp-ms', '20000'])],
     'every single-precision frequency and confidence in the ranges given', 'Confidence above 0.999 for the inverses.', note='Decided over the reals with rounding error bounds where that suffices, otherwise bit-precisely.')
prop('C27', 'Projection discounts confidence by temporal distance and changes nothing else',
     'Projecting a truth value from one time to another yields a new truth value with the same frequency and evidential horizon and a confidence between zero and the old one: exactly the old one when both times are the same, otherwise reduced by the distance between the two times over the sum of their distances from the current time and the decay (1000 unless given), the same in both directions. The truth value projected is left as it was.',
     'all truth values, times and decays in the stated ranges', 'Integer arithmetic or a wrong sign in the discount only shows for particular constellations of three times.', ['NAL/Functions/include/TemporalFunctions.h'],
     [('project', 'NAL/Functions/include/TemporalFunctions.h')],
     [run('C27.cpp', 'MODE=0', what='range', reach=['range'], opts=['--fp-ms', '20000']), run('C27.cpp', 'MODE=1', what='same time', reach=['same'], opts=['--fp-ms', '30000']), run('C27.cpp', 'MODE=2', what='direction', reach=['symmetric'], opts=['--fp-ms', '20000']),
      run('C27.cpp', 'MODE=3', what='the discount, for every confidence and 375 constellations of times and decays', reach=['formula', 'zero'], opts=['--fp-ms', '20000']), run('C27.cpp', 'MODE=4', what='default decay', reach=['decay'], opts=['--fp-ms', '20000'])],
     'times of 32 bits, decays 1 to 1000000, every frequency and confidence in [0, 1]', 'Times beyond 32 bits.', note='Decided over the reals with rounding error bounds where that suffices, otherwise bit-precisely.')
prop('C18', 'Merging evidence neither invents nor loses any, and new inputs never share evidence',
     'Interleaving or extending evidential bases yields only evidence of the two bases and never more than the maximal length; all of it when the two together are not longer than that, otherwise the first of each; the other base is left as it was and both ways agree. Bases overlap exactly when they share evidence; adding an id adds exactly that id; size and hash follow every change. Every new base, stamp or parsed sentence carries one piece of evidence that no earlier one has, numbered in the order of input.',
     'all pairs of bases, maximal lengths and sequences of inputs within the bounds', 'Merging goes wrong for particular overlaps and lengths around the maximum.', ['Narsese/include/Evidence.h', 'Narsese/include/Sentence.h', 'Global.h', 'utils/hash.h'],
     [('Base::interleave, extend, add, is_overlaped', 'Narsese/include/Evidence.h'), ('get_input_id', 'Global.h'), ('Stamp constructors', 'Narsese/include/Sentence.h')],
     [run('C18.cpp', 'MODE=0', what='interleaving two bases', reach=['all', 'cut']), run('C18.cpp', 'MODE=1', what='extending a base', reach=['all', 'cut']), run('C18.cpp', 'MODE=2', what='overlap, add, hash', reach=['overlap', 'disjoint', 'equal']),
      run('C18.cpp', 'MODE=3', what='any three of seven sources of evidence, starting from any id', reach=['fresh', 'parsed'])],
     'bases of up to three ids (thorough: four) of 8 bits, maximal lengths 0 to 7 (9); three inputs', 'Bases that share one set object; ids that wrap around.', over=('inputs', 'histories'))
prop('C19', 'The tense of a stamp is relative to the clock, and written tenses are kept',
     'A stamp that is not eternal is future, past or present according to whether its time of occurrence lies at least one temporal duration after the current time, at least one before it, or in between, at whatever time it is asked; an eternal one is eternal. Stamps hold the times they were given, are created now, and always have evidence, to which evidence can be added. A sentence written without a tense is eternal; one written with a tense has that tense when read, and one with a time has that time.',
     'all clock values, durations and times within 29 bits', 'Boundary and sign errors show only around now +/- duration.', ['Narsese/include/Sentence.h', 'Narsese/include/Tense.h', 'Narsese/Parser/NarseseParser.cpp', 'Global.h'],
     [('Stamp, Stamp::tense', 'Narsese/include/Sentence.h'), ('tense_time, tense_future, tense_present, tense_past', 'Narsese/Parser/NarseseParser.cpp')],
     [run('C19.cpp', 'MODE=0', what='tense of any stamp', reach=['eternal', 'future', 'past', 'present']), run('C19.cpp', 'MODE=1', what='constructors and evidence', reach=['constructors', 'extended']), run('C19.cpp', 'MODE=2', what='four kinds of sentences with six kinds of tenses', reach=['written'])],
     'times and durations below 2^29; times written with up to three digits', 'Times that overflow an int.', over=('inputs', 'configurations'))
prop('C20', 'What is printed is a sentence of the language that says what was printed',
     'Printing any term gives a text that, as a sentence, is accepted by the parser, has exactly one meaning under the grammar, and means that term: variables of the same kind and index, names, operations, statements and compounds; a term without variables is equal to the one its text is read as. Printing any task gives a text that is read as a task with the same term, punctuation and tense, and with a truth value and budget no further away than the printed digits explain; printing that again gives the same text.',
     'all terms up to a depth and all accepted edits of a corpus', 'A round trip fails for particular combinations of connectives, variables and values at the edge of rounding.', INTERP + PARSER[:2],
     [('Interpreter::interpret(Term&, bool)', 'Interpreter/src/Interpreter.cpp'), ('Interpreter::interpret(Task&, bool)', 'Interpreter/src/Interpreter.cpp'), ('Repr', 'Narsese/include/Connector.h')],
     [run('C20.cpp', 'MODE=0', 'IDXMAX=9', what='ten kinds of terms over every kind of leaf, with variables of any index below ten', reach=['round trip', 'equal', 'lone']), run('C20.cpp', 'MODE=2', 'IDXMAX=9', what='the terms of every accepted one-byte edit of 22 sentences', reach=['accepted', 'round trip']),
      run('C20.cpp', 'MODE=3', 'IDXMAX=9', what='tasks: truth values, budgets, tenses and punctuation', reach=['task']), run('C20.cpp', 'MODE=4', 'IDXMAX=9', what='six families of wide and deep terms up to 10 (thorough: 17)', reach=['wide or deep', 'round trip']), run('C20.cpp', 'MODE=1', 'IDXMAX=9', what='ten kinds of terms inside ten kinds of terms', reach=['round trip'], tier='thorough', time_thorough=600)],
     'terms of depth 1 (thorough: 2) over four to six kinds of leaves, indices below 10; 36 truth values, 4 budgets', 'Names that were rebound or that are not words of the grammar; texts with tab characters; a variable alone (not a sentence of the grammar).', over=('inputs', 'programs'))
prop('C21', 'Colours change nothing but colours',
     'Rendering a term or sentence in colour gives the plain text with colour selections inserted, each complete and the last one back to the default; rendering a task in colour gives the same numbers and the same sentence. Plain text, the default, contains no colour selections, and rendering in one way does not change what the other gives.',
     'all terms up to a depth, all accepted edits of a corpus, all combinations of numbers', 'The coloured paths duplicate the plain ones for every kind of term and drift apart unseen.', INTERP,
     [('Interpreter::interpret(Term&, bool), Interpreter::interpret(Sentence&, bool), Interpreter::interpret(Task&, bool)', 'Interpreter/src/Interpreter.cpp')],
     [run('C21.cpp', 'MODE=0', 'IDXMAX=9', what='ten kinds of terms over every kind of leaf, and atoms and operations without a name', reach=['term', 'atom', 'unnamed']), run('C21.cpp', 'MODE=1', 'IDXMAX=9', what='the sentences of every accepted one-byte edit of 22 texts', reach=['term', 'sentence']), run('C21.cpp', 'MODE=2', 'IDXMAX=9', what='tasks: truth values, budgets, tenses, punctuation', reach=['task'])],
     'terms of depth 1 (thorough: 2), indices below 10, five frequencies and confidences, six budgets', 'Which colours are used; names that contain escape characters.', over=('inputs', 'configurations'))
prop('C22', 'The name dictionary stays consistent through every history',
     'After any sequence of put, erase, remove, remove_by_name and reset, with one name per key, the dictionary knows exactly the keys that were put and not removed since: key, name and object lead to each other, the count is the number of puts less the number of erases, the last erase removes the key, removing reports whether there was something to remove, and every removed object is released exactly once; destroying the dictionary leaves nothing behind.',
     'all histories up to a length over keys in any order', 'Four maps must agree after every step; a missed one shows only in particular sequences.', INTERP[:1],
     [('put, get, get_object, get_by_name, check, check_by_name, check_count, remove, remove_by_name, erase, reset', 'Interpreter/include/Interpreter.hpp')],
     [run('C22.cpp', 'STEPS=4', what='every history of four operations over three entries', reach=['put', 'erased', 'removed', 'removed by name', 'reset', 'destroyed']), run('C22.cpp', 'STEPS=6', 'NK=2', what='every history of six operations over two entries', reach=['erased', 'removed'], tier='thorough', time_thorough=600)],
     'histories of 4 operations over 3 keys of 64 bits (thorough: 6 over 2)', 'Histories that give a key a second name or a name a second key; looking up keys that are not known; resetting while objects are shared.', over=('histories', 'inputs'))
prop('C23', 'The tables of connectors and copulas agree with the documented notation and with the parser',
     'For every connector: its text is the documented one and is read as that connector, it takes exactly the documented numbers of components (and the parser accepts exactly those), it is order-insensitive, unfolded and temporal exactly as documented. For every copula: its text is read as that copula (instance and property ones as inheritance from or to a set); it is symmetric, temporal and of higher order as documented; symmetrising is idempotent and keeps temporality and order, reversing is its own inverse and keeps temporality and symmetry. Marks of punctuation, tense and variables have their documented texts.',
     'all connectors, copulas and numbers of components', 'A shifted or wrong table entry affects one connective only.', ['Narsese/include/Connector.h', 'Narsese/include/Copula.h', 'Narsese/include/Tense.h', 'Narsese/include/Sentence.h', 'Narsese/include/Variable.h', 'Narsese/Parser/NarseseParser.cpp'],
     [('check_valid, is_commutative, is_reducible, is_single_only, is_double_only, is_temporal', 'Narsese/include/Connector.h'), ('symmetrize, reverse, is_commutative, is_higher_order, is_temporal', 'Narsese/include/Copula.h')],
     [run('C23.cpp', 'MODE=0', what='the tables, for every connector, copula and number of components', reach=['connectors', 'symmetrised', 'reversed']), run('C23.cpp', 'MODE=1', what='the parser, for every connector and one to four components', reach=['compound', 'refused', 'other syntax']), run('C23.cpp', 'MODE=2', what='the parser, for every copula', reach=['copula'])],
     '15 connectors, 12 copulas, numbers of components of 32 bits (read: up to 4)', 'Connector::List, which has no notation; images, whose place holder the grammar does not have.')
prop('C24', 'The enumerators of the Python module stand for what their names and texts say',
     'Connector, Copula and Punctuation of the Python module have exactly the documented enumerators; each stands for the connector, copula or punctuation of its name and is documented with its text; no two stand for the same; a compound or statement built with an enumerator has that connector or copula, and the copula of a statement that was read is the enumerator with its text.',
     'all enumerators', 'A wrong binding affects one name only, and no test uses the module.', ['Narsese/src/Connector.cpp', 'Narsese/src/Copula.cpp', 'Narsese/src/Sentence.cpp', 'Narsese.cpp', 'Narsese/src/Term.cpp', 'Narsese/src/Statement.cpp', 'Narsese/src/Compound.cpp'],
     [('pybind_connnector', 'Narsese/src/Connector.cpp'), ('pybind_copula', 'Narsese/src/Copula.cpp'), ('pybind_sentence', 'Narsese/src/Sentence.cpp')],
     [run('C24.cpp', 'MODE=0', what='names, values and texts', reach=['connector', 'copula', 'punctuation'], mock='py'), run('C24.cpp', 'MODE=1', what='building with enumerators', reach=['compound', 'statement'], mock='py')],
     'every enumerator', 'pybind11 itself: the binding code runs against a recording stand-in for it (mock/py).', assumptions=('pybind11 calls what is registered with it as documented',))
prop('C25', 'The Python module gives access to terms, tasks and values as they are',
     'parse gives, for every text, a task that shows the text, sentence and term the parser reads, or raises RuntimeError with a message, and the module stays usable; terms, statements, compounds, sentences, truth values and budgets are built with the parts and numbers given, omitted ones being the documented defaults; attributes give these back, assignable ones change alone; a name denotes one term; every value has a repr showing what it is; wrong argument types raise TypeError.',
     'all texts within the edits of a corpus, all names and numbers within the bounds', 'No test exercises the module; defaults, argument order and error handling differ per class.', ['Narsese.cpp', 'Narsese/src/Term.cpp', 'Narsese/src/Statement.cpp', 'Narsese/src/Compound.cpp', 'Narsese/src/Sentence.cpp', 'Narsese/src/Task.cpp', 'Narsese/src/Truth.cpp', 'Narsese/src/Budget.cpp', 'Narsese/Parser/NarseseParser.cpp'],
     [('pybind_term', 'Narsese/src/Term.cpp'), ('pybind_parse', 'Narsese/Parser/NarseseParser.cpp'), ('pybind_truth', 'Narsese/src/Truth.cpp'), ('pybind_budget', 'Narsese/src/Budget.cpp'), ('pybind_task', 'Narsese/src/Task.cpp'), ('pybind_compound', 'Narsese/src/Compound.cpp'), ('pybind_statement', 'Narsese/src/Statement.cpp'), ('pybind_sentence', 'Narsese/src/Sentence.cpp')],
     [run('C25.cpp', 'MODE=0', what='parse, for every one-byte edit of 22 sentences', reach=['task', 'error'], mock='py'), run('C25.cpp', 'MODE=1', what='terms and sentences of any name of one or two letters', reach=['atom', 'statement', 'compound', 'nested', 'sentence'], mock='py'), run('C25.cpp', 'MODE=2', what='truth values and budgets of any numbers in [0, 1]', reach=['numbers'], opts=['--fp-ms', '20000'], mock='py')],
     'one edited byte (thorough: also two-byte edits) of 22 sentences; names of two letters; all single-precision numbers in [0, 1]', 'pybind11 itself: the binding code runs against a recording stand-in for it (mock/py); judgements built without a truth value.', over=('inputs', 'programs'), assumptions=('pybind11 calls what is registered with it as documented',))
prop('C26', 'Intervals add like numbers and stay terms',
     'An interval holds the number it was given; two are equal, have the same hash, and neither precedes the other, exactly when their numbers are the same. The sum of two intervals is the interval of the sum, addition is commutative and leaves the summands alone; adding in place changes number and hash together. As components, intervals distinguish terms exactly when their numbers differ, and a written interval is that of the number written.',
     'all pairs of 32-bit numbers', 'Hash, equality and order must agree for every number, also after a change.', ['Narsese/include/Interval.h', 'Narsese/include/Term.inl', 'utils/hash.h'],
     [('Interval, operator+, operator+=, do_hashing', 'Narsese/include/Interval.h')],
     [run('C26.cpp', 'MODE=0', what='equality, hash, order, copies', reach=['equal', 'different']), run('C26.cpp', 'MODE=1', what='addition', reach=['sum', 'doubled']), run('C26.cpp', 'MODE=2', what='inside terms and texts', reach=['terms', 'written'])],
     'all 32-bit numbers (inside terms: below 100)', 'Sums that overflow an int.')
prop('C28', 'Iterators over components behave as positions',
     'Iterating over a collection of terms yields every component exactly once, in order, for sequences and sets alike. Through any history of increments, moves by a distance in either direction, copies and assignments, also between the two kinds of collections, an iterator yields the component at its position, moving a copy leaves the original alone, iterators of one collection are equal exactly at the same position, and no memory is lost or used after it was freed.',
     'all histories up to a length, both kinds of collections', 'The iterator owns a type-erased object; ownership errors show only in particular sequences.', ['Narsese/include/Term.h'],
     [('Iterator', 'Narsese/include/Term.h'), ('Terms::begin, Terms::end, operator std::vector<pTerm>', 'Narsese/include/Term.h')],
     [run('C28.cpp', 'STEPS=3', what='every history of three steps of two iterators over up to three components', reach=['increment', 'assign set', 'assign sequence', 'forward', 'back', 'forward by less than nothing', 'back by less than nothing', 'compare', 'destroyed']), run('C28.cpp', 'STEPS=4', what='histories of four steps', reach=['destroyed'], tier='thorough', time_thorough=900)],
     'two iterators, three steps (thorough: four), distances of -2 to 2, collections of up to three components', 'Moving outside the collection; the value of a postfix increment (it is the iterator after the step).', over=('histories',))
prop('C29', 'Kind, order and complexity of a term are those of what it consists of',
     'Every term is exactly one of atom, statement and compound and has the parts of its kind only; the complexity of an atom is one, that of a compound the sum of those of its components, that of a statement one more; a statement is an operation exactly when it gives a product to an operation, and of higher order exactly when its copula is; a compound is order-insensitive exactly when its connector is. This holds after merging, unfolding and cloning, in both construction modes, and for what the parser builds.',
     'all terms up to a depth, all accepted edits of a corpus', 'Wrong after a particular combination of normalisation, mode and nesting only.', TERMS,
     [('Compound::Compound', 'Narsese/src/Compound.cpp'), ('Statement::Statement', 'Narsese/include/Statement.inl'), ('Term::clone', 'Narsese/include/Term.inl')],
     [run('C29.cpp', 'MODE=0', 'IDXMAX=9', what='ten kinds of terms over every kind of leaf, and their clones', reach=['built']), run('C29.cpp', 'MODE=1', 'IDXMAX=9', what='what the parser builds of every accepted one-byte edit of 22 sentences', reach=['read', 'operation']), run('C29.cpp', 'MODE=2', what='every connector over every connector', reach=['merged'])],
     'terms of depth 1 (thorough: 2)', 'Terms changed after they were built.', over=('inputs', 'programs'))
prop('C30', 'Sentences and tasks have exactly the kind, parts and defaults they are made with',
     'A judgement, question, goal or quest, made by its own class, by Sentence or by Sentence::create, is of exactly that kind, has the term, truth value and stamp it was given, unchanged, and, where the class provides them, the configured defaults of its kind: an omitted stamp is eternal, created now and carries evidence of its own; an omitted truth value of a Judgement or Goal has the configured frequency, horizon and confidence of its kind; questions and quests have none. The desire of a goal is its truth value. Tasks and budgets hold what they were given.',
     'all configurations, truth values and clock values', 'Defaults are looked up per kind and constructor; a mix-up shows only with particular configurations.', ['Narsese/include/Sentence.h', 'Narsese/include/Task.h', 'Narsese/include/Budget.h', 'Narsese/include/Truth.h', 'Config.h', 'Config.cpp'],
     [('Sentence, Judgement, Question, Goal, Quest, Sentence::create', 'Narsese/include/Sentence.h'), ('Task, pTask', 'Narsese/include/Task.h'), ('Budget', 'Narsese/include/Budget.h')],
     [run('C30.cpp', what='four kinds, three ways to make them, with and without truth value and stamp', reach=['own class', 'sentence', 'created', 'eternal', 'given', 'default', 'goal', 'task'], opts=['--fp-ms', '20000'])],
     'all single-precision numbers in [0, 1]; clock and times below 2^30', 'Judgements and goals made by Sentence or Sentence::create without a truth value (they have none).', over=('inputs', 'configurations'))
prop('C31', 'Whatever is built, shared and dropped, nothing is leaked, freed twice or used after it was freed',
     'Terms, clones, tasks, sentences and their parts stay valid as long as anything refers to them, whatever else is dropped and in whatever order, and are released when nothing does, together with the names they hold. Reading a text again and again takes no more memory, whether it is accepted or refused, and a parser that is gone leaves nothing behind.',
     'all histories up to a length, all edits of a corpus', 'Ownership errors need a particular order of drops, or a refused text, to show.', TERMS + PARSER[:2] + ['Narsese/Parser/narsese.cpp', 'Narsese/Parser/Parser.cpp'],
     [('pTerm::~pTerm', 'Narsese/include/Term.inl'), ('_parser::parse, ast_free', 'Narsese/Parser/narsese.cpp'), ('Parser::transform', 'Narsese/Parser/Parser.cpp')],
     [run('C31.cpp', 'MODE=0', 'IDXMAX=9', what='terms, clones and components dropped in four orders', reach=['dropped']), run('C31.cpp', 'MODE=1', 'IDXMAX=9', what='every one-byte edit of 28 texts, four with numbers that do not fit, read four times', reach=['accepted', 'syntax error', 'exception']), run('C31.cpp', 'MODE=3', 'IDXMAX=9', what='parts of tasks', reach=['shared']),
      run('C31.cpp', 'MODE=2', 'STEPS=2', what='every history of two steps of building, sharing, cloning and dropping', reach=['step', 'dropped']), run('C31.cpp', 'MODE=2', 'STEPS=3', what='histories of three steps', reach=['dropped'], tier='thorough', time_thorough=600)],
     'terms of depth 1 (thorough: 2); histories of two (three) steps; one-byte edits', 'Memory kept by the C++ runtime; handles that are assigned over instead of destroyed.', over=('histories', 'inputs', 'programs'))
