prop('C07', 'A name denotes one atom for as long as the atom is referred to, and nothing longer',
     'Within a process, creating an atom by name, directly or by reading a sentence, yields the same atom object every time while anything (a handle, or a term or sentence that contains it) still refers to it; different names yield different atoms. The name dictionary has an entry for a name exactly while its atom is referred to: releasing one reference never takes away an atom that is still in use, an atom keeps printing as its name, and when the last reference goes the entry goes too, so that nothing accumulates.',
     'all names, and all sequences of creating, sharing, embedding and releasing atoms',
     'It is about the life time of shared objects over arbitrary histories; the tests create a few terms and exit.', TERMS + INTERP,
     [('Term::create', 'Narsese/src/Term.cpp'), ('pTerm::~pTerm, _free_from_interpreter', 'Narsese/include/Term.inl, Narsese/src/Term.cpp'), ('Interpreter::put, remove', 'Interpreter/include/Interpreter.hpp')],
     [run('C07.cpp', 'MODE=0', what='names of any printable characters'),
      run('C07.cpp', 'MODE=1', 'STEPS=4', what='histories of 4 steps over three holders: create by name, embed in a statement, share, release', time=100),
      run('C07.cpp', 'MODE=1', 'STEPS=5', what='histories of 5 steps', tier='thorough', time_thorough=800),
      run('C07.cpp', 'MODE=2', what='two tasks read from the same text with arbitrary names, released in either order')],
     'names of two characters; three holders, four (thorough: five) steps; six sentence shapes', 'Assigning to a pTerm that holds the last external reference (the entry then stays until the next release of that name); several interpreters.', over=('inputs', 'histories'),
     state=[('Interpreter::dictionary, dictionary_inv, objects', 'names, keys and handles of the living atoms'), ('use_count of the stored handle', 'decides when an atom is forgotten')])
prop('C08', 'Two terms are equal exactly when they are built alike, and equal terms have equal hashes',
     'Equality of terms is structural: atoms are equal when they are the same named atom, variables when kind and index agree, intervals when their numbers agree, statements when copula, subject and predicate agree, compounds when connector and components agree (in order, or as a set for order-insensitive connectors). Equality is reflexive and symmetric, terms of different kinds are never equal, and equal terms always have the same hash value.',
     'all pairs of terms within the depth bound', 'A collision or an ignored field only shows for particular pairs of terms.', TERMS,
     [('Term::operator==', 'Narsese/include/Term.inl'), ('do_hashing', 'Narsese/include/*.h')],
     [run('C08.cpp', 'MODE=0', what='all pairs of leaves: atoms, variables of any index, intervals of any value, operations'),
      run('C08.cpp', 'MODE=1', what='all pairs of terms of depth one, over 7 shapes with any leaves', time=100),
      run('C08.cpp', 'MODE=2', what='a nested term and a copy with one leaf, connector, copula or the order changed', time=100),
      run('C08.cpp', 'MODE=3', what='six sentences read twice with arbitrary names')],
     'terms of depth two; variable indices 0-255; interval values of 32 bits; hash collisions between different atoms only as they occur at the addresses of the run', 'Statements with a symmetric copula (their two orders are distinct terms); deeper terms.', over=('inputs',))
prop('C09', 'The order of terms is a strict weak order whose equivalence is equality',
     'The order that keeps the components of order-insensitive terms sorted is irreflexive, asymmetric and transitive, and of two terms that are not equal exactly one precedes the other, whatever the kinds of the terms, wherever atoms are allocated and whatever the indices of variables. Sets of terms therefore hold every term exactly once.',
     'all triples of terms within the bound', 'Only particular triples of equal-hash terms expose a violation, and then containers lose components silently.', TERMS,
     [('Term::operator<', 'Narsese/include/Term.inl'), ('Terms::compare', 'Narsese/include/Term.h')],
     [run('C09.cpp', 'MODE=0', 'NK=16', what='all triples from 16 kinds of terms: atoms of any hash, variables of any index, intervals of any value, statements and compounds of these', time=150),
      run('C09.cpp', 'MODE=1', 'NIDX=255', what='triples of terms of one of 8 shapes that differ in their variable indices, all symbolic', time=100)],
     'triples from 16 kinds; hashes of atoms any two 64-bit values when compared among leaves, either order otherwise; indices 0-254', 'Collisions of the 64-bit hashes of an interval and an atom; deeper terms.', over=('inputs', 'configurations'))
prop('C10', 'The order and repetition of components is immaterial exactly for the order-insensitive connectors',
     'Two compounds with an order-insensitive connector (&&, ||, &|, |, &, [ ], { }) whose components are the same set are the same term: equal, with the same hash, size, complexity and text, in whatever order and however often the components were given, directly or by text, on any level. With every other connector the components stay in the order given, repetitions included, and a different order is a different term.',
     'all permutations and repetitions of up to three components and any nesting of two levels', 'The permutation has to be combined with equal hashes or a particular allocation order to expose an error.', TERMS,
     [('Terms', 'Narsese/include/Term.h'), ('Compound constructors', 'Narsese/src/Compound.cpp'), ('Term::operator<', 'Narsese/include/Term.inl')],
     [run('C10.cpp', 'MODE=0', 'IDXMAX=9', what='all permutations and repetitions of three components of 6 kinds (thorough: 7) with symbolic variable indices, for 7 connectors and either allocation order', time=150, time_thorough=900),
      run('C10.cpp', 'MODE=1', what='ordered connectors: any two components'),
      run('C10.cpp', 'MODE=2', what='sentences with arbitrary names, permuted on two levels', time=150, time_thorough=900)],
     'three components (plus one repeated) of 6 kinds; nesting of two levels; one-letter names', 'The two orders of a statement with a symmetric copula; more components.')
prop('C11', 'Compounds are normalised as documented, however they are built',
     'A compound built from components, in either construction mode, has the documented normal form: components with the same (reducible) connector are unfolded into the parent, sets nested in sets are merged, intersections of sets are merged to the intersection or union the connector demands and become a set when only that remains, repeated components of order-insensitive connectors collapse, and nothing else changes: no component is lost, invented or moved, products, negations, differences and images stay as given, and the complexity is that of the result.',
     'all compounds within three levels over the pool of leaves', 'Normalisation goes through several interacting cases; a lost component in one of them needs a particular nesting.', TERMS,
     [('prepocess_terms, _merge_compounds', 'Narsese/src/Compound.cpp')],
     [run('C11.cpp', 'MODE=0', 'NLEAF=2', what='any two compounds inside any compound: all 14^3 combinations of connectors', time=150),
      run('C11.cpp', 'MODE=0', 'NLEAF=3', what='the same with three kinds of leaves', tier='thorough', time_thorough=1500),
      run('C11.cpp', 'MODE=1', 'NLEAF=2', what='three components, each a leaf, a set, an intersection or a compound of the parent connector, in both construction modes', time=150),
      run('C11.cpp', 'MODE=1', 'NLEAF=4', what='the same with four kinds of leaves', tier='thorough', time_thorough=1500),
      run('C11.cpp', 'MODE=2', 'NLEAF=2', what='three levels of reducible connectors', time=150)],
     'up to three components and three levels; leaves from two to four atoms and variables', 'Intersections of sets without a common element stay unmerged; differences of sets are not computed; more components.')
prop('C12', 'Union, intersection and difference of collections of terms are those of sets',
     'Terms::union_, intersection and difference of any number of sets of terms yield exactly the set the operation denotes, without changing the operands; an operand that is not order-insensitive, or no operand at all, is refused with an exception. Collections built from a list, vector, set or another collection, or by appending, hold what they were given: order-insensitive ones every term once, ordered ones everything in order; size, iteration and conversion to a vector agree.',
     'all subsets of a pool of terms with symbolic variable indices', 'A wrong set operation needs operands that overlap in a particular way.', TERMS,
     [('Terms::intersection, union_, difference, fill_terms', 'Narsese/include/Term.h')],
     [run('C12.cpp', 'MODE=0', what='up to three operands, any subsets of a pool of four terms'), run('C12.cpp', 'MODE=1', what='building a collection in five ways from any sub-list with repetitions'), run('C12.cpp', 'MODE=2', what='operands that are not sets, and no operands')],
     'pools of four terms (an atom, two variables, a statement), up to three operands', 'Larger pools.')
prop('C13', 'A clone is the same term and independent of the original',
     'Cloning a term yields a term that is equal, has the same hash, text, flags, complexity and variable records; a term without variables is shared, while in a clone of a term with variables every variable and its index is a new object at every depth, so renaming variables in the clone never shows in the original, and the clone survives the original.',
     'all terms of depth two with any variables', 'A shared index only shows after a rename, on particular shapes.', TERMS + ['utils/IndexVar.h', 'utils/IndexVar.cpp'],
     [('Term::clone', 'Narsese/include/Term.inl'), ('copy constructors', 'Narsese/include/Compound.inl, Statement.inl, Variable.inl'), ('IndexVar::clone', 'utils/IndexVar.h')],
     [run('C13.cpp', 'MODE=0', 'IDXMAX=9', what='leaves, and terms of depth one: 10 kinds of nodes over any leaves'), run('C13.cpp', 'MODE=1', 'IDXMAX=9', what='terms of depth two: 10 by 10 kinds of nodes over any leaves', time=150)],
     'terms of depth two, up to three variables, indices 0-9', 'Deeper terms.')
prop('C14', 'Variable flags and indices describe exactly the variables a term contains',
     'For every term, however built, each of has_var, has_ivar, has_dvar and has_qvar is set exactly when a variable (of that kind) occurs in it; its index records list every occurrence of each kind of variable, in component order, with its position, linked to the variable itself; normalised indices number the distinct variables of a kind; and in a parsed sentence equal names of a kind, and only they, have equal indices.',
     'all terms of depth two with any variables', 'The records are built bottom-up over several representations; errors need particular mixtures of kinds.', TERMS + ['utils/IndexVar.h', 'utils/IndexVar.cpp'],
     [('_refresh_var_status, _init_indexvars, _build_indexvars', 'Narsese/include/Term.h'), ('IndexVar::connect, build', 'utils/IndexVar.cpp')],
     [run('C14.cpp', 'MODE=0', what='leaves, and terms of depth one over any leaves'), run('C14.cpp', 'MODE=1', what='terms of depth two', time=150), run('C14.cpp', 'MODE=2', what='six sentences with arbitrary variable names')],
     'terms of depth two, up to three variables, indices 0-255; six sentence shapes', 'Deeper terms; indices changed after construction.')
prop('C15', 'Variable index records compose, edit, normalise and copy consistently',
     'A record composed of parts lists the indices and positions of its parts in order, whether positions are generated while connecting or by building; building again changes nothing; adding, removing or renaming a variable under any part shows after a rebuild; normalising maps each index to its rank among the distinct indices; records are equal, by hash, exactly when they name variables alike; a copy is independent.',
     'all index values and all edits within the bound', 'Stale caches (hash, normalised indices, built flag) show only after particular sequences.', ['utils/IndexVar.h', 'utils/IndexVar.cpp', 'utils/hash.h'],
     [('IndexVar', 'utils/IndexVar.cpp')],
     [run('C15.cpp', 'MODE=0', what='two lists of up to three (thorough: four) indices: ranks, equality, copies', time=100, time_thorough=900), run('C15.cpp', 'MODE=1', what='records of two levels: composition, one (thorough: two) edits, rebuilding', time=100, time_thorough=900), run('C15.cpp', 'MODE=2', what='lists of 3 to 15 (thorough: 24) indices on two levels, one of them arbitrary (of 3: two)', reach=['long'])],
     'lists of up to three (four) indices, and of up to 15 (24) with one arbitrary; four (six) shapes of two levels; 8-bit (16-bit) indices', 'The record of a whole when a part is edited without a rebuild.', over=('inputs', 'histories'))
