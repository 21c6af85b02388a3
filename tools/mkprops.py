import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
H='include/rapidcheck/'
p("C01","Ranged integers stay in range and shrink inside it",
"For every integer type, every bounds pair min < max, every size >= 0 and every random state, gen::inRange(min,max) yields a value v with min <= v < max, and at size 0 it yields min; at the nominal size and above every value of the range is possible. Every value reachable by shrinking it lies in [min, v) and is never v itself, and the first shrink offered (if any) is min. An empty or inverted range yields a generation failure and never a value.",
["inputs"],"all (type,min,max,size,random state) and, inductively, all values reachable by shrinking",
"Tests sample some ranges; the interesting arithmetic (64-bit multiply-divide scaling, unsigned modulus, ranges spanning more than half the type) fails only at rare bounds.",
[H+'gen/Numeric.hpp','src/gen/detail/ScaleInteger.cpp',H+'shrink/Shrink.hpp'],
[('inRange lambda',H+'gen/Numeric.hpp'),('scaleInteger/mulDiv','src/gen/detail/ScaleInteger.cpp'),('TowardsSeq',H+'shrink/Shrink.hpp')],['values returned by the generator','Shrinkable::shrinks()'])
p("C02","Primitive shrinkers progress, stay between value and target, and terminate",
"shrink::towards(v,t) is a finite sequence that is empty iff v==t, otherwise starts with t, never contains v, and whose elements all lie between t and v and strictly approach v. shrink::integral never offers the value itself nor a value of larger magnitude, offers 0 first, and offers the negation exactly for negative values whose negation is representable; shrink::boolean offers exactly false for true and nothing for false; shrink::real never offers the value itself nor a larger magnitude. shrink::character never offers the value itself nor the null character, and only simpler characters from its fixed ladder.",
["inputs"],"all values and targets of every integral, boolean, floating-point and character type",
"Only sampled values are tried; the extreme ones (type minima, differences that overflow, wide characters) are where it breaks.",
[H+'shrink/Shrink.hpp','src/shrink/Shrink.cpp'],
[('TowardsSeq',H+'shrink/Shrink.hpp'),('shrink::integral/real/boolean/character',H+'shrink/Shrink.hpp')],['the sequence returned'])
p("C03","Arbitrary integers use exactly the bits the size allows",
"For every integer type T, every random state and every size in [0,100], the arbitrary T generator yields a value that fits in round(size*bits/100) low bits: unsigned values are below 2^n, signed values lie in [-2^(n-1), 2^(n-1)), size 0 yields 0. A bit stream never delivers the same source bit twice and delivers the bits in order, whatever the widths requested and however requests straddle source words; requests wider than the type are clamped to the type's width. Arbitrary booleans consume one bit; floating-point generation yields a finite value.",
["inputs","histories"],"all integer types, sizes, source words and sequences of request widths",
"A finite test samples a few widths; refill boundaries, sign extension and full-width shifts are combinations of width and buffered bits.",
[H+'detail/BitStream.hpp',H+'detail/Utility.h',H+'gen/Numeric.hpp'],
[('BitStream::next',H+'detail/BitStream.hpp'),('bitMask',H+'detail/Utility.h'),('nextWithSize',H+'detail/BitStream.hpp')],['values returned'],
[dict(name='m_bits/m_numBits',meaning='buffered source bits not yet delivered',where=H+'detail/BitStream.h')])
p("C04","Random engine is a deterministic, splittable counter-mode Threefish-256",
"A Random's output stream is a function of its observable state only: equal engines give equal streams and equal splits, a copy evolves independently of its original, and constructing from equal seeds gives equal engines. The numbers delivered between splits are the words of Threefish-256 of the counter under the engine's key, four per block in order, with the counter advancing once per number, a new block computed every four numbers and no word repeated or skipped; split (allowed only before the first number is drawn) derives the child and the parent's continuation deterministically and distinctly. Equality holds exactly when the complete states are equal.",
["inputs","histories"],"all seeds/keys and all interleavings of next, split and copy",
"Tests compare sampled seeds with themselves and check distribution statistically; they do not pin the cipher, the block boundary or the counter carry.",
['src/Random.cpp',H+'Random.h',H+'Random.hpp'],
[('Random::next','src/Random.cpp'),('Random::split','src/Random.cpp'),('mash (Threefish rounds)','src/Random.cpp')],['Random::next(), Random::split(), operator=='],
[dict(name='m_key,m_block,m_bits,m_counter,m_bitsi',meaning='engine state',where=H+'Random.h')])
p("C05","Serialization round-trips and consumes exactly what it wrote",
"For every value of every serializable type (fixed-width integers, compact integers, ranges of either, strings, random engines, reproduction records and maps of them), deserializing the bytes that serialize produced yields an equal value and leaves the input positioned exactly after those bytes, whatever follows them. Fixed-width integers occupy exactly their width, little-endian; compact integers use the minimal number of 7-bit groups. The reproduce string produced for a failing test decodes to the same map.",
["inputs"],"all values, all container lengths and contents, all trailing bytes",
"Round trips are tested on generated samples; full-width values, group boundaries and trailing data are specific points.",
[H+'detail/Serialization.hpp',H+'Random.hpp','src/detail/Results.cpp','src/detail/StringSerialization.cpp',H+'detail/Results.hpp'],
[('serialize/deserialize',H+'detail/Serialization.hpp'),('serializeCompact/deserializeCompact',H+'detail/Serialization.hpp'),('Random serialize',H+'Random.hpp'),('reproduceMapToString','src/detail/StringSerialization.cpp')],['bytes written','value and iterator returned'])
p("C06","Decoders are total on arbitrary bytes",
"For every byte string, including truncated and adversarial ones, each deserializer (integers, compact integers, ranges, strings, random engines, reproduction records, the Base64 reproduce string) either returns a value having read only bytes inside the input, or reports a serialization/parse error. None reads out of bounds, returns a structurally invalid engine, performs undefined arithmetic, loops forever, or ends in any other exception.",
["inputs","fault_sequences"],"all byte strings of all lengths",
"Tests feed a handful of truncations; every length and every bit pattern matters, in particular truncated engines and huge encoded lengths.",
[H+'detail/Serialization.hpp',H+'Random.hpp','src/detail/Base64.cpp','src/detail/StringSerialization.cpp',H+'detail/Results.hpp'],
[('deserialize overloads',H+'detail/Serialization.hpp'),('stringToReproduceMap','src/detail/StringSerialization.cpp')],['return, exception, memory access'])
p("C07","Base64 is an exact bijection on byte strings",
"For every byte string b, decoding the encoding of b gives b; the encoding has ceil(8*|b|/6) characters, all from the 64-letter alphabet, and each letter is the 6-bit group of the input it stands for. Decoding any string either gives the bytes it encodes or raises a parse error: a character outside the alphabet is always reported and so is an impossible length.",
["inputs"],"all byte strings of all lengths, all candidate encodings",
"Sampled round trips cannot settle every length residue, byte value (sign extension) and invalid character.",
['src/detail/Base64.cpp'],
[('base64Encode','src/detail/Base64.cpp'),('base64Decode','src/detail/Base64.cpp')],['returned string / ParseException'])
p("C08","Configuration text round-trips and malformed text is rejected, never misread",
"Printing a string map (non-empty keys) and parsing it back gives the same map whatever characters keys and values contain, including quotes, spaces, '=' and backslashes. Parsing arbitrary text either yields a map or a parse error with an in-range position, never anything else. Applying a map to a configuration changes exactly the keys it names, accepts exactly the documented values, rejects the others with a configuration error, and printing then parsing a configuration is the identity.",
["inputs"],"all maps, all configuration values, all texts",
"Tests sample maps and a few error strings; quoting, escaping, end-of-input inside a token and key combinations are unbounded.",
['src/detail/MapParser.cpp','src/detail/Configuration.cpp','src/detail/ParseException.cpp'],
[('parseMap/mapToString','src/detail/MapParser.cpp'),('configFromMap/configToMap','src/detail/Configuration.cpp')],['returned map/configuration or exception'])
p("C09","Sequence combinators compute the mathematical sequence, lazily",
"For every upstream sequence, element type, function and predicate, each sequence combinator (drop, take, dropWhile, takeWhile, map, zipWith, filter, join, concat, mapcat, mapMaybe, cycle, cast), constructor (repeat, just, fromContainer, iterate, range, index, subranges) and operation (length, forEach, last, contains, all, any, at) yields exactly the elements of the mathematical definition, in order, then ends and stays ended. A combinator pulls from its upstream no more than needed to decide its next element and applies its function exactly once per element in order.",
["inputs","histories"],"all upstream lengths (including infinite), positions, contents, predicates and functions",
"Tests fix small sequences and a few functions; off-by-one at exhaustion, re-entry after the end and nested empty sequences need all histories.",
[H+'seq/Transform.hpp',H+'seq/Create.hpp',H+'seq/Operations.hpp',H+'seq/SeqIterator.hpp'],
[('DropSeq..MapcatSeq',H+'seq/Transform.hpp'),('JustSeq, ContainerSeq, RangeSeq, IterateSeq',H+'seq/Create.hpp')],['Seq::next()'])
p("C10","Seq, Shrinkable and Gen are independent, exception-safe values",
"Copying, moving, assigning (also from an empty or moved-from object, where the type allows it, and to itself) and destroying Seq, Shrinkable and Gen behave as for plain values: advancing one Seq never affects its copies, every implementation object is destroyed exactly once when its last owner goes, and nothing is used after destruction. A Seq whose implementation throws ends and stays ended; a Shrinkable whose shrinks throw has no shrinks; a Gen whose function throws yields a Shrinkable whose value() rethrows that same exception; none of these calls lets the exception out.",
["inputs","histories","fault_sequences"],"all sequences of value operations and all points at which user code throws",
"Lifetime bugs need particular histories (assign from empty, self-assign, throw between) that tests without a leak checker do not settle.",
[H+'Seq.hpp',H+'Shrinkable.hpp',H+'Gen.hpp'],
[('Seq::operator=, next',H+'Seq.hpp'),('Shrinkable retain/release',H+'Shrinkable.hpp'),('Gen retain/release, operator()',H+'Gen.hpp')],['observable values, allocations'],
[dict(name='m_impl / m_count',meaning='owned or shared implementation and its reference count',where=H+'Shrinkable.hpp')])
p("C11","Shrinkable combinators preserve the shrink tree's structure",
"For every shrink tree and function: map gives the tree with every value mapped, same shape and order; mapShrinks replaces exactly the shrinks; filter gives nothing iff the root fails the predicate and otherwise exactly the subtree of nodes satisfying it with all their ancestors; mapcat offers the outer shrinks first, re-expanded, and then those of the inner tree; pair offers every shrink of the first component with the second fixed, then the reverse; just has no shrinks, shrinkRecur's shrinks are the shrink function's outputs recursively. Operations (all, findLocalMin, immediateShrinks, walkPath) return what their definition says on every tree.",
["inputs"],"all trees (arbitrary depth and branching), mappers and predicates",
"Tests use fixed small trees; laws quantify over all trees and functions.",
[H+'shrinkable/Transform.hpp',H+'shrinkable/Create.hpp',H+'shrinkable/Operations.hpp'],
[('MapShrinkable, MapShrinksShrinkable, MapcatShrinkable, filter, pair',H+'shrinkable/Transform.hpp'),('walkPath, findLocalMin',H+'shrinkable/Operations.hpp')],['Shrinkable::value(), shrinks()'])
p("C12","Filtering generators yield only satisfying values and bounded retries",
"For every generator and predicate, the value of suchThat and every value reachable by shrinking it satisfies the predicate; the derived generators (nonEmpty, distinctFrom, nonZero, positive, negative, nonNegative) satisfy the predicate their name states. It tries at most 100 candidates, with a fresh random split and the size growing by one each time, returns the first that satisfies, and otherwise fails generation; it never loops forever and never yields an unsatisfying value.",
["inputs","histories"],"all generators, predicates, random states, sizes",
"A test needs a particular predicate and luck; the bound, the retry sequence and every shrink are universal claims.",
[H+'gen/Predicate.hpp',H+'shrinkable/Transform.hpp'],
[('FilterGen',H+'gen/Predicate.hpp'),('shrinkable::filter',H+'shrinkable/Transform.hpp')],['generated values, calls of the underlying generator'])
p("C13","Selection generators pick only offered alternatives, by weight",
"element, elementOf, sizedElement and oneOf (and their sized and weighted forms) yield only values of the given collection or alternatives; an alternative of weight 0 is never picked, each weight-w alternative is picked for exactly w of the sum residues, and each alternative is reachable. At size 0 the sized forms pick the first alternative, and they shrink towards the first. An empty collection or a zero total weight yields a generation failure rather than a value.",
["inputs","configurations"],"all collections, weights, random states and sizes",
"Tests check sampled frequencies statistically; exact residues, zero weights at the ends and the empty case need all inputs.",
[H+'gen/Select.hpp','src/detail/FrequencyMap.cpp','src/gen/detail/ScaleInteger.cpp'],
[('FrequencyMap::lookup','src/detail/FrequencyMap.cpp'),('ElementOfGen, WeightedElementGen, SizedElementOfGen, OneOfGen',H+'gen/Select.hpp')],['values returned'])
p("C14","Container generators respect size, count, uniqueness and element provenance",
"Without an explicit count a generated container has at most `size` elements, with an explicit count exactly that many, and then every shrink keeps that count; unique and uniqueBy containers have pairwise distinct keys in the value and in every shrink, sets and maps lose no element to duplicates. Every element comes from the element generator or its shrinks, invoked at the given size (grown by one only on a rejected duplicate), on distinct random splits. When distinct elements cannot be found in 100 consecutive attempts generation fails; arrays have exactly their length.",
["inputs","histories"],"all element generators (including ones producing collisions), sizes, counts, random states and shrink paths",
"Collisions, exhausted domains and shrinks that collide occur on specific inputs that sampling rarely meets.",
[H+'gen/Container.hpp',H+'gen/detail/ShrinkValueIterator.hpp',H+'shrink/Shrink.hpp'],
[('generateShrinkables',H+'gen/Container.hpp'),('Collection/Generic/Unique strategies',H+'gen/Container.hpp'),('RemoveChunksSeq, EachElementSeq',H+'shrink/Shrink.hpp')],['generated containers and their shrinks'])
p("C15","Optional, variant and any holders manage their contents exactly",
"Maybe, Variant and Any construct, copy, move, assign, reset and destroy the held object exactly once each on every history, also when the held type's operations throw; they compare equal exactly when they hold equal alternatives, report exactly the alternative they hold, and hand out the held value. No object leaks, is destroyed twice or is accessed after destruction.",
["inputs","histories","fault_sequences"],"all sequences of operations on the holders and all throwing points",
"Leaks and double destruction are invisible to value assertions and need specific histories such as assigning between different alternatives.",
[H+'Maybe.hpp',H+'detail/Variant.hpp',H+'detail/Any.hpp','src/detail/Any.cpp'],
[('Maybe',H+'Maybe.hpp'),('Variant',H+'detail/Variant.hpp'),('Any',H+'detail/Any.hpp')],['constructor/destructor balance, values'])
p("C16","The test loop runs, counts, gives up and sizes cases as documented",
"A property is run until max_success cases succeed, one fails, or more than max_success*max_discard_ratio are discarded; the verdict is respectively success, failure at the first failing case, or gave up, the reported success count is exact, and every executed case is reported to the listener once in order. Sizes are within [0,max_size] plus one per ten consecutive discards, evenly spread, and the maximum size is used whenever at least two sizes are needed. Every case gets a fresh random split, all determined by the seed.",
["inputs","histories","configurations"],"all parameter combinations and all sequences of case outcomes",
"Unbounded outcome histories and parameter values (ratios, small and huge maxima) cannot be enumerated by tests.",
['src/detail/Testing.cpp'],
[('searchProperty','src/detail/Testing.cpp'),('sizeFor','src/detail/Testing.cpp')],['SearchResult/TestResult, listener calls, arguments passed to the property'])
p("C17","Shrinking ends in a failing local minimum that reproduces",
"After a failure, shrinking follows the first failing shrink at each step until the current case has none: the reported case fails, none of its shrinks fails, and each tried case is reported to the listener with whether it was accepted. The recorded path of indices, walked from the same random state and size, leads to exactly that case, so replaying the reproduce data reports the same failure and counterexample, or an error if the path leads nowhere or the case no longer fails. With shrinking disabled the original failing case is reported unshrunk with an empty path.",
["inputs","histories"],"all shrink trees with all verdict assignments, all paths",
"Path bookkeeping errors show only for particular accept/reject histories.",
['src/detail/Testing.cpp',H+'shrinkable/Operations.hpp',H+'seq/Operations.hpp'],
[('shrinkTestCase','src/detail/Testing.cpp'),('reproduceProperty','src/detail/Testing.cpp'),('walkPath',H+'shrinkable/Operations.hpp')],['FailureResult, listener calls'])
p("C18","Case outcomes are classified and combined correctly",
"A case that returns normally succeeds (or fails on false / a non-empty string / a failing result), RC_PRE and generation failures discard, RC_ASSERT/RC_FAIL and any other exception fail, and RC_SUCCEED succeeds, with the thrown message kept. When results are also reported through the context, a discard overrides everything, a failure overrides success, messages of the winning kind are kept in order (only the first discard and the last success), and tags and log text are carried into the result.",
["inputs","histories"],"all sequences of reported results and all ways the case body ends",
"Combination order is a property of all report histories; tests list a few.",
['src/detail/Property.cpp',H+'detail/Property.hpp','src/detail/Assertions.cpp',H+'Assertions.hpp'],
[('AdapterContext::reportResult/result','src/detail/Property.cpp'),('PropertyAdapter',H+'detail/Property.hpp'),('toCaseResult','src/detail/Property.cpp')],['TaggedResult'])
p("C19","Imperative generation replays deterministically and shrinks coherently",
"A generator written imperatively (gen::exec, properties) is a pure function of its random state and size: each pick uses its own random split in order at the case's size. Its shrinks replace one pick at a time by one of that pick's shrinks, keep all earlier picks, regenerate later ones from the same random state, never re-shrink picks before the one last shrunk, and re-running a shrink's value gives the same result every time.",
["inputs","histories","programs"],"all imperative generators (number and order of picks may depend on earlier picks) and all shrink paths",
"The interplay of fixed prefix, dropped suffix and split order depends on arbitrary programs.",
[H+'gen/detail/ExecRaw.hpp','src/gen/detail/ExecHandler.cpp','src/gen/detail/Recipe.cpp',H+'gen/Exec.hpp'],
[('ExecHandler::onGenerate','src/gen/detail/ExecHandler.cpp'),('shrinkRecipe','src/gen/detail/Recipe.cpp'),('execWithRecipe',H+'gen/detail/ExecRaw.hpp')],['generated value, recipe, shrinks'])
p("C20","Dynamically scoped context always unwinds to the previous state",
"A context value bound for a dynamic extent is visible exactly to code in that extent, an inner binding hides the outer one and the outer is restored when the inner ends, also by exception; a new scope hides all bindings and its end restores them and disposes of what was bound inside it. Consequently assertions, tags and picks inside nested checks or generators always reach the innermost enclosing one, and outside any they hit the default.",
["histories","fault_sequences"],"all well-nested sequences of binding, scoping and exceptional exit",
"Nesting depth and the interleaving of scopes and bindings are unbounded.",
[H+'detail/ImplicitParam.hpp','src/detail/ImplicitParam.cpp'],
[('ImplicitParam',H+'detail/ImplicitParam.hpp'),('ImplicitScope','src/detail/ImplicitParam.cpp')],['ImplicitParam::value()'])
p("C21","Stateful command sequences are valid, also after shrinking",
"Every generated command sequence, and every sequence reachable by shrinking it, has each command's precondition satisfied in the model state reached by applying the preceding commands from the initial state. Generated sequences have at least one and at most size + 1 commands, and shrinking never makes one longer. Running a sequence runs each command exactly once in order against the model state before it and the system, advancing the model between; validity checking answers exactly whether all preconditions hold.",
["inputs","histories"],"all models, command generators, sizes, random states and shrink paths",
"Preconditions after removing or shrinking commands depend on arbitrary models and removals.",
[H+'state/gen/Commands.hpp',H+'state/Commands.hpp',H+'state/State.hpp',H+'state/Command.hpp',H+'state/gen/ExecCommands.hpp'],
[('CommandsGen',H+'state/gen/Commands.hpp'),('applyAll/runAll/isValidSequence',H+'state/Commands.hpp')],['generated sequences, calls of checkPreconditions/apply/run'])
p("C22","Composite generators combine component generators faithfully",
"tuple, pair, construct, build, apply, map, mapcat, join, maybe, cast, resize, scale, withSize and noShrink yield exactly the combination of what their components yield: each component is invoked once with its own random split and the prescribed size, the result is the stated function of the component values, shrinks change one component at a time (none for noShrink), and the name given by as() never changes the result. Every generator is a pure function of the random state and size: invoking it again gives the same tree and leaves the caller's engine untouched.",
["inputs","programs"],"all component generators, functions, random states and sizes",
"Tests use sample generators; faithful plumbing of random state and size is a claim about all components.",
[H+'gen/Tuple.hpp',H+'gen/Transform.hpp',H+'gen/Build.hpp',H+'gen/Create.hpp',H+'gen/Maybe.hpp',H+'Gen.hpp'],
[('TupleGen/TupleShrinkSeq',H+'gen/Tuple.hpp'),('MapGen, MapcatGen, JoinGen',H+'gen/Transform.hpp'),('Lens/build',H+'gen/Build.hpp')],['generated tree, component invocations'])
p("C23","Generated strings and characters are well formed at every shrink",
"A generated string has at most `size` characters and neither it nor any string reachable by shrinking contains the null character, for narrow and wide character types; a generated character and its shrinks are never null. Shrinks of a string are exactly: removals of a contiguous chunk, from the largest down, then single characters replaced by a shrink of themselves; none equals the original string.",
["inputs"],"all character types, random states, sizes and strings",
"A null slips in only for particular wide values or through a particular shrink.",
[H+'gen/Text.hpp',H+'shrink/Shrink.hpp'],
[('StringGen, character',H+'gen/Text.hpp'),('shrink::character, removeChunks, eachElement',H+'shrink/Shrink.hpp')],['generated strings and shrinks'])
p("C24","A check's verdict and reproduce mode are dispatched faithfully",
"With no reproduce data every check runs normally and its result is the test loop's result, sent once to the listener; with reproduce data a check whose identifier is in the map replays exactly that entry (without its shrink path when shrinking is disabled) and all other checks are skipped as success with zero cases. Listeners composed together each receive every event once in order; the reproduce listener collects exactly the failing checks that have an identifier and prints their data only when there is some.",
["inputs","histories"],"all reproduce maps, metadata, parameters and event histories",
"Which combination of identifier, map and flags is active is sampled thinly by tests.",
['src/Check.cpp','src/detail/MulticastTestListener.cpp','src/detail/ReproduceListener.cpp','src/detail/Testing.cpp'],
[('checkProperty','src/Check.cpp'),('MulticastTestListener','src/detail/MulticastTestListener.cpp'),('ReproduceListener','src/detail/ReproduceListener.cpp')],['TestResult, listener events'])
p("C25","Values print completely and unambiguously",
"Printing a test value never loses or alters information a user needs: containers print every element in order with their delimiters, strings and characters print with all special characters escaped, nested pointers, tuples and optionals print their contents, and printing never changes the value. A result message contains the counterexample's every ingredient, the failure description and, for failures, the reproduce data.",
["inputs"],"all values of all showable types",
"Tests print samples; escapes and nesting are unbounded.",
[H+'Show.hpp','src/Show.cpp','src/detail/Results.cpp'],
[('show overloads',H+'Show.hpp'),('printResultMessage','src/detail/Results.cpp')],['text written'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), max(len(x['title']) for x in P))
