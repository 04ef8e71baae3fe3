# Source of properties.jsonl and MANIFEST.json (see gen.py).
S = 'Source/'
Q = {}


def prop(pid, title, statement, over, text, why, files, mechanism, level_note, technique):
    Q[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mechanism], hook_needed=None),
                  level_note=level_note, technique=technique)


MODEL = 'reference-model monitor over random histories, run under ASan+UBSan+LSan'
NOTE = 'Held on the executions produced, not proved; trusts the reference model in the harness, g++ 13 and its sanitizers. Public API only, no hooks in the code under test. '

prop('C01', 'Arrays and lists behave as plain sequences',
     'After any sequence of calls, an array or list holds exactly the values, in exactly the order, that the same calls produce on an ideal sequence, and every call returns what the ideal sequence would return (positions, found or not found, first match first). This holds for every element type (trivial, copyable, move-only, copy-only, strings, shared pointers), at every size while growing or shrinking, and across moving a container, which transfers all elements and leaves the source empty and usable.',
     ['histories', 'inputs', 'programs'], 'every history of construct/add/insert/remove/remove-range/set/resize/clear/find/move calls, every element type, every length',
     'The unit tests run a few fixed scripts on short lists of integers, strings and one reference type; growth and shrink thresholds combined with each insertion point and element type are not reached.',
     ['Collections/List.h'], [('InsertUninitializedItems', 'Collections/List.h'), ('ReleaseUnnecessaryBuffer', 'Collections/List.h'), ('CallMoveAssignmentsOverlapped', 'Collections/List.h')],
     NOTE + 'Lengths up to 300, histories up to 120 calls, ten element types.', MODEL)

prop('C02', 'Containers construct and destroy every element exactly once',
     'At every quiescent point the elements alive inside arrays, lists, sorted lists, dictionaries and groups are exactly the elements those containers hold: no element is destroyed twice, used before construction or after destruction, overwritten while alive, or left alive after its removal or after the container is gone. No container operation leaks memory or touches memory it does not own.',
     ['histories', 'programs'], 'every history of mutations, every element type with non-trivial construction, copy, move, assignment or destruction',
     'The unit tests use elements without observable lifetimes; a double destruction or a lost destructor leaves every asserted value intact.',
     ['Collections/List.h', 'Collections/Dictionary.h'], [('CallDtors/CallCopyCtors/CallMoveCtors', 'Collections/List.h'), ('Group::Clear/Remove', 'Collections/Dictionary.h')],
     NOTE + 'Every construction, copy, move, assignment and destruction of an element is an event checked against a registry of live addresses.', 'object-lifetime event monitor (address registry) plus ASan/LSan over random histories')

prop('C03', 'Passing a container one of its own elements is safe',
     'Passing a reference to an element, key or value that lives inside a container as the argument of a call on that same container has the same effect as passing a separate copy of it, even when the call relocates, shifts or removes that element. The same holds for moving a container that is owned by one of the elements into the container itself, which then holds exactly what the moved one held.',
     ['histories', 'inputs'], 'every container kind, every mutating call that takes an element, key or value by reference, every aliased position, at and away from reallocation',
     'No unit test passes an element of a container to the container itself.',
     ['Collections/List.h', 'Collections/Dictionary.h'], [('IsOwnedItem', 'Collections/List.h'), ('SetInternal/AddInternal', 'Collections/Dictionary.h')],
     NOTE + 'Moving an own element into its container leaves the moved-from slot unspecified and is checked for memory safety only.', MODEL)

prop('C04', 'Sorted lists stay sorted and keep every element',
     'After any history a sorted list contains exactly the elements added and not yet removed, in non-descending order; adding returns the position where the element now is, lookups find a position holding an equal element exactly when there is one, and removing takes away exactly one equal element. Copying a sorted list gives an equal independent list and leaves the original unchanged, and an element that cannot be ordered against a compared element is rejected without any change.',
     ['histories', 'inputs'], 'every history of add/remove/remove-at/remove-range/clear/copy/move calls, every total or weak order, duplicates included',
     'Unit tests insert a handful of distinct integers and strings; duplicates at every position, weak orders and unordered elements are not sampled.',
     ['Collections/List.h'], [('SortedList::IndexOfInternal', 'Collections/List.h'), ('SortedList::AddInternal', 'Collections/List.h')],
     NOTE + 'Which of several equal elements a lookup or removal picks is not constrained.', MODEL)

prop('C05', 'Dictionaries are faithful maps with keys in order',
     'After any history a dictionary maps each key to the value last stored under it and nothing else; keys are unique and ascending, keys and values correspond position by position, and iteration yields exactly these pairs in key order. Adding an existing key is rejected with an error and changes nothing, setting inserts or replaces, reading a missing key is rejected with an error, and removal reports whether the key was there; a key that cannot be ordered against a compared key is rejected without any change.',
     ['histories', 'inputs'], 'every history of add/set/get/remove/clear/move calls through every overload, every key and value type',
     'Unit tests store about ten fixed pairs; insertion in every relative key position combined with removal, overload choice and move-only types is not sampled.',
     ['Collections/Dictionary.h'], [('Dictionary::SetInternal/AddInternal', 'Collections/Dictionary.h'), ('Dictionary::Remove', 'Collections/Dictionary.h')], NOTE, MODEL)

prop('C06', 'Groups are faithful multimaps and join correctly',
     'After any history a group associates each key with exactly the values added under it and not yet removed, in insertion order, has no key without values, keeps keys ascending, and iterates all pairs in that order; every removal reports whether it removed something, and a key that cannot be ordered against a compared key is rejected without any change. Joining two groups visits each key of either group exactly once in ascending order, as matched with both value lists if both groups have the key and as discarded from its own group otherwise.',
     ['histories', 'inputs'], 'every history of add/remove-key/remove-value/clear/move calls, every pair of groups',
     'Unit tests use two or three keys; the interplay of removing the last value, several removals and joins of arbitrary key sets is not sampled.',
     ['Collections/Dictionary.h'], [('Group::AddInternal/Remove', 'Collections/Dictionary.h'), ('GroupInnerJoin', 'Collections/Dictionary.h')], NOTE, MODEL)

prop('C07', 'Out-of-range access is rejected and changes nothing',
     'Every call on arrays, lists, sorted lists, dictionaries, groups, strings, optional values, variants and lazy lists with an index, count, key or state the call does not admit (negative, past the end, overflowing, missing, duplicate, empty or of another type) raises an error, leaves every involved object exactly as it was, and never reads or writes outside it.',
     ['inputs', 'histories'], 'every inadmissible argument, including the extreme values of the index type, at every reachable state of the object',
     'Unit tests try an off-by-one index on a few calls; extreme values, overflowing index+count sums and the state after the error are not checked.',
     ['Collections/List.h', 'Collections/Dictionary.h', 'Strings/String.h', 'Primitives/Nullable.h', 'Primitives/Variant.h', 'Basic.h'], [('CHECK_ERROR', 'Basic.h')],
     NOTE + 'Negative Skip/Take counts and the append-only allocator are outside the claim (no documented check).', 'error-contract monitor (must raise, must not change state) under ASan+UBSan')

prop('C08', 'Enumerators obey one protocol on every collection',
     'For every collection and every lazily computed sequence, an enumerator starts before the first element with position -1, each successful step moves to the next element with the position increased by one, and stepping keeps failing once the end is reached. Resetting starts the same enumeration again from the beginning at any time, and a clone taken at any time continues independently from the same position without affecting, or being affected by, the original or its destruction.',
     ['histories', 'programs'], 'every interleaving of step, read, reset, clone and destroy calls on enumerators of every collection type and operator chain',
     'Unit tests consume enumerators front to back; reset and clone in the middle are tried on two or three operators only.',
     ['Collections/Interfaces.h', 'Collections/OperationEnumerable.h', 'Collections/OperationSequence.h', 'Collections/OperationWhere.h', 'Collections/OperationSelect.h', 'Collections/OperationConcat.h', 'Collections/OperationPair.h', 'Collections/OperationSet.h', 'Collections/List.h', 'Collections/Dictionary.h'],
     [('IEnumerator contract', 'Collections/Interfaces.h'), ('Clone/Reset of each enumerator', 'Collections/OperationSequence.h')], NOTE + 'The position reported after the end was reached is not constrained.', 'protocol monitor against a reference sequence, random interleavings of enumerator calls, under ASan+UBSan+LSan')

prop('C09', 'Lazy operators compute their mathematical result',
     'Every chain of sequence operators (map, filter, cast, order, concatenate, take, skip, repeat, distinct, reverse, pair up, intersect, except, union, flatten, group, evaluate, aggregate, all, any, max, min, first, last, count, empty, comparison, range loops with and without index) yields exactly the elements, in exactly the order, that the operator is defined to yield on the source sequence, for any source including empty ones, single elements and duplicates. Reductions of an empty sequence that need an element raise an error.',
     ['inputs', 'programs'], 'every finite source sequence and every chain of operators and arguments',
     'Unit tests apply each operator once to one fixed array; compositions, empty sources, duplicates and boundary counts are not sampled.',
     ['Collections/Operation.h', 'Collections/OperationSequence.h', 'Collections/OperationSet.h', 'Collections/OperationPair.h', 'Collections/OperationForEach.h', 'Collections/OperationEnumerable.h'],
     [('LazyList operators', 'Collections/Operation.h')], NOTE + 'Negative counts for take/skip/repeat are outside the claim; the order among elements equal under a sort key is not constrained.', MODEL)

prop('C10', 'Lazy sequences are lazy, repeatable and detachable',
     'Building a chain of map, filter, concatenate, take, skip, repeat, distinct and pairing operators calls no user callback; iterating it reads the source as it is at that moment, as often as wanted, with the same result each time, also through copies of the sequence, and taking the first n elements calls each callback for no element beyond those needed. A sequence that was evaluated calls no callback any more when iterated; the groups of a grouping are lazy in the same way. Evaluating with forced copying yields a sequence that no longer depends on the source or callbacks and survives their destruction and modification.',
     ['histories', 'programs'], 'every operator chain, every source modification between construction and iteration, every number of iterations',
     'Unit tests iterate each lazy list once and do not change or destroy the source.',
     ['Collections/Operation.h', 'Collections/OperationSelect.h', 'Collections/OperationWhere.h', 'Collections/OperationSequence.h'], [('LazyList::xs (clone per iteration)', 'Collections/Operation.h'), ('LazyList::Evaluate', 'Collections/Operation.h')],
     NOTE + 'Operators documented to consume their source when built (ordering, reversing, flattening) are excluded from the no-callback claim.', 'callback-event monitor and reference model over random operator chains, under ASan+UBSan+LSan')

prop('C11', 'Sorting permutes the elements into order',
     'Sorting any array with any consistent total or weak order ends, leaves exactly the original elements (each as often as before), places them in non-descending order, touches nothing outside the given range, and calls the comparer only with elements of that range. Elements that cannot be ordered are rejected with an error and no element is lost or duplicated.',
     ['inputs'], 'every array content and length, every comparer: already sorted, reversed, all equal, few distinct keys, organ-pipe and random inputs',
     'Unit tests sort four short fixed integer arrays.',
     ['Collections/Operation.h'], [('SortLambda', 'Collections/Operation.h')], NOTE + 'Stability and running time are not claimed.', 'permutation/order monitor with bounds-checked comparer arguments, under ASan+UBSan')

prop('C12', 'Partial ordering yields components in dependency order',
     'For every finite dependency graph, sorting it partitions the nodes into components such that two nodes share a component exactly when each is reachable from the other, every component comes after all components its nodes depend on, and every node appears exactly once. The per-node dependency information given back matches the input relation, and grouping nodes into classes gives the same result on the graph of classes.',
     ['inputs'], 'every finite directed graph (cycles, self-loops, isolated nodes, dense and sparse) through every way of supplying it',
     'Unit tests sort eight fixed graphs of at most fourteen nodes.',
     ['Collections/PartialOrdering.h', 'Collections/PartialOrdering.cpp'], [('PartialOrderingProcessorBase::Sort', 'Collections/PartialOrdering.cpp'), ('PartialOrderingProcessor::InitNodes', 'Collections/PartialOrdering.h')],
     NOTE + 'Graphs up to a few hundred nodes; the order among independent components is not constrained.', 'graph-oracle monitor (reachability closure) over random and structured graphs, under ASan+UBSan+LSan')

prop('C13', 'Copying between collections copies everything in order',
     'Copying any enumerable source (array, list, sorted list, dictionary, group, lazy sequence, raw range, string) into any target (array, list, sorted list, dictionary, group, string) makes the target hold exactly what its kind makes of the source elements in order, after the previous content when appending and instead of it otherwise. The source is left unchanged.',
     ['inputs', 'programs'], 'every pairing of source and target kind, every content and length including empty, append and replace',
     'Unit tests exercise one pair of contents for some pairings.',
     ['Collections/OperationCopyFrom.h', 'Collections/OperationString.h'], [('CopyFromAlgorithm', 'Collections/OperationCopyFrom.h')], NOTE + 'Copying a collection onto itself is outside the claim.', MODEL)

prop('C14', 'Block allocator and byte map never mix up objects',
     'The append-only allocator hands out distinct, stable, non-overlapping objects that stay retrievable by creation order for the life of the allocator, for every block size. The byte-keyed map returns for each of the 256 keys exactly the object last stored under it and nothing for keys never stored, also when several maps share one allocator.',
     ['histories', 'inputs'], 'every history of creations and stores, every block size, every key',
     'Unit tests fill the map in one order with one allocator.',
     ['Collections/List.h'], [('PushOnlyAllocator', 'Collections/List.h'), ('bom_helper::Accessor', 'Collections/List.h')], NOTE, MODEL)

prop('C15', 'A collection notifies its attached reference exactly once',
     'A reference attached to a collection is retrievable until the collection goes away, is told so exactly once at that moment and never earlier, regardless of how the collection was used, moved from or moved to in between. Attaching a second reference, or asking for the reference as a wrong type, is rejected with an error and leaves the first one attached.',
     ['histories'], 'every collection kind, every history of use, move, attach and destruction',
     'One unit test attaches one reference to one list.',
     ['Collections/Interfaces.h'], [('EnumerableBase', 'Collections/Interfaces.h')], NOTE, 'disposal-event monitor (exactly-once, not-before) over random histories')

prop('C16', 'Shared objects live exactly as long as they are referenced',
     'An object managed by shared pointers is destroyed exactly once, at the moment its last owner lets go, and never while any owner remains; every copy, move, assignment (also of a pointer to itself or to something the old object owns), reset, detach, cast and swap keeps this true. Casting shares ownership with the original and yields empty when the type does not match, empty pointers own nothing, and comparison of pointers agrees with identity of the objects.',
     ['histories', 'programs'], 'every history of pointer operations over every object graph, including object destructors that use pointers themselves',
     'Unit tests follow a few linear scripts with at most three pointers.',
     ['Primitives/Pointer.h'], [('Ptr::Inc/Dec', 'Primitives/Pointer.h'), ('Ptr assignment operators', 'Primitives/Pointer.h')], NOTE + 'The counter block leaked by the sole owner\'s detach is a listed known finding.', 'ownership-model monitor (live-object registry against owner counts) under ASan+LSan')

prop('C17', 'Shared pointers may be copied and released concurrently',
     'When several threads copy, move, assign and release their own pointers to the same objects, or take copies of a common pointer that nobody modifies meanwhile, without further locking, no data race occurs, every object is destroyed exactly once and only after the last release, and everything written to the object before a release is visible to its destructor.',
     ['schedules'], 'every interleaving of reference count updates of any number of threads, for shared and intrusive pointers',
     'The test suite is single-threaded.',
     ['Primitives/Pointer.h', 'Basic.h'], [('INCRC/DECRC', 'Basic.h')], NOTE + 'ThreadSanitizer sees the interleavings that occurred; intrusive pointers use a counter the harness supplies.', 'ThreadSanitizer and exactly-once destruction monitor under multi-threaded stress')

prop('C18', 'COM-style pointers release what they hold exactly once',
     'An object handed to a COM-style pointer is released exactly once, at the moment the last pointer sharing it lets go, and never while one remains; every copy, move, assignment (also of a pointer to itself, of a raw object, of nothing, or of a pointer owned by the old object) and destruction keeps this true. Comparison of such pointers agrees with identity of the objects.',
     ['histories'], 'every history of pointer operations, objects owning pointers to each other included',
     'The unit tests do not cover these pointers beyond compilation.',
     ['Primitives/Pointer.h'], [('ComPtr::Inc/Dec', 'Primitives/Pointer.h'), ('ComPtr assignment operators', 'Primitives/Pointer.h')], NOTE, 'release-event monitor against an ownership model, under ASan+LSan')

prop('C19', 'Strings are immutable values with correct contents',
     'Every string operation (construct, copy, move, append, concatenate, left, right, substring, insert, remove, find, length, index) of every character width returns exactly the text an ideal string would, and never changes the text of any other string, whatever buffers they share. Asking for the raw text always yields that text followed by a terminating zero, at any time and any number of times, and a moved-from string is empty.',
     ['histories', 'inputs'], 'every history of operations over strings sharing buffers, every cut position and length, all five character types',
     'Unit tests check each operation once on short literals; chains of substrings of substrings that share and later detach their buffers are not sampled.',
     ['Strings/String.h', 'Strings/String.cpp'], [('SubUnsafe/ReplaceUnsafe', 'Strings/String.h'), ('Buffer()', 'Strings/String.h')], NOTE + 'Text with embedded zero characters and unmanaged buffers that change or die are outside the claim.', MODEL)

prop('C20', 'Strings sharing a buffer may be used from different threads',
     'Threads that copy, cut, concatenate, compare, convert to raw text and destroy their own strings derived from common originals, or copy and cut a common string that nobody modifies meanwhile, cause no data race, always read the right text, and together free every shared buffer exactly once.',
     ['schedules'], 'every interleaving of operations of any number of threads on distinct string objects that share buffers',
     'The test suite is single-threaded.',
     ['Strings/String.h', 'Basic.h'], [('ObjectString::Inc/Dec', 'Strings/String.h')], NOTE + 'ThreadSanitizer sees the interleavings that occurred; using one and the same string object from two threads, other than copying and cutting it, is outside the claim.', 'ThreadSanitizer and content monitor under multi-threaded stress')

prop('C21', 'String comparison is a total order on the text',
     'Comparing strings, in every combination of managed strings and zero-terminated text on either side, depends only on their characters: it is the lexicographic order of the characters with a proper prefix ordered first, equality holds exactly for identical text, and all six relations agree with it regardless of how the strings were built or what buffers they share.',
     ['inputs'], 'every pair and triple of strings of every character type, including shared buffers, prefixes and empty strings',
     'Unit tests compare a handful of literals.',
     ['Strings/String.h'], [('operator<=>', 'Strings/String.h')], NOTE, MODEL)

prop('C22', 'Unicode conversions are lossless on valid text',
     'For every text of valid code points, converting between any two of UTF-8, UTF-16, UTF-16 big-endian, UTF-32 and wide strings yields exactly the standard encoding of that text in the target form, so converting there and back, along any route, gives the original. Single-character conversion and whole-string conversion agree.',
     ['inputs'], 'every sequence of Unicode scalar values, every pair of encodings',
     'Unit tests convert one fixed sentence and a few characters per length class.',
     ['Strings/Conversion.h', 'Strings/Conversion.cpp'], [('UtfConversion<T>', 'Strings/Conversion.cpp'), ('ConvertUtfString', 'Strings/Conversion.h')], NOTE + 'All 1,112,064 scalar values are covered one by one in each thorough run and by a rotating slice in each quick run.', 'differential monitor against an independent encoder, under ASan+UBSan')

prop('C23', 'Malformed Unicode input is handled safely',
     'For every sequence of code units, however malformed or truncated, decoding and converting terminate without touching memory outside the given text, produce only valid output, and stop at the first malformed character having converted exactly the valid text before it. No malformed sequence (stray or missing continuation, overlong form, surrogate, unpaired surrogate, impossible unit) is decoded as a character.',
     ['inputs'], 'every byte and code unit sequence: random, mutated valid text, truncated at every position, boundary code points',
     'Unit tests feed only well-formed text.',
     ['Strings/Conversion.h', 'Strings/Conversion.cpp'], [('UtfConversion<T>::To32', 'Strings/Conversion.cpp'), ('UtfTo32ReaderBase', 'Strings/Conversion.h')], NOTE + 'Code points above 10FFFF in the five and six byte forms of UTF-8 are accepted by design and wide/UTF-32 units pass through unvalidated; both are outside the claim.', 'differential monitor against an independent strict decoder with exact-size buffers, under ASan+UBSan')

prop('C24', 'Streaming conversion reports consistent positions',
     'While a streaming Unicode reader runs over valid text, the reported reading position counts the units it has returned, and the reported source ranges start at the beginning of the source, follow each other without gap or overlap, each hold exactly the source units of the character being returned, and end at the end of the source. Reading past the end keeps returning zero.',
     ['inputs'], 'every valid text, every pair of encodings, zero-terminated and bounded sources',
     'Unit tests follow one fixed text.',
     ['Strings/Conversion.h'], [('UtfFrom32ReaderBase/UtfTo32ReaderBase', 'Strings/Conversion.h'), ('Utf32DirectReaderBase', 'Strings/Conversion.h')], NOTE, 'online trace monitor (tiling of source ranges) against an independent encoder')

prop('C25', 'Number and text conversions agree in both directions',
     'Every integer of every supported width formats to its canonical decimal text and parses back to itself; parsing reports success exactly for the canonical decimal text of an in-range number and otherwise fails (giving zero in the variants without a report). Narrow and wide variants agree, and floating point parsing accepts exactly complete numerals with the value the standard library gives.',
     ['inputs'], 'every integer and every input text: signs, leading zeros and spaces, trailing garbage, empty text, overflow boundaries',
     'Unit tests try a dozen literals per function.',
     ['Strings/String.cpp', 'Strings/String.h'], [('atoi_test and relatives', 'Strings/String.cpp'), ('itoa and relatives', 'Strings/String.cpp')], NOTE + 'Formatting precision of floating point numbers below six decimals is outside the claim.', 'differential monitor against an independent formatter and parser, under ASan+UBSan')

prop('C26', 'Case and narrow-wide conversions preserve text',
     'Changing case maps every letter to its counterpart and leaves every other character and the length unchanged, without altering the source string or strings sharing its buffer; applying it twice changes nothing more. Converting narrow to wide text and back returns the original for every text representable in the current locale.',
     ['inputs', 'configurations'], 'every text in every available locale, including substrings that share buffers',
     'Unit tests convert two ASCII literals.',
     ['Strings/String.cpp', 'Strings/Conversion.Linux.cpp', 'Strings/Conversion.cpp'], [('alower/aupper/wlower/wupper', 'Strings/String.cpp'), ('atow/wtoa', 'Strings/Conversion.cpp')], NOTE, 'differential monitor against the C library per character, under ASan+UBSan')

prop('C27', 'Callables invoke their target faithfully',
     'A callable made from a function, lambda, function object, bound method or another callable passes each call through to that target exactly once with the same arguments and returns its result, whether copied, moved, assigned or wrapped in another callable; all copies share the one captured state, which is destroyed exactly once after the last copy is gone. Callables compare equal exactly when they share a target made by the same construction, and emptiness is reported faithfully, also through copies, moves and wrapping.',
     ['histories', 'programs'], 'every kind of target, argument category and arity, every history of copy, move, assign and call',
     'Unit tests call each form once.',
     ['Primitives/Function.h'], [('internal_invokers', 'Primitives/Function.h')], NOTE, 'call-event and lifetime monitor under ASan+LSan')

prop('C28', 'Events call each attached handler exactly once',
     'Raising an event calls every handler attached at that moment exactly once with the raised arguments, a handler is never called once it was detached, be it by another handler of the ongoing call, and attaching or detaching handlers (or raising again) from inside a handler does not skip, repeat or corrupt anything of the ongoing call. Detaching works exactly once per attachment and reports whether it did.',
     ['histories'], 'every history of attach, detach and raise, nested inside handlers or not, every argument type',
     'Unit tests attach and raise two handlers with integers.',
     ['Primitives/Event.h'], [('Event<void(TArgs...)>', 'Primitives/Event.h')], NOTE + 'The order of handlers is not constrained; whether a handler attached during the ongoing call receives it is not constrained.', 'delivery monitor (exactly-once per raise) over random nested histories, under ASan+LSan')

prop('C29', 'Optional values hold exactly the last assigned value',
     'An optional value reports a value exactly when one was last assigned and then returns precisely that value; copies are independent, moving transfers the value, clearing destroys it, and each contained object is constructed and destroyed exactly once. Comparison treats the empty state as smallest and otherwise compares the values.',
     ['histories'], 'every history of construct, copy, move, assign, clear and compare, every element type including types without default construction, copy, or with references inside',
     'Unit tests check a few states with plain types.',
     ['Primitives/Nullable.h'], [('Nullable<T>', 'Primitives/Nullable.h')], NOTE, 'reference-model and object-lifetime monitor under ASan+UBSan+LSan')

prop('C30', 'Variants hold exactly the last assigned alternative',
     'A variant always holds exactly one alternative, the one last assigned, with precisely its value and properly aligned; index queries, typed access, optional access and every form of visiting agree on it, access as another alternative is refused, and each contained object is constructed and destroyed exactly once across copy, move, assignment and replacement.',
     ['histories'], 'every history of construct, copy, move, assign and visit over every set of alternatives, including move-only, over-aligned and over-sized ones',
     'Unit tests check assignments between a few plain alternatives.',
     ['Primitives/Variant.h'], [('variant_internal', 'Primitives/Variant.h')], NOTE + 'Assigning a variant from a part of its own current alternative is outside the claim.', 'reference-model and object-lifetime monitor under ASan+UBSan+LSan')

prop('C31', 'Tuples and pairs keep their elements and order correctly',
     'A tuple or pair returns each element as stored, through indexed access, structured binding and conversion, with references referring to the original objects and copies and moves acting on every element exactly once. Comparison is lexicographic by element, equality is element-wise, and both agree.',
     ['inputs', 'programs'], 'every arity and element type, every combination of values and of value, reference and const forms',
     'Unit tests compare a few small tuples of integers and strings.',
     ['Primitives/Tuple.h', 'Collections/Pair.h', 'Basic.h'], [('Tuple operator<=>', 'Primitives/Tuple.h'), ('Pair operator<=>', 'Collections/Pair.h')], NOTE, MODEL)

prop('C32', 'Date and time values are calendar-correct and consistent',
     'A date built from its fields reports those fields with the right weekday (out-of-range fields normalised as the calendar prescribes), converts to its instant and back unchanged, moves forward and backward by exactly the given milliseconds, is ordered by instant, and converts between local and universal time by exactly the time zone offset in force, daylight saving included. This holds in every time zone and when several threads convert at once, and an injected clock is used for everything until it is removed.',
     ['inputs', 'configurations', 'schedules'], 'every date from 1970 to 2199 with milliseconds from 0 to 999, every offset, fixed and daylight-saving time zones, any number of threads',
     'Unit tests convert a few dates in whatever time zone the machine has.',
     ['Primitives/DateTime.h', 'Primitives/DateTime.cpp', 'Primitives/DateTime.Linux.cpp'], [('LinuxDateTimeImpl', 'Primitives/DateTime.Linux.cpp'), ('InjectDateTimeImpl', 'Primitives/DateTime.cpp')], NOTE + 'Within a day of a daylight-saving switch local times can be ambiguous; those are outside the claim.', 'differential monitor against an independent calendar over random dates and POSIX time zones, under ASan and ThreadSanitizer')

prop('C33', 'Global resources initialise once and finalise once',
     'A registered global resource is initialised exactly once on first use, finalised exactly once by the global finalisation or at program exit and never before it was initialised, and can be used again afterwards with a fresh initialisation. Global finalisation reaches every initialised resource and no other, in registration order, however many there are and however often it is called.',
     ['histories'], 'every history of use, finalisation and re-use over any number of resources, including resources that use each other',
     'One unit test uses one resource once.',
     ['GlobalStorage.h', 'GlobalStorage.cpp'], [('RegisterStorageDescriptor/FinalizeGlobalStorage', 'GlobalStorage.cpp'), ('EnsureInitialized/EnsureFinalized', 'GlobalStorage.cpp')], NOTE, 'lifecycle-event monitor over random histories')

prop('C34', 'The test framework reports exactly what happened',
     'For every tree of test files, categories and cases, running it executes each selected file, category and case exactly once in order, counts as passed exactly the cases whose bodies finish without a failed assertion, expected-error mismatch or escaped exception, marks a file failed exactly when something in it failed, continues after failures when they are suppressed, and returns success exactly when everything passed. File selection and invalid options behave as documented, and misplaced assertions, cases or categories count as failures.',
     ['programs', 'inputs'], 'every test tree, every way a case can fail, every combination of command line options',
     'The framework is used by the tests but not tested on failing cases.',
     ['UnitTest/UnitTest.h', 'UnitTest/UnitTest.cpp'], [('RunCategoryOrCase', 'UnitTest/UnitTest.cpp'), ('RunAndDisposeTests', 'UnitTest/UnitTest.cpp')], NOTE, 'verdict monitor over generated test trees (execution log, printed counts and exit code against a reference)')

prop('C35', 'Console output and input carry text unchanged',
     'Text written to the console arrives complete, in order, with exactly the given characters, each line write adding one line break, interleaved correctly with colour changes that each select exactly the requested colour and brightness; reading returns each input line without its terminator.',
     ['inputs', 'histories'], 'every sequence of writes of every length and of reads over every input text',
     'Unit tests do not look at console output.',
     ['Console.h', 'Console.cpp', 'Console.Linux.cpp'], [('Console::Write', 'Console.Linux.cpp')], NOTE + 'Runs in forked children with redirected streams; only characters the locale can represent.', 'byte-exact output monitor over forked executions')

prop('C36', 'Placeholder text is well-formed and close to its length',
     'Generated placeholder text consists of words of lower case letters (one of which carries a semicolon) separated by single spaces, capitalised as requested, ends at the word boundary nearest to the requested length, and continues the word sequence where the previous text stopped; titles, sentences and paragraphs follow the same rules with their capitalisation and punctuation. Any requested length, zero or negative included, is handled without touching memory outside the result.',
     ['inputs', 'histories'], 'every requested length and casing, every history of calls',
     'Unit tests print samples without checking them.',
     ['Strings/LoremIpsum.h', 'Strings/LoremIpsum.cpp'], [('LoremIpsum', 'Strings/LoremIpsum.cpp')], NOTE, 'text-grammar and length monitor, under ASan+UBSan')

prop('C37', 'Unmodified objects may be read by many threads at once',
     'Any number of threads may at the same time read the same containers, lazy sequences, strings, optional values, variants, tuples, functions, events and sorted partial orders that nobody modifies meanwhile (look up, search, loop, enumerate, query, copy, compare, call, raise): there is no data race and every thread sees exactly the contents.',
     ['schedules', 'histories'], 'every interleaving of const operations of any number of threads on common objects of every kind and element type',
     'The test suite is single-threaded.',
     ['Collections/List.h', 'Collections/Dictionary.h', 'Collections/Operation.h', 'Collections/OperationEnumerable.h', 'Primitives/Variant.h', 'Primitives/Function.h', 'Primitives/Event.h', 'Strings/String.h'],
     [('const members of the containers', 'Collections/List.h'), ('LazyList::CreateEnumerator', 'Collections/Operation.h')], NOTE + 'ThreadSanitizer sees the interleavings that occurred. Asking one and the same string object for its raw text (which converts, parses or prepares it) from two threads is outside the claim.', 'ThreadSanitizer and content monitor while several threads read the same objects')

prop('C38', 'Threads working on their own objects never interfere',
     'Threads that each use containers, sequences, sorting, partial ordering, allocators, strings, number, case and encoding conversions, dates, functions, events, optional values and variants of their own, sharing no object, get the same results as if they ran alone and cause no data race: no such call keeps or changes state that other threads see.',
     ['schedules', 'histories', 'programs'], 'every interleaving of calls of any number of threads that share no object, every mix of library calls',
     'The test suite is single-threaded.',
     ['Strings/String.cpp', 'Strings/Conversion.cpp', 'Strings/Conversion.Linux.cpp', 'Primitives/DateTime.Linux.cpp', 'Collections/List.h', 'Collections/Operation.h', 'Collections/PartialOrdering.cpp', 'Primitives/Function.h'],
     [('itoa/itow and the other conversions', 'Strings/String.cpp'), ('UtfReaderBase', 'Strings/Conversion.h')], NOTE + 'ThreadSanitizer sees the interleavings that occurred. The console, the unit test framework, global storage and the placeholder text generator are one per process by design and outside the claim.', 'ThreadSanitizer and result monitor while several threads run independent jobs')

prop('C39', 'Errors raised in callbacks reach the caller and damage nothing',
     'When a callback given to a sequence operator, a callable, an event or a variant throws, the caller of the operation that ran it receives exactly that exception: its type, and an Error, Exception or ArgumentException with the description, message, function and name it was created with, also after copying, slicing and rethrowing it. Nothing is leaked or destroyed twice, the sources keep their elements, a list being copied into holds its old elements followed by a prefix of the new ones, and the same sequences, callables, events and variants give their full result once the callback no longer fails.',
     ['inputs', 'histories', 'faults'], 'every callback, every call of it at which it throws, every kind of exception, every chain of operators and way of consuming it',
     'The tests hardly ever let a callback fail, and never look at what is left behind.',
     ['Exception.cpp', 'Basic.h', 'Collections/Operation.h', 'Collections/OperationSelect.h', 'Collections/OperationWhere.h', 'Collections/OperationForEach.h', 'Collections/OperationCopyFrom.h', 'Primitives/Function.h', 'Primitives/Event.h', 'Primitives/Variant.h'],
     [('ArgumentException', 'Exception.h'), ('LazyList', 'Collections/Operation.h')], NOTE + 'Elements whose own construction, copying or comparison throws are outside the claim, as the containers document no guarantee for them.', 'fault injection into callbacks with exception, lifetime and content monitors')

prop('C40', 'Costs grow no faster than the data structures promise',
     'Appending to a list and taking away at its end move each element a bounded number of times on average, and removing or inserting inside it moves at most a bounded multiple of the elements present. Every look-up, insertion, replacement and removal in a sorted list, dictionary or group compares keys a logarithmic number of times; sorting randomly ordered elements and the ordering and set operators compare in total in the order of n log n. Moving a container, and copying a string, a part of a string, a shared pointer, a callable or a lazy sequence, copies none of the elements or text behind it and allocates no memory in proportion to them; looping over a collection or a streaming lazy sequence needs constant memory and a bounded number of element copies per step, and every sequence operator reads its sources a bounded number of times in one pass.',
     ['inputs', 'histories'], 'every size, order of insertion and position',
     'A unit test sees the right result whatever it cost; a quadratic append or a linear look-up passes every test and fails in production.',
     ['Collections/List.h', 'Collections/Dictionary.h', 'Collections/Operation.h', 'Collections/OperationSet.h', 'Collections/OperationSequence.h', 'Strings/String.h', 'Primitives/Pointer.h', 'Primitives/Function.h'],
     [('InsertUninitializedItems', 'Collections/List.h'), ('IndexOfInternal', 'Collections/List.h'), ('SortLambda', 'Collections/Operation.h')], NOTE + 'Counts of element operations and allocated bytes are judged against bounds with a generous constant factor; running time is not measured. Sorting is only bounded for random order, as quick sort is quadratic on sorted input.', 'cost monitor: instrumented elements and allocator hooks while the containers are used at many sizes')
