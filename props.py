DEFAULTS = dict(
    modes=['asan'], shards=8, limit={'quick': 500, 'thorough': 5000}, cases={'quick': 4000, 'thorough': 100000},
    rule='a case is non-trivial when its scenario reached the state the property talks about (see the scenario); histories are counted distinct by the hash of the sequence of (operation, resulting state) pairs',
)
PROPS = {}


def P(pid, src, quick, thorough, rule, **kw):
    PROPS[pid] = dict(src=src if isinstance(src, list) else [src], cases={'quick': quick, 'thorough': thorough}, rule=rule, **kw)


P('C01', 'c01.cpp:6', 12000, 200000,
  'one case = one history of up to 120 calls on a List or 60 on an Array of one of ten element types (one in 15 with up to 4,100 elements, some with 5,000 to 132,000 plain ones); non-trivial once the container held at least 3 (List) or 2 (Array) elements; distinct by the hash of the (operation, resulting length) sequence',
  required=['state_comparisons', 'giant_comparisons'])
P('C02', 'c02.cpp:7', 18000, 150000,
  'one case = one history of up to 90 mutations of a list, array, sorted list, dictionary, group or nested container of instrumented elements; non-trivial once elements were held; distinct by the hash of the (operation, size) sequence',
  required=['element_ctor_events', 'element_move_events', 'state_comparisons', 'aligned_states'])
P('C04', 'c04.cpp:5', 24000, 200000,
  'one case = one history of up to 120 calls on a SortedList of one of eight element types (or of doubles with NaN, or up to 132,000 integers); non-trivial once it held several elements; distinct by the hash of the (operation, size) sequence',
  required=['state_comparisons', 'unordered_rejections', 'giant_comparisons'])
P('C05', 'c05.cpp:5', 18000, 150000,
  'one case = one history of up to 120 calls on a Dictionary of one of eight key/value type pairs (some with up to 132,000 entries); non-trivial once it held 2 pairs; distinct by the hash of the (operation, key present, size) sequence',
  required=['state_comparisons', 'duplicate_keys_rejected', 'giant_comparisons', 'unordered_rejections'])
P('C06', 'c06.cpp:5', 18000, 150000,
  'one case = one history of up to 120 calls on a Group of one of six key/value type pairs (some with up to 132,000 values), or one join of two random groups; non-trivial once 2 pairs were held (join: both groups non-empty); distinct by the hash of the history',
  required=['state_comparisons', 'join_events', 'giant_comparisons', 'unordered_rejections'])
P('C03', 'c03.cpp:8', 36000, 400000,
  'one case = up to 30 calls that each pass a reference to an element, key or value of the container to the container itself, or up to 6 replacements of a container by a container that one of its own elements owns; distinct by the hash of (operation, aliased position, size) sequence',
  required=['aliased_calls', 'aliased_moves', 'keys_as_values', 'nested_replacements', 'nested_inserts'])
P('C07', 'c07.cpp:5', 30000, 300000,
  'one case = up to 40 inadmissible calls (extreme, negative, past-the-end, overflowing, missing, duplicate, empty) on objects in a random state, each followed by a comparison of every involved object; distinct by the hash of (call, size) sequence',
  required=['rejections', 'state_comparisons'])
P('C09', 'c09.cpp:5', 24000, 300000,
  'one case = one random chain of up to 5 nested operators over random sources, iterated, reduced, looped and compared, one chain over up to 6,000 elements, or all reductions and cuts of a sequence whose length lies around a power of two; non-trivial when the result is not empty; distinct by the hash of chain text and result',
  required=['chains', 'nonempty_reductions', 'empty_reductions', 'long_chains', 'unordered_results', 'lengths'])
P('C08', 'c08.cpp:5', 24000, 300000,
  'one case = one random interleaving of up to 80 next/read/reset/clone/destroy/create calls over up to 6 live enumerators of one collection or operator chain; non-trivial when the sequence has elements; distinct by the hash of chain text and call history',
  required=['clones_in_the_middle', 'clones_of_ended', 'resets_in_the_middle', 'resets_after_end', 'sequences_dropped'])
P('C10', 'c10.cpp:3', 24000, 300000,
  'one case = one lazy operator chain over containers that change between up to 7 iterations, iterated through copies and frozen by forced evaluation, or one prefix of a chain with its minimal source prefix; non-trivial when elements were produced; distinct by the hash of chain text and results',
  required=['source_changes', 'detached_checked', 'evaluated', 'groups_followed', 'prefix_checks', 'callback_events', 'evaluated_operands'])
P('C11', 'c11.cpp', 36000, 500000,
  'one case = one array of up to 2,500 elements in one of ten shapes sorted in one of six ways inside guard elements, or one of 2,500 to 90,000 random elements; non-trivial with at least 2 elements; distinct by the hash of way and content',
  required=['comparer_calls', 'unordered_rejections', 'comparer_errors', 'large_sorts'])
P('C12', 'c12.cpp', 36000, 500000,
  'one case = one directed graph of one of nine families with up to 700 nodes, supplied as group, function or class graph over one of four item lists, or one of 700 to 9,000 nodes; non-trivial with at least 2 nodes; distinct by the hash of way and edge list',
  required=['graphs_with_cycles', 'class_graphs', 'components_checked', 'large_graphs'])
P('C13', 'c13.cpp:4', 30000, 400000,
  'one case = one copy between one of nine kinds of source and three kinds of target (values), six and three (pairs) or seven pairings with strings, with previous content in the target, or one copy of about 32,768 to 70,000 elements; non-trivial when the source is not empty; distinct by the hash of pairing and content',
  required=['appends', 'empty_sources', 'pair_copies', 'string_copies', 'long_copies'])
P('C14', 'c14.cpp', 18000, 150000,
  'one case = one allocator of a random block size filled with up to several blocks of objects, or one history of stores over up to four byte maps sharing one allocator with all 256 keys compared; non-trivial when more than one block or any store was made; distinct by the hash of the history',
  required=['many_blocks', 'multi_block', 'keys_compared', 'objects_created'])
P('C15', 'c15.cpp', 18000, 200000,
  'one case = one history of up to 30 attach/use/transfer/destroy calls on four collections of one kind, or one move construction; non-trivial when a collection with an attached reference was destroyed; distinct by the hash of the call sequence',
  required=['dispose_events', 'second_refused', 'wrong_type_refused', 'move_constructions'])
P('C16', 'c16.cpp', 30000, 300000,
  'one case = one history of up to 120 pointer operations over 25 typed pointers, object links and a list of pointers into a class hierarchy with virtual bases (optionally with destructors that change pointers themselves), or a chain, intrusive or detach case, or one object with 20 to 140,000 owners; non-trivial once objects were created and destroyed; distinct by the hash of (operation, objects involved)',
  required=['states_compared', 'casts_matching', 'casts_empty', 'head_next', 'reentrant_destructors', 'detached', 'detached_alone', 'crowds', 'flat_states'])
P('C18', 'c18.cpp', 24000, 300000,
  'one case = one history of up to 90 operations over seven COM-style pointers, a list of them and links between objects (optionally with releases that change pointers themselves), or one object shared by 20 to 140,000 pointers; non-trivial once three objects existed; distinct by the hash of the operation sequence',
  required=['release_events', 'second_handover', 'head_next', 'reentrant_releases', 'crowds'])
THREADS = dict(modes=['tsan', 'asan'], shards=4, assumptions=['ThreadSanitizer judges the interleavings that occurred; their number is reported as distinct histories'])
P('C17', 'c17.cpp', {'tsan': 4500, 'asan': 4500}, {'tsan': 40000, 'asan': 40000},
  'one case = two to six threads copying, moving, casting, exchanging and releasing pointers to up to three objects; non-trivial when more context switches than threads were observed; distinct by the recorded order in which the threads\' operations took effect (the interleaving)',
  required=['context_switches', 'objects', 'common_rounds'], **THREADS)
P('C20', 'c20.cpp', {'tsan': 3600, 'asan': 3600}, {'tsan': 30000, 'asan': 30000},
  'one case = two to six threads copying, cutting, joining, comparing, exchanging and destroying their own strings derived from common originals; non-trivial when more context switches than threads were observed; distinct by the recorded interleaving',
  required=['context_switches', 'runs', 'common_rounds'], **THREADS)
P('C19', 'c19.cpp', 24000, 250000,
  'one case = one history of up to 80 operations over six strings (rarely of up to 200,000 characters) of one character type that share buffers (or every cut of one short string, or 20 to 140,000 strings sharing one buffer); after each operation every string is compared with its model; non-trivial once a text was longer than 5; distinct by the hash of the (operation, length) sequence',
  required=['long_texts', 'states_compared', 'raw_text_checked', 'moves', 'casts', 'cuts_of_cuts', 'giant_histories', 'crowds'])
P('C21', 'c21.cpp', 30000, 400000,
  'one case = up to six related texts built in different ways, all pairs compared in all forms (string or zero-terminated text on either side) and used as keys; non-trivial when some pair differs; distinct by the hash of texts and outcomes',
  required=['comparisons', 'shared_buffers', 'prefix_pairs', 'equal_pairs'])
P('C22', 'c22.cpp', 16500, 150000,
  'one case = one text of up to 30 (rarely 40,000) code points converted between all pairs of forms (strings, readers or raw buffers), or one block of 1024 consecutive code points encoded and decoded one by one; the 1088 blocks of one run cover all 1,112,063 non-zero scalar values; distinct by the hash of the text or block',
  required=['single_characters', 'string_conversions', 'reader_conversions', 'buffer_conversions', 'blocks_swept'])
P('C23', 'c23.cpp', 24000, 300000,
  'one case = one mutated text in one form converted to all others, a few mutated characters decoded at every length, or one block of an exhaustive sweep over leading units; non-trivial when malformed input was met; distinct by the hash of the input units',
  required=['malformed_rejected', 'valid_decoded', 'stopped_in_the_middle', 'stopped_at_once', 'blocks_swept'])
P('C24', 'c24.cpp', 6000, 60000,
  'one case = one text of up to 24 (rarely some thousand) code points followed unit by unit through four kinds of reader for all 25 pairs of forms; non-trivial when not empty; distinct by the hash of the text',
  required=['very_long_texts', 'units_followed', 'ends_reached'])
P('C25', 'c25.cpp', 24000, 400000,
  'one case = a dozen integers formatted and parsed back, texts parsed by all integer parsers, numerals parsed as floating point numbers, or numbers formatted; non-trivial when the text is not empty; distinct by the hash of the texts',
  required=['integers_formatted', 'accepted_texts', 'refused_texts', 'floats_accepted', 'floats_refused', 'floats_formatted'])
P('C26', 'c26.cpp', 18000, 200000,
  'one case = one text whose case is changed in both directions or which is converted between narrow and wide form, in the C or the C.UTF-8 locale, or one block of 4096 consecutive characters; non-trivial when something changed or was converted; distinct by the hash of the text',
  required=['texts_changed', 'blocks_swept', 'round_trips'])
P('C27', 'c27.cpp', 18000, 200000,
  'one case = one history of up to 60 constructions, copies, moves, wrappings, resets and calls over eight callables of two signatures, or one callable wrapped 1 to 600 times and copied 1 to 90,000 times, or one pass over all argument and result categories with random values; non-trivial once a call was made; distinct by the hash of the (operation, target) sequence',
  required=['calls', 'shared_state_calls', 'wrapped', 'empty_wrapped', 'category_calls', 'states_compared', 'deep_calls'])
P('C28', 'c28.cpp', 30000, 400000,
  'one case = one history of up to 30 attach, detach and raise calls over two events, with handlers that attach, detach and raise themselves up to depth 3; non-trivial when a raise reached at least two handlers; distinct by the hash of the (operation, handler) sequence',
  required=['deliveries', 'nested_raises', 'detached_inside', 'detach_refused', 'references', 'simple', 'same_function_raises', 'deliveries_after_detach'])
P('C29', 'c29.cpp', 36000, 400000,
  'one case = one history of up to 40 construct, copy, move, assign and clear calls over five optionals of one of ten element types, all compared after each; non-trivial once a value was held; distinct by the hash of the (operation, slot, value) sequence',
  required=['states_compared', 'comparisons', 'moves', 'replaced', 'self_assigned', 'own_value', 'own_content', 'others'])
P('C30', 'c30.cpp:5', 30000, 300000,
  'one case = one history of up to 25 construct, assign, copy, move, set and in-place calls over four variants of one of eight sets of alternatives, all forms of access and visiting compared after each; distinct by the hash of the (operation, alternative, value) sequence',
  required=['states_compared', 'refused', 'same_alternative', 'other_alternative', 'copied', 'moved', 'own_content', 'others'])
P('C31', 'c31.cpp:4', 30000, 300000,
  'one case = one history of up to 30 construct, copy, move, assign and structured-binding calls over four tuples or pairs of one of sixteen types, all elements, places and comparisons checked after each, or one pass over references, conversions, orderings (NaN and weak orders included) or containers with random values; distinct by the hash of the operation sequence and values',
  required=['states_compared', 'comparisons', 'equal_tuples', 'bindings', 'moved', 'self_assigned', 'references', 'conversions', 'orderings', 'unordered', 'containers'])
P('C32', 'c32.cpp', {'tsan': 1800, 'asan': 12000}, {'tsan': 20000, 'asan': 200000},
  'one case = six random dates (or 60 consecutive days, or the system clock, or several threads converting dates at once, or one history of injected clocks) in one random POSIX time zone, fixed or with random daylight-saving rules; distinct by the hash of the zone, dates and thread interleaving',
  required=['dates', 'daylight_saving_dates', 'normalised', 'to_utc_and_back', 'to_local', 'moved', 'moved_across_a_switch', 'consecutive_days', 'clocks_read', 'threads_dates', 'injected_calls', 'restored'], **THREADS)
P('C33', 'c33.cpp', 4800, 40000,
  'one case = one forked program with one history of up to 40 uses, direct and global finalisations and re-uses over up to 300 resources, some of which use each other while being initialised or finalised, ending with program exit; distinct by the hash of the history',
  required=['executions', 'events', 'global_finalisations', 'finalised_at_exit', 'used_again', 'nested_uses', 'finalisers_using_others', 'many_resources', 'nested_finalisations'])
P('C34', 'c34.cpp', 4800, 40000,
  'one case = one forked test program with up to six (sometimes ninety) files of generated categories, some with hundreds of cases,, cases and failures under one combination of options; execution log, printed report, counts and result compared with a reference interpreter; non-trivial when the tree is not empty; distinct by the hash of tree and options',
  required=['programs', 'steps', 'cases_run', 'suppressed_failures', 'escaped_failures', 'files_skipped', 'invalid_options', 'passing_programs', 'failing_programs', 'outside', 'programs_of_many_files', 'crowded_categories'])
P('C35', 'c35.cpp', 4800, 40000,
  'one case = one forked program making up to 25 (in long sessions 1,500) writes and colour changes (to a file or through a pipe) or reading up to 14 (in long sessions 1,500) lines, ASCII or any Unicode text of up to 100,000 characters, compared byte by byte; non-trivial when some text is not empty; distinct by the hash of calls and lengths',
  required=['executions', 'texts_written', 'lines_written', 'long_texts', 'colours', 'through_a_pipe', 'lines_read', 'unterminated_last_lines', 'embedded_zeros', 'long_sessions'])
P('C36', 'c36.cpp', 4800, 40000,
  'one case = one forked program making up to 25 calls of all five generators with lengths from -10^12 to 60,000, or 60 calls with consecutive lengths; every word, separator, length and the continuation of the word sequence checked; distinct by the hash of the calls',
  required=['texts', 'ended_short', 'ended_long', 'ended_exactly', 'paragraphs', 'short_paragraphs', 'sentences_in_paragraphs', 'clauses_in_paragraphs', 'first_texts'])
P('C37', 'c37.cpp:3', {'tsan': 3000, 'asan': 1500}, {'tsan': 30000, 'asan': 15000},
  'one case = two to six threads reading the same containers, sequences or values, which nobody modifies, through every const operation, copying and iterating them; non-trivial when more context switches than threads were observed; distinct by the recorded interleaving',
  required=['context_switches', 'read_runs', 'reads'], **THREADS)
P('C38', 'c38.cpp:2', {'tsan': 2400, 'asan': 1200}, {'tsan': 24000, 'asan': 12000},
  'one case = two to six threads each running up to 40 jobs (numbers, letter case, encodings, texts, dates, lists, maps, queries, sorting, values, allocators) on objects of their own, each job checked against a model; non-trivial when more context switches than threads were observed; distinct by the recorded interleaving',
  required=['context_switches', 'job_runs', 'jobs'], **THREADS)
P('C39', 'c39.cpp:3', 24000, 240000,
  'one case = one chain of up to six lazy operators consumed up to seven times in one of twenty ways while a callback throws one of six kinds of exception at a random call, or up to twelve failing calls of callables, events and variants, or one history of copying and rethrowing exceptions; non-trivial when the sequence has elements; distinct by the hash of the (operators, failing call) sequence',
  required=['errors_delivered', 'sequences_failed', 'failed_twice', 'callers_failed', 'exception_copies'])
P('C40', 'c40.cpp', 5000, 50000,
  'one case = one container, sort, sequence, string or handle of a size up to 60,000 used in one of nine ways while instrumented elements, sources and allocator hooks count moves, comparisons, steps and bytes; non-trivial above 500 elements (300 when counting steps); distinct by the hash of the sizes and values',
  required=['measurements', 'appends', 'range_operations', 'moved_containers', 'lookups', 'sorted', 'set_operations', 'walks', 'passes', 'duplicate_keys', 'texts', 'conversions', 'handle_copies'])
