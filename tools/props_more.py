KDNOTE = TB + 'Koda itself (C++) cannot be built here: the storage code runs on a stand-in for the kd API (shims/minikd) validated by running the repository\'s own storage tests on it. '
BAGF = ['py/koladata/ext/storage/data_bag_manager.py']
prop('C10', 'A failed or crashed bag-store write is all-or-nothing',
     'Whatever file-system operation fails, tears a write or is the last before a crash during create, add, branch or extract, every bag committed earlier is still loadable with its exact content and dependencies, and a fresh manager sees either none or all of the bags of the interrupted call. A call that returned normally is durable, a call that raised because of bad arguments changed nothing, and after an interruption the same call made through a fresh manager succeeds (or reports the directory as already populated when the interrupted call took effect).',
     ['crash_points', 'fault_sequences', 'histories'], 'every file-system interaction of every call in the generated histories, in five failure modes (before, after, torn, crash, crash after)',
     'The runnable tests do not execute the store; its own tests never inject faults.',
     BAGF, ['bags are written before the metadata that names them', 'metadata files are written once, under a fresh number, and never overwritten'],
     'TLA+ bag-store specification with crash outcomes; TLC-generated histories replayed with a fault at every interaction; TLC trace validation',
     KDNOTE, state=[('metadata', 'bag names, dependencies and files', 'DataBagManager')], level='fault_injection')
prop('C11', 'Concurrent users of one bag store never lose or mix bags',
     'When several managers of one directory add bags at the same time, in every interleaving of their file-system operations at most one of the calls that started from the same state succeeds and the others fail without effect; nothing committed is lost or overwritten and bag names stay unique. Concurrent creators of a directory never both succeed, and readers, branchers and extractors running meanwhile see a state that some sequential order explains.',
     ['schedules', 'histories'], 'all interleavings (up to a preemption bound, then sampled) of the file-system interactions of two or three managers',
     'No test runs two managers concurrently.',
     BAGF, ['write-if-absent of the numbered metadata file'],
     'TLA+ specification; real managers gated at each file-system interaction by a deterministic scheduler; linearizability of histories decided by TLC',
     KDNOTE)
prop('C12', 'Loading returns exactly the dependency closure in add order',
     'Loading a set of bags makes available exactly those bags, everything they transitively depend on and, if asked, everything that transitively depends on them; the minimal bag for a set merges exactly the same closure. Where bags disagree, the later-added bag wins; the canonical order of bag names is their add order and unknown names are rejected without effect.',
     ['inputs', 'histories'], 'all dependency DAGs on four bags with every requested subset, with and without dependents, plus random larger stores',
     'Tests load from two or three fixed dependency graphs.',
     BAGF, ['transitive closure over dependencies and reverse dependencies', 'update bags merged in canonical order'],
     'TLA+ specification of the closure; all DAGs enumerated and replayed; TLC trace validation', KDNOTE)
prop('C13', 'Managers, branches, extracts and caches are isolated',
     'A branch or extract contains exactly the closure it was asked for (content, dependencies, order and attached metadata), keeps its content whatever is later added to the source or to other branches, and can be extended without changing the source; chains of branches read bags of every ancestor. A manager keeps the view it had when opened plus its own additions, and clearing, disabling or shrinking the shared cache never changes any answer.',
     ['histories'], 'all TLC-generated histories of create/open/add/branch/extract/load over two directories and two managers, random ones over four, with cache changes at any point',
     'Tests branch once and never combine branching with later writes and cache changes.',
     ['py/koladata/ext/storage/data_bag_manager.py', 'py/koladata/ext/storage/global_cache_lib.py'],
     ['bag files referenced by absolute directory', 'cache keyed by file path'],
     'TLA+ specification of directories and managers; TLC-generated histories replayed; TLC trace validation', KDNOTE)
prop('C14', 'Data slice paths read back as written and walk schemas',
     'Printing any path, whatever characters its attribute names contain, and parsing the text gives the same path back; text outside the path grammar is rejected. Prefix, suffix and concatenation behave as on sequences. Enumerating paths of a schema gives each valid path of at most the requested depth exactly once, shortest first, also for recursive schemas, and following a path in a schema ends at the schema its steps describe or fails if a step does not exist.',
     ['inputs'], 'all paths up to length 3 over adversarial attribute names, all short texts over the grammar alphabet, random schema graphs with cycles',
     'The runnable tests do not import the module.',
     ['py/koladata/ext/storage/data_slice_path.py'],
     ['identifier names printed plainly, others base64-encoded', 'breadth-first enumeration'],
     'TLA+ grammar and schema-walk specification; TLC-generated paths, texts and graphs replayed; TLC trace validation', KDNOTE)
SLF = ['py/koladata/ext/storage/data_slice_manager.py', 'py/koladata/ext/storage/schema_helper.py',
       'py/koladata/ext/storage/stubs_and_minimal_bags_lib.py', 'py/koladata/ext/storage/value_presence_util.py']
prop('C15', 'Reading a managed slice returns exactly what the updates wrote',
     'After any sequence of accepted updates, reading any set of paths (with or without descendants) from the managing or a freshly opened manager gives exactly the data that applying the same updates in order to one in-memory slice would give: attributes set at every entity reached by the path (also aliased, shared and recursive ones), lists replaced, dicts merged key by key, removed values removed, everything not updated kept. The schema, the existing paths and the set of paths enumerated follow the updates exactly, and updates that are invalid (unknown or non-entity path, unsupported values) are refused without effect.',
     ['inputs', 'histories'], 'random update/read histories over entities, lists, nested lists, dicts with primitive and entity keys, shared items, recursive schemas, missing and removed values, schema overwrites, partial reads and cache clearing',
     'The store is not executed by the runnable tests; the right answer depends on the whole update history and on which parts were loaded.',
     SLF + ['py/koladata/ext/storage/schema_helper_mixin.py', 'py/koladata/ext/storage/bare_root_initial_data_manager.py'],
     ['updates split into minimal bags indexed by schema node', 'loads select bags by schema node and ancestors'],
     'TLA+ heap-and-schema specification of a managed slice; recorded update/read histories validated by TLC against it', KDNOTE)
prop('C16', 'A failed or crashed slice update is all-or-nothing',
     'Whatever file-system operation fails, tears or is the last before a crash during create, update, branch or open, every earlier revision stays readable unchanged, and afterwards a fresh manager sees the revision history either without or with the complete interrupted write, never a mix. A call that returned is durable; a failed update leaves the manager answering as before; a fresh manager can always continue with new updates.',
     ['crash_points', 'fault_sequences', 'histories'], 'every file-system interaction of create, update, branch and open in fixed and random histories, in five failure modes',
     'Tests never inject faults.',
     ['py/koladata/ext/storage/data_slice_manager.py', 'py/koladata/ext/storage/data_bag_manager.py'],
     ['bags first, metadata last', 'metadata renamed into place without overwriting', 'only bags named by the metadata are used'],
     'TLA+ slice-store specification with crash outcomes; real manager run with a fault at every interaction; TLC trace validation', KDNOTE, level='fault_injection')
prop('C17', 'Revisions, branches and read-only managers are isolated',
     'Opening a directory at a revision, branching from any revision (also of branches) and read-only copies show exactly the data, schema and history of that revision and keep showing it whatever is updated elsewhere afterwards. Updates to a branch and to its source never affect each other. A manager that is read-only, or that is not at the latest revision of its directory, cannot update it, and history entries record kind, description, path, attribute and branch parent as given.',
     ['histories'], 'TLC-generated histories of create/open/at-revision/update/branch/read-only over two directories and random ones over three directories and four managers, with cache changes',
     'Tests look at one branch or one revision at a time.',
     ['py/koladata/ext/storage/data_slice_manager.py', 'py/koladata/ext/storage/data_bag_manager.py'],
     ['revision history lists the bags it added', 'numbered metadata files'],
     'TLA+ slice-store specification; TLC-generated histories replayed; TLC trace validation', KDNOTE)
KVF = ['py/koladata/ext/view/view.py', 'py/koladata/ext/view/operators.py', 'py/koladata/ext/view/kv.py',
       'py/koladata/ext/view/mask_constants.py', 'py/koladata/ext/view/clib.cc']
KVN = TB + 'clib.cc is compiled from the tree with small header stand-ins for arolla; should a future revision need more of arolla than those provide, a Python stand-in for map_structures is used and said so in the evidence. '
prop('C18', 'Koda views behave as jagged arrays',
     'For every combination of nesting depths, sparsity, lists, tuples, dicts, objects and plain values, the operators of koladata.ext.view (explode and slicing, implode, flatten, expand_to, align, map, attribute and item access with defaults, agg and collapse, select and inverse_select, group_by, take, keys and values, masks and comparisons, broadcasting of arguments, conversion to and from Python) give the result of applying the operation per element of the jagged array in order, keep the leaf order and shape rules (a lower-depth view broadcasts only if its shape is a prefix), treat None as missing throughout, and reject incompatible shapes, depths or argument types instead of returning something else.',
     ['inputs', 'operation_sequences'], 'all pairs of views of depth up to 2 over small leaf sets with every operator, and random programs over heaps of lists, dicts and objects',
     'The view tests cannot run here and sample a handful of shapes per operator.',
     KVF, ['map_structures walks the inputs in parallel', 'depth is tracked separately from the nested tuples'],
     'TLA+ algebra of jagged arrays, laws model-checked on all pairs of small views; TLC-generated pairs and random programs run on the real operators; TLC trace validation', KVN)
prop('C19', 'Writes through views update exactly the addressed objects',
     'Setting attributes or items and appending through a view changes exactly the objects the view holds, with the value of the broadcast position, in element order (so the last write to a shared object wins and appends accumulate), skips missing positions, and is seen through every other view of the same objects; setting several attributes at once equals setting them one after the other, and a value deeper than its target is refused without changing anything. deep_clone gives an equal view sharing nothing mutable with its source, keeps sharing inside it and keeps mask values usable; reads never change anything.',
     ['histories', 'inputs'], 'random programs of reads, writes and clones over aliased heaps, every object compared after every step',
     'Tests write through one view once and do not alias.',
     KVF, ['writes are applied element by element through map_structures'],
     'TLA+ heap specification of views; recorded programs validated by TLC including the heap after every operation', KVN)
JSF = ['koladata/internal/op_utils/json_stream.h', 'koladata/internal/op_utils/json_stream.cc']
JSN = 'The C++ files are compiled from the tree against small stand-ins for Abseil headers (this sandbox has no Bazel); the stand-ins are part of the trusted base. '
prop('C20', 'JSON stream transformations compute their documented function',
     'For every sequence of JSON values and however its text is cut into chunks, the JSON stream processors (compactify, head, prettify, select nonempty objects/arrays/non-null, extract object values by key, implode and explode arrays, n-th array element, quote and unquote, chunk by value) emit the text their documentation defines for the concatenated input: each output value in input order, byte-exact scalars, Unicode escapes decoded into UTF-8, one value to a line, null or nothing where documented, no dependence on chunk boundaries, on state left by earlier values, or on text inside strings.',
     ['inputs', 'histories'], 'all short value sequences generated by TLC and random nested ones, each under several random chunkings including byte by byte, with every transformation and its options',
     'Tests feed a few literal texts; the processors are character state machines whose answer depends on the whole history of characters and on every cut.',
     JSF, ['one character at a time state machines', 'output buffered until the end of the chunk'],
     'TLA+ character-level specification of JSON text and of each transformation; TLC-generated and random texts run through the compiled processors; TLC trace validation', JSN)
prop('C21', 'Salvage always outputs valid JSON and keeps what the input said',
     'Salvaging any byte sequence, cut in any way, ends without failure and yields newline-separated valid JSON documents (ASCII only if asked) that nest at most max_depth deep and do not depend on the cuts. Input that is already JSON within max_depth keeps its values exactly, and the documented variants (JSON5, Python literals, comments, single, back and triple quotes, unquoted keys, missing or extra commas, brackets left open, several values in a row) give the value their own language defines.',
     ['inputs'], 'TLC-generated documents in every variant syntax, random documents, mutated JSON and arbitrary bytes, each under several chunkings and option sets',
     'Tests sample literal inputs; validity for arbitrary input and every chunk boundary cannot be sampled.',
     JSF, ['character state machine with a bracket stack', 'pending surrogates, commas and closers are flushed when the input ends'],
     'TLA+ grammar of JSON and of the accepted variants with the values they denote; compiled salvage run on generated texts; TLC trace validation', JSN)
prop('C22', 'The JSON stream parser delivers every value once, repaired and in order',
     'JsonStreamParser announces each value of the document, at any depth, once and in document order with its path and type, delivers it repaired to JSON according to the keep or remove policy its consumer asked for, and streams chunks of a value that concatenate to exactly that value; none of it depends on how the text is cut, and a document whose brackets do not match or stay open is reported as an error.',
     ['inputs', 'histories'], 'TLC-generated and random documents with unquoted keys and tokens, several quote styles and policies, under random chunkings, plus broken documents',
     'Tests parse a few documents with fixed cuts.',
     ['koladata/operators/json_stream_parser.h', 'koladata/operators/json_stream_parser.cc'],
     ['character state machine with a path stack', 'whitespace and separators dropped as characters arrive'],
     'TLA+ specification of documents, their events and repaired texts; compiled parser driven by generated documents; TLC trace validation', JSN)
PARN = TB + 'The parallel code is compiled unmodified from the tree against small stand-ins for arolla and Abseil headers (this sandbox has no Bazel), with a scheduling point at every access to shared memory, lock and atomic; schedules are sequentially consistent (weak-memory effects are not explored) and the asio thread pool is replaced by executors of the driver. '
PD = 'koladata/functor/parallel/'
prop('C23', 'A stream is an append-only log every reader sees whole and in order',
     'Every reader of a stream, whenever it was made and however reads, writes and the close interleave in any number of threads, is given exactly the items written, each once and in the order of writing, says "pending" only when it has been given everything written so far, and reports the closing status exactly after the last item and ever after. The first close wins: later tries to write or close have no effect and say so; a writer that goes away unclosed closes the stream as orphaned, and a writer whose stream nobody can read any more is told so and writes nowhere.',
     ['schedules', 'histories', 'inputs'], 'random programs of up to four threads of writers (plain and try), readers and closers over streams of any initial capacity crossing chunk boundaries, under systematic, random and priority-based schedules with preemption at every shared access',
     'The tests run a producer and a consumer under whatever schedule the operating system picks.',
     [PD + 'stream.cc', PD + 'stream.h'],
     ['items stored in chunks that readers walk without the lock', 'status set once under the lock', 'writer holds the stream weakly'],
     'TLA+ log specification and a model-checked model of the chunk algorithm; real code under a controlled scheduler; histories checked for linearizability by TLC', PARN,
     state=[('stream', 'chunks, size of the last one, closing status, waiting callbacks', 'StreamImpl')])
prop('C24', 'A stream subscription is called exactly once, and not before there is news',
     'A callback registered with a stream reader is called exactly once, at once if the reader has an unread item or the stream is closed, otherwise by the next write or close, in every interleaving: never twice, never lost between the check and the registration, and never before the item or status it is called for can be read through the same reader. Callbacks may read, write, close and subscribe again to this or other streams without deadlock, and a callback that can no longer be called is destroyed with its stream, not leaked.',
     ['schedules', 'histories'], 'random programs with subscriptions that consume, re-subscribe, write to and close other streams from inside callbacks, racing with writers and closers under a controlled scheduler',
     'Tests subscribe before or after the write, never during it.',
     [PD + 'stream.cc', PD + 'stream.h'],
     ['callbacks are registered under the lock that guards the items and swapped out when called', 'callbacks run outside the lock'],
     'TLA+ multi-phase specification of subscriptions; model-checked callback algorithm; recorded histories decided by TLC', PARN)
prop('C25', 'Chained and interleaved streams deliver exactly their inputs',
     'A chain of streams delivers the items of its inputs one input after the other in the order they were added, each input from its start whatever was added meanwhile, and ends with the first error in that order, or well when all inputs have ended well and no more can be added. An interleaving delivers every item of every input exactly once, keeps the order within an input, and ends well when all inputs have, otherwise with the error of one of them. The same holds for single items and errors added in between, for streams of streams, and for nested combinations, in every interleaving of writers, adders and readers; everything available is delivered without waiting for anything else, and nothing is kept alive afterwards.',
     ['schedules', 'histories', 'inputs'], 'random chains, interleavings, streams of streams and nestings over up to four inputs written, extended and read by up to four threads under a controlled scheduler',
     'Tests combine a few streams that are complete or written by one thread.',
     [PD + 'stream_composition.cc', PD + 'stream_composition.h', PD + 'stream_operators.cc'],
     ['one pending input is processed at a time, by whoever made the queue nonempty', 'the output closes when the last holder of the state goes away'],
     'TLA+ specification of combined streams and a model-checked model of the chain queue; real code under a controlled scheduler; histories validated by TLC', PARN)
prop('C26', 'Mapping a stream applies the functor exactly once per item',
     'Mapping a functor over a stream gives one result per input item: in input order for the ordered map, in any order for the unordered one, each from one call of the functor on the given executor and in the cancellation context of whoever started the map. An ordered map ends like its input once every result was given, or with the first failing item in input order after the results before it, whatever the functor calls for later items do; an unordered map ends with the first error that occurs. Results are given as soon as they can be, a cancelled map ends with the reason of the cancellation, work that the executor discards ends the stream as orphaned and never as complete, no functor call is made twice or lost in any interleaving, and nothing is kept alive afterwards.',
     ['schedules', 'histories', 'inputs'], 'random ordered and unordered maps, nested maps, failing, wrongly typed and missing results, cancellations and discarded tasks, on pools of up to three threads, derived and immediate executors, under a controlled scheduler',
     'Tests run one map with whatever schedule occurs.',
     [PD + 'stream_map.cc', PD + 'stream_map.h', PD + 'basic_routine.cc', PD + 'executor.cc'],
     ['results buffered by offset and flushed in order', 'input read by whoever has capacity'],
     'TLA+ specification of the contents, calls and ends of a map (ParFlow); real code under a controlled scheduler; histories validated by TLC', PARN)
prop('C27', 'Reductions and loops over streams compute the sequential result',
     'Reducing a stream, stacking or concatenating its slices, and running a for or while loop with body, finalizer and condition functors over it gives exactly what the same computation run sequentially over the input items would give: the functors are called with the values of the variables as updated so far, once per iteration, in order, never after the loop has ended (input exhausted, condition no longer true, an error), and the results (the returned value, or every yielded item in order) and the final status are those of the sequential run, including the first error and errors for wrong variables, types or conditions. A loop that is cancelled while it runs ends with the reason of the cancellation, or as orphaned, and never presents an unfinished value as its result; a discarded one ends as orphaned.',
     ['schedules', 'histories', 'inputs'], 'random reductions, stack/concat of slices of mixed ranks, loops with every kind of body, finalizer and condition result including conditions that are streams, cancellations at any moment, under a controlled scheduler',
     'Tests cover fixed programs on a single schedule.',
     [PD + 'stream_reduce.cc', PD + 'stream_reduce_stack_or_concat.cc', PD + 'stream_for.cc', PD + 'stream_while.cc', PD + 'stream_loop_internal.cc', PD + 'basic_routine.cc'],
     ['one routine that suspends on a stream and is rescheduled on the executor', 'variables kept in a struct updated after each call'],
     'TLA+ specification of the sequential computation (ParFlow); real code under a controlled scheduler; functor calls and outcomes validated by TLC', PARN)
prop('C28', 'A future is set once and tells every consumer its value once',
     'A future gets exactly one outcome (the value or error given by its writer, or an orphaned error if the writer goes away first), looking at it never shows anything else before or after, and every consumer, added before, after or during the setting in any interleaving, is called exactly once with that outcome. Conversions keep the outcome: a stream made from a future has exactly its value or error; a future made from a stream has the single item (no item or several items is an error), or all items in order; unwrapping a future of a future or of a stream gives the inner outcome or contents. Nothing is kept alive once no consumer or writer needs it.',
     ['schedules', 'histories', 'inputs'], 'random programs of setters, droppers, consumers and chains of conversions in up to three threads under a controlled scheduler',
     'Tests set a future before or after adding a consumer, never during it.',
     [PD + 'future.cc', PD + 'future.h', PD + 'future_operators.cc', PD + 'stream_operators.cc', PD + 'stream_composition.cc'],
     ['value and consumers guarded by one lock, consumers called outside it', 'writer sets an error when destroyed'],
     'TLA+ specification of futures and conversions (ParFlow); real code under a controlled scheduler; histories validated by TLC', PARN)
prop('C29', 'Parallel calls wait for their arguments and run exactly once',
     'A parallel call runs its functor exactly once, on the given executor and in the cancellation context of its caller, after every awaited stream or future argument has given its single value, with all arguments in their places; arguments that are not awaited are passed as they are. An awaited stream that is empty or has more than one item, or an argument that failed, ends the call with that error without running the functor. The resulting stream holds the value the functor returned or exactly the items of the stream it returned, or ends with its error (also for a result of the wrong type). Evaluating an operator on futures likewise calls it once when the last input arrives, in any interleaving of arrivals, and otherwise has the outcome of a failed input. A call whose work is discarded or that is cancelled before its functor ran ends with an error, never as an empty success.',
     ['schedules', 'histories', 'inputs'], 'random calls and evaluations over plain, awaited and not awaited streams and futures written, failed or dropped by up to three threads, chained calls, cancellation and discarded tasks, under a controlled scheduler',
     'Tests complete the arguments before the call or from one thread.',
     [PD + 'stream_call.cc', PD + 'stream_call.h', PD + 'async_eval.cc', PD + 'basic_routine.cc'],
     ['arguments awaited one after the other by a resumable routine', 'countdown of inputs under a lock'],
     'TLA+ specification of calls and evaluations (ParFlow); real code under a controlled scheduler; histories validated by TLC', PARN)
prop('C30', 'Executors run every task once in its own executor and context',
     'Everything scheduled on an executor runs exactly once, on that executor\'s workers: on an eager executor at once and in the caller, on a pool in no more threads at a time than the pool has, on a derived executor where its base runs it. While a task runs, the current executor is the one the task was scheduled on, the thread counts as inside a task (where waiting for a result is refused with an error), and the context set up for the executor (for a derived executor the base\'s first, then its own) is in place; it is undone when the task ends, and a task never sees the context, cancellation or current executor of the thread that scheduled it or of a task that ran before. A scope that sets the current executor is undone when it ends; outside tasks and scopes there is no current executor, and a scope that falls back to the default sets it only then; there is one default executor. An executor whose last handle goes away still runs what was scheduled on it, and what tasks held is released.',
     ['schedules', 'histories', 'inputs'], 'random programs of up to three threads scheduling nested tasks on eager, pool, asio and derived executors, scopes, context guards, waits and dropped handles, under a controlled scheduler',
     'Tests check one executor, one level and one order.',
     [PD + 'executor.h', PD + 'executor.cc', PD + 'derived_executor.cc', PD + 'derived_executor.h', PD + 'eager_executor.cc', PD + 'asio_executor.cc', PD + 'default_asio_executor.cc', PD + 'get_default_executor.cc', PD + 'make_executor.cc', PD + 'context_guard.h'],
     ['thread-local current executor saved and restored around a task', 'context guards initialised per task', 'lazily started thread pool'],
     'TLA+ specification of executors, scopes and contexts (ParExec); real code (over a stand-in for the thread pool library) under a controlled scheduler; histories validated by TLC', PARN)
prop('C31', 'A blocking wait returns the one outcome there is',
     'Waiting for a stream returns its only item once the stream has ended well, the stream\'s error if it ended with one, and an error if the stream has no item or more than one; waiting for a future returns its value or error. Waiting consumes nothing: any number of threads may wait for the same stream or future and all get the same outcome. A wait returns as soon as the outcome is known, whatever the interleaving with those who produce it; it ends with the reason of the cancellation if the waiting thread is cancelled first (also when the stream or future never completes, and when the cancellation came before the wait), but a complete outcome is returned to a cancelled thread as well.',
     ['schedules', 'histories'], 'up to three waiting threads over sources, futures and derived streams and futures that other threads write, fail, drop or never complete, with cancellation before, during and after, under a controlled scheduler',
     'Tests complete the source before the wait or after a fixed delay.',
     [PD + 'stream_operators.cc', PD + 'stream.cc', PD + 'future.cc'],
     ['permanent event set by the consumer and by the cancellation', 'second read to tell one item from several'],
     'TLA+ specification of streams, futures and waits (ParFlow: Waited, Stopped); real code under a controlled scheduler; histories validated by TLC', PARN)
# ---------------------------------------------------------------- data bags
KI = 'koladata/internal/'
BAGN = TB + ('The data bag code of koladata/internal is compiled unmodified from the tree against stand-ins for Abseil and Arolla headers (this sandbox has no Bazel and no Arolla), on which the '
             'repository\'s own data_bag, data_bag_merge, data_bag_schema and extract_content gtests pass; the layers above (schema-aware slices, operators, Python) are not executed. ')
BAGT = 'TLA+ specification of a bag\'s content, storage forms excluded, with laws checked by TLC; the compiled DataBagImpl driven by random programs; every recorded answer decided by TLC'
BAGW = 'Unit tests check each storage form with a handful of operations; which form holds a value depends on allocation sizes, density, value types and the whole history.'
prop('C32', 'Attributes of objects read back as last written, however they are stored',
     'For every object and attribute of a data bag, reading gives the value written last, whatever mixture of batch writes, single-object writes, whole-allocation writes, object creation from fields and unit-marking calls came before: present values come back with their exact value and type, writing a missing value removes the attribute (distinguishably from one never written), objects and attributes not mentioned keep what they had, missing objects are ignored, and for an object repeated in one batch the last value counts. A whole-allocation write keeps the cells it leaves unset. Answers never depend on how objects were allocated, how many of an allocation are touched, in which order or batches values were written, or whether values have one type, several or mixed types; unit-marking returns exactly the objects that had nothing before, each once. Slices handed to or received from a bag are snapshots: no later operation on any bag changes them, and what they say about themselves (types, counts, allocations used by further lookups) fits their items.',
     ['inputs', 'histories'], 'random programs over objects in single, full, sparse and many small or big allocations (1 to 1000 objects), all scalar types and mixtures, objects repeated and missing, on several bags',
     BAGW, [KI + 'data_bag.cc', KI + 'dense_source.cc', KI + 'sparse_source.cc', KI + 'value_array.h', KI + 'data_slice.cc', KI + 'slice_builder.cc'],
     ['dense and sparse sources per allocation and attribute', 'sparse sources turned into dense ones', 'typed arrays that turn into multi-type ones'],
     BAGT, BAGN, state=[('content', 'attributes: (object, attribute) to value, removed or unset', 'DataBagImpl')])
prop('C33', 'Forks, fallbacks and frozen bags never leak into one another',
     'A fork of a data bag starts with exactly the content of its parent, and from then on a write to one is never seen through the other, or through any other fork, at any depth, whichever kind of data (attributes, lists, dicts, schemas) and storage form is involved, and also after the parent handle is gone. Reading through a chain of fallback bags gives for every attribute, list, dict key and schema attribute the content of the first bag in which it is set; a removal counts as set and hides the fallbacks, a list comes entirely from one bag, and the keys of a dict or schema are those of all bags together. Reading changes nothing. A frozen bag refuses every modification with an error and keeps its content.',
     ['histories', 'inputs'], 'random programs over up to eight bags with forks of forks, writes on all of them, fallback chains of up to four bags, freezing and dropped parents',
     'Tests fork once and write on one side.', [KI + 'data_bag.cc', KI + 'data_list.cc', KI + 'data_list.h', KI + 'dict.cc', KI + 'dict.h', KI + 'dense_source.cc', KI + 'sparse_source.cc'],
     ['partially persistent fork with a parent pointer', 'sources of the parent shared as constant until written', 'lists and dicts copied or layered on first write'],
     BAGT, BAGN, state=[('bags', 'content, frozen flag', 'DataBagImpl::PartiallyPersistentFork')])
prop('C34', 'Lists in a data bag behave as sequences',
     'Append, extend, replace of a range, removal of a range or item, setting an item and pop, each on one list or on a batch of lists, change exactly the addressed lists as the same operations with Python index and slice semantics (negative indices and bounds, open ranges, empty ranges insert) change sequences, in the order of the batch when a list is repeated; pop returns the removed items, items out of range change nothing and read as missing, missing lists and indices are skipped. Sizes, items and slices read back exactly, for the whole list or any range, per list with the right split points, whatever value types the items have and had; a list that was never set is empty, and one set in a fork or in front of fallbacks replaces theirs entirely. A batch containing something that is not a list is refused with an error.',
     ['inputs', 'histories'], 'random programs over lists in single, full, sparse and many allocations, batches with repeated and missing lists, all scalar types and mixtures, out-of-range and negative indices and ranges',
     BAGW, [KI + 'data_bag.cc', KI + 'data_list.cc', KI + 'data_list.h'],
     ['typed vectors that turn into multi-type ones', 'lists of a parent bag copied before the first change'], BAGT, BAGN,
     state=[('content', 'lists: object to sequence', 'DataList')])
prop('C35', 'Dicts in a data bag behave as maps',
     'A dict maps each key to the value set last, in batches or singly, for keys of every hashable scalar type, objects and schemas included; keys of different types are different except that int32 and int64 keys of equal value are one key. Looking up a key never set gives a missing value; a key whose value is missing (set so, or cleared) stays a key, and hides the value in fallbacks or in the parent of a fork. Keys and values are reported exactly once each and in matching order, per dict with the right split points, and the size is their number, over fallbacks and forks together; clearing a dict removes all values it has in the bag, those a fork inherited included. Missing dicts and keys are skipped; floats are refused as keys, and a batch containing something that is not a dict is refused with an error.',
     ['inputs', 'histories'], 'random programs over dicts in single, full, sparse and many allocations, repeated dicts and keys in one batch, keys and values of all types and mixtures, forks and fallback chains',
     BAGW, [KI + 'data_bag.cc', KI + 'dict.cc', KI + 'dict.h'],
     ['hash map with a parent dict for lookups', 'keys of fallbacks merged without repetition'], BAGT, BAGN,
     state=[('content', 'dicts: (object, key) to value', 'Dict')])
prop('C36', 'Schema attributes read back as last written and only hold schemas',
     'Every schema object maps attribute names to schemas: reading an attribute (in a batch, singly, through fallbacks or a fork) gives the schema set last, writes with one schema for all or one each, of one attribute or several at once, over explicit and implicit schema objects in any allocations have exactly that effect and no other, and the attribute names reported are exactly those set, once each, with removed names left out on request. Strict reads of an attribute that is not there fail, tolerant ones tell it as missing; removing an attribute that is not there fails. Values that are not schemas, and objects that are not schemas, are refused with an error.',
     ['inputs', 'histories'], 'random programs over explicit and implicit schema objects in all kinds of allocations, with primitive and object schemas as values, repeated and missing objects, forks and fallbacks',
     BAGW, [KI + 'data_bag.cc', KI + 'dict.cc', KI + 'schema_utils.cc'],
     ['schemas stored as dicts, one batch of equal schemas sharing storage'], BAGT, BAGN,
     state=[('content', 'schemas: (schema object, attribute) to schema', 'DataBagImpl schema dicts')])
prop('C37', 'Merging data bags follows the conflict policy exactly',
     'Merging one data bag into another adds everything the other holds, removals included, whatever kind of data and storage form holds it on either side and however deep either bag\'s chain of forks is. Where both hold the same attribute, list, dict key or schema attribute, the policy decides: keep one\'s own, take the other\'s, or, if conflicts are to be refused, fail exactly if the two differ; explicit schemas follow the schema policy and everything else, implicit schemas included, the data policy. The bag merged from, and every fork or parent of either bag, keep their content. Putting the overwriting merge update of a bag and another on top of the bag reads like merging the other into it.',
     ['inputs', 'histories'], 'random pairs of bags out of up to nine, written independently or forked from one another, over shared objects in all kinds of allocations, all combinations of policies, with reads before and after',
     'Tests merge bags with one attribute each; storage forms on the two sides are combined only for a few sizes.',
     [KI + 'data_bag.cc', KI + 'dense_source.cc', KI + 'sparse_source.cc', KI + 'data_list.cc', KI + 'dict.cc'],
     ['one merge routine per pair of storage forms', 'one-by-one fallback for sparse data', 'parents merged top down'], BAGT, BAGN,
     state=[('bags', 'content', 'DataBagImpl::MergeInplace')])
prop('C38', 'The content a data bag reports is what it holds',
     'Extracting the content of a data bag lists every present attribute, every set list and every present dict value, each exactly once with its current value, and nothing that was overwritten, removed, or belongs to another bag, fork or list; a fork reports its own and the inherited content together. A bag with no content written is reported empty and a fork without writes of its own is reported pristine; a bag that holds something is never reported empty, and a bag changed since it was made or forked never pristine.',
     ['inputs', 'histories'], 'random programs as for the other data bag properties, content extracted in between and at the end from every bag and fork',
     'Tests extract from bags of a few triples.', [KI + 'data_bag.cc', KI + 'triples.cc', KI + 'dense_source.cc', KI + 'sparse_source.cc', KI + 'dict.cc'],
     ['content collected by walking all sources and parents'], BAGT, BAGN, state=[('content', 'all partial functions of a bag', 'DataBagImpl::ExtractContent')])
prop('C39', 'Extracting a slice copies exactly what is reachable from it',
     'Extracting a slice of objects from a data bag (with any fallbacks) gives a new bag that holds, for every object reachable from the slice through attributes, list items, dict keys and dict values as their schemas declare, all attributes its schema declares, its list or its dict, with the values read through the chain, removed ones included; the schema of every object or schema on the way, with all its attributes; which schema an OBJECT has; and nothing else: nothing of unreachable objects, no attribute the schema does not know. Objects may be reached as OBJECT or under an explicit schema, by several ways and in cycles, objects of one allocation may have different schemas with different attribute types, ITEMIDs are not followed, and where data is stored or how the slice is built does not matter. With a depth limit, data is copied for objects closer than the limit, schemas up to the limit, and exactly the objects first met at the limit are reported as leaves. A primitive value of another type than the schema declares makes the extraction fail; well typed data never does. Later writes to the source do not change the extracted bag.',
     ['inputs', 'histories'], 'random well typed object graphs with explicit, shared and per-object implicit schemas over up to three bags and their forks, extracted with several slices, schemas and depths, the results read, dumped and extracted again',
     'Tests extract a few hand-made graphs in which all objects of an allocation have the same schema.',
     [KI + 'op_utils/extract.cc', KI + 'op_utils/extract.h', KI + 'data_bag.cc', KI + 'data_slice.cc'],
     ['whole allocations copied at once', 'objects of one allocation grouped by schema'], BAGT, BAGN,
     state=[('reached', 'objects, schemas and cells copied so far', 'CopyingProcessor'), ('frontier', 'visits of the next level', 'CopyingProcessor::queued_slices_')])
