"""Single source of properties.jsonl and MANIFEST.json (gen.py writes both)."""
AI = 'abstract interpretation of the compiler IR (path-sensitive value numbering of every registered loop, lane normalisation, interval tiling)'
CP = 'interprocedural constant propagation with path enumeration over the compiler IR (call-path and effect analysis)'
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state))
NA = []
OPS = ['src/atop/ops_binary.cpp', 'src/atop/ops_compare.cpp', 'src/atop/ops_unary.cpp', 'src/atop/ops_trig.cpp', 'src/pnumpy/_pnumpy.cpp']
prop('C01', 'Accelerated binary functions compute NumPy\'s values',
     'With the package enabled, every accelerated two-operand element-wise function (arithmetic, minimum/maximum, logical and bitwise) gives, for every element type it replaces and every pair of input values, exactly the value NumPy documents (wrap-around, NaN propagation, division by zero, Boolean semantics). The result does not depend on the element\'s position, the length, the strides, a scalar operand, or whether the call was threaded.',
     ['inputs', 'configurations'], 'all element values, lengths, strides and scalar/array operand combinations of every replaced function and type',
     'Tests compare a few array sizes with small well-behaved values; the value space, vector/remainder boundaries and stride combinations are unbounded.',
     OPS, [('vector and scalar loops selected per function and type', 'src/atop/ops_binary.cpp'), ('dispatch of hooked calls', 'src/pnumpy/_pnumpy.cpp:AtopBinaryMathFunction')], AI,
     'All registered loops, all paths: each stored lane is reduced to a term over the input elements and proved equal to the documented formula (or refuted with a concrete element value); unproved cases are listed as undecided, none on this tree. Floating rounding taken as the hardware operation.')
prop('C02', 'Accelerated comparisons give NumPy\'s truth values',
     'With the package enabled, every accelerated comparison yields, for every element type and every pair of values including NaN, signed zeros and the extreme values of signed and unsigned integers, exactly the Boolean NumPy documents, stored as 0 or 1. Every output element is written, whatever the length, strides or scalar operand.',
     ['inputs', 'configurations'], 'all element values, lengths, strides and scalar/array operand combinations of every comparison and type',
     'Tests use a handful of arrays without extreme values; the packing of vector masks into Booleans has length- and position-dependent code.',
     OPS, [('comparison loops and mask expansion tables', 'src/atop/ops_compare.cpp'), ('dispatch', 'src/pnumpy/_pnumpy.cpp:AtopCompareMathFunction')], AI,
     'As C01, including the bit-to-byte expansion tables.')
prop('C03', 'Accelerated unary functions compute NumPy\'s values',
     'With the package enabled, every accelerated one-operand function (absolute, negative, invert, sign, rounding, predicates, logical not and others) gives for every element type and value, including NaN, infinities, signed zeros and minimum integers, exactly the value NumPy documents. Functions accelerated only by threading still run NumPy\'s own loop on every element.',
     ['inputs', 'configurations'], 'all element values, lengths and strides of every one-operand function and type',
     'Tests sample ordinary values; signed zeros, NaN payload handling, ties and minimum integers are not sampled, and strided variants have separate code.',
     OPS, [('unary loops', 'src/atop/ops_unary.cpp'), ('trigonometric loops', 'src/atop/ops_trig.cpp'), ('dispatch', 'src/pnumpy/_pnumpy.cpp:AtopUnaryMathFunction')], AI,
     'As C01. Transcendental loops are covered for addressing and wiring, not for accuracy.')
prop('C04', 'Accelerated reductions combine every element exactly once',
     'A replaced reduction (sum, product, minimum, maximum, logical and bitwise reductions) starts from the given initial value and combines every element of the operand exactly once with the function\'s own operation in the element type NumPy accumulates in, whatever the length, stride or start. Splitting a long reduction over threads does not change which elements are combined.',
     ['inputs', 'schedules', 'configurations'], 'all lengths, strides, element values and thread splits of every replaced reduction',
     'Tests reduce a few sizes with ones or small ranges; unrolled vector loops have remainders and lane combinations no sampled length covers.',
     OPS, [('reduction loops', 'src/atop/ops_binary.cpp'), ('threaded reduction', 'src/pnumpy/_pnumpy.cpp:ReduceThreadCallbackStrided')], AI,
     'Each path of each reduction loop is reduced to a multiset of element ranges; order of floating additions inside a loop is not constrained.')
prop('C05', 'Loops touch exactly the operands\' elements',
     'A replaced loop writes each of the n output elements and nothing else, and reads no byte outside the n elements of each input, for every length (including zero and lengths that are not a multiple of the vector width) and every stride.',
     ['inputs', 'configurations'], 'all lengths and strides of every replaced loop, on every path',
     'An over-read or a missed tail element shows only for particular lengths and memory layouts; tests use few sizes and no guard pages.',
     OPS, [('vector loops and their remainder loops', 'src/atop')], AI, 'Interval tiling over the symbolic length for every path of every registered loop.')
prop('C06', 'Operands need only element alignment',
     'A replaced loop accepts operands and outputs at any address that is aligned for the element type (views, slices, offsets), never requiring more alignment than that.',
     ['inputs', 'configurations'], 'all base addresses of all operands of every replaced loop',
     'Test arrays come from the allocator and are 16- or 64-byte aligned nearly always; sliced views at odd offsets fault only in the right loop.',
     OPS, [('vector loads and stores', 'src/atop')], AI, 'Alignment attribute of every memory access in every registered loop against the alignment derivable for its address.')
prop('C07', 'In-place and overlapping calls give the sequential result',
     'When the output is one of the inputs the result equals the result of the same call into a fresh array. When output and inputs overlap so that later elements depend on earlier results (accumulate, shifted views), elements are processed in order by one thread.',
     ['inputs', 'schedules'], 'all exact and partial overlaps of operands and output, all lengths, every thread interleaving',
     'Overlap effects depend on the distance between operands and on the split between threads; tests have no overlapping operands at threaded sizes.',
     OPS, [('overlap test', 'src/pnumpy/_pnumpy.cpp:IsOrderDependent'), ('vector loops', 'src/atop')], AI + '; ' + CP,
     'Read-after-overwrite hazards inside each loop; representative overlap layouts (accumulate, shifted by one either way, reversed, in place) through every dispatcher.')
prop('C08', 'Each function and type is wired to its own loop and fallback',
     'Enabling the package replaces, for every function and element type it names, exactly that function\'s loop by an implementation of the same function and types, and remembers exactly the loop it replaced. Enabling it again changes nothing.',
     ['configurations', 'histories'], 'every replaced (function, type) pair and every path a call can take, repeated enabling',
     'There are several hundred (function, type) pairs, each with several paths; tests exercise a fraction and compare against the same wiring.',
     ['src/pnumpy/_pnumpy.cpp'], [('registration tables and macros', 'src/pnumpy/_pnumpy.cpp:newinit')], CP, 'All registrations and all paths of each registered function.')
prop('C10', 'Exactly one implementation processes each call',
     'Every call of a replaced function processes the caller\'s operands exactly once, by the original loop or by the replacement, never both and never neither. With the package switched off, or where no replacement exists for the layout, the original loop gets the call unchanged.',
     ['inputs', 'configurations', 'histories'], 'every switch setting, operand layout and length for every replaced function',
     'The combinations of switches, layouts, lengths and types far exceed what tests enumerate, and a doubly processed call often gives the right answer.',
     ['src/pnumpy/_pnumpy.cpp', 'src/atop/threads.h'], [('dispatchers', 'src/pnumpy/_pnumpy.cpp:AtopBinaryMathFunction'), ('pool entry', 'src/atop/threads.h:CMathWorker')], CP, 'All enumerated paths of all registered functions from symbolic and representative concrete call states.')
prop('C11', 'Threaded reductions equal the sequential reduction',
     'A reduction split over threads is used only for operations where splitting is legitimate, starts every block from the operation\'s neutral element, combines every block exactly once in order with the initial value of the output, and so equals the sequential reduction for any number of threads and any schedule.',
     ['schedules', 'inputs'], 'all lengths, block splits and schedules of every reduction',
     'Whether a block starts from the wrong value shows only for non-neutral initial values and threaded lengths; non-associative functions are not reduced in the tests.',
     ['src/pnumpy/_pnumpy.cpp'], [('per-block start value and final combine', 'src/pnumpy/_pnumpy.cpp:ReduceThreadCallbackNumpy')], CP, 'Every pooled path of every binary function in reduce layout: block start bytes, addresses, count of partial results, final combine.')
prop('C12', 'Ledger and switches do not disturb results',
     'Recording calls in the ledger never changes what is computed: one record per call when it is on, none when off, and the switch is as before once the call returns. Calls themselves never change whether the package is enabled.',
     ['histories', 'configurations'], 'every call path under every switch setting',
     'Requires comparing every path with the ledger on and off, nested calls included; tests toggle it around a few calls.',
     ['src/pnumpy/_pnumpy.cpp', 'src/pnumpy/ledger.cpp'], [('ledger wrapper in every dispatcher', 'src/pnumpy/_pnumpy.cpp')], CP, 'Every registered function with the ledger on and off.')
prop('C13', 'A worker processes exactly the block it claimed',
     'When a call is split over threads, each worker processes exactly the elements of the blocks it claimed, at base + block times block size times step for every operand, with the claimed length and the steps of the call.',
     ['schedules', 'inputs'], 'all block numbers, strides and operand combinations on every threaded path',
     'Threading starts at 65536 elements and addresses differ only for unusual strides or operands; tests use contiguous long arrays.',
     ['src/pnumpy/_pnumpy.cpp', 'src/atop/threads.h'], [('worker callbacks', 'src/pnumpy/_pnumpy.cpp:BinaryThreadCallbackStrided')], CP, 'Every pooled path: linear normal form of each operand address against block*blocksize*step.')
TH = ['src/atop/threads.h', 'src/atop/threads.cpp', 'src/pnumpy/_pnumpy.cpp']
prop('C14', 'Blocks of split work are claimed exactly once and tile the work',
     'For every length, number of threads and claiming order, the claims handed to the threads of one call are exactly the consecutive blocks of the work, each handed out once, whose lengths add up to the work; a thread gives up only when everything has been claimed. Each successful claim is followed by the work on exactly that range and then by exactly one completion; without the pool the caller processes the whole range once.',
     ['schedules', 'inputs', 'configurations'], 'all lengths, thread counts, claiming orders and interleavings of claims',
     'Tests run on one machine with one thread count and a few lengths; a lost or doubled block appears only for particular remainders, thread limits or the zig-zag order.',
     TH, [('claims, per-worker channels and stealing', 'src/atop/threads.h:stMATH_WORKER_ITEM'), ('splitting the work', 'src/atop/threads.h:WorkMain')],
     'symbolic path extraction over the compiler IR, algebra of the claimed blocks, typestate of the worker callbacks',
     'All thread limits up to the compiled maximum are enumerated; block counts by quotient and remainder; atomicity of the counters makes the per-claim formulas hold for every interleaving.')
prop('C15', 'A threaded call publishes complete work and returns only when it is done',
     'Workers see a piece of work only after everything they use of it has been set, nothing of it changes while they may use it, and the call that issued it takes part in it and returns only after all of its blocks are completed. Concurrent calls from several Python threads each get a piece of work of their own; workers run only published work, and the number of workers stays inside the fixed tables for every machine and every requested count.',
     ['schedules', 'configurations'], 'all interleavings of caller(s) and workers, all processor counts and requested worker counts',
     'A missing wait, an early publication or a shared work slot shows only in rare interleavings; the tests issue calls from one thread.',
     TH, [('publication and completion wait', 'src/atop/threads.h:WorkMain'), ('worker loop', 'src/atop/threads.cpp:WorkerThreadFunction'), ('argument blocks', 'src/pnumpy/_pnumpy.cpp:UFUNC_CALLBACK')],
     'path enumeration and must-store dataflow over the compiler IR (publication order, completion wait, slot arithmetic)',
     'Assumes x86 store order and that a worker is not suspended across 1024 further calls.')
prop('C16', 'Code running without the interpreter lock uses no Python and no shared statics',
     'Everything that runs on worker threads or inside a NumPy loop, where the interpreter lock is not held, never calls the Python or NumPy API and never writes static data shared with a concurrent call. Object arrays are never handed to it.',
     ['schedules', 'programs'], 'every function reachable from a registered loop, type function, worker callback or thread entry',
     'The violation crashes or corrupts results only when two threads happen to be inside the same code; tests are single threaded.',
     ['src/pnumpy/_pnumpy.cpp', 'src/pnumpy/getitem.cpp', 'src/pnumpy/sorting.cpp', 'src/atop'], [('worker callbacks', 'src/pnumpy/_pnumpy.cpp'), ('loops', 'src/atop')],
     'call-graph reachability and effect analysis over the compiler IR',
     'Indirect calls are covered by treating every address-taken callback and library function as reachable. The ledger\'s static records are excluded.')
GI = ['src/pnumpy/getitem.cpp', 'src/pnumpy/common.cpp', 'src/pnumpy/_pnumpy.cpp']
prop('C17', 'Integer index selection picks the named items and never leaves the values',
     'For every item size, step of the values and of the indexes, and every integer index type, the result holds at each position the bytes of the item the index names, negative signed indexes counting from the end; an index outside the values gives the given default or the invalid value of the type, whose bytes really hold such an item. No byte outside the values, the indexes and the result is touched, split into blocks or not, and objects in the result are owned by it.',
     ['inputs', 'configurations'], 'all values, index types, item sizes, steps and block splits',
     'Depends on index values at the limits of their type, unusual item sizes and threaded lengths; the tests index a few short arrays.',
     GI, [('index kernels and their selection', 'src/pnumpy/getitem.cpp:GetItemFunction'), ('threaded callback', 'src/pnumpy/getitem.cpp:GetItemCallback'), ('default items', 'src/pnumpy/getitem.cpp:GetDefaultItem')],
     'loop-step extraction over the compiler IR, byte-provenance domain evaluated at the boundary classes of every (kernel, item size, step) combination',
     'Array lengths and indexes are taken at the boundaries of each index type; arrays in Fortran order are indexed in memory order.')
prop('C18', 'Boolean selection returns exactly the items under true, in order',
     'For every mask and values of the same length, with any step, item size and length, the result has as many items as the mask has true bytes and holds exactly those items in order. Counts of the blocks never overflow, cover every block, and the copying pass starts each block at the number of items of all blocks before it, threaded or not; the hooked indexing only takes masks and arrays for which NumPy gives the same result.',
     ['inputs', 'schedules', 'configurations'], 'all masks, lengths, item sizes, steps and block splits',
     'Overflow of byte counters, remainders of vectors and blocks, strided masks and threading show only at particular lengths and patterns; tests use a few masks.',
     GI, [('counting pass', 'src/pnumpy/getitem.cpp:BooleanCount'), ('copying pass', 'src/pnumpy/getitem.cpp:BooleanIndexInternal'), ('hook', 'src/pnumpy/_pnumpy.cpp:GetItemHook')],
     'lane-domain abstract interpretation of the vector counter, loop-step extraction and byte provenance of the copy, path enumeration of the driver',
     'Lane counts are bounded with the number of vectors per round; block starts, remainders and mask patterns are enumerated up to the vector width.')
prop('C23', 'Native functions keep references and memory balanced',
     'Every function of the native module, whatever it is given and whatever fails on the way, leaves every object with exactly the references that exist to it: what it makes and does not return is released, what it returns is owned by the caller, arguments and types keep their references, and every block of memory it takes is given back. Nothing is used or released after it was freed.',
     ['inputs', 'fault_sequences'], 'all functions of the module, kinds of arguments, and places where Python, NumPy or an allocation can fail',
     'A leaked or missing reference changes no result; it shows as memory that grows or a crash much later, and failures of allocations never happen in a test.',
     ['src/pnumpy/module_init.cpp', 'src/pnumpy/_pnumpy.cpp', 'src/pnumpy/common.cpp', 'src/pnumpy/getitem.cpp', 'src/pnumpy/sorting.cpp', 'src/pnumpy/conversions.cpp'], [('functions of the module', 'src/pnumpy/module_init.cpp:module_functions'), ('start', 'src/pnumpy/_pnumpy.cpp:newinit'), ('index selection', 'src/pnumpy/getitem.cpp:getitem')],
     'abstract interpretation of every native function over modelled Python objects with exact reference counts (ownership analysis), kinds of arguments and places of failure enumerated',
     'Objects are laid out as the interpreter lays them out, so the macros of the headers are analysed too; one failure per call.')
prop('C24', 'Native functions fail with an exception and only then return nothing',
     'Every function of the native module returns nothing exactly when it has raised an exception: unusable arguments and failures of Python, NumPy or an allocation raise one, and a call that gives a result leaves none behind. Nothing that could not be made is used, and no memory is touched outside the arguments and what was made.',
     ['inputs', 'fault_sequences'], 'all functions of the module, kinds of arguments, and places where Python, NumPy or an allocation can fail',
     'Failing allocations and imports never happen in a test, and a result with an exception left behind shows as an unrelated error later.',
     ['src/pnumpy/module_init.cpp', 'src/pnumpy/_pnumpy.cpp', 'src/pnumpy/common.cpp', 'src/pnumpy/getitem.cpp', 'src/pnumpy/sorting.cpp', 'src/pnumpy/conversions.cpp'], [('functions of the module', 'src/pnumpy/module_init.cpp:module_functions'), ('start', 'src/pnumpy/_pnumpy.cpp:newinit'), ('information on a function', 'src/pnumpy/_pnumpy.cpp:atop_info')],
     'abstract interpretation of every native function over modelled Python objects and the pending exception, kinds of arguments and places of failure enumerated',
     'The method table is read from the source, so new functions are included.')
prop('C25', 'Switches change their own setting and report it, after any history',
     'After any sequence of calls, each switch (the package, the ledger, the recycler, threading, the claiming order, the index hook, the number of workers and the workers of a function) sets exactly its own setting and every query reports the last one set. Setting a number returns the one before, numbers outside the possible ones are brought to the nearest or refused, and switching the index hook off restores exactly what was there.',
     ['histories'], 'all sequences of calls of the switches and queries, with every kind of argument',
     'Settings that influence each other, or get lost, show only in particular orders of calls; tests switch once on and once off.',
     ['src/pnumpy/_pnumpy.cpp', 'src/atop/threads.h'], [('switches', 'src/pnumpy/_pnumpy.cpp:atop_enable'), ('index hook', 'src/pnumpy/_pnumpy.cpp:hook_enable'), ('workers', 'src/atop/threads.h:SetFutexWakeup')],
     'transition system: abstract interpretation of each native switch from every reachable state of the static data, enumerated until no new state appears, against a reference with one cell per setting',
     'The state is finite, so histories of any length are covered; two functions stand for all that have a number of workers.')
prop('C26', 'Sorting by several keys is stable, last key first, or is refused',
     'Sorting by one or more keys, with a kind, cutoffs or a starting index, returns the 32-bit or 64-bit index that orders the records by the last key first, ties in the order they came in, in every part of the cutoffs; the keys stay as they were. Arguments that mean nothing (keys of different lengths, types or byte order that cannot be compared, cutoffs that do not cover the keys in order, starting indexes outside the keys or of another type, an axis) raise an exception, as does a failure, and never leave a half-sorted index or lost memory.',
     ['inputs', 'configurations', 'fault_sequences'], 'all numbers and types of keys, orders and ties of their items, arguments and failures',
     'Refusals and failures are reached only by unusual arguments, and lost stability shows only with ties across keys; tests sort a few random keys.',
     ['src/pnumpy/sorting.cpp', 'src/pnumpy/common.cpp', 'src/atop/sort.cpp'], [('entry points', 'src/pnumpy/sorting.cpp:lexsort'), ('keys', 'src/pnumpy/common.cpp:BuildArrayInfo')],
     'abstract interpretation of the entry points over a domain of ordered tokens and modelled Python objects with reference counts; kinds of arguments and places of failure enumerated',
     'All order types of the keys up to a stated length, one failure per call.')
prop('C27', 'Record arrays are converted to the columns of their fields',
     'Converting a record array gives a dictionary with one new array per field, in the order of the fields, with the type of the field and the value of the field in every record, for every record layout, item size and length, threaded or not. Nothing outside the records is read and nothing outside the columns is written; layouts the fast conversion cannot handle are refused or copied field by field.',
     ['inputs', 'configurations'], 'all record layouts, item sizes, lengths, block splits and argument shapes',
     'Vector tails, items of odd size, blocks larger than the cache and multi-thread splits depend on the layout; the tests convert two layouts.',
     ['src/atop/recarray.cpp', 'src/pnumpy/conversions.cpp', 'src/pnumpy/recarray.py'], [('copy of a block of rows', 'src/atop/recarray.cpp:ConvertRecArray'), ('argument checks', 'src/pnumpy/conversions.cpp:recarray_to_colmajor'), ('columns and offsets', 'src/pnumpy/recarray.py:recarray_to_colmajor')],
     'concrete-control abstract interpretation with symbolic bytes (byte provenance) of the copy loops, path enumeration of the entry point, abstract interpretation of the Python syntax tree',
     'Item sizes cover every branch of the copy, record sizes go from packed to larger than a cache block, row counts lie around vector and block boundaries.')
prop('C28', 'Python functions resolve, pass on their arguments and fall back to NumPy',
     'Importing the package defines every exported name and starts the engines once on every machine with AVX2, whatever the operating system says about its processors. sort gives a new sorted array for the axis, kind and order asked and leaves its argument alone; lexsort, argsort, argmin, argmax and searchsorted pass all their arguments on and give what NumPy gives where the fast path refuses. No function uses a name that is defined nowhere.',
     ['inputs', 'configurations', 'fault_sequences'], 'all calls of the Python functions, all outcomes of what they call, all machine descriptions',
     'Error paths and fallbacks run only for unusual arguments or machines; a misspelt name there is found only when it is reached.',
     ['src/pnumpy/__init__.py', 'src/pnumpy/cpu.py', 'src/pnumpy/sort.py', 'src/pnumpy/benchmark.py', 'src/pnumpy/recarray.py'], [('sorting wrappers', 'src/pnumpy/sort.py'), ('import', 'src/pnumpy/__init__.py'), ('processor count', 'src/pnumpy/cpu.py')],
     'name resolution over the Python syntax trees and the native method table; abstract interpretation of the import and of the wrappers with unknown outcomes enumerated',
     'Every outcome (present, absent, raising) of the environment and of called functions is enumerated.')
SO = ['src/atop/sort.cpp', 'src/atop/sort.h', 'src/pnumpy/_pnumpy.cpp', 'src/pnumpy/sorting.cpp']
OX = 'abstract interpretation of the compiler IR over a domain of ordered tokens (partial orders refined at every comparison)'
prop('C19', 'Sorting gives the same items in ascending order with NaN last',
     'Sorting an array, for every type, kind of sort and length, leaves exactly the items it had, in ascending order, floating-point NaN after every number and equal floating-point items in their first order; strings compare as NumPy compares them. Nothing outside the array and the workspace of the sort is read or written, strided and reversed inputs included, and where the fast sort cannot run (several dimensions, workspace not available, package switched off) the array is sorted by the replaced routine with the same arguments.',
     ['inputs', 'configurations', 'fault_sequences'], 'all arrays of every sortable type, every order of their items, all failures of allocation',
     'Every length and every order of the items takes its own path through partitions, merges and small-array networks; tests sort a few arrays of random numbers.',
     SO, [('sorting routines', 'src/atop/sort.cpp'), ('entry point', 'src/pnumpy/sorting.cpp:sort'), ('hooks', 'src/pnumpy/_pnumpy.cpp:newinit')], OX,
     'Every order type of the items (ties and NaN included) up to a stated length is covered by forks at comparisons; the cut-over lengths of the routines are also lowered so that partition, merge and heap phases run inside that bound.')
prop('C20', 'Index sorts give the stable sorting permutation',
     'Sorting indexes by an array, for every type and 32-bit or 64-bit indexes, gives a permutation of the indexes it started from that puts the items in ascending order, NaN last and ties in the order they came in; with cutoffs each part is sorted on its own and indexes stay in their part. The array being sorted by is only read, nothing outside index and workspace is written, and a sort that could not get its workspace says so.',
     ['inputs', 'configurations', 'fault_sequences'], 'all arrays, starting indexes, cutoffs and failures of allocation',
     'Stability and ties depend on the exact order of the items in every merge; tests compare a few random arrays in which ties are rare.',
     SO, [('index sorts', 'src/atop/sort.cpp:SortIndex'), ('hooked argsort', 'src/pnumpy/_pnumpy.cpp'), ('sort by several keys', 'src/pnumpy/sorting.cpp')], OX,
     'Every order type of the items up to a stated length; the threaded index sort is covered under the split it uses.')
prop('C21', 'A threaded sort merges every part exactly once, after it is sorted',
     'A sort split over threads cuts the array into parts that cover it exactly, sorts each part once and merges two neighbours only after both are complete, whatever the order in which threads finish; every merge works on its own piece of the workspace, and the last one finishes the whole array. A part that could not be sorted makes the whole sort fail rather than end with an unsorted array.',
     ['schedules', 'inputs', 'fault_sequences'], 'all orders in which the parts finish, all lengths, all failures of a part',
     'Threads are used only for long arrays and their order differs from run to run; a wrong dependency shows only when one thread is late.',
     ['src/atop/sort.cpp', 'src/atop/threads.h'], [('threaded sort', 'src/atop/sort.cpp:ParMergeCallback')],
     'path enumeration of the threaded plan over the compiler IR for every set of finished parts, must-access regions of each step; ' + OX + ' for each part and merge',
     'All subsets of finished parts are enumerated; part lengths by quotient and remainder.')
