#!/usr/bin/env python3
"""Writes properties.jsonl.  Kept as a script so the long texts stay editable."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
A = "source/fern/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {"files": [A + f for f in files],
               "mechanism": [{"name": n, "where": A + w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: anchors["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

# ---- thread pool ---------------------------------------------------------------
prop("C01", "Every submitted task runs exactly once and its future gets its outcome",
 "Every task handed to a live thread pool is executed exactly once, on one of the pool's threads, and the future returned for it becomes ready with exactly the value that task returned or the exception it threw, no matter how many threads the pool has, how many threads submit at the same time or what the other tasks do. What the submitter did before submitting is visible to the task, and what the task did is visible to whoever obtained its result. A task that throws only affects its own future: the pool keeps all of its threads and keeps executing the other tasks.",
 ["schedules", "inputs", "fault_sequences"],
 "For all pool sizes >= 1, sets of submitters and tasks (value, void, move-only, throwing, submitting further tasks) and interleavings of submitters and workers, with spurious wakeups, slow workers and failing allocations in submit.",
 "The thread pool tests run a handful of tasks under whatever one schedule the OS happens to give; they cannot reach a chosen interleaving of submit, pop, wait and notify.",
 ["core/thread_pool.h", "core/thread_pool.cc", "core/thread_safe_queue.h", "core/detail/function_wrapper.h"],
 [("submit: packaged task, push, notify one", "core/thread_pool.h"), ("worker loop: pop or wait", "core/thread_pool.cc")])
prop("C02", "A live pool starts waiting tasks promptly and in submission order",
 "While a pool has an idle thread, a submitted task is started within a bounded time (a fraction of a second, the pool's own polling interval at most, and not only when other work arrives), so every submitted task is eventually executed as long as the tasks before it end: no wakeup is ever lost for good. Tasks are started in the order in which they were submitted. A pool without work sleeps instead of spinning, and all of its threads can be busy at the same time.",
 ["schedules", "fault_sequences"],
 "For all pool sizes, arrival patterns of tasks (bursts, single tasks after idle periods, tasks waiting for each other up to the pool size) and interleavings, with spurious wakeups, stalled workers and throwing tasks, in simulated time.",
 "A lost wakeup or starved task needs a notification in a window of a few instructions; the tests only ever submit into freshly started pools and never measure when a task starts.",
 ["core/thread_pool.h", "core/thread_pool.cc", "core/thread_safe_queue.h"],
 [("condition variable with timeout", "core/thread_pool.cc"), ("FIFO work queue", "core/thread_safe_queue.h")])
prop("C03", "Destroying a pool ends all its threads and abandons nothing silently",
 "Destroying a thread pool at any moment returns within a bounded time after the tasks that are then being executed end, with all of the pool's threads ended; nothing of the pool or of its tasks runs or is touched afterwards. A task that was started runs to its end and its future receives its outcome; a task that was never started is not executed later, and its future reports a broken promise instead of staying unready forever. Everything the pool allocated and every copy of a task function is released exactly once.",
 ["schedules", "crash_points", "fault_sequences"],
 "For all pool sizes and points in the life of the pool at which it is destroyed (before the threads have started, with queued tasks, with running tasks, while idle) and all interleavings, with spurious wakeups and slow workers.",
 "Tests destroy pools whose work is finished; the shutdown handshake has windows between the test of the stop flag and the wait that only particular schedules reach.",
 ["core/thread_pool.cc", "core/join_threads.cc", "core/thread_pool.h"],
 [("stop flag and notify all", "core/thread_pool.cc"), ("joining destructor", "core/join_threads.cc")])
prop("C04", "A pool that cannot be constructed leaves nothing behind",
 "If creating one of its threads or allocating memory fails while a thread pool is being constructed, the constructor reports the failure as an exception within a bounded time, after all threads that were started have ended and everything that was allocated has been released. The process is never terminated or blocked by such a failure, and a pool constructed afterwards works normally. A constructor that does not throw has created exactly the requested number of threads, and the pool reports that number as its size.",
 ["fault_sequences", "schedules"],
 "For all pool sizes, all positions of a failing thread creation or allocation during construction, and all interleavings with the threads that were started already.",
 "The tests never make thread creation or allocation fail.",
 ["core/thread_pool.cc", "core/join_threads.cc", "core/join_threads.h"],
 [("constructor's exception path", "core/thread_pool.cc")])
prop("C05", "The shared work queue is a linearizable FIFO queue",
 "Concurrent push, try-pop and emptiness tests on one thread-safe queue behave as if they happened one at a time in some order consistent with real time: no element is lost, duplicated or reordered, and a pop fails only if the queue is empty at some moment during the call. What the pusher did before pushing is visible to whoever pops the element. An operation that fails with an exception (allocation failure, throwing element) leaves the queue usable, holding exactly the elements it held before; an element that could not be handed to the caller of a pop stays in the queue.",
 ["schedules", "histories", "fault_sequences"],
 "For all histories of concurrent push/try_pop/empty calls by any number of threads, with allocation failures inside push.",
 "The single queue test is sequential.",
 ["core/thread_safe_queue.h"], [("mutex around the queue", "core/thread_safe_queue.h")])

# ---- algorithms ----------------------------------------------------------------
par = "For all pool sizes, array extents (0-d, 1-d and 2-d; fewer, as many and more rows than threads), element types, no-data patterns and no-data policies, execution policies (sequential, parallel, and the run-time selected one) and worker interleavings."
prop("C06", "Element-wise algebra gives the defined result under every execution policy",
 "For every element, arithmetic, rounding, power/root/logarithm/factorial/gamma, comparison, boolean and trigonometric operations write the mathematically defined result for that element's arguments; where requested, the result is no-data if and only if an argument is no-data, or is outside the operation's domain, or the result is out of range. This holds for each combination of array and scalar arguments, and every element of the result is produced, exactly from the arguments at the same position. The outcome (values and no-data) is the same for the sequential, the parallel and the run-time selected execution policy, for every number of worker threads and every schedule.",
 ["schedules", "inputs", "configurations"], par,
 "The tests compare a few 3x2 arrays under one OS schedule, mostly with the default policies; block boundaries and interleavings depend on the pool size, the extents and the schedule.",
 ["algorithm/core/unary_local_operation.h", "algorithm/core/binary_local_operation.h", "algorithm/core/n_ary_local_operation.h", "algorithm/core/index_ranges.cc", "algorithm/algebra/elementary", "algorithm/algebra/boole", "algorithm/trigonometry", "algorithm/policy"],
 [("block-wise parallel dispatch", "algorithm/core/binary_local_operation.h"), ("partitioning of index ranges", "algorithm/core/index_ranges.cc"), ("domain and range policies", "algorithm/algebra/elementary")])
prop("C07", "Selection, copying and no-data operations give the defined result",
 "Conditional selection (if-then, if-then-else), cover, clamp, cast, fill, copy, spatial offset, replacing, merging, uniting and intersecting no-data, and compress/decompress write for every element exactly the documented value and no-data state, for each combination of array and scalar arguments. Compress keeps all valid elements in order and counts them, and decompress puts them back at the valid positions, so that compressing and decompressing is lossless. The outcome is the same for the sequential, the parallel and the run-time selected execution policy, for every number of worker threads and every schedule, including empty ranges.",
 ["schedules", "inputs", "configurations"], par,
 "The tests use one small extent and one schedule per operation; compress in parallel depends on how valid elements fall into blocks.",
 ["algorithm/core/if.h", "algorithm/core/cover.h", "algorithm/core/clamp.h", "algorithm/core/cast.h", "algorithm/core/fill.h", "algorithm/core/copy.h", "algorithm/core/offset.h", "algorithm/core/merge_no_data.h", "algorithm/core/unite_no_data.h", "algorithm/core/intersect_no_data.h", "algorithm/core/compress.h", "algorithm/core/decompress.h"],
 [("per-block compress and compaction", "algorithm/core/detail/compress.h"), ("if dispatch", "algorithm/core/detail/if.h"), ("offset with fill value or no-data border", "algorithm/core/detail/offset.h")])
prop("C08", "Aggregates do not depend on how the input is split over threads",
 "Count, sum, mean, minimum, maximum and user accumulations over an array, and element-wise minimum and maximum of two arrays, equal the value computed over exactly the valid elements (up to rounding for floating point sums); an aggregate is no-data if and only if there is no valid element, or the result is out of range. Combining the partial results of blocks never counts an element twice, drops one or lets a block without valid elements influence the result. The outcome is the same for the sequential, the parallel and the run-time selected execution policy, for every number of worker threads and every schedule.",
 ["schedules", "inputs", "configurations"], par,
 "The tests aggregate 2 or 6 elements with one schedule; blocks that are completely no-data and the order in which blocks finish are not controlled.",
 ["algorithm/core/unary_aggregate_operation.h", "algorithm/core/binary_aggregate_operation.h", "algorithm/statistic", "algorithm/accumulator"],
 [("per-block accumulators and their merge", "algorithm/core/unary_aggregate_operation.h"), ("count's per-block results", "algorithm/core/binary_aggregate_operation.h"), ("accumulator merge operators", "algorithm/accumulator")])
prop("C09", "Focal operations give the defined result across block borders",
 "Convolution with square kernels of any radius (with every combination of the weighting, no-data, no-data-focus and out-of-image policies), slope, gradient, laplacian and the Lax operation write for every cell the value defined by the cell's neighbourhood, its no-data and the image border; no neighbour is dropped or used twice because it lies in another thread's block. A cell is no-data exactly when the policies say so. The outcome is the same for the sequential, the parallel and the run-time selected execution policy, for every number of worker threads, every extent at least as large as the kernel and every schedule.",
 ["schedules", "inputs", "configurations"],
 par + " Kernel radii 1 to 3, extents from the kernel size up.",
 "The tests check a few fixed rasters and mostly sequentially; corner, side and inner regions are split over tasks depending on extent and pool size.",
 ["algorithm/convolution/convolve.h", "algorithm/convolution/detail/convolve.h", "algorithm/space/focal/slope.h", "algorithm/algebra/vector/gradient.h", "algorithm/algebra/vector/laplacian.h", "algorithm/algebra/vector/lax.h"],
 [("corner, side and inner region tasks", "algorithm/convolution/detail/convolve.h"), ("gradient with no-data neighbours", "algorithm/algebra/vector/detail/gradient.h")])
prop("C10", "Parallel algorithms are free of data races and confined to their arguments",
 "While a parallel algorithm runs, no two threads access the same memory location without ordering if one of the accesses is a write: not in the results, in the no-data masks, in no-data policies, in the inputs, nor in the library's own state. An algorithm never writes to its inputs and never reads or writes outside of the memory of its arguments and its own temporary storage, and when it returns all writes of its tasks are complete and visible to the caller. This also holds when the result aliases an input element by element, where the operation allows that, and when the no-data masks of different results are separate or shared per element.",
 ["schedules", "inputs", "configurations"], par,
 "A race rarely changes the outcome of a small test on real hardware; the tests do not track ordering between accesses at all.",
 ["algorithm/core", "algorithm/convolution/detail/convolve.h", "algorithm/statistic", "core/thread_pool.h"],
 [("per-block tasks sharing policies and results by reference", "algorithm/core/unary_local_operation.h")],
 observe=["memory accesses of the compiled algorithms, ordered by the happens-before relation of the simulated run"])
prop("C11", "Callers sharing one pool do not affect each other",
 "Several threads that run parallel algorithms at the same time on the same thread pool (through one shared execution policy, copies of it, or their own policy around the same pool), with arguments of their own or shared inputs, all terminate, and each obtains exactly the result it would have obtained alone. A call that fails in one caller does not make another caller fail, hang or lose results. The pool lives for as long as any policy refers to it, and its threads end when the last one is gone.",
 ["schedules", "histories", "fault_sequences"],
 "For all numbers of callers and pool sizes, mixes of algorithms and extents, and interleavings of callers and workers, with stalled workers, spurious wakeups and failing calls among them.",
 "Every test uses its pool from one thread at a time.",
 ["algorithm/policy/execution_policy.h", "algorithm/policy/parallel_execution_policy.h", "core/thread_pool.h", "core/thread_safe_queue.h"],
 [("shared ownership of the pool", "algorithm/policy/parallel_execution_policy.h"), ("one work queue for all callers", "core/thread_pool.h")])
prop("C12", "A parallel call that fails reports it only after all of its tasks have stopped",
 "If a task of a parallel algorithm throws, or memory runs out while its tasks are being created, submitted or executed, the call ends with that exception in the caller, and not before every task of that call that was submitted has finished or can no longer start: afterwards nothing of the call reads or writes its arguments or the caller's memory. The failure never terminates or blocks the process and loses no memory. The pool stays usable with all of its threads, and repeating the call without the failure gives the correct result.",
 ["fault_sequences", "schedules"],
 "For all parallel algorithms, positions of the failing allocation or throwing element, pool sizes and interleavings.",
 "No test makes an algorithm fail halfway; a task outliving its call is visible only if the schedule lets it run after the caller has unwound.",
 ["algorithm/core/unary_local_operation.h", "algorithm/core/binary_local_operation.h", "algorithm/core/unary_aggregate_operation.h", "algorithm/core/binary_aggregate_operation.h", "algorithm/core/detail", "algorithm/convolution/detail/convolve.h", "algorithm/algebra/vector/detail/gradient.h", "core/thread_pool.h"],
 [("loop that submits, loop that gets the futures", "algorithm/core/unary_local_operation.h")])

# ---- I/O -----------------------------------------------------------------------
prop("C13", "Reading a raster file gives the file's contents or an I/O error, never less",
 "Reading a raster band either fills the whole destination with exactly the values stored in the file and marks exactly the cells holding the file's no-data value as no-data, or throws the library's I/O error naming the file: when it does not exist, cannot be opened, is not a raster, cannot be read completely, or holds values of another type. Asking for another value type than the file's or reading into other extents than the band's is such an error too. Disk errors, short and interrupted reads and truncated files at any point never end the process and, as far as the driver of the file's format reports failed reads, never yield a normal return with missing or wrong values. Nothing stays open after the call, and once the fault is gone the same read succeeds.",
 ["fault_sequences", "crash_points", "inputs"],
 "For all points of a read at which the disk fails, returns less, is interrupted, or the file turns out truncated, and all supported value types, extents, layouts and no-data values.",
 "The tests read one healthy 3x2 file and a missing one; they cannot make the disk fail in the middle of a read.",
 ["io/gdal/read.h", "io/gdal/detail/read.h", "io/gdal/dataset.cc", "io/gdal/dataset_handle.cc", "io/core/file.cc"],
 [("open, band, RasterIO, no-data marking", "io/gdal/detail/read.h")])
prop("C14", "Reading a COARDS NetCDF variable gives the stored value or an I/O error",
 "Reading a scalar variable from a NetCDF file either yields exactly the stored value, or throws the library's I/O error naming the file: when it does not exist, cannot be opened, is not NetCDF, does not follow the COARDS convention, lacks the variable, or the variable is not a scalar, has another type, or cannot be read. Disk errors, short and interrupted reads and truncated files at any point never end the process and never yield a wrong value. Nothing stays open after the call, and once the fault is gone the same read succeeds.",
 ["fault_sequences", "crash_points", "inputs"],
 "For all points of a read at which the disk fails, returns less, is interrupted, or the file turns out truncated, and all combinations of convention attribute and variables.",
 "The tests read healthy files and a few invalid ones; no test makes the disk fail in the middle of a read.",
 ["io/netcdf/coards/detail/read.h", "io/netcdf/core/detail/variable.h", "io/netcdf/core/variable.cc", "io/netcdf/core/attribute.cc", "io/netcdf/core/dataset.cc", "io/netcdf/coards/dataset.cc"],
 [("checks before the read, then the read itself", "io/netcdf/coards/detail/read.h")])
prop("C15", "An opened dataset is closed exactly once, when its last owner goes",
 "Every raster or NetCDF dataset the library opens is closed exactly once: when the handle that owns it at that moment is destroyed or replaced, on normal and on exceptional paths alike. Moving a handle passes on the ownership, so the dataset stays open and usable through the new owner, and the old one neither closes nor uses it anymore. Drivers are registered for as long as at least one client object exists, in any order of creation and destruction, and gone when the last one goes.",
 ["histories", "fault_sequences"],
 "For all histories of opening, moving, assigning, reading through and destroying handles and clients, with failing opens in between.",
 "The tests never move a handle and check no closing at all.",
 ["io/gdal/dataset_handle.h", "io/gdal/dataset_handle.cc", "io/netcdf/core/dataset_handle.h", "io/netcdf/core/dataset_handle.cc", "io/gdal/gdal_client.cc"],
 [("closing destructors", "io/gdal/dataset_handle.cc"), ("counted registration of drivers", "io/gdal/gdal_client.cc")])
prop("C16", "Parsing an XML stream yields the complete document or an exception",
 "Parsing a syntax tree, an uncertainty document or an operations document from a stream gives a result that depends only on the bytes of the document, not on how the stream delivers them: in pieces of any size, with delays between them. If the stream fails or ends before the end of the document, or the document is not well-formed or not valid, parsing throws; it never returns a partial result, ends the process, or loses memory. A parser object keeps no state of a failed document: parsing the next document gives the right result. Threads that parse at the same time, each with its own parser object or sharing one, do not influence each other. (Operations documents are covered up to the first complete operation, since reading operations is unfinished; elements of the same type may be nested eight deep, the limit of the run-time library.)",
 ["fault_sequences", "crash_points", "inputs"],
 "For all documents, ways of delivering them, and points at which the stream fails, is cut off or is damaged, and all positions of a failing allocation.",
 "The tests parse a few complete in-memory strings.",
 ["language/ast/xml/xml_parser.cc", "language/io/uncertml2/uncertml2_parser.cc", "language/operation/xml/operation_xml_parser.cc"],
 [("parser stacks per element", "language/ast/xml/xml_parser.cc")])
prop("C17", "Parsing a GPX file yields the complete document or the documented error",
 "Parsing a GPX document from a file either yields the complete contents of the file or throws: the library's I/O error naming the file if it does not exist or cannot be opened or read, and the library's parse error naming the file, and the position if the document is wrong somewhere, if its contents are not a well-formed and valid document of the version asked for, cut-off documents included. Disk errors, short and interrupted reads at any point never end the process and never yield a partial document. Nothing stays open after the call, and once the fault is gone the same file parses.",
 ["fault_sequences", "crash_points", "inputs"],
 "For all documents and points at which opening or reading the file fails, returns less, is interrupted, or the file turns out truncated.",
 "The GPX test does not even run without a network connection; nothing makes the disk fail.",
 ["io/xml/parse.h", "io/gpx/parse.cc", "io/core/file.cc"],
 [("open, parse, translate the parser's exceptions", "io/xml/parse.h")])

# ---- not decided by this technique ----------------------------------------------
prop("C18", "Streaming statistics are exact and independent of the order of the values",
 "The accumulators for mean, variance, standard deviation, range, median and mode report, after any sequence of values, the statistic of exactly these values, up to rounding. Copying and resetting an accumulator are independent of other instances.",
 ["inputs"], "For all sequences of values.",
 "The tests use a few values.",
 ["algorithm/accumulator"], [("accumulators", "algorithm/accumulator")])
prop("C19", "Index ranges partition the extents exactly",
 "Splitting the index space of an array for any number of threads gives ranges that are pairwise disjoint and together cover every index exactly once, in order.",
 ["inputs"], "For all extents and thread counts.",
 "The tests check a few extents.",
 ["algorithm/core/index_ranges.cc"], [("range computation", "algorithm/core/index_ranges.cc")])
prop("C20", "The symbol table resolves every name to the innermost definition",
 "Looking up a name gives the value added last in the innermost open scope that defines it, and closing a scope removes exactly the definitions made in it.",
 ["histories"], "For all sequences of opening and closing scopes, adding and erasing values.",
 "The tests run a few fixed sequences.",
 ["language/core/symbol_table.h", "core/scope.h"], [("scope stack", "language/core/symbol_table.h")])
prop("C21", "Threading and annotating a script follows its control flow and types",
 "The control flow graph threaded through a script visits its statements in execution order, each use of a name is linked to its definitions, and the annotated types of expressions are those of the operations called.",
 ["programs"], "For all scripts.",
 "The visitor tests cannot be run here: they need the script parser, which needs Python 2.",
 ["language/ast/visitor", "language/operation/core"], [("visitors", "language/ast/visitor")])
prop("C22", "Names, paths and type descriptions survive parsing and printing",
 "Data names, paths, data type and value type descriptions are split, joined, printed and parsed without loss: printing what was parsed gives an equivalent description, and malformed descriptions are rejected.",
 ["inputs"], "For all strings.",
 "The tests check a few strings.",
 ["core/data_name.cc", "core/path.cc", "core/data_types.cc", "core/value_types.cc"], [("parsing of names", "core/data_name.cc")])
prop("C23", "Arrays and rasters keep shape, mask and contents consistent",
 "Arrays, masked arrays and rasters keep one mask element per cell; copying, moving, reshaping and masking by value keep cells and masks aligned and leave the source of a copy untouched.",
 ["inputs"], "For all extents and value types.",
 "The tests check a few extents.",
 ["feature/core"], [("masked array", "feature/core/masked_array.h")])

with open(OUT, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
