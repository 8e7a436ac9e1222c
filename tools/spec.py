"""The properties, as data: properties.jsonl and MANIFEST.json are generated from this file by gen.py."""
P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, na=na))


ESP = "path-sensitive typestate analysis (abstract interpretation) of the linked LLVM IR"
TRUST = ("Sound for the modelled paths up to the documented abstractions (loops by induction with widening, one abstract element per pointer array); "
         "trusts clang's IR, the MPI standard's description of each MPI routine, and that failed library assertions do not return.")

prop("P01", "Blocking one-sided calls are complete at the origin when they return",
     "When a blocking put, get, accumulate, value, vector, strided, read-modify-write or put-with-flag call returns, every MPI one-sided operation it "
     "issued is complete at the origin: the caller may reuse the source buffer and may read the result. No function returns while one of its own local "
     "variables is still the source or result buffer of an operation that is not complete.",
     ["inputs", "configurations", "schedules"], "every argument, every transfer method and run-time setting, every target, every MPI progress schedule",
     "The tests run a few transfer methods on a shared-memory transport where operations complete eagerly, so a missing completion is not visible.",
     ["src/onesided.c", "src/strided.c", "src/vector.c", "src/value_ops.c", "src/rmw.c", "src/gmr.c"],
     [("flush after issue", "gmr_flush calls in PARMCI_Put/Get/Acc, ARMCII_Iov_op_* and the strided direct path"),
      ("request completion", "gmr_fetch_and_op with request atomics")], ESP, TRUST)
prop("P02", "Temporary buffers are filled before use and released only when unused",
     "A temporary buffer a transfer uses in place of a caller's buffer is filled from the caller's data before it is handed to MPI as a source, and what "
     "was fetched into it is copied to the caller's buffer before it is released. Neither a temporary buffer nor a result buffer is released, "
     "overwritten or read while an operation that uses it is incomplete, and whole-buffer copies use the size the buffer was allocated with.",
     ["inputs", "configurations", "schedules"], "every scale factor, element type, source location, guard method, vector and strided method, blocking and nonblocking",
     "Use after release and early reads only corrupt data under particular timing; the copy method and most vector methods are never run by the tests.",
     ["src/buffer.c", "src/onesided.c", "src/onesided_nb.c", "src/strided.c", "src/vector.c", "src/vector_nb.c"],
     [("source staging", "ARMCII_Buf_prepare_*_vec / ARMCII_Buf_finish_*_vec and the inline copies in Acc, AccS, GetS"),
      ("completion before release", "gmr_flush before MPI_Free_mem")], ESP, TRUST)
prop("P03", "Fences and barriers complete operations on every live allocation",
     "A fence towards a process completes, at the target, all earlier operations of the caller towards it on every live allocation; the all-targets fence "
     "does so for every target, the wait-for-process and wait-for-all calls do so at the origin, and a barrier fences, then synchronises the processes, then "
     "synchronises memory on every allocation. A live allocation in which the target process has no part never makes such a call fail.",
     ["histories", "inputs", "configurations"], "every set of live allocations (any number, any groups), every target, every flush setting",
     "Tests hold one or two world allocations and look at results after a barrier on shared memory; subsets, several regions and remote completion are not observable there.",
     ["src/util.c", "src/onesided_nb.c", "src/gmr.c"],
     [("walk over all regions", "PARMCI_Fence, PARMCI_AllFence, PARMCI_WaitProc, PARMCI_WaitAll, ARMCII_Sync"),
      ("flush one region", "gmr_flush, gmr_flushall, gmr_sync")], "traversal obligations over the region list, checked path-sensitively on the linked LLVM IR", TRUST)
prop("P04", "Put-with-flag writes the flag only after the data is complete at the target",
     "A contiguous or strided put-with-flag writes the flag on the target with the caller's value on every path that returns, and issues that write only "
     "after all of its data is complete at the target, so a process that sees the flag sees the data.",
     ["schedules", "inputs", "configurations"], "every MPI delivery order, every size and stride shape, every transfer method",
     "Only a transport that reorders operations shows the difference; the tests never use the flag calls across processes under reordering.",
     ["src/onesided.c", "src/strided.c", "src/util.c", "src/gmr.c"],
     [("data, remote completion, flag", "PARMCI_Put_flag, PARMCI_PutS_flag")], "path-sensitive ordering (happens-before obligation) analysis on the linked LLVM IR", TRUST)
prop("P05", "Nonblocking handles keep every request; wait and test tell the truth",
     "Every request a nonblocking operation obtains is recorded in the caller's handle without losing earlier ones. Waiting on a handle completes all "
     "recorded requests and leaves the handle empty and reusable; testing reports completion exactly when nothing is outstanding, and changes the handle only then.",
     ["histories", "inputs", "configurations"], "every number of operations on one handle, every kind of nonblocking operation, every transfer method",
     "Tests use each handle for one operation and wait at once; nothing observes lost requests because eager transports complete them anyway.",
     ["src/onesided_nb.c", "src/vector_nb.c", "src/strided_nb.c", "src/gmr.c", "src/armci.h"],
     [("append a request", "gmr_handle_add_request"), ("complete them", "PARMCI_Wait, PARMCI_Test"), ("initialise", "ARMCI_INIT_HANDLE")], ESP,
     TRUST + " Handles are assumed initialised and used by one thread at a time.")

prop("P06", "Read-modify-write is atomic, of the right kind, and returns the old value",
     "A fetch-and-add or swap on an int or long performs exactly one atomic operation, with the matching operator, datatype and operand, on the named "
     "location of the named process. The value found there before the update is what the caller's local variable holds on return.",
     ["inputs", "schedules", "configurations"], "every operation code, operand, target and flush or atomics setting; any concurrent updates",
     "Tests run the int and long add and swap on one setting; an update split in two, or a result read early, needs contention or another setting to show.",
     ["src/rmw.c", "src/gmr.c"], [("one fetch-and-op", "PARMCI_Rmw, gmr_fetch_and_op")], ESP, TRUST)
prop("P07", "Accumulates add the scaled source, atomically, in the caller's element type",
     "A contiguous, strided or vector accumulate adds the source, multiplied by the scale factor (complex numbers by the complex product), to the target "
     "element-wise in the element type the caller named, and only by atomic additions. Scaling is skipped only when the factor is one.",
     ["inputs", "configurations"], "every element type, scale factor, shape and transfer method, blocking and nonblocking",
     "Tests accumulate doubles with few factors through the default methods; other types, complex factors and the other transfer methods never run.",
     ["src/buffer.c", "src/onesided.c", "src/onesided_nb.c", "src/strided.c", "src/vector.c", "src/gmr.c"],
     [("scaled copy", "ARMCII_Buf_acc_is_scaled, ARMCII_Buf_acc_scale, ARMCII_Buf_prepare_acc_vec"), ("element type", "ARMCII_Acc_type_translate")],
     "path-sensitive effect analysis and symbolic-term normalisation (polynomials) on the linked LLVM IR", TRUST)

prop("P08", "No operation is issued outside the target process's part of an allocation",
     "A one-sided operation whose remote bytes are not all inside the target process's part of one live allocation of the target's group, because it starts "
     "before it, runs past its end by even one byte, or names a process that is not a member, is rejected and never reaches MPI.",
     ["inputs", "configurations"], "every address, size, element type, stride shape, segment list and target process, all transfer methods",
     "Tests only make valid calls; an unchecked or off-by-one bound shows only for a particular size, type or irregular allocation.",
     ["src/gmr.c", "src/onesided.c", "src/strided.c", "src/vector.c"],
     [("range checks", "ARMCII_Assert_msg calls in gmr_*_typed, gmr_fetch_and_op"), ("lookup", "gmr_lookup")],
     "path-sensitive interval and linear-fact analysis (guard dominance) on the linked LLVM IR", TRUST)
prop("P09", "Allocations give every member the memory asked for, open until freed",
     "A collective allocation gives every member of its group exactly the bytes it asked for as remotely accessible memory, returns every member's base address "
     "in that member's place (all NULL only if nobody asked for memory), and is open for access from before the call returns until it is freed. Freeing it "
     "ends access before the memory goes, and releases memory the library obtained separately exactly once. With allocation debugging on, memory starts zeroed.",
     ["inputs", "configurations"], "every group, every mix of sizes including zero, every allocation setting",
     "Tests allocate a few equal sizes on the world group under two settings; leaks, wrong extents and closed windows do not show on shared memory.",
     ["src/gmr.c", "src/malloc.c", "src/armci-memdev.c"],
     [("creation", "gmr_create"), ("release", "gmr_destroy"), ("entry points", "PARMCI_Malloc, ARMCI_Malloc_group, PARMCI_Free, ARMCI_Free_group")],
     "path-sensitive effect and typestate analysis on the linked LLVM IR", TRUST)
prop("P10", "Addresses resolve to the live allocation that contains them",
     "Looking up an address of a process finds a live allocation if and only if that process's part contains the address, for any number of allocations created "
     "and freed in any order. A new allocation is found at once by the absolute rank of every member, a freed one never again; a collective free releases the "
     "one allocation that was named, also for processes that pass NULL.",
     ["histories", "inputs"], "every sequence of allocations and frees, every group, every address",
     "Tests hold a few world allocations and free them in simple orders; a wrong link or slice index needs particular histories or subgroups.",
     ["src/gmr.c", "src/malloc.c"],
     [("registration and removal", "gmr_create, gmr_destroy"), ("search", "gmr_lookup")],
     "shape analysis of the linked list (link invariants by induction) and path-sensitive analysis on the linked LLVM IR", TRUST)
prop("P11", "Temporary resources are released exactly once",
     "Whatever a library call obtains for its own use (heap memory, MPI memory, datatypes, process groups, communicators, info objects) it releases "
     "exactly once with the matching routine, or stores where it outlives the call, on every path on which it returns. Nothing is used after it was "
     "released, and a datatype is committed before it is used.",
     ["inputs", "configurations", "histories"], "every public operation, argument, transfer method, guard method and setting; arbitrarily many calls",
     "A leak or a release by the wrong routine in one configuration does not change any result until resources run out; the copy methods are never run.",
     ["src/strided.c", "src/strided_nb.c", "src/vector.c", "src/buffer.c", "src/onesided.c", "src/groups.c", "src/gmr.c", "src/message.c", "src/mutex_hdl_queue.c"],
     [("temporaries", "ARMCII_Buf_prepare_*/finish_*, the IOV and DIRECT strided paths, Iov_op_datatype"),
      ("process groups", "Group_init_from_comm, Absolute_id, Translate_absolute_to_group, gmr_create"),
      ("message temporaries", "armci_msg_*gop_scope, armci_msg_sel_scope")],
     "linear-ownership dataflow analysis (abstract interpretation) of the linked LLVM IR", TRUST)
prop("P12", "Destroying an object releases everything creating it obtained",
     "Freeing a group, a mutex set or an allocation releases every communicator, window, memory block and record that creating it left behind, with the "
     "matching routine, for every element and under every setting, and releases nothing that creation did not define. The library is set up by the "
     "first and torn down, with all remaining allocations, by the last of nested initialisations only.",
     ["inputs", "configurations", "histories"], "every way of creating the object, every combination of the settings both depend on, every nesting of initialisations",
     "Leaked communicators and windows are invisible until MPI runs out of them; noncollective groups and uncached translation are never run; tests initialise once.",
     ["src/groups.c", "src/mutex_hdl_queue.c", "src/gmr.c", "src/init_finalize.c", "src/malloc.c"],
     [("groups", "ARMCI_Group_create_child / Group_split / Group_dup / Group_free"), ("mutexes", "ARMCIX_Create_mutexes_hdl / Destroy_mutexes_hdl"),
      ("allocations", "gmr_create / gmr_destroy"), ("library", "PARMCI_Init_thread_comm / PARMCI_Finalize")],
     "ownership summaries of creating and destroying functions from abstract interpretation of the linked LLVM IR, matched cell by cell", TRUST)
prop("P13", "Mutexes exclude, hand over, and pass nobody over",
     "Locking and unlocking exchange the caller's own mark for the marks of all other processes in a single epoch that excludes everybody else, at the home of the mutex named. A process waits for "
     "exactly one hand-over if and only if another process's mark was set, and unlocking hands over to exactly one marked process, searching from the next rank on, with a message the waiter "
     "accepts. A new mutex has one cleared mark per process and a window of its own over the group, and locking by default uses the mutexes last created.",
     ["inputs", "schedules"], "every number of processes and mutexes, every home, every combination of marks read and so every interleaving of lockers",
     "Tests take a lock a few times with few processes; a missed mark, a race between exchange and decision, or an unfair hand-over shows only under particular contention.",
     ["src/mutex_hdl_queue.c", "src/mutex.c"],
     [("lock", "ARMCIX_Lock_hdl"), ("unlock", "ARMCIX_Unlock_hdl"), ("creation", "ARMCIX_Create_mutexes_hdl, PARMCI_Create_mutexes / Destroy_mutexes")],
     "path-sensitive abstract interpretation of lock and unlock over arbitrary process counts and marks, checked against the queueing protocol's transition rules", TRUST)
prop("P14", "Operations and flushes reach the process and address the caller named",
     "Every one-sided operation and flush is directed at the caller's target process translated into the group of the allocation that contains the remote "
     "address, at exactly the offset of that address in that process's part. Translating between absolute and group ranks yields the same process, "
     "with and without cached tables.",
     ["inputs", "configurations"], "every group (any order, any subset), every target, every allocation and transfer method",
     "Almost all tests use the world group, where every translation is the identity and a wrong table or slice index is invisible.",
     ["src/gmr.c", "src/internals.c", "src/groups.c", "src/vector.c", "src/strided.c"],
     [("rank translation", "ARMCII_Translate_absolute_to_group, ARMCI_Absolute_id, ARMCI_Group_init_from_comm"),
      ("displacement", "gmr_*_typed, gmr_fetch_and_op")], "path-sensitive symbolic-term analysis on the linked LLVM IR", TRUST)

prop("P15", "Initialisation and finalisation are complete and in order",
     "Initialisation refuses to go on unless MPI is up, not finalised, and provides the thread level requested; it works on a private duplicate of the communicator given, "
     "gives every setting its value before anything that depends on it runs, and does the same however it is invoked. The progress thread runs only between complete initialisation and "
     "teardown, exactly if it is in force, and is told to stop before it is waited for. Finalisation ends every allocation before it gives up the library's communicator, which nothing uses afterwards.",
     ["inputs", "configurations", "histories"], "every communicator, thread level, environment and number of allocations left, and every way of initialising",
     "Each test starts and stops the library once, the same way, over the world communicator, without threads; a setting read before it is set, or a use after teardown, depends on configuration.",
     ["src/init_finalize.c", "src/groups.c", "src/gmr.c"],
     [("initialisation", "PARMCI_Init_thread_comm and its wrappers"), ("finalisation", "PARMCI_Finalize, gmr_destroy_all"), ("progress", "progress_function, ARMCI_Progress_thread")],
     ESP, TRUST)
prop("P16", "Threads are kept apart, and never by a lock held while waiting",
     "A lock the library takes is released exactly once on every path on which the call returns and never taken again while held, and locks held together are taken in one order everywhere. State shared "
     "by all threads, such as the list of allocations, is changed only under the lock that guards it. No lock is held while a call waits for a message from another process or hands one over.",
     ["schedules", "inputs", "configurations"], "every interleaving of concurrent calls at the thread level that allows them, every path through each call",
     "No test makes concurrent calls; a missing release or a race on the allocation list shows only under particular interleavings or on error paths.",
     ["src/gmr.c", "src/mutex.c", "src/mutex_hdl_queue.c"],
     [("allocation list", "gmr_create, gmr_destroy (gmr_list_mutex)"), ("default mutexes", "PARMCI_Create_mutexes, Lock, Unlock (armci_mutex_hdl_mutex)")],
     "lockset and lock-balance analysis: path-sensitive abstract interpretation of every public call that reaches a lock or shared state", TRUST)

prop("P17", "Global operations give every process the right result",
     "A global operation combines the vectors of exactly the processes in the named scope and group with the named operator, element by element in the named type and count, and every "
     "such process finds the result, and nothing stale, in its vector. The absolute-value operators are right for every element and sign, and a selection delivers the contributed "
     "record with the smallest or largest key, whole, whatever its length.",
     ["inputs", "configurations"], "every operator name, element type, vector length, value, scope, group and buffer setting",
     "A test reduces a few small vectors with one setting; the node and master scopes, copied buffers and long records are never run.",
     ["src/message_gop.c", "src/message.c", "src/topology.c"],
     [("reduction", "armci_msg_gop_scope / armci_msg_group_gop_scope and their typed forms"), ("operators", "ARMCI_Absmin/Absmax/Msg_sel_min/max op functions"), ("selection", "armci_msg_sel_scope")],
     "path-sensitive abstract interpretation of every global operation per operator, type, scope and buffer setting, with an inductive element-wise analysis of the user-defined operators", TRUST)
prop("P18", "Messages, broadcasts and message barriers deliver exactly what was sent",
     "A message or broadcast hands MPI exactly the caller's bytes with the caller's tag and process as a rank of the communicator used, and after a receive the buffer holds the bytes received and nothing beyond them has changed. "
     "The length and sender of a received message are reported. A message barrier is passed by nobody before every process of its group has entered it (and, where asked, synchronised its memory), and the process tree names the parent and children of a binary tree over all processes.",
     ["inputs", "configurations", "schedules"], "every buffer, length, tag, process, scope, group and buffer setting",
     "A test sends a few messages with one setting; copied buffers, groups that are not the world and barriers with synchronisation are never run.",
     ["src/message.c", "src/groups.c", "src/topology.c"],
     [("point to point", "armci_msg_snd / rcv / rcvany / snd_rcv"), ("broadcast", "armci_msg_bcast / brdcst / group_bcast_scope"), ("barrier", "parmci_msg_barrier / armci_msg_group_barrier"), ("tree", "armci_msg_bintree")],
     "path-sensitive abstract interpretation of every message operation per scope and buffer setting", TRUST)
prop("P20", "Public calls can be replaced by a profiling tool, one call seen per call made",
     "Every public operation is available under its public name, and that name does exactly what the profiling-layer name of the same operation does, with and "
     "without weak-symbol support. The library itself never goes through a replaceable public name, so a tool that replaces public calls sees the calls the application made and no others.",
     ["programs", "configurations"], "every public operation, every set of calls a tool replaces, tool chains with and without weak symbols",
     "No test replaces a public call, and the build without weak symbols never runs.",
     ["src/parmci.c", "src/onesided.c", "src/strided.c", "src/vector.c", "src/malloc.c", "src/armci-memdev.c", "src/util.c", "src/mutex.c"],
     [("weak aliases", "#pragma weak ARMCI_X = PARMCI_X in each source"), ("forwarding wrappers", "parmci.c")],
     "symbol and call-graph analysis of the linked program in two build variants, with path-sensitive analysis of the forwarding wrappers", TRUST)
prop("P25", "Successful calls report success and value queries return the value fetched",
     "Every data transfer, read-modify-write, wait, allocation, mutex-set, group and setup call that returns after doing its work returns zero, under every "
     "transfer method and setting. A call that gets a single value returns exactly the bytes its own transfer delivered, in the full width of its type.",
     ["inputs", "configurations"], "every call, argument, transfer method and run-time setting",
     "Most tests ignore return codes, and several methods and variants of the calls are never run.",
     ["src/onesided.c", "src/onesided_nb.c", "src/strided.c", "src/strided_nb.c", "src/vector.c", "src/vector_nb.c", "src/value_ops.c", "src/rmw.c", "src/malloc.c", "src/init_finalize.c"],
     [("status", "return statements of the public functions"), ("values", "PARMCI_GetValueInt/Long/Float/Double")],
     "path-sensitive analysis of returned symbolic terms on the linked LLVM IR", TRUST)

prop("P23", "Strided transfers touch exactly the blocks they describe",
     "A strided transfer moves, once each, exactly the blocks of its description: every block starts at the base address plus the sum of strides times indices, for all "
     "indices inside the counts, on both sides, with no further restriction on the strides and beyond 2 GiB from the base. Packed copies hold block i at position i, and "
     "the transfer reaches the caller's process with the caller's type, scale and handle.",
     ["inputs", "configurations"], "every stride and positive count for each number of stride levels up to 4 (5 in the thorough tier), every strided method and guard method",
     "Tests use a few dense shapes of moderate size with strides that are multiples of each other.",
     ["src/strided.c", "src/strided_nb.c"],
     [("address lists", "ARMCII_Strided_to_iov"), ("datatypes", "ARMCII_Strided_to_dtype"), ("packed copies", "armci_write_strided, armci_read_strided, the scaled copies of AccS and NbAccS")],
     "inductive analysis of address enumeration and datatype construction over symbolic terms of the linked LLVM IR", TRUST)

prop("P21", "Vector transfers move every segment once, to the address of its number",
     "A vector operation transfers each segment of each non-empty descriptor exactly once, in the descriptor's length, between the source and the destination address "
     "of the same number. Where local segments are staged, each copy is made from, used for and returned to the segment of its own number, and none is left out.",
     ["inputs", "configurations"], "every number of descriptors and segments, every length and address, every guard method, batched and one-at-a-time transfer",
     "Tests run one method without staging on short lists of equal shape, and compare whole arrays filled with one pattern.",
     ["src/vector.c", "src/vector_nb.c", "src/buffer.c"],
     [("descriptor loops", "PARMCI_PutV, PARMCI_GetV, PARMCI_AccV and the Nb variants"), ("segment loops", "ARMCII_Iov_op_batched"),
      ("staging", "ARMCII_Buf_prepare_read_vec, ARMCII_Buf_prepare_acc_vec, ARMCII_Buf_prepare_write_vec, ARMCII_Buf_finish_write_vec")],
     "inductive, path-sensitive analysis of segment loops over symbolic terms of the linked LLVM IR", TRUST)

prop("P22", "Conflicting segments are transferred one at a time, each to its own allocation",
     "With vector checks on, when the segments of a descriptor were found to overlap or to lie in several allocations, none is issued before the previous one is "
     "complete at the origin. Each then goes to the allocation that contains its own remote address.",
     ["inputs", "configurations"], "every outcome of the two checks for every descriptor, every guard method, blocking and non-blocking calls",
     "No test turns the vector checks on.",
     ["src/vector.c", "src/vector_nb.c"],
     [("method choice", "ARMCII_Iov_op_dispatch"), ("one at a time", "ARMCII_Iov_op_batched"), ("checks", "ARMCII_Iov_check_overlap, ARMCII_Iov_check_same_allocation")],
     "path-sensitive analysis of issue and completion order over symbolic terms of the linked LLVM IR", TRUST)

# ---- not decidable by static analysis here
prop("N01", "Global reductions compute the right numbers",
     "A global operation over a vector leaves, in every process, the element-wise reduction of all processes' inputs under the named operator.",
     ["inputs", "schedules"], "every vector content, type, operator and process count", "Tests use a few small vectors.",
     ["src/message.c", "src/message_gop.c"], [("reduction", "armci_msg_gop_scope, ARMCII_Absmin_op, ARMCII_Absmax_op")],
     na="The numeric results depend on run-time data and on MPI's own reductions; only the operator and type selection is a static fact (P17).")
prop("N02", "Locks are granted in bounded time",
     "A process that waits for a mutex is eventually granted it as long as holders release it.",
     ["schedules"], "every interleaving of all processes", "Tests contend a few times.", ["src/mutex_hdl_queue.c"],
     [("queue hand-over", "ARMCIX_Lock_hdl, ARMCIX_Unlock_hdl")],
     na="Liveness over the interleavings of several processes' window contents; needs a model of the protocol's concurrent states, not a source-level dataflow fact (the per-process protocol steps are P13).")
prop("N03", "Overlap detection finds exactly the overlapping segments",
     "The vector overlap test reports an overlap if and only if two segments of the vector share a byte.",
     ["inputs"], "every set of segments", "Tests use random trees.", ["src/conflict_tree.c", "src/vector.c"],
     [("interval tree", "ctree_insert, ctree_rotate_*"), ("quadratic test", "ARMCII_Iov_check_overlap")],
     na="Needs the functional correctness of a balanced search tree over unbounded run-time intervals, which no sound static argument in reach establishes (how the answer is used is P22).")
prop("N05", "Operations to one location keep the order the caller issued them",
     "A process's operations on one location take effect in program order when location consistency is requested.",
     ["schedules", "configurations"], "every network order", "A single test samples it.", ["src/gmr.c", "tests/test_location_consistency.c"],
     [("accumulate ordering", "info keys and the atomicity setting")],
     na="Depends on how the MPI library orders one-sided operations at run time; the source only selects operation kinds.")
prop("N06", "Noncollective group creation terminates with one communicator for all members",
     "Noncollective group creation ends, for every member list, with one communicator that contains exactly the listed processes in order.",
     ["inputs", "schedules"], "every member list", "Never run by the tests.", ["src/groups.c"],
     [("pairwise merging", "ARMCI_Group_create_comm_noncollective")],
     na="The pairwise merging recursion's result is a run-time function of member count and rank across processes; its termination and agreement need an inductive argument over all processes.")
