#!/usr/bin/env python3
"""Writes properties.jsonl (kept so the list stays easy to edit)."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Contiguous put and get move exactly the named bytes",
 "A blocking contiguous put makes the named byte range of the target process's shared allocation equal to the source bytes, and a blocking contiguous get makes the local buffer equal to the named remote bytes, for any length, any byte offset inside any live allocation, any target including the caller itself, and source or destination buffers that are private or themselves in shared memory. No other byte of any process changes, and the source is not modified. The same address may denote different allocations on different processes; the (address, process) pair alone selects the memory accessed.",
 ["inputs","programs","schedules","configurations"],
 "all lengths, offsets, alignments, target ranks, private/shared origin buffers, allocation layouts (including equal virtual addresses on different ranks) and completion schedules the MPI library may choose, in every configuration",
 "test_onesided/test_onesided_shared move whole fixed-size buffers with ring neighbours; no interior offsets, no neighbouring-byte check, no layouts in which addresses collide across ranks, and Open MPI completes transfers eagerly so missing completion is invisible.",
 ["src/onesided.c","src/gmr.c"],
 [("PARMCI_Put/PARMCI_Get dispatch on target==me and shared origin buffer","src/onesided.c"),("gmr_lookup of (pointer, process) and displacement arithmetic","src/gmr.c gmr_lookup, gmr_put_typed, gmr_get_typed")],
 ["ARMCI_Put","ARMCI_Get"])
p("C02","Strided operations equal the loop of contiguous transfers they denote",
 "A strided put, get or accumulate (blocking or non-blocking) with any number of stride levels, any positive counts and any source/destination strides has exactly the effect of the nested loop of contiguous transfers of count[0] bytes at the addresses obtained by adding index*stride at each level. Every byte outside those blocks, including the gaps between blocks on both sides, is untouched. The result does not depend on which strided or vector transfer method is configured.",
 ["inputs","programs","configurations"],
 "all stride_levels (0..7 and deeper), counts and block numbers (including 1), independent source and destination strides including contiguous, padded, non-nested and non-multiple strides, all element types for accumulate, both strided methods and all vector methods",
 "test_puts/gets/accs use one 2-D patch shape with equal strides on both sides; ARMCI_PutS_latency uses contiguous-ish shapes. Levels above 2, unequal strides, count==1 and gap preservation are not sampled.",
 ["src/strided.c","src/strided_nb.c"],
 [("stride walk into an I/O vector","src/strided.c ARMCII_Strided_to_iov"),("stride to MPI datatype","src/strided.c ARMCII_Strided_to_dtype"),("direct/IOV selection","src/strided.c PARMCI_PutS, PARMCI_GetS, PARMCI_AccS; src/strided_nb.c")],
 ["ARMCI_PutS","ARMCI_GetS","ARMCI_AccS","ARMCI_NbPutS","ARMCI_NbGetS","ARMCI_NbAccS"])
p("C03","Vector (I/O vector) operations equal their sequence of segment transfers",
 "A vector put, get or accumulate over any list of descriptors, each with any number of equally sized segments, has exactly the effect of performing each segment's contiguous transfer; descriptors with no segments or zero bytes are no-ops. This holds for segments in any order, adjacent, aliased sources, segments in different allocations of the target process when segment checking is enabled, accumulate segments that overlap when checking is enabled, and for every batching limit, datatype chunk size and vector method.",
 ["inputs","programs","configurations"],
 "all descriptor lists (0..4 descriptors, 0..1000 segments, any segment size), any segment order and placement, all IOV methods, batch limits and chunk sizes, with and without checks",
 "test_putv uses one descriptor with one regular shape; no multi-descriptor, empty, unordered, cross-allocation or chunk-boundary cases, and IOV datatype paths are compiled out of the tested configuration.",
 ["src/vector.c","src/vector_nb.c"],
 [("dispatch on overlap / same allocation / method","src/vector.c ARMCII_Iov_op_dispatch"),("batched issue with flush limit","src/vector.c ARMCII_Iov_op_batched"),("indexed datatypes in chunks","src/vector.c ARMCII_Iov_op_datatype")],
 ["ARMCI_PutV","ARMCI_GetV","ARMCI_AccV","ARMCI_NbPutV","ARMCI_NbGetV","ARMCI_NbAccV"])
p("C04","Accumulate computes target += scale * source for all six element types",
 "Every accumulate form (contiguous, strided, vector, blocking or not) adds scale times the source element to the corresponding target element, for int, long, float, double, single-complex and double-complex, with complex scaling using complex multiplication. The source buffer is unchanged and remains the caller's, and scale is read by the time the call returns. Scale one and scale zero are not special beyond that arithmetic.",
 ["inputs","programs","configurations"],
 "all element types, scale values (zero, one, minus one, purely imaginary, pairs whose components mimic one), element counts and values, private and shared sources",
 "test_accs uses double with one scale; acc latency test uses a few types with scale==1; complex scaling with a non-trivial imaginary part and unchanged-source checks are absent.",
 ["src/onesided.c","src/onesided_nb.c","src/buffer.c","src/internals.c"],
 [("identity-scale test and scaling loops","src/buffer.c ARMCII_Buf_acc_is_scaled, ARMCII_Buf_acc_scale"),("type mapping","src/internals.c ARMCII_Acc_type_translate"),("temporary scaled buffers","src/buffer.c ARMCII_Buf_prepare_acc_vec")],
 ["ARMCI_Acc","ARMCI_AccS","ARMCI_AccV","ARMCI_NbAcc"])
p("C05","Concurrent accumulates are element-wise atomic: no update is lost",
 "When any number of processes accumulate into the same or overlapping elements concurrently, using any mix of contiguous, strided, vector, blocking and non-blocking accumulate forms with the same element type, the value after global completion is the initial value plus the sum of all contributions. This holds in every interleaving the MPI library permits.",
 ["schedules","programs","configurations"],
 "all interleavings and completion orders of overlapping accumulates from 2..4 ranks, all forms mixed, including the owner accumulating into its own memory",
 "test_acc_overlap covers one symmetric pattern under one real schedule; Open MPI applies each accumulate under an exclusive lock so a get-modify-put rewrite would rarely lose an update.",
 ["src/gmr.c","src/onesided.c","src/onesided_nb.c","src/vector.c","src/strided.c"],
 [("MPI_Accumulate/MPI_Raccumulate with MPI_SUM on the element type","src/gmr.c gmr_accumulate_typed")],
 ["ARMCI_Acc","ARMCI_AccS","ARMCI_AccV","ARMCI_NbAcc*"])
p("C06","Read-modify-write is atomic and linearizable",
 "Fetch-and-add and swap, on int and on long locations, return the value the location held immediately before and install the new one in a single atomic step, so any concurrent history of them on a location has a sequential explanation consistent with the returned values and the final contents. Swap with the caller's own location value stores exactly that value, fetch-and-add adds the signed increment, and only sizeof(int) or sizeof(long) bytes of the target and of the local result are touched.",
 ["schedules","histories","configurations"],
 "all concurrent histories of fetch-and-add and swap by 2..4 ranks on shared int/long counters, mixed with each other, any proc incl. self, request-based or direct atomics, any interleaving",
 "test_rmw_fadd sums increments on one counter; swap returning a lost or duplicated token, long variants with values above 32 bits and neighbours of the counter are not checked.",
 ["src/rmw.c","src/gmr.c"],
 [("operation/type selection and result write-back","src/rmw.c PARMCI_Rmw"),("single atomic MPI operation","src/gmr.c gmr_fetch_and_op")],
 ["ARMCI_Rmw"])
p("C07","Completed operations are locally complete: buffers reusable, gets landed",
 "After a blocking operation returns, or after waiting on (or successfully testing) the handle of a non-blocking operation, or waiting for all operations to its target or to all targets, the caller may overwrite, free or read the local buffers: later changes to them never affect the data transferred, and a get's destination holds the data. A handle can collect any number of operations and completes only when all of them have; temporaries the library makes live until then; a handle is reusable after completion, and a test eventually reports completion with zero.",
 ["schedules","programs","configurations"],
 "all sequences of non-blocking operations on explicit, implicit (NULL) and aggregate handles, all completion calls, and all schedules in which the MPI library reads source buffers or fills destination buffers as late as it is allowed to",
 "Real MPI libraries copy small messages at issue, so premature reuse of a buffer or a wait that completes only part of the requests passes; non-blocking tests check one or two operations per handle.",
 ["src/onesided_nb.c","src/strided_nb.c","src/vector_nb.c","src/gmr.c","src/onesided.c"],
 [("request collection on a handle","src/gmr.c gmr_handle_add_request"),("wait/test on collected requests","src/onesided_nb.c PARMCI_Wait, PARMCI_Test"),("local flushes","src/gmr.c gmr_flush, gmr_flushall; src/onesided_nb.c PARMCI_WaitProc, PARMCI_WaitAll")],
 ["ARMCI_Wait","ARMCI_Test","ARMCI_WaitProc","ARMCI_WaitAll"])
p("C08","Fence and barrier make earlier operations remotely complete",
 "After a fence to a process (or a fence to all), every put and accumulate the caller issued earlier to that process (to any process), on any live allocation, is visible to every process that subsequently synchronises with the caller, and to direct loads by the owner. After the global barrier, every operation issued by any process before it is visible to all, and no process leaves it before all have entered.",
 ["schedules","programs","configurations"],
 "all programs with puts/accumulates on several allocations and groups followed by any of the completion calls and any message-passing synchronisation, under schedules in which remote effects are delayed until a remote-completion call demands them",
 "With shared-memory Open MPI, transfers are remotely complete on return, so a missing, partial (first allocation only) or local-only flush is invisible to every test.",
 ["src/util.c","src/gmr.c","src/message.c"],
 [("flush of every allocation window","src/util.c PARMCI_Fence, PARMCI_AllFence, PARMCI_Barrier"),("remote flush","src/gmr.c gmr_flush, gmr_flushall")],
 ["ARMCI_Fence","ARMCI_AllFence","ARMCI_Barrier","armci_msg_barrier"],
 [dict(name="gmr_list",meaning="all live shared allocations; fences iterate it",where="src/gmr.c")])
p("C09","Operations by one process on the same location take effect in program order",
 "Blocking operations issued by one process to the same memory of the same target take effect in issue order: a get observes the caller's own earlier puts, accumulates and read-modify-writes, and the last of several puts is the value that remains. This holds across all operation forms (contiguous, strided, vector, value) and for the caller's own memory, in the default configuration on in-order transports, and on arbitrarily reordering MPI transports when atomic RMA or end-to-end flushing is configured.",
 ["schedules","programs","configurations"],
 "all per-process sequences of blocking operations over overlapping ranges of one target, with the transport modelled as in-order (default configuration) or arbitrarily reordering (NO_FLUSH_LOCAL or RMA_ATOMICITY configurations)",
 "test_location_consistency runs three fixed two-operation patterns on an eager transport.",
 ["src/onesided.c","src/gmr.c","src/vector.c","src/strided.c"],
 [("flush after each blocking operation","src/onesided.c, src/strided.c, src/vector.c"),("accumulate-based put/get with ordering info","src/gmr.c gmr_put_typed, gmr_get_typed; src/init_finalize.c RMA_ORDERING")],
 ["ARMCI_Put","ARMCI_Get","ARMCI_Acc*","ARMCI_PutS","ARMCI_GetS","ARMCI_PutV","ARMCI_GetV","ARMCI_Rmw"])
p("C10","Put-with-flag never shows the flag before the data",
 "When a process observes the flag written by a put-with-flag (contiguous or strided) to have its new value, all the data of that put is visible to it, whatever other allocations and groups exist. Exactly the flag integer and the named data change, and the calls return zero.",
 ["schedules","inputs","configurations"],
 "all data shapes, flag placements (same or another allocation, any interior offset), polling consumers by local load or remote get, and schedules delaying remote completion of the data arbitrarily",
 "No test calls the flag operations; with an eager transport even an unfenced implementation would pass.",
 ["src/onesided.c","src/strided.c"],
 [("put, fence, put of the flag","src/onesided.c PARMCI_Put_flag; src/strided.c PARMCI_PutS_flag")],
 ["ARMCI_Put_flag","ARMCI_PutS_flag"])
p("C11","Mutexes give mutual exclusion without lost wake-ups or deadlock",
 "At most one process at a time holds a given mutex on a given host process, distinct mutexes and distinct hosts are independent, and every lock request is granted once the holders before it release (no lost wake-up, no deadlock that the caller's own lock order does not cause). This holds for the global mutex set and for any number of group-based mutex handles with different counts per process, including zero.",
 ["schedules","programs","configurations"],
 "all interleavings of lock/unlock programs by 2..5 ranks on several mutexes, hosts and handles, including handles over subgroups with non-identity rank order and per-rank mutex counts",
 "test_mutex takes locks in one symmetric pattern under whatever schedule occurs; a lost hand-off appears only when a requester enqueues between the holder's read of the queue and its release.",
 ["src/mutex.c","src/mutex_hdl_queue.c"],
 [("waiting-queue bytes updated under an exclusive window lock","src/mutex_hdl_queue.c ARMCIX_Lock_hdl, ARMCIX_Unlock_hdl"),("hand-off message","src/mutex_hdl_queue.c ARMCIX_Unlock_hdl")],
 ["ARMCI_Lock","ARMCI_Unlock","ARMCI_Create_mutexes","ARMCIX_Lock_hdl","ARMCIX_Unlock_hdl"])
p("C12","Allocation histories: addresses, sizes, isolation and free",
 "Every collective allocation (world or group, any per-process size including zero) returns to all members the same table of base addresses, with NULL or no memory for zero-sized members, and gives each member its requested bytes, disjoint from every other live allocation. Any live byte can be accessed by any member until the allocation is freed (members without memory pass NULL to free), freeing one allocation never affects the contents or reachability of others whatever the order, and finalization releases what is left.",
 ["histories","inputs","configurations"],
 "all sequences of malloc/free (world and overlapping groups, zero and irregular sizes, FIFO/LIFO/arbitrary free order, reuse of addresses) interleaved with accesses",
 "test_malloc/_irreg/_group allocate and free in one order with regular sizes and rarely touch surviving allocations after a free.",
 ["src/malloc.c","src/gmr.c"],
 [("creation, address exchange and translation table","src/gmr.c gmr_create"),("leader search for freeing by NULL holders; list unlink","src/gmr.c gmr_destroy"),("lookup","src/gmr.c gmr_lookup")],
 ["ARMCI_Malloc","ARMCI_Free","ARMCI_Malloc_group","ARMCI_Free_group","ARMCI_Malloc_local","ARMCI_Free_local","ARMCI_Malloc_memdev"],
 [dict(name="gmr_list",meaning="doubly linked list of live allocations",where="src/gmr.c")])
p("C13","Groups number, translate and isolate processes correctly",
 "A group created from a rank list, from a parent group's ranks, by split or by duplication contains exactly the named processes in the specified order on every member; rank, size and absolute-id queries are mutually inverse, one-sided operations always take absolute ids, and non-members get rank -1 / size 0 and can free the group object. The default group steers only later group creation and queries, and collective and non-collective creation, with or without cached rank translation, give the same groups.",
 ["histories","inputs","configurations"],
 "all rank lists (any size, any order), nesting (child of child, split of child, dup), colours and keys with ties, non-members, default-group changes, both creation modes, caching on or off",
 "test_groups builds halves in ascending order in the default mode; permuted members, nested parents, non-collective mode and uncached translation are not run.",
 ["src/groups.c","src/internals.c"],
 [("collective and recursive non-collective creation","src/groups.c"),("cached translation tables","src/groups.c ARMCII_Group_init_from_comm; src/internals.c ARMCII_Translate_absolute_to_group")],
 ["ARMCI_Group_create","ARMCI_Group_create_child","ARMCIX_Group_split","ARMCIX_Group_dup","ARMCI_Group_rank","ARMCI_Group_size","ARMCI_Absolute_id","ARMCI_Group_set_default","ARMCI_Group_get_default","ARMCI_Group_free"])
p("C14","Message-layer collectives and point-to-point compute their defined results",
 "Global operations (+, *, min, max, absmin, absmax, and the logical and bitwise operators) leave on every member the element-wise reduction over all members for every element type, group and scope; select leaves on all the contribution holding the extreme value; broadcast delivers the root's bytes; send/receive deliver bytes, length and sender and never mix with messages the program exchanges directly through MPI; tree queries describe one binary tree over all processes. Buffers may be private or shared memory, and bytes beyond the stated length do not change.",
 ["inputs","programs","configurations","schedules"],
 "all operators x types x lengths x groups x scopes, arbitrary values including negatives and ties, private and shared buffers, both shared-buffer methods, MPI libraries that apply user-defined reductions in any association and segmentation",
 "test_igop checks integer sum only; absmin/absmax, select, group variants, other types and shared buffers are never exercised.",
 ["src/message.c","src/message_gop.c"],
 [("operator and type mapping, user-defined reductions","src/message_gop.c, src/message.c"),("shared-buffer guards around MPI calls","src/message.c, src/buffer.c")],
 ["armci_msg_igop","armci_msg_dgop","armci_msg_group_gop_scope","armci_msg_sel_scope","armci_msg_bcast","armci_msg_snd","armci_msg_rcv","armci_msg_rcvany","armci_msg_bintree"])
p("C15","Strided pack and unpack are exact inverses and touch nothing else",
 "Packing a strided region writes the region's blocks consecutively in loop order into exactly the product-of-counts bytes of the buffer, and unpacking writes exactly the region's blocks from the buffer; unpack after pack reproduces the region, and gap bytes and bytes beyond the buffer are never read into results or written. The inputs (strides, counts, source) are not modified.",
 ["inputs"],
 "all stride_levels 0..7, counts, strides (including large padding) and contents",
 "No test calls the pack/unpack entry points directly; they are reached only for one shape with shared source buffers in COPY mode.",
 ["src/strided.c"],
 [("pack/unpack via the strided iterator","src/strided.c armci_write_strided, armci_read_strided, ARMCII_Strided_to_iov_iter")],
 ["armci_write_strided","armci_read_strided"])
p("C16","Interval conflict detection is exact",
 "Inserting a closed byte interval into the conflict tree succeeds exactly when it overlaps no interval already present, and a rejected insertion leaves the set unchanged; locating an interval finds an overlapping member exactly when one exists; the tree stays a balanced search tree of all accepted intervals for every insertion order. Consequently the vector overlap check flags a segment list exactly when two of its segments share a byte.",
 ["histories","inputs"],
 "all insertion sequences of intervals (adjacent, nested, identical, single-byte, ascending/descending/zig-zag orders, extreme addresses) and all segment lists",
 "ctree tests insert one shuffled sequence of disjoint intervals and never check rejected insertions, balance, or adjacency.",
 ["src/conflict_tree.c","src/conflict_tree.h","src/vector.c"],
 [("AVL interval insert/locate/rotate","src/conflict_tree.c"),("overlap check over segments","src/vector.c ARMCII_Iov_check_overlap")],
 ["ctree_insert","ctree_locate","ctree_destroy"])
p("C17","Tuning configuration never changes results",
 "For every valid combination of the documented environment settings (transfer methods, batching and chunk limits, shared-buffer method, window creation method, flush, atomicity, ordering, request-atomic, progress, group and allocation options), a race-free program computes the same memory contents and return values. Unknown or out-of-range values are ignored or clamped rather than crashing, and boolean, integer and string settings take the documented meanings.",
 ["configurations","programs","inputs"],
 "all combinations of the environment settings (including malformed values) times generated race-free programs",
 "The suite runs three configurations; the other options and all pairwise combinations are never run, and malformed values never occur.",
 ["src/init_finalize.c","src/util.c","src/gmr.c","src/vector.c","src/strided.c","src/groups.c"],
 [("environment parsing","src/util.c ARMCII_Getenv*; src/init_finalize.c"),("per-option code paths","src/gmr.c, src/vector.c, src/strided.c, src/buffer.c")],
 ["ARMCI_Init"])
p("C18","Initialization and finalization are counted, collective and repeatable",
 "Initialization may be repeated and only as many finalizations as initializations end it; extra finalizations are harmless; between them the library reports itself initialized and every service works, including on a caller-supplied communicator that permutes or is a subset of the MPI world, whose ranks then are the process ids. After finalization the library can be initialized again with a fresh, fully working state, and every initialization entry point returns zero.",
 ["histories","configurations"],
 "all sequences of the initialization and finalization entry points (init, init_args, init_thread, init_mpi_comm, init_thread_comm), nested and repeated, on MPI_COMM_WORLD, permuted duplicates and subsets, with work in between",
 "Every test initializes once on MPI_COMM_WORLD and finalizes once.",
 ["src/init_finalize.c","src/groups.c","src/gmr.c"],
 [("reference count","src/init_finalize.c PARMCI_Init_thread_comm, PARMCI_Finalize"),("world group from the communicator","src/groups.c ARMCII_Group_init_from_comm")],
 ["ARMCI_Init*","ARMCI_Finalize","ARMCI_Initialized"],
 [dict(name="ARMCII_GLOBAL_STATE.init_count",meaning="nesting depth",where="src/init_finalize.c")])
p("C19","Every history uses MPI correctly, leaks nothing and stays memory-safe",
 "Whatever valid sequence of calls a program makes, the library never reads or writes memory outside the caller's buffers and its own live storage, never uses freed or uninitialised objects, and issues only valid MPI calls (open epochs, committed types, in-window targets, live handles, completed requests). Once the program has freed its objects and finalized, every MPI object and every byte the library obtained has been released exactly once.",
 ["histories","programs","configurations","schedules"],
 "all valid API histories over all services, in every configuration, with the MPI layer auditing every call and deferring completion as far as allowed, under address and undefined-behaviour sanitizers",
 "Tests run without sanitizers on an MPI library that neither audits arguments nor reports leaks.",
 ["src/gmr.c","src/strided.c","src/strided_nb.c","src/vector.c","src/vector_nb.c","src/buffer.c","src/groups.c","src/mutex_hdl_queue.c","src/init_finalize.c","src/message.c"],
 [("paired create/free of windows, types, infos, groups, communicators, requests and temporaries","throughout src")],
 ["all API calls"])
p("C20","Invalid accesses are rejected, not performed",
 "A one-sided operation whose remote range does not lie inside one live allocation of the named target (wrong address, an address valid only on another process, a freed allocation, or a range running past its end) terminates with a diagnostic instead of transferring data or touching other memory; so do releasing unknown memory, accumulate sizes that are not a multiple of the element size, and mutex misuse (creating the global set twice, locking or destroying without one, an index out of range). When the application itself gives up through ARMCI_Error or armci_msg_abort, the whole program stops with its code, ARMCI_Error printing its message.",
 ["inputs","histories"],
 "all operation forms times all classes of invalid remote range, type and mutex argument, in all configurations",
 "test_assert is the only negative test and is not in the suite; failures abort the job so the harness never samples them.",
 ["src/gmr.c","src/onesided.c","src/onesided_nb.c","src/vector.c","src/strided.c","src/rmw.c","src/mutex.c","src/malloc.c"],
 [("lookup and range assertions","src/gmr.c gmr_put_typed and siblings, gmr_fetch_and_op"),("argument checks","src/mutex.c, src/onesided.c")],
 ["diagnostic on stderr and MPI_Abort"])
p("C21","Value operations transfer exactly one value of their type",
 "Put-value calls store exactly the given int, long, float or double at the target (bit for bit, including extreme and special values) and nothing beside it, and get-value calls return exactly the stored value, for remote and own memory and in blocking and non-blocking form; the argument needs no storage after the call.",
 ["inputs","configurations"],
 "all four types, all bit patterns (extremes, NaN payloads, negative zero), all targets and offsets, blocking and non-blocking",
 "No test calls the value operations.",
 ["src/value_ops.c"],
 [("wrappers over put and get with the type's size","src/value_ops.c")],
 ["ARMCI_PutValue*","ARMCI_NbPutValue*","ARMCI_GetValue*"])
p("C22","Direct load/store access and one-sided access stay coherent",
 "Values a process stores into its own shared memory between access-begin and access-end are seen by other processes' later one-sided reads once they synchronise, and one-sided writes of other processes completed before a synchronisation are seen by the owner's loads inside a later access section or after a barrier, in both MPI memory models. Access calls accept any address inside a live local allocation.",
 ["schedules","programs","configurations"],
 "all alternations of direct and one-sided access over several allocations, with message barriers (sync option on), ARMCI barriers, and point-to-point synchronisation, with the window's public and private copies unified or separate",
 "All test machines have unified memory, where omitting the synchronisation is invisible; the *_dla tests follow one pattern.",
 ["src/onesided.c","src/gmr.c","src/util.c","src/message.c","src/internals.c"],
 [("MPI_Win_sync on access boundaries and barriers","src/onesided.c PARMCI_Access_begin, PARMCI_Access_end; src/util.c PARMCI_Barrier; src/gmr.c gmr_sync")],
 ["ARMCI_Access_begin","ARMCI_Access_end","ARMCI_Barrier"])
p("C23","The profiling interface is complete, equivalent and interposable",
 "Every public operation documented for profiling exists under both its ARMCI_ and PARMCI_ names with the same behaviour, and a tool that defines an ARMCI_ entry point and forwards to the PARMCI_ one sees each application call to it exactly once, with unchanged results and without seeing the library's internal calls.",
 ["programs","configurations"],
 "all interposable entry points, any subset overridden at once, generated programs calling them through either name",
 "test_parmci interposes on one function in one program.",
 ["src/parmci.c","src/armci.h","PROFILING.md"],
 [("weak aliases or wrapper functions","src/parmci.c and weak-symbol blocks in every source file")],
 ["symbol tables","wrapper call counts"])
p("C24","Thread-multiple use and the progress thread preserve all results",
 "When initialized at the thread-multiple level, calls made concurrently by several threads of one process, and the optional asynchronous progress thread, produce the same results as some serial order of the calls, and finalization stops the progress thread.",
 ["schedules","configurations"],
 "all interleavings of two or more threads per process issuing operations, mutex calls and progress, and the progress thread's start/stop",
 "The suite never requests MPI_THREAD_MULTIPLE and never enables the progress thread.",
 ["src/init_finalize.c","src/gmr.c","src/mutex.c"],
 [("pthread mutex around shared state","src/gmr.c gmr_list_mutex; src/mutex.c"),("progress thread","src/init_finalize.c")],
 ["ARMCI_Init_thread"])
p("C25","Process identity and topology queries are mutually consistent",
 "Process id and count from the message layer match the world group; domain queries partition all processes: each process belongs to exactly one domain, ids translate back and forth, the sum of domain sizes is the process count, and same-node answers agree with domain membership.",
 ["inputs","configurations"],
 "all process counts, domain ids and process ids, on MPI world and on caller-supplied communicators",
 "No test queries domains.",
 ["src/topology.c","src/message.c"],
 [("one process per domain mapping","src/topology.c")],
 ["armci_domain_*","ARMCI_Same_node","armci_msg_me","armci_msg_nproc"])
p("C26","The shipped profiling library reports exactly the application's calls and leaves results unchanged",
 "Linked with the shipped profiling library, every program behaves as without it, and the report written at finalize counts, for each call category, exactly the calls the application made and the bytes those calls transferred, for every call form (contiguous, strided, vector, blocking or not) and every way of initializing the library.",
 ["programs","configurations"],
 "all programs over the public operations, all transfer shapes and vector lists, each initialization call, each process count",
 "The suite never links the profiling library.",
 ["profiler/profiling.c","PROFILING.md"],
 [("statistics recording and report","profiler/profiling.c ARMCII_Update_hist, ARMCII_Update_stats, ARMCII_Profile_dump")],
 ["the text report written at ARMCI_Finalize","the program's own results"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
