import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Shifts and site maps move the right value between any set of nodes",
"A nearest-neighbour shift or a general site map (forward, backward, bidirectional, array-indexed or user-defined, alone, nested, inside expressions or restricted to a subset) gives every destination site exactly the value its source site held, whatever the machine geometry, data layout, element type, and order or timing of message delivery. The result is the one a single node computes; the source operand is unchanged.",
["schedules","configurations","programs"],
"all programs of shifts/maps over all element types, all machine geometries dividing the lattice, all layouts, and all message timings (eager or rendezvous sends, arbitrary delays and node speeds)",
"The unit tests and examples only run on one node, where no message is ever sent; the gather, send, receive and scatter tables and the overlap of communication and evaluation are never executed.",
["lib/qdp_parscalar_specific.cc","include/qdp_parscalar_specific.h","lib/qdp_map.cc","include/qdp_map.h","lib/qdp_scalar_specific.cc","include/qdp_scalar_specific.h"],
[("per-node gather/scatter offset tables built from the map function","lib/qdp_parscalar_specific.cc Map::make"),("message exchange and buffer selection while evaluating a shift","include/qdp_parscalar_specific.h FnMap"),("nearest-neighbour map functions","lib/qdp_map.cc")],
["values of the destination field at every lattice coordinate, on every node"])

p("C02","Every site has exactly one owner and all nodes agree on it",
"For every admissible lattice size, machine geometry and layout, each lattice coordinate belongs to exactly one node and one local index; the forward and inverse coordinate lookups agree with each other, and every node computes the same answer for every site. Every subset of a set (checkerboards, time slices, user-defined colourings) contains exactly the sites of its colour, each once, and the union over nodes covers the lattice.",
["configurations","inputs"],
"all lattice sizes, machine geometries and logical topologies the message layer may hand out, all layouts, all colouring functions",
"Tests run on one node with a couple of sizes; agreement between nodes that compute ownership independently is never observed.",
["lib/qdp_parscalar_layout.cc","lib/qdp_scalar_layout.cc","lib/qdp_layout.cc","lib/qdp_subset.cc","include/qdp_subset.h","include/qdp_layout.h"],
[("site/node/linear-index functions per layout","lib/qdp_parscalar_layout.cc, lib/qdp_scalar_layout.cc"),("subset site tables","lib/qdp_subset.cc Set::make")],
["answers of the layout queries on every node","sites written by an assignment restricted to a subset"])

p("C03","Global reductions are right and identical on every node",
"Sums (plain, subset, multi-subset), norms, inner products, global maximum and minimum and the NaN/Inf/finite/normal tests return the same value on all nodes, equal to the reduction over the whole lattice (exactly when the arithmetic is exact). This holds for every machine geometry, every element type, every order in which partial results are combined and every arrival order of nodes and threads.",
["schedules","configurations","inputs"],
"all reductions over all element types and subsets (including subsets with no site on some node), all geometries, all combination orders and arrival orders",
"Single-node tests never combine partial results; a subset without local sites, a wrong reduction operator, a wrong length or an order-dependent result cannot show up.",
["include/qdp_parscalar_specific.h","lib/qdp_parscalar_specific.cc","include/qdp_scalar_specific.h","lib/qdp_parscalar_global_sum.cc","include/qdp_globalfuncs.h","include/scalarsite_generic/generic_blas_local_sumsq.h"],
[("local accumulation then a collective","include/qdp_parscalar_specific.h sum/norm2/innerProduct/globalMax"),("wrappers over the message layer's collectives","include/qdp_parscalar_specific.h QDPInternal")],
["value returned on each node"])

p("C04","Reading or writing one site, or copying sites in bulk, touches just that data",
"Reading a single site gives every node the value stored at that coordinate; writing a single site changes that site and no other, on any machine geometry and message timing. Bulk extraction to and insertion from site arrays transfers exactly the sites of the given subset and leaves everything else alone. An assignment to a subset, in any form, or to a field held only on a subset, sets every site of the subset and nothing else.",
["schedules","configurations","histories"],
"all sequences of single-site reads/writes and bulk copies over all coordinates, geometries and delivery orders, including several in flight one after another from different owners",
"On one node every site is local; routing from the owning node and broadcasting to all others is never exercised.",
["include/qdp_parscalar_specific.h","lib/qdp_parscalar_specific.cc","include/qdp_scalar_specific.h"],
[("route from owner then broadcast","include/qdp_parscalar_specific.h peekSite/pokeSite"),("QDP_extract/QDP_insert","include/qdp_parscalar_specific.h, include/qdp_scalar_specific.h")],
["returned site values on each node","field contents before and after"])

p("C05","Collective programs always finish: no deadlock, no stray message",
"Any program in which all nodes make the same sequence of library calls finishes on every node, for every message timing, buffering behaviour and relative node speed the message layer allows. Every message sent is received with the length that was sent, all nodes take part in the same collectives in the same order, and nothing is left in flight or unreleased at the end.",
["schedules","configurations","programs"],
"all collective programs over the communication, reduction and I/O interfaces; all schedules, including fully synchronous (rendezvous) sends and arbitrarily slow nodes",
"Deadlock and protocol mismatch need several nodes and an adverse timing; tests have one node and no timing.",
["include/qdp_parscalar_specific.h","lib/qdp_parscalar_specific.cc","lib/qdp_io.cc","lib/qdp_parscalar_init.cc"],
[("receive posted before send, waits in matching order","include/qdp_parscalar_specific.h FnMap, lib/qdp_parscalar_specific.cc sendToWait/recvFromWait"),("owner/primary point-to-point exchange during field I/O","lib/qdp_parscalar_specific.cc")],
["run completion, message and collective logs of the simulated message layer"])

p("C06","A communication failure the message layer reports never yields a wrong result",
"If the message layer reports that a send, receive, broadcast, reduction or resource request failed, the library stops the program with an error; it never carries on with data that was not transferred. No node returns a result that differs from the failure-free one.",
["fault_sequences","schedules","configurations"],
"all programs over the communicating operations, with any operation of the message layer failing at any point on any node",
"No test injects a failing communication call, and on one node there is none to fail.",
["include/qdp_parscalar_specific.h","lib/qdp_parscalar_specific.cc"],
[("status checks after each message-layer call followed by abort","include/qdp_parscalar_specific.h, lib/qdp_parscalar_specific.cc")],
["results on each node compared with the failure-free run; program termination"])

p("C07","Random fields do not depend on the decomposition, layout or threads",
"From a given seed, the random numbers written to each lattice coordinate (uniform, gaussian, whole field or subset, any element type) and the generator state afterwards are the same for every machine geometry, layout, number of threads and schedule. After any sequence of draws all nodes hold the same generator state.",
["schedules","configurations","histories"],
"all sequences of seed changes, scalar and lattice draws over fields and subsets (including ones with no or few sites on a node or thread), all geometries, thread counts and schedules",
"The tests draw on one node and one thread and check no values; divergence needs a node or thread without sites, or a later draw.",
["lib/qdp_random.cc","include/qdp_random.h","include/qdp_parscalar_specific.h","include/qdp_scalar_specific.h","include/qdp_primseed.h","lib/qdp_rannyu.cc"],
[("per-site multiplier skewed by lexicographic site number","lib/qdp_random.cc initDefaultRNG/initRNG"),("state advanced once per draw from any site","include/qdp_*_specific.h random")],
["values at every coordinate, generator state on every node"])

p("C08","A saved generator state resumes the same random stream",
"Saving the generator state, at any point, and restoring it later - in the same run, after a restart, or on a machine with another geometry - continues with exactly the numbers an uninterrupted run produces. Saving does not disturb the stream.",
["histories","crash_points","configurations"],
"all draw histories, save points, restart points and geometry changes",
"Tests never save, restart and compare.",
["lib/qdp_random.cc","include/qdp_random.h","include/qdp_primseed.h","lib/qdp_io.cc"],
[("savern/setrn","lib/qdp_random.cc"),("seed binary and text I/O","include/qdp_primseed.h, include/qdp_parscalar_specific.h")],
["draws after resume compared with the uninterrupted history"])

p("C09","Data-parallel statements give the sequential result under any thread schedule",
"A data-parallel assignment, fill, mask, map construction or reduction over a field or subset gives the result of running it sequentially for every number of threads and every interleaving: every selected site is computed exactly once, no other site is touched, and no two threads access the same data without ordering. The thread pool is started before use and shut down when the library is finalised. Integer and exactly representable results are identical, others agree to rounding.",
["schedules","configurations","programs"],
"all data-parallel statements and subsets, any number of threads (also more threads than sites), all interleavings",
"The shipped tests are built without threads, and a race or a badly split index range shows only for some counts and interleavings.",
["include/qdp_dispatch.h","include/qdp_scalar_specific.h","include/qdp_parscalar_specific.h","lib/qdp_scalar_specific.cc","lib/qdp_subset.cc","include/qdp_globalfuncs.h"],
[("splitting of the site range over threads","include/qdp_dispatch.h"),("per-thread partial sums combined in a critical section","include/qdp_scalar_specific.h sum/norm2/innerProduct"),("parallel loops over site tables","include/qdp_scalar_specific.h")],
["field contents, reduction values, accesses of concurrent threads"])

p("C10","Optimised linear-algebra kernels match the generic operations for any threading",
"The optimised vector and matrix kernels (scaled additions, scaled norms and inner products, matrix products, spin projections and reconstructions with and without fused multiplication) give the value the generic expression defines at every selected site and leave all others unchanged. This holds for ordered and unordered subsets, aliased operands, any thread count and any schedule.",
["schedules","configurations","inputs"],
"all kernels, contiguous and scattered subsets, operand aliasing, thread counts and schedules, both precisions, generic and SSE code",
"Unit tests check a handful of kernels on the full lattice or one fixed subset with one thread.",
["include/scalarsite_generic/qdp_scalarsite_generic_blas.h","include/scalarsite_generic/qdp_scalarsite_generic_blas_wrapper.h","include/scalarsite_generic/qdp_scalarsite_generic_cblas.h","include/scalarsite_generic/qdp_scalarsite_generic_linalg.h","include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h","include/scalarsite_sse/qdp_scalarsite_sse_linalg_double.h","include/qdp_dispatch.h"],
[("template specialisations of evaluate with ordered and site-table code paths","include/scalarsite_generic/*.h, include/scalarsite_sse/*.h"),("per-thread partial norm and inner-product slots","include/scalarsite_*/ *_wrapper.h")],
["field contents and returned sums"])

p("C11","Field files are independent of the decomposition and read back exactly",
"Writing a lattice field (whole, a subset, one site, or one time slice) to a binary file produces the same bytes for every machine geometry, layout and message timing: big-endian words in lexicographic site order. Reading them back, on any other geometry, reproduces exactly the sites written, changes no other site, and both sides report the same checksum on all nodes.",
["schedules","configurations","histories"],
"all element types, subsets, sites and slices; any writer and reader geometry; all timings; sequences mixing fields with other data in one file",
"With one node no data is collected from or distributed to other nodes and no file moves between geometries.",
["lib/qdp_parscalar_specific.cc","include/qdp_parscalar_specific.h","include/qdp_scalar_specific.h","lib/qdp_io.cc","include/qdp_disk_map_slice.h","lib/qdp_byteorder.cc","lib/qdp_crc32.cc"],
[("x-strip transfer between owner and primary node","lib/qdp_parscalar_specific.cc writeOLattice/readOLattice"),("byte order conversion and running checksum","lib/qdp_io.cc writeArrayPrimaryNode")],
["file bytes in the simulated file system, fields after reading, checksums"])

p("C12","Readers give every node the same value, position and status",
"Reading strings, numbers, booleans and arrays from text or binary files, buffers and the standard input gives every node the value that was written, and every node sees the same success, failure, position and checksum; writing followed by reading is the identity (floating point numbers in text: to the digits printed). Only the primary node touches the file.",
["schedules","configurations","histories"],
"all value types and sequences of writes, reads, seeks, rewinds and checksum resets; all geometries and timings",
"One node cannot disagree with itself; tests do not cover positions, seeks and checksums in sequence.",
["lib/qdp_io.cc","include/qdp_io.h","include/qdp_multi.h"],
[("primary node reads, result broadcast","lib/qdp_io.cc"),("seek/position/checksum bookkeeping","lib/qdp_io.cc BinaryFileReaderWriter")],
["values, fail state, position and checksum on every node"])

p("C13","Lost writes are never reported as success",
"If the file system refuses or loses part of a write (full disk, quota, I/O error, failed open, flush or close), then after the writer is flushed or closed its failure status is set on every node, or the program stops with an error. If no failure is reported after close, the file holds exactly the bytes written, in order; a failing write never deadlocks the nodes.",
["fault_sequences","schedules","histories"],
"all write histories over text, binary, buffered and field writers with any operating-system call failing, short or interrupted at any point",
"No test makes a system call fail.",
["lib/qdp_io.cc","include/qdp_io.h","lib/qdp_parscalar_specific.cc","lib/qdp_scalar_specific.cc"],
[("stream state on the primary node, broadcast by fail()","lib/qdp_io.cc")],
["failure status on every node, file contents in the simulated file system"])

p("C14","Truncated or unreadable input is always noticed, by all nodes alike",
"When input ends early, cannot be opened, or a read fails, the reader's failure status is set on every node (or the program stops with an error on all of them); no node proceeds with made-up data while another sees an error, and nothing hangs. Data read before the failure point is intact. (A last line of text may be ended by the end of the input.)",
["fault_sequences","schedules","inputs"],
"all read histories over text, binary and field readers with the file truncated at any byte or any read failing or short at any point",
"Tests only read complete, healthy files.",
["lib/qdp_io.cc","include/qdp_io.h","lib/qdp_parscalar_specific.cc","include/qdp_parscalar_specific.h"],
[("stream state broadcast","lib/qdp_io.cc"),("length-prefixed strings","lib/qdp_io.cc readDesc")],
["failure status and values on every node"])

p("C15","Gauge archives round-trip and never accept damaged data",
"Writing a gauge field to the archive format and reading it back, on any machine geometry, reproduces the field to single precision together with its header (averages as printed there); the file bytes do not depend on the geometry. An archive whose payload was truncated or corrupted, or that does not match the lattice, makes every node stop with an error instead of returning a field.",
["fault_sequences","configurations","schedules"],
"all gauge fields, writer and reader geometries, both compressed and full formats, any truncation or stored-byte corruption that changes the checksum",
"No archive is written or read by the shipped tests (the code is compiled only with XML support).",
["lib/qdp_iogauge.cc","include/qdp_iogauge.h","lib/qdp_parscalar_specific.cc","lib/qdp_scalar_specific.cc"],
[("header, checksum, plaquette and link checks","lib/qdp_iogauge.cc readArchiv"),("reconstruction of compressed matrices and distribution of sites","lib/qdp_parscalar_specific.cc, lib/qdp_scalar_specific.cc")],
["field after reading, file bytes, termination on damage"])

p("C16","The disk map behaves as a map over any history",
"Over any sequence of insert, overwrite, lookup, existence test, size, key listing, flush, close and reopen operations, the disk-based map object answers like an in-memory map holding the last value inserted for each key, on all nodes alike. User metadata stored at creation is returned unchanged after every reopen, and a map reused for another file shows only that file's contents. The map kept in memory gives the same answers, and copies and merges of it hold what their sources held. Space of overwritten values need not be reused.",
["histories","configurations","schedules"],
"all operation histories over several keys, value types and files, interleaving reads with inserts and overwrites, on any geometry",
"The disk map is not compiled in the shipped test build; interleavings such as a lookup between two inserts decide where the next record lands.",
["include/qdp_map_obj_disk.h","lib/qdp_map_obj_disk.cc","include/qdp_map_obj_memory.h","include/qdp_map_obj_disk_multiple.h","include/qdp_disk_map_slice.h","lib/qdp_io.cc"],
[("append position, key/position table, trailing table written at close","include/qdp_map_obj_disk.h")],
["answers of every operation compared with a reference map"])

p("C17","A disk map cut off by a crash or damaged on disk never returns wrong data",
"After a crash at any point, reopening the disk map either gives, for every key that had been inserted before the last completed flush or close and not overwritten since, exactly that value, or stops with an error on all nodes. A lookup never returns a value that was never inserted for that key, whatever part of the file was lost, torn or corrupted.",
["crash_points","fault_sequences","histories"],
"all operation histories with the process killed at any operating-system call, and any torn record or flipped byte in the stored file",
"Needs a crash or a flipped byte between two system calls; tests cannot place one.",
["include/qdp_map_obj_disk.h","lib/qdp_map_obj_disk.cc","lib/qdp_io.cc","lib/qdp_crc32.cc"],
[("per-record and table checksums","include/qdp_map_obj_disk.h get/readMapBinary"),("table appended before the header link is switched","include/qdp_map_obj_disk.h closeWrite")],
["answers after reopen compared with the acknowledged history"])

p("C18","Failing allocations stop cleanly; all lattice memory is given back",
"Whenever a memory request fails, at any point of a computation, the program stops with an error or a bad-allocation exception; it never uses memory it did not get or returns a wrong result. Every lattice object is suitably aligned, distinct live objects never overlap, and all memory obtained for lattice objects is released exactly once when they go out of scope.",
["fault_sequences","histories","configurations"],
"all histories of creating, copying, assigning and destroying lattice objects and temporaries, with any single allocation failing",
"Tests never see a failing allocation and do not account for memory.",
["lib/qdp_default_allocator.cc","include/qdp_default_allocator.h","include/qdp_outer.h","include/qdp_multi.h","lib/qdp_pool_allocator.cc","include/qdp_parscalar_specific.h"],
[("aligned allocation with a table of live blocks","lib/qdp_default_allocator.cc"),("allocation in lattice constructors, abort on failure","include/qdp_outer.h alloc_mem")],
["addresses and balance of allocations, results, termination"])

p("C19","Stopwatches measure elapsed time sensibly under any clock behaviour",
"Over any sequence of reset, start and stop, a stopwatch reports the sum of the intervals between each start and its matching stop since the last reset, to the microsecond, in both units. An interval whose clock readings failed, or whose end was read earlier than its start, adds nothing; a stop without a start adds nothing; the next good interval counts again. So misuse, a failing clock or a clock that jumps backwards never makes the total decrease or become garbage, and never stops the program.",
["histories","fault_sequences"],
"all call sequences and all clock histories: normal advance, second boundaries, backward and forward jumps, failing clock reads",
"Real clocks in tests neither jump nor fail.",
["lib/qdp_stopwatch.cc","include/qdp_stopwatch.h"],
[("difference of two clock readings accumulated at stop","lib/qdp_stopwatch.cc")],
["reported seconds and microseconds under a simulated clock"])

p("C20","Program output appears once, in order, and input reaches all nodes",
"Text sent by all nodes to the library's standard output and error streams, or to a text writer (file or memory), appears exactly once, in program order, with the formatting a single node produces, however nodes are scheduled; this covers numbers, booleans, strings and global scalar objects. Information and error messages appear in full, once per node, whatever their length, with the node's name. Input read from the standard input stream or a text reader by all nodes gives every node the value the primary node found. When output fails, every node that asks is told so.",
["schedules","configurations","programs"],
"all sequences of output and input operations (numbers, strings, booleans, manipulators, scalar objects, messages), all geometries and schedules, output that fails at any point",
"With one node, duplicated or interleaved output cannot occur.",
["lib/qdp_stdio.cc","include/qdp_stdio.h","lib/qdp_util.cc","lib/qdp_io.cc","include/qdp_io.h"],
[("only the primary node writes","lib/qdp_stdio.cc, lib/qdp_io.cc")],
["captured output of all nodes"])

p("C21","XML documents hold what was written and read alike on all nodes, errors too",
"A document written by all nodes (to memory or a file, through nested tags, attributes and array elements) holds exactly the values written, once, in program order: numbers, text, arrays, lists, maps, pairs, seeds, complex numbers, colour and spin objects, and fields with every site in lexicographic order and its coordinates. Reading a document gives every node the same values, counts, attributes and texts, and reading what was written returns it. A malformed document, a missing, ambiguous or wrongly typed entry or element is reported to the caller on every node alike, with the same message, and the nodes stay in step afterwards. A file writer that reports success has its whole document on disk.",
["schedules","configurations","inputs","fault_sequences"],
"all documents and queries, healthy or not, all written object types, all geometries and timings, disk failures while a document is written or read",
"With one node an error raised only on the node that parses is indistinguishable from one raised everywhere; XML support is not compiled in the shipped tests.",
["lib/qdp_xmlio.cc","include/qdp_xmlio.h","include/qdp_map_obj_memory.h","include/qdp_parscalar_specific.h","include/qdp_scalar_specific.h"],
[("primary node parses, value or error broadcast","lib/qdp_xmlio.cc, include/qdp_xmlio.h"),("fields gathered site by site to the primary node","include/qdp_parscalar_specific.h operator<<(XMLWriter&, OLattice)")],
["values and exceptions on every node","bytes of the document"])

p("C22","Record files return each record to the right sites",
"Writing lattice fields, arrays of fields, boxes (hypercubes) of fields, global scalars, arrays and buffers as records of a single, multi or part file and reading them back, on any machine geometry, reproduces every record, its metadata and the file metadata exactly; precision is converted where another one is asked for. Reading a box leaves sites outside it zero for floating point fields. A file status object is bad before it is opened and after it is closed. A failure reported by the record layer, on opening, reading, writing or closing, is never silent: it is seen on every node or stops the program.",
["schedules","configurations","inputs","fault_sequences"],
"all record sequences, I/O grids, geometries, cut files and record-layer failures",
"The record layer is not compiled in the shipped tests.",
["lib/qdp_qdpio.cc","include/qdp_qdpio.h","lib/qdp_qio_strings.cc"],
[("site put/get callbacks and layout callbacks","include/qdp_qdpio.h, lib/qdp_qdpio.cc")],
["records and metadata read back, status on every node"])

p("C23","Field algebra follows its mathematical definition",
"Products, sums, traces, adjoints, spin and colour contractions and component access on site objects equal their mathematical definitions for every input.",
["inputs"],"all element types and values","Tests sample a few values; the space is all inputs.",
["include/qdp_primmatrix.h","include/qdp_primspinmat.h","include/qdp_reality.h"],[("expression templates over nested site types","include/QDPOperators.h")],["results of site-local expressions"])

p("C24","Checksums and byte-order conversion are correct for every buffer",
"The CRC used for stored data equals the standard CRC-32 of the bytes, independent of how the bytes are split over calls, and byte-order conversion is an involution for every word size.",
["inputs"],"all buffers and splits","Unit tests do not cover them; the space is all inputs.",
["lib/qdp_crc32.cc","lib/qdp_byteorder.cc"],[("table-driven CRC","lib/qdp_crc32.cc")],["return values"])

p("C25","Hierarchical (HDF5) files round-trip fields and attributes",
"Fields, arrays and attributes written to a hierarchical data file are read back unchanged on any geometry.",
["configurations","fault_sequences"],"all objects and geometries","Not compiled here: the HDF5 library is absent.",
["lib/qdp_hdf5.cc","include/qdp_hdf5.h"],[("parallel hyperslab I/O","lib/qdp_hdf5.cc")],["file contents"])

p("C26","The key-value database files behave as maps",
"The configuration database stores and returns values per key and configuration and survives close and reopen.",
["histories","crash_points"],"all histories","Not compiled here: the database library is an empty submodule.",
["include/qdp_db_imp.h","include/qdp_db_stub.h"],[("delegation to the FileDB library","include/qdp_db_imp.h")],["answers of the database operations"])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
