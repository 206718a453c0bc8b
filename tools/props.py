"""What each check builds and how much it runs."""
PS = ["ps-cb2", "ps-lex", "ps-cb3d"]
SC = ["sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"]
REAL_PS = ["layout", "sets and subsets", "expression evaluation", "maps and shifts over messages", "reductions", "initialisation and shutdown"]
STUB_PS = ["message-passing library (QMP): simulated nodes, delivery, collectives", "allocator below new/malloc (guarded, poisoned, real memory)"]
RULES = {
    "rule": "One run = one seeded program executed by every node of a simulated machine under one seeded schedule (and fault plan). "
            "A run is non-trivial if at least one operation completed and reported data; two runs are the same if schedule signature and event-log hash agree.",
    "assumptions": ["the simulated message layer honours the QMP contract: per-pair order, no corruption, collectives in program order",
                    "compiled with g++ -O1; results that depend on the optimiser are out of reach"],
}
REAL_IO = ["text and binary streams", "lattice field readers and writers", "checksums and byte order conversion", "layout", "C++ stream library"]
STUB_IO = STUB_PS + ["disk: system calls of the stream library"]
IOK = "I B R D C V M".split()
IOA = ["the disk keeps what a successful write, flush or close handed over; power loss after a successful close is out of scope (the library never calls fsync)"]
TECH = "deterministic simulation with fault injection"
NOTE = "Seeded search over programs, machine shapes and schedules against an executable reference model; samples, does not enumerate. Trusts the reference model and the simulated message layer."
def P(variants, quick, rule, level="exploration", groups=(), real=REAL_PS, stub=STUB_PS, probes=(), assumptions=(), note=NOTE, tech="", kinds=None):
    return dict(variants=list(variants), quick=quick, rule=rule, level=level, groups=list(groups), real=list(real), stub=list(stub), probes=list(probes), assumptions=list(assumptions), note=note, tech=tech, kinds=kinds)
NA = {
    "C23": "pure functions of one site's operands: no schedule, time, I/O or second party takes part, so there is nothing for a simulator to control",
    "C24": "pure functions of one buffer: no schedule, time, I/O or second party takes part (their use inside file readers and writers is decided under C11-C15)",
    "C25": "the HDF5 library is not installed in this sandbox and the code cannot be compiled or run without it",
    "C26": "the FileDB submodule is empty and not installed, so the code cannot be compiled or run",
}
PROPS = {
    "C01": P(PS + SC, 5000, "Programs mix shifts (nested, in expressions, under subsets) and user-defined maps over random kinds, lattice and machine shapes; every field is compared site by site with a lexicographic model.", probes=["net.delivered"]),
    "C02": P(PS + SC, 5000, "Programs query layout and subset tables of built-in and user-defined sets and assign under subsets and masks; tables are checked for partition, membership, order claims and inverse maps, fields against the model."),
    "C03": P(["ps-cb2", "ps-lex", "sc-cb2", "sc-cb2-sse", "sc-cb32"], 5000, "Programs mix reductions over random fields with integer-valued data, so every summation order has one exact answer.", probes=["net.collectives"]),
    "C04": P(PS + SC, 5000, "Programs mix single-site reads and writes and array extraction/insertion with assignments.", probes=["net.collectives"]),
    "C05": P(["ps-cb2", "ps-lex", "ps-cb3d"], 5000, "Programs mix every collective operation on at least two nodes; deadlock, unmatched messages, mismatched collectives, leaked handles and wrong results are violations.", probes=["net.delivered", "net.collectives"]),
    "C06": P(["ps-cb2", "ps-lex", "ps-cb3d"], 5000, "The collective programs of C05 with failures reported by the message layer: sends, receives, message handles, starts, collectives, topology and initialisation. After the fault the run may stop; anything it still reports must be right, and it must not hang, use a null handle or a freed buffer.",
             probes=["fault.net.coll", "fault.net.null", "fault.net.start", "fault.net.send", "fault.net.recv"]),
    "C07": P(["ps-cb2", "ps-lex", "ps-cb3d", "ps-cb2-omp", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32", "sc-cb2-omp"], 3000, "Programs set seeds and draw uniform and gaussian fields and scalars under random subsets, machines, layouts and thread teams; every site and the state are compared with an independent 47-bit model of the documented generator.", groups=["rng"],
             real=REAL_PS + ["random number generator", "OpenMP loops (outlined code)"], stub=STUB_PS + ["OpenMP runtime: simulated threads"], probes=["thread.workers"]),
    "C08": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-cb2-omp"], 3000, "One to three lives of different machines; generator states are saved and restored through memory, binary files and XML files on the simulated disk, between draws of every kind, for the lattice generator and for RANNYU.", groups=["rng"],
             real=REAL_PS + ["random number generators", "binary reader/writer", "XML reader/writer"], stub=STUB_PS + ["disk", "libxml2 parser and simple writer (replacements of absent submodules)"], probes=["fs.write"], kinds="R D C V M F".split()),
    "C09": P(["sc-cb2-omp-tsan", "sc-lex-qmt-tsan", "ps-cb2-omp-tsan", "sc-cb2-sse-omp-tsan"], 1200, "Programs of data-parallel statements (expressions, masks, fills, shifts, user maps, site access, reductions) on integer, boolean, floating and matrix fields over all kinds of subsets run on teams of 2 to 12 simulated threads; the scheduler switches threads at instrumented memory accesses, and every access is checked for ordering against the other threads. All results are compared with a sequential interpreter.",
             real=["threaded dispatch", "data-parallel loops and reductions", "expression evaluation", "generic and SSE kernels"], stub=["OpenMP runtime and QMT: simulated threads", "thread sanitiser runtime: the simulator's access hooks", "allocator below new/malloc (guarded, poisoned)"], probes=["thread.workers", "thread.preempt", "thread.regions"], kinds="I B R D C V M F".split()),
    "C10": P(["sc-cb2", "sc-cb2-sse", "sc-lex-sse-omp", "ps-cb2-omp"], 20000, "Programs of linear-algebra statements (scalings and combinations of fermions, gamma-5 forms, colour matrix products, spin projection and reconstruction, fused hops) in both precisions, over subsets and with shared operands, mixed with reductions, on generic, SSE and threaded builds; every result is compared with an interpreter of the statement, and data is chosen so that all arithmetic is exact.", groups=["lin"],
             real=["generic and SSE kernels", "expression evaluation", "reductions", "threaded dispatch"], stub=["OpenMP runtime: simulated threads", "libintrin single precision SU(3) kernels (absent submodule, replaced)", "allocator below new/malloc (guarded, poisoned)"] , probes=["thread.workers"], kinds="R- D- C- CD- V- M- S- F- H- P- FD MD HD VD".split()),
    "C11": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"], 2500, "One to three lives of different machines write and read lattice fields whole, by subset, by site and by time slice, mixed with other records, through files on the simulated disk and memory buffers, with seeks, marks and overwrites; file bytes, fields, positions and checksums are compared with a byte-exact model.", groups=["io"], real=REAL_IO, stub=STUB_IO, probes=["fs.write", "fs.read"], kinds=IOK, assumptions=IOA),
    "C12": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"], 4000, "Programs write and read every value type, string and container form through text and binary files, buffers and the standard input, with seeks, rewinds, checksum resets and interrupted and short system calls; every value, position, status and checksum is compared with the model on every node.", groups=["io"], real=REAL_IO, stub=STUB_IO, probes=["fs.write", "fs.read"], kinds=IOK, assumptions=IOA),
    "C13": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"], 3000, "Programs write text, binary and field files while the simulated disk refuses to open, write, or close, fills up, or writes short; a flush or close followed by a status of success must leave exactly the written bytes on the disk, and all nodes must agree on the status.", groups=["io"], real=REAL_IO, stub=STUB_IO, probes=["fault.fs.enospc", "fault.fs.eio-w", "fault.fs.close", "fault.fs.full", "fault.fs.open-w"], kinds=IOK, assumptions=IOA),
    "C14": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"], 3000, "Files written by one life are cut at any byte between lives, or reads and opens fail, while another machine reads them record by record; every value read before the damage must be right, the status after it must be failure on every node, and nodes must never see different data.", groups=["io"], real=REAL_IO, stub=STUB_IO, probes=["fault.disk.trunc", "fault.fs.eio-r", "fault.fs.open-r", "fs.read"], kinds=IOK, assumptions=IOA),
    "C15": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml", "sc-lex-xml", "sc-cb3d-xml"], 2500, "One to three lives of different machines write and read gauge archives through all interfaces; archives of two and three rows in single and double precision also come from a host-side writer. Between lives payload bits flip, files are cut anywhere, header entries are replaced and the lattice changes; writes and reads fail. Files are compared with a byte-exact model and a reference reader decides which archives must be refused.",
             groups=["arch"], real=["gauge archive reader and writer", "XML reader and writer", "shifts and reductions", "binary streams", "layout"], stub=STUB_IO + ["libxml2 parser and simple writer (replacements of absent submodules)"], probes=["arch.accept", "fault.disk.trunc", "fault.disk.aflip", "fault.disk.asub", "fault.fs.full"], kinds=IOK, assumptions=IOA),
    "C16": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml", "sc-lex-xml", "sc-cb3d-xml"], 2500, "One to three lives of different machines create, open and use disk maps (single and several files read as one) of integer, text and struct keys to numbers, texts, arrays, time slices and whole lattices: random histories of insert, overwrite, lookup, existence, keys, flush, close, reuse and reopen. Every answer on every node is compared with an in-memory map.",
             groups=["db"], real=["MapObjectDisk and MapObjectDiskMultiple", "binary streams", "layout", "broadcasts"], stub=STUB_IO, probes=["db.create", "db.reopen", "db.get-ok", "db.settled"], kinds=["V"], assumptions=IOA),
    "C17": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml", "sc-lex-xml", "sc-cb3d-xml"], 3000, "As C16, but the machine crashes at a random yield point, or writes and opens fail or are torn, or between lives files are cut, flipped, extended or lose single earlier writes. The next life reopens what is left: each lookup must give the last settled value, a value inserted since, or stop on all nodes.",
             groups=["db"], real=["MapObjectDisk and MapObjectDiskMultiple", "binary streams", "layout", "broadcasts"], stub=STUB_IO, probes=["fault.crash", "fault.disk.trunc", "fault.disk.flip", "fault.disk.lost-write", "db.reopen-hurt"], kinds=["V"], assumptions=IOA),
    "C18": P(["ps-cb2-al64", "ps-lex-al128-pool", "sc-cb2-xml-al128", "sc-lex-al64", "sc-cb2-pool"], 8000, "Programs create, copy, assign (also to themselves), resize, return, pass and destroy lattice objects, arrays and multi-dimensional arrays of them, subset fields, maps and buffers, three times over, on alignments of 16, 64 and 128 bytes, with the heap or with a memory pool; single requests fail, or a node has a memory limit, or the pool is nearly full. Contents are checked after each step; addresses, alignment, overlap and the balance of memory are accounted by the simulated heap.",
             groups=["misc"], real=["lattice object allocation and default allocator", "pool allocator", "arrays and multi-dimensional arrays", "subset fields", "in-memory maps", "memory buffers", "layout"], stub=STUB_PS + ["TBB fixed memory pool (small first-fit replacement)"], probes=["fault.oom", "fault.pool", "fault.mem.cap"], kinds="I B R C M V".split()),
    "C19": P(["ps-cb2", "sc-cb2", "sc-lex"], 3000, "Histories of start, stop, reset, copy and re-creation of up to four stopwatches on every node (with misuse: double start, stop without start) between field operations, under a simulated clock that advances by microseconds to hours, stands still, jumps back inside a second or across seconds, or fails to be read. After every call both units are compared with the sum computed from the clock values handed out.",
             groups=["misc"], real=["stopwatch", "layout", "expression evaluation"], stub=STUB_PS + ["clock"], probes=["fault.clock.back", "fault.clock.fail"], kinds=["I"], assumptions=["an interval whose clock readings failed or that ends before it began counts zero"]),
    "C20": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2", "sc-lex", "sc-cb3d", "sc-cb32"], 5000, "Programs in which all nodes print numbers, strings, booleans and global objects to the standard output and error streams and to text files and buffers, issue information and error messages of up to 3000 characters, flush and ask for failures, and read values and objects from standard input and text files, between field operations. The text each node really produced is compared with what one node would print; writes to standard output fail in some runs.",
             groups=["io"], real=["standard and text streams", "information and error messages", "layout", "broadcasts"], stub=STUB_IO + ["standard output and error (captured per node)"], probes=["fault.out.fail"], kinds=IOK),
    "C21": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml"], 5000, "Programs write documents to buffers and files (numbers, text, containers, maps, pairs, nested arrays, seeds, colour and spin objects, whole lattice fields, attributes, array elements, other documents), read them back in the same life or by another machine for the same lattice, and read hand-made healthy and damaged documents, with right and wrong queries and types, readers of parts, changes to a document, copies of readers into writers, and disk failures. The bytes of every document and every answer or error on every node are compared with a reference.",
             groups=["xml"], real=["XML readers and writers", "XML forms of arrays, maps, seeds, complex numbers, vectors, matrices and fields", "in-memory map", "site routing", "layout", "broadcasts"], stub=STUB_PS + ["disk", "libxml2 parser and simple writer (replacements of absent submodules, also used as the reference)"], probes=["fs.write", "fs.read"], kinds=["I"]),
    "C22": P(["ps-cb2", "ps-lex", "ps-cb3d", "sc-cb2-xml"], 4000, "Programs write fields, arrays of fields, boxes of fields, global scalars and arrays and buffers, each with metadata, as records of single, multi and part files under various I/O grids, append to them, read them back in the same life or on another machine, peek at metadata, stop early, read past the end, ask for another precision or number of objects; disks fail or fill up and files are cut between lives. Every value, metadata text and status on every node and the contents of completed files are compared with a reference.",
             groups=["qio"], real=["record readers and writers", "site and layout callbacks", "I/O node choice", "XML readers and writers", "layout"], stub=STUB_PS + ["disk", "QIO record layer (single, multi and part file replacement)", "libxml2 parser and simple writer (replacements of absent submodules)"], probes=["fs.write", "fs.read", "qio.closed"], kinds="I R D C V M F".split()),
}
