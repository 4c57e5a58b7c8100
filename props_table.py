prop("P01", "Garbage collection never changes what immutable data holds",
     "Lists, strings, numbers, closures and the local variables of every active function keep exactly the values the program gave them, "
     "however often and at whatever points the garbage collector starts, advances or finishes a cycle. The result and output of a program "
     "are the same for every collection schedule.",
     ["schedules", "programs"], "for every program building and reading lists, strings and closures, at every call depth, and every interleaving of collector cycle starts and mark increments with it",
     "the tests run small programs under the one collection schedule that heap growth happens to give; most finish with a handful of cycles",
     ["src/gc.c", "src/types.c", "src/runtime.c"],
     [("incremental marking and version bump", "src/gc.c gcRunIncremental, markObject"), ("root scan", "src/runtime.c coraGCFunc"),
      ("lazy reclamation during allocation", "src/gc.c blockAlloc, inuse"), ("mark functions per type", "src/types.c consGCFunc, nativeGCFunc")],
     hook="when a cycle starts and how many mark steps an allocation does (src/sim.h, CORA_SIM)")
prop("P02", "Mutation never loses what a reachable container, symbol or global holds",
     "A value stored by vector-set!, by set on a global name or on a gensym, or by appending to a vector, is read back unchanged for as long as its container is "
     "reachable, whatever the ages of container and value and wherever in a collection cycle the store happens. Overwriting a reference never "
     "destroys an object that is still reachable in another way.",
     ["schedules", "histories"], "for every history of stores and loads on vectors, globals and gensyms, including cyclic structures and old-to-young references, under every collection schedule",
     "no test stores young values into old containers during an incremental cycle; the write barriers are exercised only by accident",
     ["src/gc.c", "src/types.c", "src/runtime.c"],
     [("deletion barrier", "src/gc.c writeBarrierForIncremental"), ("remembered set", "src/gc.c writeBarrierForGeneration, gcRSet"),
      ("stores", "src/types.c vectorSet, vectorAppend; src/runtime.c primSet; globalSet")],
     hook="collector schedule (src/sim.h)")
prop("P03", "Allocation hands out memory no live object uses, at every size",
     "Every allocation from a few bytes up to just under 64 MB succeeds with memory that overlaps no object the program can still reach, and bytes written into one object never "
     "show up in, or disappear from, another. This holds for every mix and order of sizes and lifetimes and across any number of collections.",
     ["schedules", "inputs", "histories"], "for every sequence of allocation sizes and drops, including the size-class and block boundaries and objects as large as an arena, under every collection schedule",
     "the allocator test allocates random sizes but never looks at contents or overlap",
     ["src/gc.c", "src/types.c"],
     [("size classes and blocks", "src/gc.c getSlotBySize, blockAlloc, getBlock"), ("large objects: split, merge, grow", "src/gc.c heapArenaAllocLarge"),
      ("reuse of swept memory", "src/gc.c gcFlip, sweepSizeClass, sweepLargeObjects")],
     hook="collector schedule (src/sim.h); gcAlloc and mmap are interposed by the simulator")
prop("P04", "Unreachable memory is reclaimed and reused",
     "Once the program drops its last reference to an object, the object is reclaimed after a bounded number of further collection cycles, also when it was part of a cycle, had survived many collections, or was "
     "held by an abandoned continuation. A program whose reachable data stays bounded can allocate for ever in bounded heap space.",
     ["schedules", "histories"], "for every history of building, mutating, ageing and dropping data, followed by enough collection cycles; and for endless allocation at every object size",
     "no test measures what is retained; a collector that never frees passes all of them",
     ["src/gc.c", "src/runtime.c"],
     [("abandoned continuations", "src/runtime.c releaseContinuations; src/gc.c gcOnFlip"), ("generations and version increments", "src/gc.c nextVersion, GEN_INCREMENTS"), ("remembered set pruning", "src/gc.c gcRSet"),
      ("recycling of blocks", "src/gc.c gcFlip"), ("sweep against version wrap", "src/gc.c gcRunSweep"), ("trigger size", "src/gc.c gcTriggerCheck, gcFlip")],
     hook="collector schedule (src/sim.h)")
prop("P05", "try, throw and resume follow delimited one-shot semantics at any depth",
     "throw passes its value and a continuation to the handler of the innermost active try, and the handler's result becomes the result of that try. Calling the continuation once, at any later point and from any other context, continues "
     "right after the throw with the given value, all locals intact, still under the same handler, and its final result returns to the caller of the continuation. None of this depends on stack depth, "
     "frame sizes, or on collections running between throw and resume.",
     ["programs", "schedules", "histories"], "for every nesting and order of try, throw, stored and immediate resume, mixed with deep and wide stack frames, under every collection schedule",
     "the tests throw from shallow frames with no collection in between; stack-segment boundaries are never crossed inside a try",
     ["src/runtime.c", "src/runtime.h"],
     [("capture and unwinding", "src/runtime.c builtinThrow, builtinTryCatch"), ("reinstating frames and segments", "src/runtime.c continuationAsClosure"),
      ("tracing of suspended stacks", "src/runtime.c continuationGCFunc"), ("segment release on return", "src/runtime.c coraReturnSlowPath")],
     hook="collector schedule (src/sim.h)")
prop("P06", "Any recursion depth works, and tail calls use constant stack",
     "Calls nest to any depth with frames of any size and every local intact on return, limited by memory only. A call in tail position, whether direct, mutual, through a closure, through apply, "
     "through cond or through over-application, releases its caller's frame: a loop of any length ends with the stack exactly as deep as a loop of length zero.",
     ["programs", "schedules"], "for every mix of recursion depth, frame size and tail-call form, under every collection schedule",
     "the tests recurse to modest depth with small frames and never look at stack use",
     ["src/runtime.c", "src/runtime.h", "lib/toc.cora"],
     [("segmented stack", "src/runtime.h stackAlloc, src/runtime.c stackAllocSlowPath, coraReturnSlowPath"), ("tail call code", "lib/toc.cora, generated coraCall"),
      ("apply", "src/runtime.c builtinApply"), ("over-application", "src/runtime.c coraDispatch")],
     hook="collector schedule (src/sim.h)")
prop("P07", "Partial and over-application agree with the curried meaning",
     "Applying a function to fewer arguments than it takes gives a function of the remaining ones, and applying it to more passes the extra arguments to its result; the value is the same however the arguments are "
     "split over calls, in tail position or not. Partial applications can be kept, shared and applied again at any time, with collections running in between.",
     ["programs", "schedules"], "for every way to split up to five arguments over calls of functions of different arity, tail and non-tail, with freshly allocated arguments, under every collection schedule",
     "the tests curry with one shape each and no collection between the steps",
     ["src/runtime.c", "src/runtime.h"],
     [("dispatch on argument count", "src/runtime.c coraCall, coraDispatch"), ("partial application objects", "src/runtime.c makeCurry, callCurry"), ("fixed-arity fast paths", "src/runtime.h coraCall0..4")],
     hook="collector schedule (src/sim.h)")

prop("P08", "Channels hand every value over exactly once, in order, by rendezvous",
     "On a channel of cora/lib/chan, every completed receive gets the value of exactly one completed send and every completed send is received exactly once; values, whatever they are (also false, () and true), arrive unchanged and in the order in which "
     "sends and receives began to wait. A send and the receive that takes it overlap in time, a fiber never meets itself, and no operation that began later overtakes one that waits. When the scheduler returns, no channel has both a waiting sender and a waiting receiver of different fibers.",
     ["schedules", "programs", "histories"], "for every program of fibers sending and receiving on shared channels, every interleaving that spawning, yielding, blocking and external events produce, and every collection schedule",
     "no test of the repository uses channels at all; a lost wake-up, a swapped value or a stale queue entry needs a particular order of many fibers",
     ["lib/chan.cora", "lib/cml.cora", "lib/queue.cora"],
     [("meeting a waiting peer", "lib/chan.cora recv-try, send-try"), ("waiting", "lib/chan.cora recv-block, send-block"), ("perform and wrap", "lib/cml.cora perform, wrap"), ("FIFO of waiters and tasks", "lib/queue.cora")],
     hook="collector schedule (src/sim.h); rand() and the external event sources are the simulator's")
prop("P09", "A choice commits exactly one of its branches",
     "perform of a choice completes exactly one branch, returns the value of that branch through that branch's wrappers, and resumes its fiber exactly once. Branches that were not taken have no effect: they neither consume nor deliver a value, whether they were tried, "
     "are waiting on a channel or on an event source outside the channels, or are found later as stale waiters by another fiber.",
     ["schedules", "programs", "histories"], "for every program of fibers that choose among sends, receives and external events over shared channels, with nested wrappers, every order in which the branches are tried, and every interleaving and collection schedule",
     "no test uses choice; the failures need two branches of the same choice to become ready before the fiber runs again, or a third fiber that meets a stale waiter",
     ["lib/cml.cora", "lib/chan.cora"],
     [("trying and blocking all branches", "lib/cml.cora choice-op, choice-ops-try"), ("one state per blocked perform", "lib/cml.cora perform"), ("stale waiters", "lib/chan.cora recv-try, send-try"), ("random order", "lib/cml.cora shuffle")],
     hook="collector schedule (src/sim.h); rand() and the external event sources are the simulator's")
prop("P10", "The scheduler runs every fiber, fairly and in constant stack",
     "Every spawned fiber runs exactly once and every fiber that becomes runnable (after a yield, a completed channel operation or an external event) continues exactly once, before any other fiber has taken more than a small number of turns; fibers waiting only for external events do not stop others from "
     "running, and the others do not stop the events from being noticed. cml-entry returns when, and only when, nothing is runnable and no event source has work. The stack does not grow with the number of switches.",
     ["schedules", "programs", "histories"], "for every program of spawning, yielding, communicating and event-waiting fibers, including fibers that switch many hundreds of times, under every arrival order of external events and every collection schedule",
     "no test runs the scheduler; starvation and stack growth only show in long histories",
     ["lib/cml.cora", "lib/queue.cora", "src/runtime.c"],
     [("task queue", "lib/cml.cora spawn, enqueue-task, yield, schedule, schedule-loop"), ("event sources", "lib/cml.cora register-scheduler, run-external-schedulers"), ("throw and resume between fibers", "src/runtime.c builtinThrow, continuationAsClosure")],
     hook="collector schedule (src/sim.h); the external event sources are the simulator's")
prop("P11", "A connection is a reliable byte stream in both directions",
     "What cora/lib/async sends on a connection arrives at the other end exactly once, unchanged and in order, however the kernel splits, delays or blocks the transfers: send returns (ok) only after every byte of its buffer was handed over, and recv fills the whole "
     "buffer with the next bytes of the stream and returns (ok), or returns (eof n) or (err e) with the n bytes before the end in place. A send or recv that has to wait goes on exactly where it stopped, both directions of a connection work at the same time, and connections never mix.",
     ["schedules", "fault_sequences", "inputs"], "for every sequence of sends and receives of any size on any number of connections, every split into short reads and writes, every pattern of EAGAIN and EINTR, every delay, and every collection schedule",
     "no test opens a socket; partial transfers need full buffers and slow peers at particular byte positions",
     ["lib/async.cora", "lib/net.c", "lib/epoll.c"],
     [("transfer loops", "lib/net.c netSend, netRecv"), ("resuming a partial transfer", "lib/async.cora send-op, send-handler, recv-handler"), ("buffers kept while waiting", "lib/async.cora closures over buf, src/gc.c"), ("both directions", "lib/async.cora event-loop-add, conn-mode")],
     hook="collector schedule (src/sim.h); sockets and epoll are the simulator's")
prop("P12", "The event loop never loses a wake-up, spins for ever, or stops others",
     "Every accept, dial, send and recv of cora/lib/async completes once the network makes it possible, whatever other fibers wait for and however many descriptors are ready at once; fibers that do not use the network keep running meanwhile, and a program whose fibers all wait for the network sleeps until something one of them waits for happens, whatever else arrives meanwhile. "
     "cml-entry returns when the last of them is done. The stack does not grow with the number of times fibers wait.",
     ["schedules", "fault_sequences", "histories"], "for every mix of servers, clients and computing fibers, every order and delay of network events, and long request-reply exchanges",
     "no test runs the event loop; a lost registration or a handler that nests schedulers shows only in long or crowded histories",
     ["lib/async.cora", "lib/cml.cora", "lib/epoll.c"],
     [("registration and modes", "lib/async.cora event-loop-add, conn-set-mode!, lib/epoll.c pollCtlMod"), ("event dispatch", "lib/async.cora scheduler, lib/epoll.c poll"), ("sleep or poll", "lib/cml.cora schedule, schedule-loop"), ("resuming outside the handler", "lib/async.cora enqueue-task")],
     hook="collector schedule (src/sim.h); sockets and epoll are the simulator's")
prop("P13", "A network failure reaches the operation it concerns and nothing else",
     "When a peer resets or half-closes a connection, or socket, bind, getaddrinfo, connect, accept, send or recv fails, the operation concerned returns an error value ((err e), (eof n), or () from listen and dial), a failed accept is retried, and no other connection, fiber or the process is disturbed: "
     "transfers on other connections stay correct and complete. Every descriptor and address list the library opened is released by conn-close or by the failing call itself.",
     ["fault_sequences", "schedules", "histories"], "for every sequence of resets, refused and failed calls, half-closed and vanishing peers at any point of any number of concurrent connections",
     "no test opens a socket, let alone one that fails",
     ["lib/net.c", "lib/async.cora"],
     [("error results", "lib/net.c netSend, netRecv, netAccept, netListen, netDial"), ("retry of accept", "lib/async.cora accept-op"), ("deregistration", "lib/async.cora conn-close, del-from-event-loop-conns"), ("release on failure", "lib/net.c netDial, netListen")],
     hook="collector schedule (src/sim.h); sockets and epoll are the simulator's")

FSHOOK = "none in the source: the C library's file functions, dlopen, system and getpid are the simulator's"
prop("P14", "An import runs the package's current code once, after its dependencies",
     "import of a package runs the body of the version of its source that is current at that time (of the version that was current when an overlapping load by another process began, if one is writing the compiled form meanwhile), after the bodies of the packages it imports, and exactly once per process: "
     "later imports of it do nothing. It does not matter whether the compiled form was kept from an earlier process, nor how quickly edits and imports follow each other; a package that did not change is not compiled again. An import that failed (its source, or a package it needs, cannot be read, found or compiled, or its body throws) is reported, "
     "by a number or to the handler of the try around it, leaves nothing counted as imported that did not finish, and can be repeated. load runs the current version of the file every time. Neither leaves temporary or open files behind.",
     ["histories", "programs", "schedules"], "for every dependency graph and every history of edits, imports, loads, broken versions and repairs over any number of processes, and for edits at every moment of a load",
     "no test edits a file between two imports; staleness needs an edit at a particular moment between the check, the read and the compile",
     ["src/runtime.c", "lib/toc.cora", "init.cora"],
     [("once per process", "src/runtime.c builtinImport, cora/init#*imported*"), ("is the .so current", "src/runtime.c safeToUseSo, utimensat in loadCompiled"), ("compile and run", "src/runtime.c load, loadCompiled, runSo; lib/toc.cora compile-to-c"),
      ("imports of a file, before it is compiled", "lib/toc.cora handle-import-eagerly"), ("failed and interrupted loads", "src/runtime.c loadFailed, setImportedFrames")],
     hook=FSHOOK)
prop("P15", "A crash or I/O failure while loading harms only that load",
     "If a process dies at any point of an import or load, or a file operation, the C compiler or the dynamic loader fails in it, no other process and no later import ever runs code that is incomplete, damaged or older than it would be otherwise: the next import finds or makes a correct compiled form. In the process itself the failing load is reported "
     "(a number, or exit(1)) and nothing else is disturbed; loads that no fault touches succeed. Without a crash no temporary file is left behind.",
     ["crash_points", "fault_sequences", "histories"], "for every crash point of every file operation (torn writes included), every combination of failing read, write, close, open, stat, rename, utimensat, dlopen and C compiler runs, and every history of edits and imports around them",
     "no test makes a file operation fail or kills a process",
     ["src/runtime.c", "lib/toc.cora", "lib/io.c", "src/reader.c"],
     [("the .so appears by rename when complete", "src/runtime.c loadCompiled"), ("errors of reading and writing", "src/runtime.c builtinReadFileAsSexp; lib/io.c openOutputFile, closeOutputFile; lib/toc.cora compile-to-c"), ("failed loads", "src/runtime.c loadFailed")],
     hook=FSHOOK)
prop("P16", "Processes that load the same packages at once do not disturb each other",
     "Any number of processes may import and load the same and dependent packages at the same time, while the sources are edited: each runs, for each package, complete code of one version that was current while the loads that overlap it went on, in dependency order, exactly once; none fails, waits for another for ever, or sees the temporary files of another, and crashes of some do not harm the others. When all are done, the next import runs the current versions.",
     ["schedules", "crash_points", "histories"], "for every interleaving, at the level of single file operations, of the importing processes, the editor and crashes",
     "no test runs two processes at once; the failures need one of them to act between two file operations of another",
     ["src/runtime.c", "lib/toc.cora"],
     [("temporary names per process", "src/runtime.c load, loadCompiled"), ("the .so appears by rename when complete", "src/runtime.c loadCompiled"), ("freshness of what is found", "src/runtime.c safeToUseSo")],
     hook=FSHOOK)

prop("P17", "Bytes written, copied or piped arrive unchanged, or the loss is reported",
     "What a program writes to a file or to a command's pipe through cora/lib/io and cora/lib/os is there, complete, unchanged and in order, once it is closed, and io-read-all and io-copy give exactly what the source holds, at every size and however the operations are split into short transfers; a write, copy, read or close that could not do so says so by its result. "
     "Opening a file for output makes the folders of its path. exec, popen and pclose run exactly the command given and return its status. What display prints is exactly the value, and standard output gets nothing else. Every stream closed releases its file, and no operation leaves memory of its own behind, however it ends.",
     ["histories", "fault_sequences", "inputs"], "for every history of opening, writing, copying, reading and closing of any number of streams at once, every size around the buffer boundaries, every split into short transfers, and every combination of failing open, mkdir, read, write, close, popen and exec",
     "the tests of io write one small file each; lost data needs sizes at buffer boundaries or a failure in the middle of a transfer",
     ["lib/io.c", "lib/os.c", "src/str.c", "src/reader.c"],
     [("reading and copying in batches", "lib/io.c ioReadAll, ioCopy"), ("folders of a path", "lib/io.c mkdirP, builtinOpenOutputFile"), ("results of write and close", "lib/io.c ioWrite, builtinCloseOutputFile"), ("commands", "lib/os.c exec, popenFn, pcloseFn, cmdListStr"),
      ("growing strings", "src/str.c strCat, strBufReserve"), ("printing", "src/reader.c printObj, printCons; lib/io.c builtinDisplay")],
     hook=FSHOOK)
prop("P18", "The reader returns exactly the forms of the text, or refuses it",
     "read-file-as-sexp of a file gives exactly the data its text denotes (numbers up to 2^53 in size, strings with escapes, symbols, quote, backquote, unquote, lists and bracket lists, comments), whatever the layout and however the reads of the file are split; display prints such a value as text that denotes it again. "
     "A text that is not well formed or exceeds a documented limit is refused (the process ends with status 1) and never read as something else, a file that cannot be read gives false, and no text makes the reader touch memory it does not own or fail to end. Reading a text again leaves no open file and no memory behind.",
     ["inputs", "schedules", "fault_sequences"], "for every text up to megabytes, however long its lists and however deep its nesting, well formed, cut off at any byte, or damaged, every split of its bytes into reads, every failing open or read, and every collection schedule",
     "the tests read a few well-formed files; limits, truncation and buffer boundaries are never exercised",
     ["src/reader.c", "src/runtime.c"],
     [("numbers, strings, symbols", "src/reader.c readNumber, addDigit, sexpRead, isIdentifierChar"), ("lists and macros", "src/reader.c readCons, readListMacro, readPart"), ("end of input", "src/reader.c peekFirstChar, readPart"), ("whole file", "src/runtime.c builtinReadFileAsSexp"), ("printing", "src/reader.c printObj, printCons")],
     hook=FSHOOK + "; collector schedule (src/sim.h)")

prop("P19", "A program does what its text says, compiled or evaluated",
     "A program of the documented language (numbers, strings, symbols, lists, lambda and closures, currying and over-application, let, if, cond, and, or, match with where and list patterns, func, defun, begin, quote and backquote, set, try/throw with resumption, apply, the list library) gives exactly the values and the effects that its text defines, each effect once and from left to right, "
     "whether its file is compiled to C, loaded as a shared object and run, or its forms go through eval. The names that the program chooses do not matter (shadowed, like a keyword of C, not ASCII), constant parts computed by the compiler give what running them gives, and no valid program is refused by the compiler or the C compiler.",
     ["programs", "schedules", "fault_sequences"], "for every well-typed program of those forms whose numbers stay within 2^53, every collection schedule while it is compiled and run, and every split of the reads and writes of the compiler's files",
     "the tests compile a few dozen small programs with one schedule; combinations of forms, names and partial evaluation are unbounded",
     ["init.cora", "lib/toc.cora", "lib/peval.cora", "lib/eval.cora", "lib/toc/internal.c", "src/runtime.c", "src/reader.c"],
     [("macro expansion and match", "init.cora cora/init#rewrite-match, cora/init#macroexpand-boot"), ("partial evaluation", "lib/peval.cora peval, peval-app"), ("closure conversion, continuations, code generation", "lib/toc.cora parse, closure-convert, tailify, generate-inst"),
      ("names and literals", "lib/toc/internal.c builtinGenerateSym, builtinEscapeStr"), ("calls", "src/runtime.c coraDispatch, makeCurry, callCurry, builtinApply"), ("evaluator", "lib/eval.cora eval; src/runtime.c makeClosureForEval")],
     hook=FSHOOK + "; collector schedule (src/sim.h)")

prop("P20", "Tables, queues, strings, records, parsers and XML of the library are right",
     "Every history of library operations gives the results of a simple model of the objects. A hash table returns for a key the last value stored under an equal key and nothing for a deleted or never stored one, whatever the keys hash to, and counts its keys. A queue gives its items in the order they were put in, each once. "
     "string-slice, string-append, string-replace, string-split, string-contain?, has-prefix?, compare, string-index, byte-ref, string->list, number->string and memcpy agree with byte sequences (any bytes, empty ones, indexes from the end, not found). A record keeps its fields apart and its predicate recognises exactly its own kind. A thread local gives what the running thread stored last. let-loop, member, assq, foldl, for-each and values follow their definitions. "
     "A PEG parser built from the combinators accepts exactly the prefix that PEG semantics give, with that value, and a failed alternative consumes nothing. sxml->xml writes well-formed, escaped XML. All of it holds whatever the collector does in between, and no call keeps memory of its own after it has returned.",
     ["histories", "schedules", "inputs"], "for every history of those operations, every key, string and parser, and every collection schedule",
     "no test of the suite touches the hash table, queue, peg, sxml or thread-local libraries, and an index, an empty field or a negative hash goes wrong only for particular inputs",
     ["lib/hash.cora", "lib/hash-h.c", "lib/queue.cora", "lib/string.c", "src/str.c", "lib/define-record.cora", "lib/let-loop.cora", "lib/sys.cora", "lib/peg.cora", "lib/sxml.cora"],
     [("tables", "lib/hash.cora hash-set!, hash-get, hash-del!; lib/hash-h.c hashToNumberHelp"), ("queue", "lib/queue.cora enqueue, dequeue"), ("strings", "lib/string.c stringSlice, stringSplit, stringReplace; src/str.c strStr, strSub, strCmp"),
      ("records", "lib/define-record.cora"), ("parsers", "lib/peg.cora @seq, @or, @!, @+, @*"), ("XML", "lib/sxml.cora")],
     hook="collector schedule (src/sim.h)")

prop("P21", "The REPL and scripts run each form once, in order, and print what they should",
     "Forms given to the REPL run once each, in order, and after the n-th prompt 'n #> ' exactly the printed form of its value appears, on one stack depth, however the input is laid out and split into reads, whatever the number of forms and whatever the collector does. A script runs its forms once each, in order, prints nothing that they do not print, and finds its name and arguments, in order and unchanged, in *command-line-args*; "
     "its first line is skipped, whatever its length, when it starts with #, and is code otherwise. The process ends with status 0 at the end of the input and with another when the script cannot be read. Text that is not well formed ends the session after the forms before it have run, and never runs as something else.",
     ["inputs", "programs", "schedules"], "for every sequence of forms, every layout and split of the input into reads, every first line, every list of arguments, and every collection schedule",
     "the tests run a few one-line sessions; where a read ends, how long the first line is and when a collection runs is not under their control",
     ["main.c", "src/reader.c", "src/runtime.c", "lib/eval.cora", "init.cora"],
     [("the loop", "main.c main"), ("scripts", "main.c shebang"), ("printing of values", "src/reader.c printObj, printCons"), ("evaluating a form", "src/runtime.c coraRun; lib/eval.cora eval")],
     hook="main.c compiled with main, coraInit and sexpRead renamed on the compiler's command line; " + FSHOOK + "; collector schedule (src/sim.h)")

prop("P22", "Markdown, JSON and XML documents are what their files say",
     "process-file of a markdown file gives the sxml tree of its blocks and spans (headings, paragraphs, quotes, nested lists with their tightness, start numbers and task marks, code with its language, rules, emphasis, links, images, escapes, line breaks) with every character of its text in order, whatever its size and nesting, and sxml->xml of the tree gives its XML. "
     "json-load-file gives a document whose every value is found under its index or key with its type and its value, and refuses text that is not JSON; what is asked of something that is no JSON value gets the default. Reading a markdown document again leaves no memory behind. A file that cannot be opened or read to its end gives (), never a shorter document. All of it holds however the reads are split and whatever the collector does while the tree is being built or afterwards.",
     ["inputs", "schedules", "fault_sequences"], "for every document of those constructs, every split of its bytes into reads, every failing open or read, and every collection schedule",
     "no stable test reads a markdown or JSON file at all; where the offsets, nesting and reads fall is unbounded",
     ["lib/md4c/wrap.c", "lib/md4c/md4c.c", "lib/json.c", "lib/sxml.cora", "src/export.c"],
     [("tree of a document", "lib/md4c/wrap.c enter_block_callback, leave_block_callback, enter_span_callback, md_html_push"), ("reading the file", "lib/md4c/wrap.c process_file"), ("markdown", "lib/md4c/md4c.c md_parse"),
      ("JSON", "lib/json.c jsonLoadFile, jsonArrayGet, jsonObjectGet"), ("XML", "lib/sxml.cora sxml->xml")],
     hook=FSHOOK + "; collector schedule (src/sim.h)")

prop("P23", "A trace records every call of a traced function and changes nothing else",
     "Whatever is traced, untraced, traced twice, kept in a variable or applied in part, a program computes the same values with tracing on, off or failing. The file named to trace-enable holds, after trace-disable, one begin and one end event, nested and with times that do not go back, for every call of a traced function made while tracing to it was on, all of one process and thread, in the order of the calls and no others, "
     "whatever their number and the size of the buffer, and also when tracing to another file was enabled in between or the program ends without trace-disable; no file stays open. A failing open or write of the trace file loses events at most.",
     ["histories", "schedules", "fault_sequences"], "for every history of trace, untrace, trace-enable, trace-disable and calls, every split or failing write, and every collection schedule",
     "no test enables tracing",
     ["lib/trace.c", "src/trace.c", "src/trace.h"],
     [("wrapping", "lib/trace.c traceWrap, builtinTrace, builtinUntrace"), ("the file", "src/trace.c traceInit, traceClose; src/trace.h traceEmitEvent, traceFlush")],
     hook=FSHOOK + "; collector schedule (src/sim.h)")

NOT_APPLICABLE = []
