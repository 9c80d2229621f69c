#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script only so that the text is easy to edit).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=m,where=files[min(i,len(files)-1)]) for i,m in enumerate(mech)]); a.update(kw)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p("S01","Streams arrive complete, in order and unmodified",
 "For every connection, the sequence of bytes a consumer reads and consumes is exactly the sequence its producer produced or posted: nothing lost, repeated, reordered or altered, however the producer and consumer slice it, whatever reserve they ask for, whatever buffer provider is installed, and also when one output feeds several inputs. A consumer that asked for a reserve is offered that many contiguous elements once enough have arrived and they fit in a buffer.",
 ["histories","inputs","configurations"],
 "all interleavings of work steps up to a depth; all small produce / consume / reserve / post-buffer / forward choices; generic, circular and in-place buffer configurations; 1-2 subscribers",
 "Existing tests push a handful of fixed amounts through one or two shapes; the fragmentation, amalgamation and wrap-around paths depend on combinations of produce, consume and reserve sizes.",
 ["lib/Framework/BufferAccumulator.cpp","lib/Framework/WorkerActor.cpp","lib/Framework/InputPort.cpp","lib/Framework/OutputPort.cpp","lib/Framework/BufferChunk.cpp","lib/Framework/Builtin/GenericBufferManager.cpp","lib/Framework/Builtin/CircularBufferManager.cpp"],
 ["buffer accumulator amalgamation and pop","pre/post work buffer hand-off","buffer manager front/pop"])
p("S02","A buffer is never recycled while referenced and always comes back once",
 "Memory handed downstream is not offered again to its producer, overwritten or freed while any consumer still holds a reference to it, no matter in what order references are copied, moved, assigned (also to themselves), split across domains and dropped. When the last reference goes, the buffer returns to its provider exactly once, so the provider ends with all of its buffers again and offers them in their original order.",
 ["histories","configurations"],
 "all sequences of acquire / partial pop / copy / move / self-assign / drop operations up to a depth over generic and circular providers and over wrapped (multi-domain) buffers",
 "Tests hold and release buffers in one fixed order; leaks, double returns and early reuse need particular orders of overlapping references.",
 ["lib/Framework/ManagedBuffer.cpp","include/Pothos/Framework/ManagedBuffer.hpp","include/Pothos/Framework/BufferChunk.hpp","lib/Framework/BufferManager.cpp","lib/Framework/Builtin/GenericBufferManager.cpp","lib/Framework/Builtin/CircularBufferManager.cpp","include/Pothos/Util/OrderedQueue.hpp","lib/Framework/BufferPool.cpp"],
 ["intrusive reference count and return to manager","ordered re-queueing of returned buffers","next-buffer chaining for domains"])
p("S03","Labels stay attached to the element they were posted on",
 "Every label posted on an output element is seen by each subscriber exactly once per time its element is presented, at the position of that same element relative to the data available to it, in ascending position order, and disappears exactly when that element is consumed or the label is removed. By default a consumed label is forwarded to every output at the position the block's own policy computes, and positions are rescaled with the element size and rate factors, so that its element correspondence is preserved.",
 ["histories","inputs","configurations"],
 "all small sequences of label posts (any order, including positions beyond what was produced), produce and consume amounts, element sizes and removals",
 "Tests post one or two labels at in-range positions in ascending order and consume everything at once.",
 ["lib/Framework/WorkerActor.cpp","lib/Framework/InputPort.cpp","include/Pothos/Framework/InputPortImpl.hpp","include/Pothos/Framework/OutputPortImpl.hpp","lib/Framework/Label.cpp","lib/Framework/Block.cpp"],
 ["relative index arithmetic when pushing, consuming and propagating labels"])
p("S04","Messages, signals and slot calls are delivered once, in order, with args intact",
 "Every message posted to a port, and every signal emitted to connected slots or message inputs, reaches each subscriber exactly once and in the order sent from that port, with its arguments unchanged, as long as fewer than the documented overflow limit are outstanding. A producer whose messages are not being consumed is held back rather than allowed to run ahead without limit, and resumes once they are consumed.",
 ["histories","configurations"],
 "all interleavings of post / pop / peek / emit / work steps up to a depth, one or two senders and subscribers, including slots that throw and probes",
 "Tests send one or two messages and wait for the end result.",
 ["lib/Framework/InputPort.cpp","lib/Framework/OutputPort.cpp","lib/Framework/WorkerActor.cpp","lib/Framework/Block.cpp","include/Pothos/Framework/BlockImpl.hpp"],
 ["async message and slot call queues","token-based message back-pressure","signal emission and probe handling"])
p("S05","work() runs only when the block can make progress and totals add up",
 "A block's work function runs only while the block is active, every connected output has space, and at least one buffered input met its reserve or holds a message (or there are no buffered inputs); the sizes and pointers it is offered are the exact minimums over its ports. If such a condition holds after new data, space or messages arrived, a work step is granted; after each step the port totals equal what was actually consumed, produced and posted.",
 ["histories","configurations"],
 "all sequences of work steps and port actions up to a depth for blocks with 0-2 inputs and 0-2 outputs",
 "Tests check only end results, not each offered size or the totals after each partial step.",
 ["lib/Framework/WorkerActor.cpp","lib/Framework/WorkInfo.cpp","include/Pothos/Framework/InputPortImpl.hpp","include/Pothos/Framework/OutputPortImpl.hpp"],
 ["pre-work readiness computation","post-work accounting"])
p("S06","Port queues are safe against concurrent delivery",
 "Data, labels and messages delivered to an input by another thread, and buffers returned to an output by another thread, are never lost, duplicated, reordered or observed half-updated by the thread that is working the block, under any interleaving. No two threads ever access the port's shared state without ordering between them.",
 ["schedules"],
 "all interleavings of a producer thread, a consumer worker thread and a buffer-returning thread up to a preemption bound, with a happens-before race check that honours the memory orders used",
 "Tests run on the OS scheduler and see a few of the possible interleavings; weakened orderings never fail on x86.",
 ["lib/Framework/InputPort.cpp","lib/Framework/OutputPort.cpp","lib/Framework/WorkerActor.cpp","include/Pothos/Framework/InputPortImpl.hpp","include/Pothos/Framework/OutputPortImpl.hpp","include/Pothos/Util/SpinLock.hpp","lib/Framework/ManagedBuffer.cpp"],
 ["per-queue spin locks","buffer return callback under the port lock","atomic reference counts"])
p("A01","Only one thread at a time is inside a block",
 "A block's work, its slot handlers and every external call into it (method calls, activation, connecting and disconnecting ports, buffer manager set-up, statistics) are mutually exclusive: no two threads are ever inside the same block, and everything one of them did is visible to the next. An external caller always gets its turn.",
 ["schedules"],
 "all interleavings of one or two worker threads with one or two external callers up to a preemption bound, waiting and non-waiting modes",
 "Overlap needs a precise interleaving inside a few instructions; the tests never contend on purpose.",
 ["lib/Framework/ActorInterface.hpp","include/Pothos/Util/SpinLock.hpp","lib/Framework/WorkerActor.hpp","lib/Framework/Block.cpp"],
 ["external call lock and worker try-lock","acquire / release orderings"])
p("A02","A flagged change is never missed by a block's worker",
 "Whenever new data, messages, returned buffers or an external call may have changed what a block can do, the block gets another work opportunity afterwards; a change flagged at any instant (before, during or after a work step or a call) is neither lost nor left waiting for an unrelated event. Opportunities are consumed: with nothing flagged, an idle block is not worked.",
 ["schedules"],
 "all interleavings of flagging threads, external callers and a worker up to a preemption bound; timeouts are modelled as choices",
 "A lost wake-up shows up as a rare stall; tests would only time out.",
 ["lib/Framework/ActorInterface.hpp","lib/Framework/WorkerActor.cpp","lib/Framework/ThreadEnvironment.cpp"],
 ["change flag test-and-set / clear protocol","re-flagging when the context is busy"])
p("A03","A thread pool services each member exclusively and only while it is a member",
 "Every registered task is run repeatedly by the pool's threads, by at most one of them at a time, for as long as it stays registered, whatever the pool's size and however registrations change. Once unregistration returns the task is not running and never runs again, and destroying the pool stops all of its threads.",
 ["schedules","histories","configurations"],
 "all register / unregister histories of up to three tasks on pools of 0 (one per task), 1 and 2 threads, under all interleavings up to a preemption bound",
 "Tests only construct pools with parameters and run ordinary topologies on them.",
 ["lib/Framework/ThreadEnvironment.cpp","lib/Framework/ThreadEnvironment.hpp","lib/Framework/ThreadPool.cpp"],
 ["task map with config signature and round robin selection","thread creation and join on (un)registration"])
p("T01","Editing a topology and flattening its hierarchy is exact",
 "Connecting and disconnecting behave like insertion into and removal from a set of edges, with a rejected operation leaving the design unchanged; port names of a hierarchical design track its external edges. The flattened design contains exactly the block-to-block edges that follow from composing edges through nested designs at any depth (including pass-through and fan-out), each once.",
 ["histories","configurations"],
 "all connect / disconnect sequences up to a depth over small sets of blocks and nested designs, compared with relational composition of edge sets",
 "Tests build three or four fixed hierarchies and only connect or disconnect all.",
 ["lib/Framework/Topology.cpp","lib/Framework/TopologySquashFlows.cpp","lib/Framework/TopologyCommit.cpp","lib/Framework/TopologyImpl.hpp","include/Pothos/Framework/TopologyImpl.hpp"],
 ["flow list edits and port name registration","recursive flattening through pass-through flows"])
p("T02","Commit makes the running system match the design, transition by transition",
 "After every successful commit, data flows over exactly the connections of the flattened design (no stale, missing or doubled subscription) and exactly the blocks taking part in it are active. Each block is activated once when it enters and deactivated once when it leaves, never worked outside that window, and a refused activation, deactivation or buffer manager is reported to the committer and does not prevent later commits from establishing the design. A direct connection never joins incompatible memory domains. Destroying the topology deactivates what it activated.",
 ["histories","fault_sequences","configurations"],
 "all edit / commit histories up to a depth over a few blocks, with any one block refusing activation",
 "Tests commit one or two designs and tear them down.",
 ["lib/Framework/TopologyCommit.cpp","lib/Framework/Topology.cpp","lib/Framework/WorkerActor.cpp","lib/Framework/TopologyDomainFlows.cpp"],
 ["difference of old and new flat flows","subscribe / unsubscribe, buffer manager installation and activation order"])
p("T03","A committed topology delivers its data under every thread schedule",
 "A finite stream or message sequence injected into a committed running design reaches its end point complete and in order, the design reports inactivity then and not while a block keeps working, and commit, reconfiguration and teardown finish, whatever the thread pool shape and however its threads are scheduled.",
 ["schedules","configurations"],
 "all schedules up to a deviation bound of a real committed design (source, processing block, collector) with its real pool threads and an editing thread",
 "Tests run once per shape on the OS scheduler.",
 ["lib/Framework/TopologyCommit.cpp","lib/Framework/WorkerActor.cpp","lib/Framework/ThreadEnvironment.cpp","lib/Framework/ActorInterface.hpp","lib/Framework/Topology.cpp"],
 ["whole run-time: actors, ports, thread pool, commit"])
p("T04","A design survives its JSON description and reports itself faithfully",
 "A topology made from a JSON description contains exactly the described blocks, calls, global variables and connections, and malformed descriptions (missing or ill-typed fields, unknown or repeated IDs, failing constructors or calls) are rejected with an error and leave nothing behind. The JSON dump of a design lists exactly its blocks, ports and connections in both flat and hierarchical form.",
 ["inputs","configurations"],
 "all small descriptions over a field alphabet (including missing and ill-typed fields) and all small connected designs",
 "Tests load one well-formed description.",
 ["lib/Framework/TopologyMakeJSON.cpp","lib/Framework/TopologyDumpJSON.cpp","lib/Framework/Topology.cpp"],
 ["description parsing and evaluation order","dump traversal"])
p("R01","Concurrent remote calls get their own replies and fail together",
 "When several threads share one remote connection, each call returns the reply to its own request, in whatever order the server answers. If the connection fails at any point, every pending and later call returns with an error; none waits forever.",
 ["schedules","fault_sequences"],
 "all interleavings up to a preemption bound of two or three calling threads, all reply orders, and a connection failure at any reply boundary",
 "Tests use one calling thread and a healthy local server.",
 ["lib/Remote/RemoteProxy.cpp","lib/Remote/RemoteProxy.hpp"],
 ["reply cache keyed by thread","single blocking reader hand-over with condition variable"])
p("R02","Remote objects behave like local ones and bad input cannot wedge a server",
 "Calls, conversions, comparisons, hashes and errors through a remote connection have the same outcome as on the local object (a value that cannot be sent fails that call only), and objects and environments are released on the server exactly when the client drops them. A stream that ends or whose framing is damaged at any byte, or a request naming unknown actions or objects, ends in an error or a closed session, never in a wrong result, crash or hang, and leaves other sessions alone.",
 ["inputs","fault_sequences","histories"],
 "all histories of remote operations to a depth; truncation at every byte and damage at every framing byte of a session, in both directions; all requests over sets of actions, names and identities",
 "Tests exercise successful sessions only.",
 ["lib/Remote/RemoteProxyDatagram.cpp","lib/Remote/RemoteProxyHandle.cpp","lib/Remote/ServerHandler.cpp","lib/Remote/RemoteProxy.cpp"],
 ["datagram framing","server object map and action dispatch"])
p("O01","Opaque objects share, keep and free their value exactly once",
 "An opaque object keeps its value alive as long as any handle to it exists and destroys it exactly once afterwards, for every order of copying, moving, assigning (including to itself), reassigning and dropping handles, and also when handles are copied and dropped by several threads at once. Extraction yields the stored value for its own type and an error for any other.",
 ["histories","schedules"],
 "all handle operation sequences up to a depth over three handles; all interleavings of two or three threads copying and dropping",
 "Tests copy and drop once.",
 ["lib/Object/Object.cpp","include/Pothos/Object/ObjectImpl.hpp","include/Pothos/Object/Object.hpp"],
 ["intrusive atomic reference count"])
p("O02","Conversions preserve the value or fail",
 "Converting a finite number between any two supported numeric types yields the same value (up to the rounding of a floating destination and the dropped fraction of an integer destination) or fails with a range error when it does not fit, including a complex number with an imaginary part into a real type; it never silently wraps. Text and container conversions round-trip and agree element-wise with the conversion of single values. Whether a conversion is possible does not change after it has been attempted, and a removed conversion is unavailable afterwards.",
 ["inputs","histories"],
 "all pairs of supported types times all boundary values of each type; register / remove / convert histories",
 "Tests try a few in-range values per type.",
 ["lib/Object/Convert.cpp","lib/Object/Builtin/ConvertIntegers.cpp","lib/Object/Builtin/ConvertFloats.cpp","lib/Object/Builtin/ConvertString.cpp","lib/Object/Builtin/ConvertCommonImpl.hpp"],
 ["range-checked conversion table driven by plugins"])
p("O03","Comparing, hashing and printing objects agrees with their values",
 "Comparing two finite numbers of any real types, or two texts, gives the ordering of their exact values, antisymmetric and transitive across types and equal with itself; equal objects of one type hash equally and the hash is a function of the value; printing shows the value. Types without a comparison fail with the comparison error, and registered comparison, hash and print functions are used exactly while registered.",
 ["inputs"],
 "all triples over the boundary values of all supported types",
 "Tests compare a few pairs.",
 ["lib/Object/Compare.cpp","lib/Object/Builtin/Compare.cpp","lib/Object/Hash.cpp","lib/Object/Builtin/Hash.cpp"],
 ["comparison table driven by plugins, common-type comparison"])
p("O04","Serialization round-trips every supported value and rejects damaged input",
 "Saving any supported value (numbers, text, containers, buffers, types, labels, packets, nested objects, null) and loading it back gives an equal value, consuming exactly the bytes written so that values can be concatenated. Loading from input that ends at any earlier byte fails with an error, and never returns a value, crashes or hangs.",
 ["inputs","fault_sequences"],
 "all supported types times boundary values, nested containers to a small depth, and truncation at every byte",
 "Tests round-trip one value per type on intact streams.",
 ["lib/Object/Serialize.cpp","lib/Object/Builtin/Serialize.cpp","lib/Archive/StreamArchiver.cpp","lib/Archive/ArchiveEntry.cpp","include/Pothos/Archive/Numbers.hpp","include/Pothos/Archive/Vector.hpp","include/Pothos/Archive/Map.hpp","include/Pothos/Archive/String.hpp","lib/Framework/BufferChunk.cpp","lib/Framework/DType.cpp"],
 ["stream archive encoding and registered type entries"])
p("P01","The plugin registry is an exact tree with complete event delivery",
 "Adding, getting, removing, testing and listing plugins behaves like a tree keyed by path: an occupied path rejects a second plugin, a removed path is free again, listings show children with live plugins in first-insertion order, and queries change nothing. A handler registered at a path is told of every plugin added to or removed from its subtree exactly once, including those present before it. A loaded module owns exactly the plugins registered while it loads; when its last handle goes, exactly those still registered are removed and the library is unloaded. A path text is accepted exactly when it is / or a chain of /name with names of letters, digits, _ and -.",
 ["histories"],
 "all operation sequences up to a depth over a small path set with handlers at several levels",
 "Tests add and remove one plugin.",
 ["lib/Plugin/Registry.cpp","lib/Plugin/Path.cpp","lib/Plugin/Plugin.cpp","lib/Plugin/Module.cpp","lib/Plugin/ModulePaths.cpp"],
 ["registry tree walk","event propagation up the tree and replay to late handlers"])
p("P02","The plugin registry can be used from many threads",
 "Lookups, listings, additions and removals performed concurrently by several threads each take effect atomically: every result is one that some sequential order of the operations would give, and no thread ever accesses registry state that another is changing. Readers do not block each other forever and every operation finishes.",
 ["schedules"],
 "all interleavings up to a preemption bound of two or three threads doing one or two operations on colliding paths, with a happens-before race check",
 "Tests use the registry from one thread.",
 ["lib/Plugin/Registry.cpp","include/Pothos/Util/SpinLockRW.hpp","lib/Object/Convert.cpp"],
 ["reader/writer spin lock around the tree"])
p("C01","Reader/writer and mutual-exclusion spin locks exclude, admit and hand over",
 "A writer holds the lock alone, readers share it only with readers, a try operation succeeds only when the lock is compatible and fails otherwise, and unlocking never leaves the lock stuck. What one holder wrote is visible to the next holder under every interleaving and the memory orders used.",
 ["schedules"],
 "all interleavings up to a preemption bound of two or three threads mixing shared, exclusive and try acquisitions",
 "No existing test contends on these locks.",
 ["include/Pothos/Util/SpinLockRW.hpp","include/Pothos/Util/SpinLock.hpp"],
 ["compare-and-swap reader count / writer mark"])
p("D01","Element types describe themselves unambiguously",
 "For every base type and dimension, the size, component kind flags and element size agree with the C++ type described, the printed form parses back to an equal type, all documented aliases denote the same type, and unknown names are rejected. Equality holds exactly when name and dimension agree, and construction from one type with a new dimension changes only the dimension.",
 ["inputs"],
 "all base types, all alias spellings and modifiers, dimensions 1-4 and malformed markups over a token alphabet",
 "Tests check a few markups.",
 ["lib/Framework/DType.cpp","include/Pothos/Framework/DType.hpp"],
 ["markup parsing and alias table"])
p("D02","Converting, splitting and joining buffers keeps every element",
 "Converting a buffer to another element type (into a new buffer or into one supplied) yields, for every pair of real or complex numeric types, every vector length on either side and every number of elements asked for, exactly the converted values in order: as many result elements as the scalars fill, the result's type as requested, an imaginary part of zero for real input, and real and imaginary parts in the right buffer when splitting complex input. The input and all memory outside the result stay untouched, the number of elements reported is the number written, and what cannot be converted (complex to real, unspecified or custom types, too small or differently typed outputs) is refused with BufferConvertError and writes nothing. Appending joins the bytes in order for every kind of buffer (pieces, wrapped circular buffers, spans over several buffers, null and empty ones), keeps the first type, and leaves the appended buffer as it was.",
 ["inputs","histories"],
 "all pairs of 20 numeric types, vector lengths 1-4 on both sides, all counts up to a bound, all four calls, all boundary values representable in both types; all append histories over 7 kinds of buffers to a depth",
 "Tests convert ramps between a few scalar types of one length; vector types on the output side and refused conversions are never tried.",
 ["lib/Framework/BufferConvert.cpp","lib/Framework/BufferChunk.cpp","include/Pothos/Framework/BufferChunk.hpp"],
 ["element count arithmetic and the conversion tables; BufferChunk::append"])
p("E01","Expression evaluation is faithful and never breaks on malformed input",
 "Evaluating a constant expression, list or map gives the value that ordinary arithmetic and nesting rules give, with registered constants substituted and removable, separators inside quotes or nested brackets left alone, and values registered as constants coming back unchanged (numbers up to 2^53). Any malformed text (unbalanced, mixed or missing brackets, quotes or separators) ends in an error, never in a crash, hang or silently different value; empty fields between separators are ignored.",
 ["inputs","histories"],
 "all strings up to a length over a token alphabet of digits, operators, brackets, quotes and separators; register / unregister histories",
 "Tests evaluate a list of well-formed expressions.",
 ["lib/Util/EvalEnvironment.cpp","lib/Util/EvalEnvironmentListParsers.cpp"],
 ["bracket-stack tokenizer and recursive list / map evaluation"])
p("K01","Callables apply the right function to the right arguments",
 "Calling a wrapped function, with any subset of its arguments bound in any order, passes every argument to its own position, reports the remaining arity and argument types correctly, converts arguments exactly or fails, and returns the result. Among registered overloads of a method or block call the one matching the argument count and types is invoked, and if none matches the call fails without invoking anything. The same holds for the constructors, methods, fields and inherited methods of managed classes and for block factories, and a class or converter that was removed is no longer found.",
 ["inputs","histories"],
 "all bind / unbind / call histories up to a depth for functions of 0-3 arguments; all argument-type tuples over overload sets",
 "Tests bind one argument at a time and use one overload set.",
 ["lib/Callable/Callable.cpp","include/Pothos/Callable/CallableImpl.hpp","lib/Callable/CallInterface.cpp","lib/Framework/Block.cpp","lib/Managed/Class.cpp","lib/Managed/Builtin"],
 ["bound-argument merging","overload filtering by arity and convertibility"])
p("B01","Ports and automatic ports keep a consistent naming and indexing",
 "After any sequence of port set-up, automatic allocation by connecting and automatic removal by disconnecting, named lookup, index lookup and the listed port names of a block agree with each other: each name once, plain numeric names at their index and no index beyond the highest port, requests for unknown ports fail with an error. Automatically created ports copy the type of the nearest lower-numbered port and vanish when unused, explicitly created ones never vanish.",
 ["histories"],
 "all sequences up to a depth of set-up, auto-allocate, subscribe and auto-delete operations over a few names",
 "One test allocates and deletes a few ports.",
 ["lib/Framework/WorkerActorPortAllocation.cpp","lib/Framework/Block.cpp"],
 ["port maps, index vectors and automatic port set"])
p("M01","A circular buffer is mirrored or not given out at all",
 "A circular buffer's second half always shows the same bytes as its first half, at every offset, and its memory belongs to it alone until it is released, after which all of it is returned to the system. If the operating system refuses or misplaces any mapping step, or other mappings appear in between, creation fails cleanly or is retried, without leaking or touching other mappings. A buffer mapped from a file shows the bytes of the file, and a failed attempt leaves nothing open or mapped.",
 ["fault_sequences","schedules"],
 "every combination of up to three refusals or address displacements over the sequence of system calls made by creation and destruction (unmapping itself never fails)",
 "Tests create circular buffers on a healthy system.",
 ["lib/Framework/SharedBufferUnix.cpp","lib/Framework/SharedBuffer.cpp"],
 ["shared memory double mapping with retries"])
p("L01","Queue containers behave like a plain sequence",
 "A ring queue holds exactly the elements pushed and not yet popped, in order, under any mix of front / back operations, indexing, growth, copying, moving, self-assignment and clearing, and constructs and destroys every element exactly once. An ordered queue releases elements in index order, exactly once each, whatever order they come back in.",
 ["histories"],
 "all operation sequences up to a depth from every reachable capacity / offset state, on instrumented elements",
 "Tests walk one fixed sequence.",
 ["include/Pothos/Util/RingDeque.hpp","include/Pothos/Util/OrderedQueue.hpp"],
 ["masked ring indexing","acknowledge index and flags"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
