#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand; output is committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, built=True, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, built=built, note=note, na=na))

prop("C01", "A trace dumped to a file reads back exactly as it was pushed",
 "Once its file listener has been stopped (or its timeline destroyed), a dump file holds the metadata followed by every event pushed to the timelines feeding it, each exactly once and whole, in push order per thread, with exactly the field values that were pushed. The bundled parser delivers that same sequence. This holds for any mix of threads, timelines, event types built from integer, string and inherited fields, string lengths, buffer sizes and serialisation modes, and when the operating system performs partial reads and writes.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "all interleavings of 1..4 producer threads, all event contents incl. empty, NULL, long and non-ASCII strings, all buffer capacities from 0, serialised and unserialised timelines, short and interrupted I/O",
 "The tests push a handful of fixed events from one thread into buffers that fit them; they never combine buffer boundaries, oversize events, several producers and partial I/O, and no test reads a written file back with the parser.",
 ["lib/timeline.c", "lib/listener_buffer.c", "lib/listeners/file_dump_listener.c", "lib/include/hawktracer/event_macros.h", "lib/event_utils.c", "parser/protocol_reader.cpp", "parser/file_stream.cpp"],
 [("buffering and oversize paths", "lib/timeline.c ht_timeline_push_event"), ("listener buffer and on-the-fly serialisation", "lib/listener_buffer.c"), ("field-wise decode", "parser/protocol_reader.cpp _read_event")],
 ["bytes of the dump file", "events delivered by the parser"])
prop("C02", "Every listener receives every event exactly once and in order",
 "Whatever is pushed to a timeline reaches every listener registered on it (or on another timeline of the same named group) exactly once, whole, in push order per thread, at the latest when the timeline is flushed, destroyed, or its owning thread exits. Any number of listeners may be registered, including by other threads while events are being pushed: a late listener misses nothing pushed after its registration returned. Each listener's destroy callback runs exactly once, when the last owner of the listener goes away or listeners are unregistered, and the listener is never called afterwards.",
 ["schedules", "inputs", "histories", "configurations"],
 "all interleavings of pushes, flushes, registrations and destructions; any number of listeners; shared, grouped, private and global timelines",
 "The tests register one or two listeners before pushing, from a single thread; growth of the listener list, registration racing with delivery and group teardown are not reached.",
 ["lib/timeline.c", "lib/timeline_listener.c", "lib/registry.c", "lib/include/internal/bag.h", "lib/global_timeline.cpp"],
 [("notification loop", "lib/timeline_listener.c notify_listeners"), ("reference-counted listener group", "lib/timeline_listener.c, lib/registry.c"), ("thread-exit flush", "lib/global_timeline.cpp")],
 ["calls of registered callbacks"])
prop("C03", "Every TCP client sees metadata first, then whole events without gaps",
 "Each client of the TCP listener receives a well-formed stream: first the complete metadata, then whole events, with no gap, duplicate or interleaving up to the moment it disconnects or the listener stops. For every producing thread the events a client gets are a contiguous run that includes everything handed to the listener after the client was connected and its metadata sent. This holds whenever clients connect, however many there are, and however the network splits, delays or interrupts the transfers; a connection on which the system refuses to take data may end there, but never resumes after a gap.",
 ["schedules", "inputs", "fault_sequences"],
 "all connect moments relative to pushes, 1..4 clients, partial sends, interrupted calls, small socket buffers, slow readers",
 "Real-socket tests connect before the first push and read a few bytes; they never exercise partial sends or a client arriving between two writes of one batch.",
 ["lib/tcp_server.cpp", "lib/listeners/tcp_listener.c", "lib/listener_buffer.c"],
 [("metadata pushed on connect before joining the broadcast list", "lib/tcp_server.cpp accept loop"), ("send loop", "lib/tcp_server.cpp write_to_socket")],
 ["bytes received by each client"])
prop("C04", "A misbehaving TCP client cannot hurt the application or other clients",
 "A TCP client that disconnects, resets, half-closes or never reads its data at any moment never crashes, kills (including through a signal) or permanently blocks the application once it is gone, and never disturbs what other clients receive. The server forgets such a client, releases its descriptor, and keeps accepting and serving later clients, also after temporary failures of the accepting system call.",
 ["schedules", "fault_sequences"],
 "all moments of disconnect or reset relative to accept, metadata, broadcast and stop; accept/send failing with any documented error",
 "Tests only ever close clients cleanly at the end; a reset during the metadata push or between two sends is never produced.",
 ["lib/tcp_server.cpp", "lib/listeners/tcp_listener.c"],
 [("dead clients are dropped on write failure", "lib/tcp_server.cpp write"), ("accept loop", "lib/tcp_server.cpp run")],
 ["process signals", "descriptor table", "streams of the other clients"])
prop("C05", "The file listener can be stopped, flushed and destroyed safely at any time",
 "Flushing or stopping a file listener concurrently with pushes from other threads is safe, and repeating a stop has no further effect. Every event handed to the listener before the stop call began is in the file when it returns, nothing is written to the file after it has returned, and the file is closed exactly once. A blocking flush that returns success means everything handed over before it has left the process.",
 ["schedules", "histories"],
 "all interleavings of pushes, flushes (blocking and not), stops and timeline destruction from several threads",
 "Tests call stop once from the pushing thread.",
 ["lib/listeners/file_dump_listener.c", "lib/listener_buffer.c"],
 [("listener mutex", "lib/listeners/file_dump_listener.c")],
 ["bytes of the file at each return"])
prop("C06", "The TCP listener can be stopped and destroyed safely at any time",
 "Stopping or flushing a TCP listener concurrently with pushes, with connecting clients or with another stop is safe, returns within bounded time while no client withholds reading, and repeating it has no further effect. After it returns every connected client gets the bytes sent so far and then end-of-stream, nothing more is sent, the port and all descriptors are released, and a failed start reports an error and leaves nothing behind.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of push, flush, connect, stop and destroy; all failures of the socket set-up calls",
 "Tests stop once, with no concurrent activity, and do not inspect descriptors.",
 ["lib/listeners/tcp_listener.c", "lib/tcp_server.cpp"],
 [("stop protocol between listener and accept thread", "lib/listeners/tcp_listener.c, lib/tcp_server.cpp")],
 ["return of stop", "descriptor table", "client streams"])
prop("C07", "After a crash or disk failure the dump is a clean prefix of the trace",
 "Whenever the application dies or the disk fails while tracing to a file, the file's content is a prefix of the complete stream (metadata, then events in order) with no gaps or garbage in the middle, and the parser recovers every whole event in it and stops cleanly. Everything handed over before a blocking flush that reported success is in that prefix. A disk failure never crashes or blocks the application.",
 ["crash_points", "fault_sequences", "schedules"],
 "process death at any instruction; write errors, full disk, partial writes at any write",
 "No test kills the process or fails a write.",
 ["lib/listeners/file_dump_listener.c", "lib/listener_buffer.c", "parser/protocol_reader.cpp", "parser/file_stream.cpp"],
 [("append-only buffered writes", "lib/listeners/file_dump_listener.c"), ("end-of-stream handling", "parser/protocol_reader.cpp")],
 ["bytes of the file after the crash", "events recovered by the parser"])
prop("C08", "Event ids are unique and thread ids distinct and stable",
 "No two events stamped through timelines sharing an id source ever get the same id, whichever threads stamp them, and ids stamped by one thread increase. Every thread sees one thread id for its whole life, two threads alive in the process never see the same one, and callstack events carry the id of the thread that recorded them. An id source created by the application yields 0, 1, 2, ..., each number once, whichever threads draw from it and whichever sources existed before.",
 ["schedules"], "all interleavings of id and thread-id acquisition in 1..6 threads",
 "The tests read ids from one or two sequential threads; lost updates need a particular interleaving.",
 ["lib/event_id_provider.cpp", "lib/thread.c", "lib/timeline.c", "lib/feature_callstack.c"],
 [("atomic counter", "lib/event_id_provider.cpp"), ("thread-local id", "lib/thread.c")],
 ["ids returned by the API and found in events"])
prop("C09", "Concurrent registration yields one stable, distinct identity each",
 "However many threads register event types, features and named listener groups at once, every type or feature ends up with exactly one id that never changes and differs from all others, re-registration returns the same id, and metadata pushed afterwards describes each registered event type exactly once and correctly. Timelines created with the same group name always share one set of listeners, timelines with different names never do, and the feature limit is enforced with an error.",
 ["schedules", "histories"], "all interleavings of 1..5 registering threads, also while metadata is being pushed",
 "Tests register sequentially.",
 ["lib/registry.c", "lib/timeline_listener.c", "lib/include/internal/bag.h"],
 [("registry mutexes", "lib/registry.c")],
 ["ids", "metadata events", "listener calls"])
prop("C10", "Any balanced history of init and deinit leaves the library usable",
 "For every sequence of initialisations and shutdowns the library reports itself initialised exactly while they do not balance, a repeated initialisation keeps everything registered so far, and after a shutdown and a new initialisation newly created timelines, listeners, event types and their complete metadata work as in a fresh process, with no memory lost per cycle. Timelines and threads that outlive a shutdown still deliver what they hold when they go away. Arguments passed to an initialisation are left as they are; a well-formed buffer-size option among them, when it is the one that initialises the library, is how many bytes global timelines created from then on hold back, and anything else is ignored.",
 ["histories", "configurations"], "all sequences of init, deinit, registration and tracing operations up to 12 steps",
 "Tests initialise once per process.",
 ["lib/init.c", "lib/registry.c", "lib/posix_mapped_tracepoint.c"],
 [("init counter", "lib/init.c")],
 ["ht_is_initialized", "metadata stream", "live allocations"])
prop("C11", "Callstack tracepoints report true nesting, durations and threads",
 "For every well-nested program of start/stop calls, each stop emits exactly one event for the most recent unfinished tracepoint, with its label, its thread and, for any behaviour of the monotonic clock, exactly the clock difference between its start and its stop. A child's interval lies inside its parent's, tracepoints of different threads never mix, and unmatched stops are harmless.",
 ["inputs", "schedules", "programs"], "all nesting programs up to depth 40 per thread, clocks that stand still or advance unevenly, 1..4 threads",
 "Tests run two or three nested tracepoints with fixed labels.",
 ["lib/feature_callstack.c", "lib/stack.c", "lib/scoped_tracepoint.c", "lib/include/hawktracer/scoped_tracepoint.hpp"],
 [("per-timeline stack", "lib/feature_callstack.c, lib/stack.c")],
 ["emitted callstack events"])
prop("C12", "Cached strings: the mapping is in the stream before its first use",
 "For every interleaving of cached-string users on a thread-safe timeline, an identifier is never used in the stream before the event mapping it to its text, every static string (by address) and every distinct dynamic text is mapped exactly once per timeline, and identifiers always resolve to the text that was passed, for statically and dynamically keyed strings alike. Re-sending the map delivers every mapping known so far.",
 ["schedules", "inputs"], "all interleavings of 1..4 threads adding overlapping string sets, any strings",
 "Tests add strings from one thread.",
 ["lib/feature_cached_string.c", "lib/hash_map.c"],
 [("map under optional mutex", "lib/feature_cached_string.c")],
 ["events received by a listener"])
prop("C13", "The parser delivers every event, signals completion and always terminates",
 "Reading a finite stream always delivers every complete event exactly once and in order to every registered listener, and then every thread waiting for completion is released, whichever way arrival, completion and waiting interleave. Stopping the reader at any moment, even while its stream is idle or from inside a listener, returns in bounded time and no listener runs afterwards; a stopped reader can be started again. Other threads may look up event types in the register all the while: a type announced to a listener is found by every later look-up, by id and by name, and stays what it is.",
 ["schedules", "inputs"], "all interleavings of reader thread, waiters, threads looking up event types and stop; any pacing of the stream",
 "Tests wait from one thread on an in-memory stream that is immediately exhausted.",
 ["parser/protocol_reader.cpp", "parser/file_stream.cpp", "client_utils/tcp_client_stream.cpp"],
 [("condition variable and running flag", "parser/protocol_reader.cpp")],
 ["listener calls", "return of wait and stop"])
prop("C14", "The TCP client stream passes every byte through unchanged",
 "Whatever bytes the peer sends, in whatever pieces and with whatever pauses and interruptions, the client stream yields exactly those bytes in order and reports end-of-stream only after the last of them when the peer closes. Stopping it at any moment, also concurrently with a blocked reader, returns in bounded time and releases the reader and the descriptor exactly once.",
 ["schedules", "inputs", "fault_sequences"], "all byte values, all segmentations, all pauses, interrupted and reset receives, stop at any moment",
 "There is no test of this stream beyond construction.",
 ["client_utils/tcp_client_stream.cpp"],
 [("receiver thread and chunk queue", "client_utils/tcp_client_stream.cpp")],
 ["bytes returned to the caller"])
prop("C15", "The task scheduler runs due tasks the right number of times",
 "At every tick the scheduler runs exactly the tasks whose period has elapsed since they last ran (or were added), once each, in accordance with their rescheduling policy, for any history of clock advances and of adding and removing tasks, including from inside the callbacks; a period written with the duration macros (HT_DUR_S(5), HT_DUR_MS(2 + 3), ...) is what it says, for every integer type and expression, in C and C++. A removed task never runs again, ids are never confused and nothing is leaked.",
 ["histories", "inputs"], "all operation histories up to 60 steps with arbitrary clock advances",
 "Tests tick two fixed tasks with real sleeps.",
 ["lib/task_scheduler.c", "lib/include/hawktracer/duration_conversion.h"],
 [("due computation", "lib/task_scheduler.c tick")],
 ["callback invocations"])
prop("C16", "Running out of memory is reported, never fatal, and leaks nothing",
 "When any allocation fails, the failing call reports an error or drops only the affected event; the application is not crashed, no earlier data is corrupted, everything else keeps working, and retrying after memory is available again succeeds. Every block obtained from the configured allocator is returned to it once the owning objects are destroyed.",
 ["fault_sequences", "histories"], "a failure at any single or random set of allocations in histories over the whole C API",
 "Tests fail a few chosen allocations of a few constructors.",
 ["lib/alloc.c", "lib/timeline.c", "lib/timeline_listener.c", "lib/registry.c", "lib/hash_map.c", "lib/feature_cached_string.c", "lib/feature_callstack.c", "lib/task_scheduler.c", "lib/listeners/file_dump_listener.c", "lib/listeners/tcp_listener.c"],
 [("error unwinding", "constructors of every module")],
 ["return values", "allocator balance", "later behaviour"])
prop("C17", "Client conversions are complete and valid for any trace",
 "Converting a trace, from a file or live over TCP, with the command-line client always terminates. Chrome-tracing output is valid JSON holding exactly one entry per tracepoint of the input (every event with a label or a name), with its label (resolved through the mappings of the stream and the map files), time and duration in microseconds, thread and remaining fields as arguments. Callgrind output attributes every call to its real caller, with the right number of calls, self and inclusive times, per thread. This holds for any labels (valid UTF-8), nesting, timing ties between callers and callees, chunking and premature end of the input. The client reports success only if the output was written completely to the requested path, whose date patterns are filled in; any command line is either carried out as given - that file or server and port, that output, that format, those maps, options in any order - or refused with exit code 1, leaving no other file behind.",
 ["inputs", "schedules", "fault_sequences"], "all traces produced by the library from random programs, any segmentation, truncation at any byte, failing and full disks, moments at which the user ends a live trace",
 "Tests convert a few fixed traces and compare against fixed text.",
 ["client/main.cpp", "client/converter.cpp", "client/chrome_trace_converter.cpp", "client/callgrind_converter.cpp", "client/call_graph.cpp", "client/tracepoint_map.cpp", "client_utils/stream_factory.cpp"],
 [("JSON writer", "client/chrome_trace_converter.cpp"), ("call-graph reconstruction", "client/call_graph.cpp")],
 ["output files and exit status of the client"])
prop("C18", "Damaged input never crashes or hangs the parser or client",
 "For every byte sequence, in particular every truncation or corruption of a valid stream, the parser delivers the events preceding the first damaged byte, reads no memory out of bounds, never terminates the process abnormally, always reaches end-of-stream in time and memory proportional to the input, and leaves no memory allocated once it is destroyed. The command-line client survives the same inputs, returns 0 or 1, and whatever Chrome output it claims to have written is valid JSON.",
 ["inputs", "fault_sequences"], "all truncations, bit flips, and splices of streams written by the library",
 "Tests feed well-formed streams plus one or two malformed headers.",
 ["parser/protocol_reader.cpp", "parser/event.cpp", "parser/klass_register.cpp", "parser/event_klass.cpp", "parser/file_stream.cpp", "client/converter.cpp", "client/call_graph.cpp", "client/tracepoint_map.cpp"],
 [("bounds and lookup checks while decoding", "parser/protocol_reader.cpp")],
 ["process survival", "delivered events"])
prop("C19", "CPU and memory probes report the truth or an error",
 "For every content and every read outcome of the process information files, the CPU- and memory-usage probes either return the value those files imply (page counts scaled to bytes, CPU time per elapsed interval) or report failure, also when the process has been replaced by another one or the counters went backwards; they never crash, divide by zero, read out of bounds or leak a descriptor.",
 ["inputs", "fault_sequences", "histories"], "all well-formed and malformed file contents, missing files, short and failing reads, any clock progress between probes",
 "Tests call each probe once on the live /proc.",
 ["lib/platform/linux/cpu_usage.c", "lib/platform/linux/memory_usage.c"],
 [("parsing of the process status files", "lib/platform/linux")],
 ["returned values"])
prop("C20", "Functions traced from Python are recorded exactly and run unchanged",
 "Decorating or wrapping a callable for tracing never changes what a program computes: arguments, keyword arguments, results, exceptions and object lifetimes are those of the plain call, whatever the callable is. While tracing is enabled every completed call of a traced function is recorded exactly once with the function's name, the thread that made it, its start and its duration, properly nested per thread, for any number of Python and host threads and any point at which the interpreter switches between them; calls made while tracing is disabled are not recorded. A name is in the trace before its first use, and after the interpreter has exited the trace file is complete and closed. A program which embeds the interpreter and has initialised the library itself keeps it: Python's exit neither closes its listeners nor shuts the library down.",
 ["schedules", "programs", "histories"],
 "all Python call programs, wrapped callables of any kind, tracing switched on and off at any moment, 1..6 threads created by Python or by the embedding program, all interpreter thread switches",
 "Tests run one short script in one thread and only look for a file; the order of two threads' first use of a function, toggles during a call and interpreter exit are never varied.",
 ["bindings/python3/hawktracer_core_python.cpp", "lib/feature_callstack.c", "lib/feature_cached_string.c", "lib/global_timeline.cpp"],
 [("wrapper of traced callables", "bindings/python3/hawktracer_core_python.cpp"), ("completion of the trace at interpreter exit", "bindings/python3/hawktracer_core_python.cpp")],
 ["trace file after interpreter exit", "results, exceptions and reference counts seen by the program"],
 note="The real CPython 3.12 interpreter (system libpython, malloc allocator) runs inside the simulator; bindings and library are instrumented, the interpreter itself can be preempted at every pthread/semaphore/clock call (GIL hand-over, locks) but not between two instructions.")
prop("C21", "A Python client delivers every event with its values, and can always be stopped",
 "A Python client reading a file or a live connection delivers every complete event of the stream exactly once and in order, to the callback or to the threads polling it, as its type name and a dictionary with every integer and string value unchanged, and then reports end-of-stream and releases every thread waiting for it. Starting, waiting, stopping, restarting or dropping the client at any moment, from any thread, with any callback (slow, raising, unsuitable), or leaving it running when the interpreter exits, never blocks, crashes or leaks; nothing is delivered to a callback after stop has returned. Misuse and failing streams are reported as exceptions.",
 ["schedules", "inputs", "fault_sequences", "histories"],
 "all traces, segmentations, callbacks, 1..5 Python threads sharing a client, all interpreter thread switches, failing connections and opens",
 "There is no test of the Python client beyond importing it; deadlocks between the reader thread and the interpreter lock need a particular interleaving.",
 ["bindings/python3/hawktracer_client_python.cpp", "bindings/python3/client_context.cpp", "parser/protocol_reader.cpp", "client_utils/stream_factory.cpp"],
 [("reader thread calling into the interpreter", "bindings/python3/client_context.cpp"), ("client object life cycle", "bindings/python3/hawktracer_client_python.cpp")],
 ["callbacks and poll results", "return of wait, stop and start", "reference counts and live blocks", "descriptor table"],
 note="The real CPython 3.12 interpreter (system libpython, malloc allocator) runs inside the simulator; bindings, parser and client_utils are instrumented, the interpreter itself can be preempted at every pthread/semaphore/clock call but not between two instructions; every C-API call of the bindings is checked to hold the interpreter lock.")
prop("C23", "Allocation hooks see every allocation and change none",
 "With the allocation-hook feature, every call of malloc, calloc, realloc and free by any thread calls the registered pre-hook before and the registered post-hook after exactly one call of the C library's function, each exactly once and with the arguments, the result (none before the call) and the registered user data; hooks which are not registered are simply not called. The caller gets what the C library returned, with its content and error code, also when allocations fail. Allocations a hook makes through the skip_hook functions call no hook, so hooks may allocate.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all subsets of the eight hooks, replaced between rounds; 1..4 threads allocating at once; hooks which allocate; any of the allocations failing",
 "The test registers hooks once in one thread and counts a few calls; failing allocations, partial hook sets, hooks that allocate and concurrent callers are not tried.",
 ["lib/platform/linux/alloc_hooks.c"],
 [("wrappers of the C library's functions", "lib/platform/linux/alloc_hooks.c")],
 ["calls of the hooks", "calls of the C library", "results and contents of blocks"],
 note="The file's malloc/calloc/realloc/free and __libc_* names are mapped to names the simulator provides, so that the hooks under test are not the allocator of the simulator itself.")
prop("C24", "Parsed events can be kept",
 "An event the parser hands to a listener is a value: it can be copied, moved, assigned over another event, put into containers and destroyed by any thread, and every copy keeps its type, time and field values, independently of its original and of the other copies, while the reader goes on and after the reader and the register of event types have been destroyed. When the last of them is destroyed, all their memory has been released.",
 ["schedules", "histories", "configurations"],
 "all histories of copies, moves, assignments and destructions of events by 1..3 threads while a reader delivers more; both reader modes; reader and register destroyed at any moment before the events",
 "The tests copy one event built by hand and look at it at once; life times, assignment over events that hold strings, and concurrent copying are not tried.",
 ["parser/event.cpp", "parser/include/hawktracer/parser/event.hpp", "parser/protocol_reader.cpp", "parser/klass_register.cpp"],
 [("copy, move and assignment of events", "parser/event.cpp"), ("ownership of the event's fields", "parser/event.cpp Event::merge")],
 ["values of kept events", "live blocks after the last event is gone", "validity of the memory an event refers to"])
prop("C22", "A trace from a machine of the other byte order reads back the same",
 "A stream written by a machine whose byte order is not that of the reader is read exactly like a native one: after the endianness event, with which every stream begins, every event arrives with its type, header and field values of every integer width and its strings as they were pushed, in order, from a file or a connection, however the bytes are split and wherever the stream ends, and the client converts it to the same output. (The time and id of the endianness event itself, which is read before the order is known, are unspecified.)",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "all traces of the library's event types re-encoded in the other byte order, both reader modes, files, paced streams and TCP peers, any segmentation, truncation at any byte",
 "The tests convert a few constants of each width with the helper functions; no test reads a stream of the other byte order.",
 ["parser/include/hawktracer/parser/endianness_convert.hpp", "parser/protocol_reader.cpp"],
 [("conversion to native order while reading", "parser/protocol_reader.cpp _read_numeric, endianness_convert.hpp"), ("endianness announced in the stream", "parser/protocol_reader.cpp _read_events")],
 ["events delivered by the parser", "output of the client"],
 note="The writer of the other byte order is a stub: the library's own stream, re-encoded by the reference model; reader, streams and client are real code.")

def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py build",
         "hooks": {"guard": "none", "enable": "No hooks in /repo: the checks compile the unmodified sources with clang's thread-sanitizer instrumentation and link them against the simulator, which provides the instrumentation callbacks, libc I/O, threads, clocks, sockets and heap.", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py quick " + p["id"], "thorough_cmd": "python3 check.py thorough " + p["id"],
                     "technique": "deterministic simulation with seeded schedule and fault search",
                     "level": "exploration",
                     "level_note": p["note"] or "Seeded random and PCT schedules with injected faults over the real code; no exhaustive claim."} for p in P if p["built"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"] or "check under construction"} for p in P if not p["built"]]}
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
    open(HERE + "/MANIFEST.json", "a").write("\n")
main()
