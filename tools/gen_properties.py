#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one entry per property)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None}})


TR = "fly/task/task_runner.cpp"
TRH = "fly/task/task_runner.hpp"
TM = "fly/task/task_manager.cpp"

prop("T01", "A sequenced runner runs its tasks one at a time, in posting order",
     "At any moment at most one task of a sequenced task runner is handed to the worker pool or running; a task is handed over only when none is in flight, and the decision is atomic with respect to concurrent posts and completions. "
     "Tasks are handed over in the order they were posted, and no accepted task is lost, duplicated or left waiting while nothing is in flight. "
     "Posting reports success exactly when the task was handed over or queued.",
     ["schedules", "histories"], "every interleaving of posts, delayed posts, completions and pool shutdown on one sequenced runner",
     "The tests post a few hundred tasks from a handful of threads and observe one schedule each; a window between the in-flight test and the hand-over, or a reordering that needs a post to race a completion, is not reached.",
     ["fly/task/task_runner.cpp", "fly/task/task_runner.hpp"],
     [("in-flight flag and pending queue decided in one critical section", "SequencedTaskRunner::maybe_post_task"),
      ("completion re-enters the same decision", "SequencedTaskRunner::task_complete")],
     [("in-flight flag", "a task of this runner is with the pool", TRH), ("pending queue", "tasks waiting, oldest first", TRH)],
     ["SequencedTaskRunner::post_task", "worker threads"])

prop("T02", "Every task a worker takes is run once and then reported complete",
     "When a worker takes a task whose runner still exists and the pool is running, the task is invoked exactly once and its runner is then told that the task is complete, on every path. "
     "The completion report comes after the task has returned, never before, and always reaches the runner that posted the task.",
     ["schedules", "histories"], "every task, runner kind and worker thread",
     "A missed completion stalls a sequenced runner only when a later task happens to be waiting; tests wait on individual tasks and see the normal path only.",
     [TM, TR], [("lock the runner, execute, complete", "TaskManager::worker_thread, TaskRunner::execute")],
     observe=["TaskRunner::execute"])

prop("T03", "Owner-bound tasks run only with a live owner and never extend its lifetime",
     "A task posted with a weak owner is invoked only if the owner is alive when the task starts, receives a strong reference taken at that moment, and otherwise is skipped silently. "
     "Between posting and running, neither the queue nor the wrapped task holds a strong reference to the owner, and its reply is posted bound to the same weak owner.",
     ["schedules", "histories"], "every task type, owner type and owner lifetime",
     "Tests destroy the owner before the task runs in one arrangement per overload; they cannot cover every wrapper instantiation or a reference retained along a path.",
     [TRH], [("weak lock inside the wrapped task", "TaskRunner::wrap_task")], observe=["TaskRunner::post_task overloads"])

prop("T04", "A reply runs once, after its task, on the same runner, with its result",
     "For every task posted with a reply, the reply is posted exactly once, only after the task has returned, to the runner that executed the task, and receives the value the task returned. "
     "If the task is skipped because its owner is gone, no reply is posted.",
     ["schedules", "histories"], "every task/reply type combination, immediate and delayed",
     "Each overload is tested with one task and one reply on a healthy runner; ordering and the skip path are not quantified over.",
     [TRH], [("post the reply from inside the wrapped task", "TaskRunner::wrap_task")], observe=["TaskRunner::post_task_with_reply"])

prop("T05", "Delayed tasks never run early, run once, and go through their runner",
     "A task posted with a delay is handed to its runner only once the steady clock has reached posting time plus the delay, at most once, and is then forgotten by the timer. "
     "It is handed over through the runner's own posting path, so that a sequenced runner's ordering and mutual exclusion apply to it, and is dropped if the runner is gone.",
     ["schedules", "histories"], "every set of delayed tasks, posting times and delays",
     "Tests use a few delays with a margin; an early hand-over, a second one, or one that bypasses the runner needs a particular timing or an overlapping task.",
     [TM], [("compare schedule with now, post through the runner, erase", "TaskManager::timer_thread"),
            ("schedule = now + delay", "TaskManager::post_task_with_delay")], observe=["TaskManager::timer_thread"])

prop("T06", "Stopping the pool is final: no new task starts and all its threads are joined",
     "After the pool is told to stop, a worker starts no further task, even one it was already waiting for, and the call returns only after every thread the pool started has finished. "
     "Starting and stopping each take effect at most once, however many threads call them concurrently.",
     ["schedules", "histories"], "every interleaving of stop() with posting, workers and the timer",
     "Tests stop an idle or lightly loaded pool; the window between a worker's wait and its stop test is not scheduled.",
     [TM], [("compare-and-swap on the running flag", "TaskManager::start, TaskManager::stop"), ("re-test after the blocking pop", "TaskManager::worker_thread"), ("join every future", "TaskManager::stop")],
     observe=["TaskManager::stop"])

prop("T07", "A posted task owns its callable; the caller's objects are left alone",
     "Whatever callable is posted, with or without a reply, an owner or a delay, and whether passed as a temporary or as a named object, what is queued stores the callable by value: it refers to no object of the caller and stays valid after the caller's objects are gone. "
     "A named callable passed to a posting function is neither modified nor moved from.",
     ["inputs", "schedules"], "every posting overload and value category of its arguments",
     "The tests only post temporaries and moved lambdas, and a dangling reference often still reads the old value.",
     [TRH], [("decayed storage of the callable in the wrapped task", "TaskRunner::wrap_task")], observe=["TaskRunner::post_task overloads"])

prop("K01", "Shared mutable state is touched only under its own lock",
     "Every piece of mutable state that several threads share (container contents, pending and delayed tasks, watched paths, configuration objects and values, the logger registry) is read and written only while the one lock that guards it is held. "
     "An operation that examines such state and then changes it does both within one hold of that lock, changes are made under an exclusive hold, and no reference to the state is handed out past the lock.",
     ["schedules"], "every pair of threads calling any part of the public interface",
     "A data race shows only under particular schedules; the tests neither enumerate schedules nor run under a race detector.",
     ["fly/types/concurrency/detail/concurrent_container.hpp", TM, TR, "fly/path/path_monitor.cpp", "fly/path/nix/path_monitor_impl.cpp", "fly/config/config_manager.cpp", "fly/config/config.hpp", "fly/logger/detail/registry.cpp"],
     [("one mutex per shared structure", "the classes owning it")], observe=["every access to the guarded fields"])

prop("K02", "Locks are acquired in one order and never re-acquired by their holder",
     "The relation \"acquired while holding\" over the library's locks is acyclic, and no thread acquires a lock it already holds, so no set of library calls can deadlock on the library's locks. "
     "Every lock is released on every path out of the region that took it, and no lock is held while a user's callable runs or while waiting for another thread.",
     ["schedules"], "every set of concurrent calls into the library",
     "A lock-order inversion deadlocks only when two threads interleave inside both critical sections; the tests never arrange it.",
     ["fly/task", "fly/types/concurrency", "fly/path", "fly/config", "fly/logger"],
     [("scoped locks only", "everywhere"), ("callbacks posted, not called, where a lock is held", "ConfigManager::start")], observe=["lock acquisitions"])

prop("K03", "Concurrent containers: no pop from empty, no lost wake-up, no lost item",
     "A pop removes an item only when the container was seen non-empty under the same lock hold, a blocking pop returns only with an item, and a timed pop reports true exactly when it delivered one. "
     "Every push makes its item visible under the lock and then wakes a waiter, and the queue yields items in first-in-first-out and the stack in last-in-first-out order.",
     ["schedules", "histories"], "every interleaving of pushes, pops and spurious wake-ups",
     "Spurious wake-ups and waiters racing a push are not reproducible in a unit test.",
     ["fly/types/concurrency/detail/concurrent_container.hpp", "fly/types/concurrency/concurrent_queue.hpp", "fly/types/concurrency/concurrent_stack.hpp"],
     [("predicate loop around the wait", "ConcurrentContainer::pop"), ("notify after push", "ConcurrentContainer::push")], observe=["ConcurrentContainer::pop"])

NS = "fly/net/socket/detail/nix/socket_operations.cpp"
BS = "fly/net/socket/detail/base_socket.cpp"
prop("N01", "Every socket handle has one owner and is closed exactly once",
     "Each socket handle the library obtains from the operating system is owned by exactly one object, is closed exactly once on every path (destruction, explicit close, failed set-up, being replaced by move-assignment), and is never used after it was closed. "
     "Moving a socket transfers the handle and leaves the source without one.",
     ["histories", "fault_sequences"], "every sequence of open, move, close, failure and destruction",
     "A leaked or doubly closed handle has no visible effect in a short test; the failure paths need system calls to fail.",
     [BS, "fly/net/socket/detail/base_socket.hpp", NS, "fly/net/socket/listen_socket.cpp", "fly/net/socket/tcp_socket.cpp"],
     [("close() guards on and resets the handle", "BaseSocket::close"), ("destructor closes", "BaseSocket::~BaseSocket")], observe=["::socket, ::accept, ::close"])

prop("N02", "A closed socket is never waited on by the socket service",
     "Whenever a socket gives up its handle, the removal of its requests is queued on the sequence of the service that watches handles before the handle is closed, and that removal erases exactly the requests of that handle, so that no request made before the close is waited on after it once the queue has advanced.",
     ["schedules", "histories"], "every close, failure or destruction with requests outstanding",
     "The operating system reuses handle numbers at once; only a close racing an outstanding request shows the effect.",
     [BS, "fly/net/socket/socket_service.cpp"], [("deregister before ::close", "BaseSocket::close"), ("remove all requests of the handle", "SocketService::remove_socket")],
     observe=["SocketService::remove_socket"])

prop("N03", "Every asynchronous socket operation completes its callback exactly once",
     "An accepted asynchronous operation leads, once the socket is reported ready, to exactly one of: the completion callback invoked once, or the operation re-armed with the service because it would still block. "
     "A failed operation closes the socket before its callback reports the failure, and no path drops the callback silently while the socket is alive.",
     ["schedules", "fault_sequences", "histories"], "every operation, readiness order and error result",
     "The tests see would-block and hard errors only through mocked calls in a few combinations.",
     ["fly/net/socket/tcp_socket.cpp", "fly/net/socket/udp_socket.cpp", "fly/net/socket/listen_socket.cpp", "fly/net/socket/socket_service.cpp"],
     [("ready handlers of each socket class", "TcpSocket, UdpSocket, ListenSocket")], observe=["user callbacks"])

prop("N04", "Socket calls report failures faithfully",
     "Every operating-system socket call has its result examined; the error code is captured before anything else can overwrite it, and a would-block or in-progress condition is reported as such, distinct from a disconnect. "
     "Failure of a call is never reported as success, and success never as failure.",
     ["fault_sequences", "inputs"], "every failure of every socket system call",
     "Tests mock each call to fail once and check only the boolean outcome.",
     [NS], [("check result, fetch error, map would-block", NS)], observe=["return values of the socket operations"])

prop("N05", "Addresses and ports cross the system boundary in network byte order",
     "Every port and address passed to the operating system is in network byte order and every one received from it is converted back before use, with no value converted twice or not at all.",
     ["inputs"], "every address and port",
     "A symmetric mistake (missing or doubled on both sides) cancels out in every loop-back test.",
     [NS, "fly/net/endpoint.hpp", "fly/net/ipv4_address.hpp", "fly/net/ipv6_address.hpp"], [("htons/ntohs and the address accessors", NS)], observe=["sockaddr fields"])

prop("N06", "A send or receive never loses, repeats or invents bytes",
     "A send passes to the operating system only the bytes not yet accepted by it, resumes after a partial send exactly where it stopped, and reports as sent exactly what was accepted. "
     "A receive returns exactly the bytes the operating system delivered, within the buffer it was given, and a disconnected peer cannot raise a signal that kills the process.",
     ["inputs", "fault_sequences"], "every message, chunking and partial result",
     "Loop-back sends are rarely partial; tests mock only complete failures.",
     [NS, "fly/net/socket/tcp_socket.cpp", "fly/net/socket/udp_socket.cpp"], [("remaining-view loop", NS)], observe=["::send, ::recv"])

prop("N07", "The socket service's request lists are confined to one task sequence",
     "The lists of outstanding requests are read and modified only by tasks running on the service's own sequenced runner, and each request that was reported ready has its callback run or posted once and is then erased, in the same step, so it is reported at most once. "
     "The service keeps polling as long as requests are outstanding.",
     ["schedules", "histories"], "every interleaving of registrations, removals and polls",
     "The race between a registration and a poll cannot be scheduled from a test.",
     ["fly/net/socket/socket_service.cpp", "fly/net/socket/socket_service.hpp"], [("all work posted to the runner", "SocketService")], observe=["SocketService::poll"])

PMN = "fly/path/nix/path_monitor_impl.cpp"
prop("P01", "File-system notifications are decoded and dispatched correctly",
     "Every notification record delivered by the operating system is decoded once, within the bytes actually read, and mapped to the event it denotes; a handler registered for the exact file takes precedence over the handler of its directory, and no handler is called for an event it did not register for. "
     "A notification is never dispatched to a path that has been removed.",
     ["inputs", "histories"], "every batch of notifications and every set of registered paths and files",
     "Tests trigger single events on single files; batches and mixtures are up to the kernel.",
     [PMN, "fly/path/path_monitor.cpp"], [("record walk and event map", "PathMonitorImpl::read_events, handle_event, convert_to_event")], observe=["user callbacks"])

prop("P02", "Adding and removing watched paths is atomic and leaves no residue",
     "Adding a path or file either registers it completely or, on failure, leaves nothing behind; removing the last file of a path removes the path in the same critical section; and every watch obtained from the operating system is given back exactly once, before the descriptor it belongs to is closed.",
     ["histories", "schedules", "fault_sequences"], "every sequence and interleaving of add, remove and destruction",
     "Residue is invisible until a later add or remove of the same path.",
     ["fly/path/path_monitor.cpp", PMN], [("one lock hold per operation", "PathMonitor")], observe=["PathMonitor::add_file, remove_file"])

prop("G01", "A configuration read always yields a value, without throwing",
     "Reading a configuration value returns the stored value converted to the requested type, or the given default when the value is missing or cannot be converted; it never throws and never changes the stored values.",
     ["inputs", "configurations"], "every stored document, name and type",
     "Tests read a few values of a few types from well-formed documents.",
     ["fly/config/config.hpp", "fly/config/config.cpp"], [("conversion inside try, default in the handler", "Config::get_value")], observe=["Config::get_value"])

prop("G02", "Configuration reloads replace values as a whole and survive bad files",
     "When the watched file changes, each live configuration object receives its own section of the newly parsed values (or none if the file is missing or cannot be parsed), configuration objects that are gone are dropped, values that are not key-value pairs are never kept, and a malformed or unreadable file never stops later reloads. "
     "Updates run on the manager's own task sequence and only while the manager is alive.",
     ["inputs", "histories", "schedules"], "every file content and every reload history",
     "Tests rewrite a file with a few contents and wait for one reload.",
     ["fly/config/config_manager.cpp", "fly/config/config.cpp"], [("parse, then update under locks", "ConfigManager::update_config")], observe=["ConfigManager::update_config"])

prop("L01", "A registered logger stays registered exactly as long as it lives",
     "A logger is found by name from its successful creation until its destruction, a second logger with the same name is refused and leaves the first one registered, a destroyed logger is never handed out and its name can be used again, and there is always a default logger.",
     ["histories", "schedules"], "every history of creating, looking up and destroying loggers",
     "Tests create a duplicate and drop it, but never look up the original afterwards, nor race creation with destruction.",
     ["fly/logger/detail/registry.cpp", "fly/logger/logger.cpp"], [("weak registry entries keyed by name", "Registry")], observe=["Logger::get"])

prop("L02", "Log rotation never discards records",
     "When a log file is rotated, the original is deleted only after a compressed copy of it was completely written, and a failed compression leaves the original in place. "
     "A record is written and flushed to the currently open file; it is reported as written only if the file took it, and logging fails visibly when no file is open or a write fails.",
     ["fault_sequences", "inputs"], "every failure of compression, opening and writing",
     "Tests rotate with a working compressor only.",
     ["fly/logger/detail/file_sink.cpp", "fly/coders/coder.cpp"], [("remove only on success", "FileSink::create_log_file")], observe=["log directory"])

prop("L03", "Log records reach the sink in order, one at a time, with their own data",
     "Each record accepted by a logger is delivered to its sink exactly once, records of one thread in the order they were logged, numbered consecutively, and never two at once when the logger is asynchronous; once the sink fails, no further record is delivered. "
     "A record's message (a prefix of it, up to the configured length), level and trace are those passed to the logging call, and a record written to a stream has all its fields, separated and terminated.",
     ["schedules", "histories"], "every number of threads, records and sink failures",
     "Tests use one thread and one sink.",
     ["fly/logger/logger.cpp"], [("post to the sequenced runner", "Logger::log")], observe=["Sink::stream"])

prop("C01", "Decoding arbitrary bytes never touches memory out of bounds",
     "Decoders accept any byte sequence: whatever the input, every table, buffer and tree access stays within bounds, and malformed input is rejected with failure.",
     ["inputs"], "every byte sequence given to a decoder, and every configuration of it",
     "Tests decode the encoder's own output and a few corrupted files.",
     ["fly/coders/base64/base64_coder.cpp", "fly/coders/huffman/huffman_decoder.cpp", "fly/coders/huffman/types.cpp", "fly/types/bit_stream"],
     [("range checks on header fields, codes and symbols", "HuffmanDecoder"), ("code lookup", "Base64Coder::decode_chunk")], observe=["Decoder::decode_*"])

prop("C02", "A coder reports success only if everything was read and written",
     "Encoding or decoding returns true only if all input was consumed without a read error and every byte of output was accepted by the output stream; any failed read, failed write, input that ends early or piece of input that is rejected as malformed returns false, without throwing; and no operation resets or hides a stream's failure.",
     ["inputs", "fault_sequences"], "every input and every input/output failure",
     "Tests use in-memory streams, which cannot fail half way.",
     ["fly/coders", "fly/types/bit_stream"], [("results of stream operations combined into the return value", "encode/decode functions")], observe=["Encoder::encode_*, Decoder::decode_*"])

prop("C03", "Base64 decoding inverts encoding and accepts nothing but Base64",
     "Encoding writes RFC 4648 Base64 with padding, and decoding gives back exactly the bytes that were encoded, for every length of input, also where it does not fill the coder's buffers or fills them exactly. "
     "Decoding fails for text with a character outside the alphabet, with padding anywhere but at the end, or whose length is not a multiple of four, and never reads or writes outside its buffers and tables.",
     ["inputs"], "every input of the encoder and every text given to the decoder",
     "Tests encode a few strings and files; a wrong table entry, an end of input at a particular place or a byte above 127 shows only for particular data.",
     ["fly/coders/base64/base64_coder.cpp", "fly/coders/base64/base64_coder.hpp"], [("alphabet tables and chunk arithmetic", "Base64Coder::encode_chunk, decode_chunk"), ("buffering and the end of the input", "Base64Coder::encode_internal, decode_internal")], observe=["Coder::encode_string, decode_string of Base64Coder"])

prop("C04", "Bit streams return exactly the bits written, in order",
     "A bit stream writer appends exactly the bits, bytes and words given to it, most significant first, whatever the position and size; finishing writes the rest of the buffer filled with zeros and records in the header how many bits fill the last byte. "
     "A bit stream reader refuses a stream without that header, returns the following bits in order and at the low end of the result, counts how many of those asked for there were, never gives out the filling bits, and says when all are consumed. No size from zero to the width of the type shifts a value by its whole width.",
     ["inputs", "histories"], "every sequence of writes and reads of every size, and every content",
     "Tests write a few patterns; a shift or mask that is wrong at one buffer position and size needs just that combination.",
     ["fly/types/bit_stream"], [("buffering and shifting", "BitStreamWriter::write_bits, finish; BitStreamReader::peek_bits, read_bits, discard_bits, refill_buffer")], observe=["BitStreamWriter, BitStreamReader"])

prop("C05", "The Huffman decoder reads the format the Huffman encoder writes",
     "The Huffman decoder reads back exactly the header fields, code lengths, symbols and codes, in the order and with the widths, that the encoder writes, for every data and configuration.",
     ["inputs", "configurations"], "every input and every coder configuration",
     "A width that only matters for large values passes every round-trip test.",
     ["fly/coders/huffman/huffman_encoder.cpp", "fly/coders/huffman/huffman_decoder.cpp", "fly/coders/huffman/types.cpp"], [("header and codes", "encode_header, encode_codes / decode_header, decode_codes")], observe=["encoded streams"])

prop("R01", "Parsing never throws: any input yields a value or an empty result",
     "Parsing a string or file, whatever its content and whatever read errors occur, returns a value or an empty result; no exception of the library or of the standard library (other than failed allocation) escapes.",
     ["inputs", "fault_sequences"], "every byte sequence, encoding and read error",
     "Tests parse a finite corpus of documents.",
     ["fly/parser"], [("try blocks around parse functions", "Parser::parse_file/parse_string, JsonParser, IniParser")], observe=["Parser::parse_file, parse_string"])

prop("J01", "A JSON string value always holds valid Unicode",
     "Every way of creating or modifying a JSON string (construction, assignment, conversion, parsing, mutation) either stores valid UTF-8 or throws the library's JSON exception, so that serialization of any JSON value succeeds.",
     ["inputs", "histories"], "every sequence of JSON operations on any strings",
     "Tests try a few invalid strings at construction; a mutation that bypasses validation needs a particular operation.",
     ["fly/types/json/json.cpp", "fly/types/json/json.hpp", "fly/parser/json_parser.cpp"], [("validating conversion at each entry", "Json::Json, Json::convert_to_string"), ("checked escapes", "Json serialization")], observe=["Json::serialize"])

prop("J02", "Misusing a JSON value throws the JSON exception, never undefined behaviour",
     "An operation applied to a JSON value of the wrong type, or with an index, key or iterator that is out of range, null or of another value, throws the library's JSON exception and leaves the value unchanged; no such use reaches an unchecked access of a variant alternative, an element, an iterator position or a null pointer. (Iterators are used while the value they came from keeps its type, ranges are given in order, and text is valid Unicode.)",
     ["inputs", "histories"], "every operation on every JSON value and iterator state",
     "Tests sample types and positions; each of the operations has a separate check that can be wrong alone.",
     ["fly/types/json/json.cpp", "fly/types/json/json.hpp", "fly/types/json/detail/json_iterator.hpp", "fly/types/json/detail/json_reverse_iterator.hpp"], [("type and range checks in each accessor", "Json"), ("validate_* helpers", "JsonIterator")], observe=["Json, Json::iterator"])

prop("J03", "JSON comparison is consistent across types and operators",
     "Over JSON values without NaN, two numbers are ordered by their values whatever their types (signed, unsigned or floating-point), integers are equal exactly if their values are, equality is symmetric and holds for equal values (between floating-point numbers it may also hold for close ones), and values of two other types are never equal and are ordered by their type alone. "
     "The six operators agree with each other: != is the opposite of ==, a > b is b < a, a <= b is the opposite of b < a, and a >= b is the opposite of a < b.",
     ["inputs"], "every pair of JSON values",
     "Tests compare chosen pairs; a mixed signed/unsigned pair at the edge of the range is not among them.",
     ["fly/types/json/json.cpp"], [("visitors of operator== and operator<", "json.cpp")], observe=["Json comparison operators"])

prop("F01", "Format strings are checked completely at compile time",
     "A call of the formatting functions compiles only if its format string is well formed and matches its arguments: balanced braces, existing argument positions, no mixture of automatic and manual positions, and only options and presentation types valid for the argument's type. "
     "Every format string that follows the documented syntax (with up to 64 replacement fields) compiles, also for user-defined formatters.",
     ["programs"], "every format string and argument list",
     "A unit test cannot contain code that must not compile.",
     ["fly/types/string/format.hpp", "fly/types/string/detail/format_string.hpp", "fly/types/string/detail/format_specifier.hpp", "fly/types/string/detail/format_parse_context.hpp"],
     [("consteval constructor", "BasicFormatString")], observe=["compilation"])

prop("F02", "Integer literal suffixes reject every value that does not fit",
     "An integer literal with one of the library's suffixes compiles only if it is a valid literal of its base and its value is representable in the suffix's type, and then has exactly that value.",
     ["programs"], "every literal and suffix",
     "A unit test cannot contain code that must not compile.",
     ["fly/types/numeric/literals.hpp", "fly/types/numeric/detail/literal_parser.hpp"], [("constrained literal parser", "fly::detail::literal")], observe=["compilation"])

prop("F03", "Text scanning never reads past the end of its input",
     "Unicode decoding, unescaping and lexing advance through any input, including truncated and malformed sequences, without dereferencing or moving past its end.",
     ["inputs"], "every string of every character type",
     "Tests run without memory checkers on a corpus of sequences.",
     ["fly/types/string/detail/unicode.hpp", "fly/types/string/lexer.hpp", "fly/types/string/string.hpp"], [("end tests before each dereference", "BasicUnicode, BasicLexer")], observe=["BasicString, BasicLexer"])

prop("F04", "Formatting returns the complete text of any value",
     "Formatting any value with any valid specifier produces the complete converted text: conversion results are used only when the conversion succeeded, and conversion buffers hold every result.",
     ["inputs"], "every value, width and precision",
     "Tests format moderate values with small precision.",
     ["fly/types/string/formatters.hpp"], [("conversion with checked result", "Formatter")], observe=["fly::string::format"])

prop("F05", "Character classification depends on the ASCII range only, for every character",
     "Each character classification and case conversion is exact for every value of every character type: only the ASCII characters of the class satisfy it, and all other characters, including negative ones of a signed character type, do not.",
     ["inputs"], "every character of every character type",
     "Tests iterate over 0..127 or a few values.",
     ["fly/types/string/detail/classifier.hpp"], [("range tests", "BasicClassifier")], observe=["fly::string::is_digit and siblings"])

prop("E01", "No exception escapes a function that promises not to throw",
     "No noexcept function, destructor, thread body or posted closure of the library can let one of the library's exceptions, or an exception of a throwing standard-library call it makes, escape and terminate the process.",
     ["inputs", "fault_sequences"], "every call of a non-throwing function",
     "The process terminates only when the inner failure occurs, which tests do not provoke.",
     ["fly"], [("noexcept specifications", "across the library")], observe=["std::terminate"])

prop("E02", "Operations that report failure by their result never throw",
     "The public operations of the tasks, paths, sockets, addresses, coders, loggers, configurations, bit streams, lexers and string utilities report every failure by their result (a false, an empty optional, a null pointer): no exception of the library or of a standard-library call leaves them, "
     "whatever the input and whichever system call or stream operation fails (failed allocation and user callbacks aside).",
     ["inputs", "fault_sequences"], "every call of a public operation with every input and every inner failure",
     "The inner failure (a vanished file, a stream error, a position past the end) has to occur at that very call.",
     ["fly"], [("non-throwing overloads and checked positions", "across the library")], observe=["every public operation outside JSON and formatting"])

prop("S01", "Monitors keep polling only while alive and publish only valid figures",
     "A system or path monitor is handed out only if its periodic task was posted; each run of that task posts the next one exactly once, bound to a weak owner, and never keeps the monitor alive. "
     "The system monitor's figures are read and written atomically, come only from samples that were read completely, are differences to the immediately preceding sample that never wrap, and are never the result of a division by zero.",
     ["schedules", "histories", "inputs"], "every destruction time relative to the periodic task, every outcome of the system calls and every sequence of samples",
     "Tests destroy monitors at one moment and see one sequence of samples; a failed read, a counter that stands still or goes backwards is not among them.",
     ["fly/system/system_monitor.cpp", "fly/system/nix/system_monitor_impl.cpp", "fly/path/path_monitor.cpp"], [("weak owner on every delayed task", "poll_system_later, poll_paths_later"), ("guards around each published figure", "SystemMonitorImpl::update_*")], observe=["SystemMonitor getters"])

U = "fly/types/string/detail/unicode.hpp"

prop("U01", "Unicode decoding accepts exactly the well-formed sequences",
     "For every character type, decoding at any position accepts the code units found there exactly when they begin with a well-formed UTF-8, UTF-16 or UTF-32 sequence, then yields its code point and advances past exactly that sequence. "
     "Overlong forms, surrogates, truncated sequences and values above U+10FFFF are refused, validation of a string agrees with it, and no unit at or past the end is ever read.",
     ["inputs"], "every sequence of code units of every character type",
     "Tests decode a corpus of sequences; the boundaries between well-formed and ill-formed sequences lie at particular bytes in particular positions.",
     [U, "fly/types/string/string.hpp"], [("leading and continuation byte masks, overlong test, surrogate formula", "BasicUnicode::codepoint_from_string, create_codepoint_from_surrogates, validate_codepoint")],
     observe=["BasicString::decode_codepoint, BasicString::validate"])

prop("U02", "Unicode encoding and conversion preserve every code point",
     "Encoding a code point yields exactly its UTF-8, UTF-16 or UTF-32 code units, and nothing when it is a surrogate or above U+10FFFF. "
     "Converting a string between any two character types yields the encodings of its code points in order when the whole string is well-formed, and nothing otherwise.",
     ["inputs"], "every code point, and every string for every pair of character types",
     "Tests convert a few strings; a wrong mask or shift shows only for code points with particular bits set.",
     [U, "fly/types/string/string.hpp"], [("shifts and masks of the encoders", "BasicUnicode::codepoint_to_string, convert_encoding_into")], observe=["BasicString::encode_codepoint, BasicString::convert"])

prop("U03", "Unicode escape sequences name exactly one code point in both directions",
     "Escaping writes printable ASCII as itself and every other code point as \\uHHHH, as a pair of those naming its surrogates, or as \\UHHHHHHHH, according to the prefix asked for, with lower-case digits; over a string it does so for every character in order. "
     "Unescaping reads such a sequence with digits of either case back as exactly the code point it names, advancing past exactly that sequence, keeps all other text, and refuses unpaired surrogates, values above U+10FFFF, missing or wrong digits, without reading at or past the end.",
     ["inputs"], "every code point and every escape sequence, for every character type and prefix",
     "Tests try a few escapes; a wrong digit, pairing or boundary test shows only for particular numbers.",
     [U, "fly/types/string/string.hpp"], [("digit conversion and pairing", "BasicUnicode::escape_codepoint, unescape_codepoint")], observe=["BasicString::escape_codepoint, unescape_codepoint and their whole-string forms"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            n = p["statement"].count(". ") + 1
            assert n <= 3, p["id"]
            fh.write(json.dumps(p) + "\n")
    print(len(P), "properties")
