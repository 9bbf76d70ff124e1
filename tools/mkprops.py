#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


S, I, H, C, F, G = "schedules", "inputs", "histories", "configurations", "fault_sequences", "programs"

p("C01", "Mutexes exclude, recurse as documented and are released by scoped locks",
  "At most one thread at a time is between a successful lock and the matching unlock of a mutex; a recursive mutex may be re-locked by its owner and becomes free only after as many unlocks as locks, and unlocking a mutex one does not own changes nothing. A scoped lock (and the synchronized block) holds the mutex exactly for its scope, on every way out, and once the owner has left every waiting thread eventually gets the lock.",
  [S, G], "every client program over mutexes/recursive mutexes/scoped locks and every interleaving of its threads",
  "tests run a couple of threads under whatever interleaving the machine happens to produce",
  ["src/concurrent/mutex.h", "src/concurrent/mutex.cpp", "src/concurrent/mutex_impl.h", "src/concurrent/lock.h"],
  [("ownership and depth kept by the mutex implementation", "src/concurrent/mutex.cpp"), ("RAII guard", "src/concurrent/lock.h")])
p("C02", "Condition waits release, wake, time out and re-acquire correctly",
  "Waiting on a condition releases the given mutex atomically with going to sleep and holds it again (with the same recursion depth) when it returns; a signal issued after a thread went to sleep wakes at least one sleeper and a broadcast wakes all, so none is lost. A timed wait reports success only if woken and failure only when its time has passed, never earlier, and never sleeps past it.",
  [S, H], "every interleaving of waits, timed waits, signals and broadcasts, with spurious wakeups and timeouts at any point",
  "tests use sleeps to get one interleaving; lost wakeups and early/late timeouts need particular ones",
  ["src/concurrent/condition.h", "src/concurrent/condition.cpp"],
  [("wait/timed wait over the mutex implementation", "src/concurrent/condition.cpp")])
p("C03", "Readers-writer lock: many readers or one writer, timeouts honest",
  "A write lock is held by at most one thread and never together with a read lock, any number of read locks may be held together, and a lock attempt (blocking, zero-timeout or timed) returns true exactly when the caller now holds the lock. Timed attempts give up no earlier than their timeout and do not wait longer, and after the holders unlock the waiting threads proceed; the scoped read/write guards hold the lock exactly for their scope.",
  [S, H], "every interleaving of readers, writers and timed attempts",
  "tests sample a handful of interleavings and cannot see a wrong result of an uncontended zero-timeout attempt under every holder state",
  ["src/concurrent/rwmutex.h", "src/concurrent/rwmutex.cpp"],
  [("delegation to the rwlock with timeouts", "src/concurrent/rwmutex.cpp"), ("guards", "src/concurrent/rwmutex.h")])
p("C04", "mvar behaves as a one-place box for any number of threads",
  "Every concurrent history of take, put, read, swap, try_take, try_put and empty is explained by some order of atomic operations on a box holding at most one value: no value is lost, duplicated or invented, and a failed try changes nothing. A taker blocks only while the box stays empty and a putter only while it stays full.",
  [S, H], "every interleaving of any number of takers, putters, readers and swappers",
  "tests run one producer/consumer pattern; lost wakeups and torn operations need specific interleavings",
  ["src/concurrent/mvar.h"], [("mutex + condition protected state", "src/concurrent/mvar.h")])
p("C05", "chan is a lossless FIFO multi-reader channel, duplicates independent",
  "Items written to a channel are read from it once each, in write order, by whichever readers share it; a duplicate made of it delivers every item written to either after the duplication, independently of what the original's readers consume, and unget puts an item back at the front. A reader blocks only while its channel has nothing to read.",
  [S, H], "every interleaving of writers, readers, duplications and ungets",
  "tests use a fixed schedule with one or two threads",
  ["src/concurrent/chan.h"], [("deque under a mutex, set of linked duplicates", "src/concurrent/chan.h")])
p("C06", "pcbuf is a bounded FIFO: nothing lost, never beyond capacity",
  "Every concurrent history of push, timed push, pop, timed pop, size, capacity, empty and clear is explained by atomic operations on one FIFO queue that never holds more than its capacity; items come out once and in order, and a failed timed operation leaves the queue unchanged. A pusher blocks only while the queue stays full, a popper only while it stays empty, and timed operations give up at their timeout, not before and not after.",
  [S, H], "every interleaving and every timeout point, any capacity",
  "tests cover one or two schedules; dropped signals and off-by-one capacities show up only in specific ones",
  ["src/concurrent/pcbuf.h"], [("mutex and two conditions", "src/concurrent/pcbuf.h")])
p("C07", "qsem never over-admits and never strands a satisfiable waiter",
  "wait(n) returns only after taking n units that were available, so units taken never exceed initial plus signalled units; signal(n) adds n. A waiter stays blocked only while the available units do not suffice for it.",
  [S, H], "every interleaving of waits and signals of any amounts",
  "tests signal and wait with single units from few threads",
  ["src/concurrent/qsem.h"], [("counter under mutex and condition", "src/concurrent/qsem.h")])
p("C08", "Threads run their function exactly once; join waits for its end",
  "A successful start runs a copy of the given function exactly once on its own thread, start fails (with no effect) when the thread is already running, has no function, or the system cannot create one, and the thread object can be started again after join or detach. join returns true only after the function has ended and false if there is nothing to join; detach or destruction lets the function finish on its own, every copy of the function and every system thread is released, sleeps last at least the given time, and live threads have distinct stable ids.",
  [S, F], "every interleaving of controllers and bodies, with thread creation failing at any point",
  "tests start a thread and join it; failure of creation, destruction before the body begins, and restart are not reached",
  ["src/concurrent/thread.h", "src/concurrent/thread.cpp"], [("ownership of handle and function copy", "src/concurrent/thread.cpp")])
p("C09", "An RPC call returns the handler's result or throws, never a wrong value",
  "A remote call returns exactly what the registered handler returned for exactly the arguments passed, after that handler ran once for it, whatever other calls are in flight and however the byte stream is split; otherwise it throws an error of the documented kind (unknown method, version mismatch, connection or timeout error) and never returns a made-up or another call's value (a request the server refuses while its arguments are still being sent may surface as a general rpc error). A reply that breaks off is an error. A handler never runs on truncated or invented arguments, and a call for which no connection could be made does not run the handler.",
  [S, I, F], "all argument values, all splits of the stream, all interleavings of clients and server threads, all connection losses at any byte",
  "tests run a loopback echo with well-formed traffic and complete reads",
  ["src/network/rpc/base.h", "src/network/rpc/base.cpp", "src/network/rpc/caller.h", "src/network/rpc/invoker.h", "src/network/rpc/exception.h", "src/network/rpc/reflect.h", "src/network/rpc.h"],
  [("request/reply framing over binary archives", "src/network/rpc"), ("PING/PONG connection reuse", "src/network/rpc")])
p("C10", "RPC servers keep serving, survive bad clients and stop cleanly",
  "A started server serves every client that connects while it has a free worker, whatever previous or concurrent clients sent or wherever they broke off; serving one client never affects another. stop() makes idle workers end, and workers serving a connection end with that connection; wait_until_stopped() lets every waiter go, and only when the server has stopped and its port is free; destruction returns only when no worker is left. After a stop, or a start that failed for want of threads, the server can be started again and serves.",
  [S, F], "all interleavings of start, stop, client connects and disconnects",
  "tests start and stop one server in one order",
  ["src/network/rpc/base.h", "src/network/rpc/base.cpp"],
  [("worker loop", "src/network/rpc")])
p("C11", "Sockets deliver the exact byte stream in order, despite short reads/writes",
  "What is written to a socket or socket stream and flushed arrives at the peer's reads as exactly the same bytes in the same order, whatever the sizes of the individual reads and writes, however the kernel splits or interrupts them; end of stream and errors are reported as such and never as data. Bytes buffered for one connection never show up in the next connection made on the same object, and closing releases the descriptor exactly once.",
  [I, F, H], "all write/read size sequences, all kernel splits, EINTR and failures at any call",
  "tests move one short message over loopback",
  ["src/network/socket.h", "src/network/socket.cpp", "src/network/iostream.h"],
  [("read/write buffers and retry on EINTR", "src/network/socket.cpp")])
p("C12", "HTTP messages survive the wire: headers, framing and bodies intact",
  "A request or response sent with this library and received with it has the same method, target, version, status, headers (names compared case-insensitively, order and values kept) and body bytes, with Content-Length framing, chunked framing, or connection close. The receiver takes exactly the message's bytes from the stream, and malformed or truncated input yields an error or end of stream, never invented data, a crash or a hang. (Lines over 4095 bytes may be refused.) A sender whose connection fails before everything was handed over is told.",
  [I, F], "all messages, all chunkings, all malformed or truncated inputs",
  "tests parse a few fixed messages",
  ["src/network/http/base.h", "src/network/http/base.cpp", "src/network/http/stream.h"],
  [("header parser, chunked and limited streambufs", "src/network/http/base.cpp")])
p("C13", "CGI form data reach the application as the client sent them",
  "Query strings, urlencoded bodies and multipart bodies (nested ones included) are decoded into exactly the name/value pairs, in order, with file names, file header fields and file contents byte for byte, that the client encoded, for any bytes in names, values and contents and any boundary, quoted or not, that does not occur in the contents. A body over the length limit, shorter than announced, without a boundary or with the closing delimiter missing is answered 500 without running the program; malformed input never crashes, hangs, exhausts memory, makes exec() throw or yields data of a neighbouring field. The environment given is passed on unchanged.",
  [I], "all field names, values, file contents and boundaries",
  "tests use a couple of plain ASCII forms",
  ["src/network/cgi/base.h", "src/network/cgi/base.cpp", "src/network/cgi/util.h", "src/network/cgi/util.cpp", "src/network/cgi/cgi.cpp", "src/network/cgi/server.cpp", "src/network/cgi/xhtml_cgi.cpp"],
  [("query parser, multipart reader", "src/network/cgi")])
p("C14", "The DNS cache answers as the resolver would, within its bounds",
  "The caching resolver returns for a host and port the addresses the underlying resolver gave for them less than the configured lifetime ago (a failed lookup's empty answer included), asks it again after that lifetime has passed since it was asked (used meanwhile or not) or after the entry was deleted or the cache cleared, never keeps more entries than its capacity, dropping the least recently used (to the second), and does not keep any with a capacity of 0 or less. All this holds with any number of threads resolving at once.",
  [S, H], "all interleavings of lookups of any keys with time passing",
  "tests do a sequential lookup with no time passing",
  ["src/network/dns.h", "src/network/dns.cpp"], [("map plus access-time index under a lock", "src/network/dns.cpp")])
p("C15", "URIs parse into their parts and percent-coding round-trips",
  "Parsing a string that is a URI reference by RFC 3986 (registered names, IPv4, IPv6 and future IP literals included) yields exactly the scheme, user info, host, port, path, query and fragment of the RFC's decomposition; for any other string all parts are empty. Printing a parsed scheme://authority URI and parsing it again gives the same parts (an empty path becomes '/'). Form percent-encoding maps any byte string to unreserved characters, '+' and %XX, and decoding gives the original back.",
  [I], "all strings", "tests try a few URIs",
  ["src/network/uri.h", "src/network/uri.cpp"], [("parser and encoder", "src/network/uri.cpp")])
p("C16", "Binary serialization round-trips every value and rejects truncation",
  "Writing any value of a supported type (integers, floats, bool, strings, arrays, vectors, lists, deques, sets, maps, their unordered forms, pairs, user structs) to a binary archive and reading it back yields an equal value and consumes exactly the bytes written, so any sequence of values reads back in order; the byte format is fixed (little endian, sizes before elements). Reading from truncated data, or data with a count larger than what follows, fails (and says so) without crashing, hanging or touching memory out of bounds.",
  [I, F], "all values and nestings, all truncation points",
  "tests write a few values once",
  ["src/data/serialization.h"]+["src/data/serialization/%s.h"%x for x in "array base deque iostream list map pair reflect set string unordered_map unordered_set vector".split()],
  [("archive classes and serialize overloads", "src/data/serialization")])
p("C17", "Bit-level integer codes decode to what was encoded",
  "Any sequence of values written with the byte, fixed-width, gamma, delta, Rice and byte-aligned prefix codes within their ranges (gamma and delta from 1, Rice with a quotient below 2^32-1) reads back as the same sequence with the matching decode calls, in any mixture and at any bit alignment, and the encoded length is what the code prescribes.",
  [I, G], "all sequences of codes and values", "tests round-trip single code kinds",
  ["src/data/code/code.h", "src/data/code/code.cpp"], [("bit reader/writer", "src/data/code/code.cpp")])
p("C18", "JSON text: what is printed parses back equal, bad text is rejected",
  "Printing any JSON value, compact or pretty, and parsing the text yields an equal value (strings byte for byte including control characters and any Unicode), (floats to the 12 significant digits printed), and every well-formed RFC 4627 text yields the value it denotes; text whose structure, literals, strings or escapes are ill-formed raises an error instead of a value, without crashing or reading past the document. Odd number spellings may be accepted leniently, and ill-formed UTF-8 is replaced by U+FFFD when printing escaped. Several documents in one stream can be read one after the other.",
  [I], "all values and all texts", "tests use sample documents",
  ["src/text/json.h", "src/text/json/base.h", "src/text/json/parser.h"], [("parser, printer, escape handling", "src/text/json")])
p("C19", "JSON typed conversion is faithful or fails loudly",
  "Converting a C++ value to JSON and back gives an equal value; converting JSON to a typed value succeeds exactly when the JSON has the type's shape (missing members and wrong kinds raise the error naming what failed, optional members may be absent) and never yields a partly filled result as success. JSON values have reference semantics: copies share structure, clone copies it deeply, element access to an absent member of a constant value throws, of a mutable one creates null, and access with the wrong kind raises a bad-cast error.",
  [I, H], "all values, all shapes", "tests convert a few sample structs",
  ["src/text/json/cast.h", "src/text/json/base.h"], [("json_cast / via_json", "src/text/json")])
p("C20", "CSV fields survive writing and reading",
  "Parsing CSV text yields the rows and fields that the text denotes (separators, quotes, doubled quotes, embedded line breaks, CRLF or LF line ends), for any field contents without NUL and any sizes, from any kind of input; malformed or truncated text never makes it read or write outside its buffers, loop, or change the rows before the malformed one.",
  [I], "all texts", "tests parse a few small files",
  ["src/text/csv.h", "src/text/csv.cpp"], [("buffering scanner", "src/text/csv.cpp")])
p("C21", "Configuration files give exactly the key/values written, or an error",
  "Reading a configuration file yields for each section exactly the last written value of every key, with surrounding blanks, comments and quotes treated as documented; a malformed line is reported with its line number. Looking up an absent section or key in a constant file yields the empty string or end and adds nothing.",
  [I], "all files", "tests read one file",
  ["src/data/config_file.h", "src/data/config_file.cpp"], [("parser", "src/data/config_file.cpp")])
p("C22", "LRU cache keeps exactly the most recently used entries",
  "A cache of capacity n holds the n most recently used of the keys inserted and not removed, with the value given at insertion; get, [] and touch count as use and has does not. Lookups of absent keys report absence, remove removes exactly that key, and clear empties it.",
  [H], "all operation sequences", "tests run a few dozen operations",
  ["src/data/lru.h"], [("list plus hash index", "src/data/lru.h")])
p("C23", "Interning gives a stable bijection between keys and dense ids",
  "Each distinct key gets one id, ids are 0,1,2,... in order of first appearance, key-to-id and id-to-key are inverse to each other at all times, also across copying, clearing and serialization. A lookup without insertion never adds a key.",
  [H], "all operation sequences", "tests intern a few words",
  ["src/data/intern.h"], [("hash map plus vector", "src/data/intern.h")])
p("C24", "Sparse matrix files return the matrix written",
  "Whatever rows of (column, value) pairs with ascending columns are written and closed (or the writer destroyed), reading the file yields the same rows with the same entries through every access mode and in any order, and transposing yields the transposed matrix however memory forces it to be split. Opening a missing matrix or one whose offset file is truncated or claims an impossible number of rows is reported as an error, and asking for a row beyond the end yields nothing.",
  [I], "all matrices and access orders", "tests write one small matrix",
  ["src/data/sparse_matrix/sparse_matrix.h", "src/data/sparse_matrix/sparse_matrix.cpp"], [("writer, reader, offset file", "src/data/sparse_matrix/sparse_matrix.cpp")])
p("C25", "UTF-8 and wide strings convert faithfully; bad UTF-8 is flagged",
  "Converting any sequence of Unicode code points to UTF-8 and back is the identity and matches the Unicode encoding; invalid, overlong, surrogate or truncated sequences are handed to the fallback (replaced by U+FFFD, or an exception) one by one and never turned into other characters, checking accepts exactly well-formed UTF-8, and sanitizing keeps exactly its well-formed characters other than control characters and U+FFFE/U+FFFF. Character-class and width/kana conversions act per character on the stated tables only.",
  [I], "all strings", "tests try a few characters",
  ["src/data/string/ustring.h", "src/data/string/ustring.cpp"], [("encoder/decoder", "src/data/string")])
p("C26", "Base64 encodes per RFC and decoding inverts it",
  "Encoding any bytes yields the RFC 4648 text and decoding that text yields the original bytes, for any length and content.",
  [I], "all byte strings", "tests use a few strings", ["src/data/encoding/base64.h", "src/data/encoding/base64.cpp"], [("codec", "src/data/encoding")])
p("C27", "String matchers report exactly the occurrences",
  "The single-pattern and multi-pattern matchers report every occurrence of every non-empty pattern in the text, overlapping ones included, at the right position and for the right pattern (a repeated pattern under its first index), and nothing else.",
  [I], "all pattern sets and texts", "tests use a few patterns",
  ["src/data/string/kmp.h", "src/data/string/aho_corasick.h"], [("failure functions", "src/data/string")])
p("C28", "String utilities: split/join/trim/replace/case obey their equations",
  "Splitting at a separator and joining give back the string, strip/chomp remove only blanks or line ends at the stated ends, replacement rewrites exactly the non-overlapping occurrences left to right, case conversion and comparisons act bytewise, and conversions between text and numbers round-trip or throw.",
  [I], "all strings", "tests use a few strings", ["src/data/string/utility.h", "src/lang/cast.h"], [("functions", "src/data/string")])
p("C29", "Fenwick tree answers prefix sums of the array it stands for",
  "After any sequence of updates, every sum, element and search query answers as on the plain array.",
  [H], "all sizes and operation sequences", "tests use fixed arrays", ["src/data/fenwick_tree.h"], [("tree", "src/data/fenwick_tree.h")])
p("C30", "Sequence algorithms return optimal answers",
  "Edit distance, longest common subsequence and longest increasing subsequence return the optimum for any input, and the reported alignment or subsequence is valid and attains it.",
  [I], "all sequences", "tests use a few strings", ["src/data/string/algorithm.h"], [("dynamic programs", "src/data/string/algorithm.h")])
p("C31", "XHTML output is well formed and escapes all text",
  "Whatever strings are put into element text and attribute values, the printed document is well formed and reading it back yields the same tree and strings.",
  [I], "all trees and strings", "tests print a few elements", ["src/text/xhtml.h", "src/text/xhtml.cpp", "src/network/cgi/xhtml_builder.h", "src/network/cgi/inserter.cpp"], [("printer", "src/text/xhtml.cpp")])
p("C32", "Value holders keep value semantics and release what they own once",
  "optional, any and the smart pointers hold exactly the value last stored, copies are independent (or share ownership where they are shared pointers), access to an absent or differently typed value fails as documented, and every held object is destroyed exactly once, when its last owner goes away, also when a copy throws.",
  [H, F], "all operation sequences", "tests cover a few sequences",
  ["src/data/optional.h", "src/lang/any.h", "src/lang/scoped_ptr.h", "src/lang/shared_ptr.h", "src/lang/weak_ptr.h"], [("ownership", "src/lang")])
p("C33", "Clock times and calendar dates follow exact arithmetic",
  "Adding and subtracting durations and clock times, comparing them and converting to calendar form and back agree with exact arithmetic on seconds and microseconds, (in zones with and without daylight saving, also while other threads convert), with the microsecond part always normalised after arithmetic; ratios stay in lowest terms and agree with rational arithmetic.",
  [I], "all values", "tests sample a few values", ["src/system/time_util.h", "src/system/time_util.cpp", "src/math/ratio.h"], [("normalisation", "src/system/time_util.cpp")])
p("C34", "Memory-mapped files show the file and never leak",
  "After a successful open the mapped range equals the file's bytes and length, writes through a writable mapping reach the file, a failed open reports failure and leaves an earlier mapping usable, and closing, re-opening or destroying releases mapping and descriptor exactly once.",
  [H, F], "all open/close sequences with failures", "tests map one file", ["src/system/mmapper.h", "src/system/mmapper.cpp"], [("mapper", "src/system/mmapper.cpp")])
p("C35", "The stand-alone web server serves every client, each with its own answer",
  "The server hands each complete request it receives exactly once to the program, with that request's method, path, query, header fields, form data, files and client address, never mixed with another request's, and answers it with the status, header fields and body that run of the program produced (200, or 302 with a Location, when it names no status). Clients that send broken requests, stall or leave and programs that fail with an exception never take the server down or keep other clients from being served (while fewer clients stall than there are threads); every client gets its answer or the end of the connection, and no descriptor is left behind.",
  [S, F], "all schedules of the server's threads, arrivals, and losses", "tests never run the server", ["src/network/cgi/server.h", "src/network/cgi/server.cpp", "src/network/cgi/cgi.cpp", "src/network/http/base.cpp", "src/network/socket.cpp"],
  [("accept loop, environment, response", "src/network/cgi/server.cpp")])
p("C36", "Singletons are built once, whole, and shared by all threads",
  "However many threads ask for a singleton at once, its object is constructed exactly once, nobody sees it before its constructor has finished, and everybody gets the same object; when the constructor throws, that caller sees the exception and a later call tries again; a constructor may use other singletons.",
  [S, F], "all schedules of the first calls", "tests call it from one thread", ["src/lang/singleton.h"], [("instance()", "src/lang/singleton.h")])
p("C37", "MD5 digests follow RFC 1321 for every message and source",
  "The digest of any sequence of bytes, of any length and given as a string, stream or iterator range, is the one RFC 1321 defines, also when several threads compute digests at the same time; it prints as its 32 lower-case hexadecimal digits whatever the stream's formatting state, which is left as it was; comparison is a strict total order.",
  [I], "all messages", "tests use a few short messages", ["src/data/digest/md5.h", "src/data/digest/md5.cpp"], [("padding and compression", "src/data/digest")])
p("C38", "Byte-order conversion and IPv4 address text are exact and invertible",
  "Conversions to and from little and big endian yield exactly the bytes of the number in that order for every integer type and invert each other, and reversing a block reverses its bytes and nothing around it; an IPv4 address prints as its dotted form, a dotted form of four decimal numbers from 0 to 255 reads back as that address, text that has not four numbers or a number out of range reads as none, and addresses are ordered lexicographically.",
  [I], "all numbers, blocks and address texts", "tests use a few values", ["src/system/endian_util.h", "src/system/endian_util.cpp", "src/network/ipv4.h", "src/network/ipv4.cpp"], [("conversions", "src/system/endian_util.h")])
p("C39", "Seeded random numbers are MT19937's, draws stay in range, samples are fair",
  "A generator with a given seed yields the Mersenne Twister (MT19937) sequence, copies continue identically; from any words of the underlying generator an integer draw lies in its half-open range, next_double() in [0,1) with 53 bits, real draws within their bounds, normal deviates come in pairs by the Box-Muller formula; samples have the requested size and range, those without replacement no repetition, and all possible samples are equally likely; impossible requests are refused.",
  [I, H], "all seeds, words and sizes", "tests look at averages", ["src/math/random.h", "src/math/random/mersenne_twister.h", "src/math/random/mersenne_twister.cpp"], [("draws and samples", "src/math/random.h")])
p("C40", "Vectors and Fourier transforms compute what they are defined to",
  "Vector addition, subtraction, scaling, inner and outer products, comparison, norm, normalisation, projection and text form act component by component as defined, for every dimension; fft and ifft (one- and two-dimensional, over iterators or matrices) compute the discrete Fourier sums, are inverse to each other up to the factor n, and refuse lengths that are no power of two and shapes that are no rectangle.",
  [I], "all vectors and signals", "tests use a few vectors", ["src/math/vector.h", "src/math/fft.h"], [("operators", "src/math/vector.h"), ("transform", "src/math/fft.h")])
p("C41", "System helpers tell the truth: temporary files, sizes, retries, errors",
  "A temporary stream is a new empty file readable by its owner only, under the name it puts into the template; what is written is there after a flush or when the stream is destroyed, can be read back from any position, and the descriptor is released; a bad template, a missing directory or want of descriptors yields no stream and leaks nothing. A file's size is its exact length (-1 when there is no such file); an interrupted call is repeated until it is not interrupted, exactly so often, and its last result kept; error texts are the system's for that error; the machine's load and memory figures are those of the system's files, whatever their size, order and absence; a parse error tells its file, line, position and message.",
  [I, H, F], "all templates, contents, call results and figures", "tests only print the figures", ["src/system/file.h", "src/system/file.cpp", "src/system/syscall.h", "src/system/syscall.cpp", "src/system/sysstat.cpp", "src/lang/exception.h"], [("tmpstream, NO_INTR, get_sysstat", "src/system")])
p("C42", "Reflection describes types and remote methods as declared",
  "The description built for a type tells exactly its kind (booleans, characters, floats, integers with signedness and size) and, for classes, the declared name and all serialized members in order with their names and types, nested to any depth, whatever the order of entering, naming, adding and leaving; printing, traversing and the accessors agree on it, and the description of a remote interface lists each method with its result and argument types in order, its name and version.",
  [I, H], "all types and build sequences", "tests print one type", ["src/data/serialization/reflect.h", "src/network/rpc/reflect.h"], [("reflection, get_type", "src/data/serialization/reflect.h"), ("extract, reflect_base", "src/network/rpc/reflect.h")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
if __name__ == "__main__":
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        for f in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + f):
                print("missing", x["id"], f)
    with open(out, "w") as h:
        for x in P:
            h.write(json.dumps(x) + "\n")
