"""Which contract units decide which property."""
COMMON_ASSUMPTIONS = [
    "partial correctness: termination of loops is not proved",
    "allocation does not fail (operator new returns a fresh object; bad_alloc paths are outside the contracts)",
    "distinct allocations are disjoint; comparing pointers into different objects for equality is false",
    "sequential semantics of each function (atomics executed as plain operations) unless a proof installs an environment step",
    "floating point is IEEE-754 binary32/binary64, round to nearest; machine integers are exact bit-vectors (no mathematical integers)",
]
PROPS = {
 "C01": dict(units=[dict(src="ringdeque.cpp")],
    note="Every member function of the ring deque is proved against its sequence contract for every well-formed state (any capacity, front position, contents); loops by inferred inductive invariants, no bound. Element type is one representative non-trivial class."),
}
_todo = "not claimed yet"
NA = {"C%02d" % i: _todo for i in range(1, 30)}
NA["C21"] = "liveness across threads, condition variables and the operating system scheduler: a deductive contract on single functions cannot express eventual delivery over all schedules of an unbounded set of threads"
NA["C22"] = "the behaviour is defined by sockets and another process (code outside this repository's sources); no function contract in reach decides it"
NA["C23"] = "depends on the dynamic loader (dlopen/dlclose running static constructors): outside what a verifier of the functions' code can see"
PROPS["C13"] = dict(units=[dict(src="spinlock.cpp")], noreplay=".",
    assumptions=["interference is modelled at atomic-operation granularity under sequential consistency; acquire/release orderings are checked to be present on the operations that take and give back the lock",
                 "fewer than 2^30 simultaneous readers"],
    note="rely/guarantee contracts: each lock operation is proved legal against an environment that performs any legal lock traffic before each atomic access")
PROPS["C20"] = dict(units=[dict(src="actor.cpp")], noreplay="worker_|external_acquire|external_release$|scoped",
    assumptions=["interference is modelled at atomic-operation granularity under sequential consistency",
                 "condition variable and mutex calls return (timeouts included) with no other effect; fairness is not modelled"],
    note="rely/guarantee contracts on the acquire, release and change-notification functions")
PROPS["C02"] = dict(units=[dict(src="orderedqueue.cpp")],
    note="push (ahead of turn), front, pop and empty are proved for every window size and state; the release loop of an in-turn push is bounded to runs of at most 5 parked successors (window size unbounded); construction is bounded to windows of at most 4")
PROPS["C05"] = dict(units=[dict(src="sharedbuffer.cpp")],
    note="sub-range constructor and accessors proved for all 64-bit addresses, lengths and alias offsets of a well-formed parent")
PROPS["C06"] = dict(units=[dict(src="managedbuffer.cpp")],
    note="each handle operation is proved to keep 'use count = number of handles' and to give back / free exactly at the last handle")
PROPS["C18"] = dict(units=[dict(src="object.cpp")],
    assumptions=["text of error messages (type names, Poco::format) is not modelled"],
    note="handle operations proved to keep 'count = number of handles' and destroy exactly at the last handle; interference of other threads at atomic granularity; typed access for representative types")
PROPS["C03"] = dict(units=[dict(src="archive.cpp")],
    assumptions=["std::ostream::write appends the given bytes and std::istream::read returns the next bytes in order (C++ stream library, not verified)"],
    note="numbers of every type and value (across widths too) and strings of any length are proved to round trip; sequences, maps, sets and wide strings are bounded to at most 2-8 elements")
PROPS["C04"] = dict(units=[dict(src="convertnum.cpp")],
    assumptions=["text of error messages (type names, Poco::format, std::to_string) is not modelled"],
    note="the checked numeric cast is proved for every pair of the built-in integer, float and complex types and every source value: same value up to the stated rounding or truncation, or a range error; conversion accepted for every representable value")
PROPS["C17"] = dict(units=[dict(src="callable.cpp")],
    assumptions=["text of error messages (type names, Poco::format) is not modelled"], level="other",
    note="bounded: contracts of bind, unbind, type, getNumArgs and opaqueCall checked symbolically for all argument values and every binding pattern, for arities and binding lists of at most 4 parameters")
PROPS["C07"] = dict(units=[dict(src="buffermanager.cpp")], level="other",
    assumptions=["the memory behind a slab is what SharedBuffer::make/makeCirc return: distinct addresses, for a circular slab mapped twice in a row (system calls outside the contracts)"],
    note="bounded: managers of at most 3 buffers; from every abstract state of such a manager (reached by a canonical history with arbitrary byte counts) one or two arbitrary further operations are checked symbolically for every buffer size, slab address and byte count")
PROPS["C08"] = dict(units=[dict(src="accumulator.cpp")], level="other",
    assumptions=["memcpy copies the bytes it is given (recorded as a range of stream positions)"],
    note="bounded: histories of one push, up to three further push/pop/require operations and a full drain, over the real generic and circular managers (2 buffers), over separate buffers (adjacent or not, any offsets) and chunks that already span two buffers; every buffer size, byte count and address symbolically")
CAUGHT = {}    # planted bugs that are caught otherwise than by their own property's quick check
PROPS["C11"] = dict(units=[dict(src="messages.cpp")], level="other",
    assumptions=["text of error messages and log output is not modelled"],
    note="bounded: the real ports and block; any backlog below the bound (reached by a canonical history) followed by arbitrary post, slot call, peek, pop and clear operations, checked symbolically for every payload")
PROPS["C09"] = dict(units=[dict(src="labels.cpp")], level="other",
    assumptions=["std::sort orders what it is given (its code is executed symbolically for up to three labels; beyond 16 labels it is the library's)", "text of error messages, log output, clocks and statistics are not modelled"],
    note="bounded: the real ports, accumulators and worker of two or three connected blocks; up to six labels over two or three rounds, every position, width, amount produced and consumed symbolic, element sizes 1, 4 and 12; posted out of order, arriving while the reader works, several readers, passed on across element sizes, removed by the block")
PROPS["C10"] = dict(units=[dict(src="work.cpp")], level="other",
    assumptions=["memcpy copies the bytes it is given (recorded as a range of stream positions)", "text of error messages, log output, clocks and statistics are not modelled",
                 "blocks stay within what they are offered (consume and produce no more than elements())"],
    note="bounded: the real worker, ports, managers and accumulators of one to four connected blocks over two to four rounds of work in any order, with every buffer size, reserve and amount produced or consumed symbolic; up to three inputs and two outputs; in-place output, fan-out, reserves, posted buffers, fragmented elements, failing work")
PROPS["C14"] = dict(units=[dict(src="dtype.cpp")], level="other",
    assumptions=["Poco text helpers (lower case, trim), Poco's string hash and strtoull behave as documented", "the type names given by the C++ runtime are distinct"],
    note="size, category, equality and names are checked for every element type, alias, C++ element type and every dimension; texts are bounded: unknown names of at most 18 arbitrary characters, markup dimensions of at most 12 digits, dimension texts of at most 4 characters")
PROPS["C15"] = dict(units=[dict(src="pluginpath.cpp")], level="other",
    assumptions=["Poco::StringTokenizer splits at the separator as documented", "text of error messages and log output is not modelled", "modules (shared libraries) are not loaded: plugins are registered by the program itself"],
    note="bounded: path texts of at most 6 arbitrary characters; up to two names of up to two arbitrary characters on either side of a join, concatenation or comparison; registry histories over five nested paths from any set of registered plugins; handlers at three levels")
PROPS["C16"] = dict(units=[dict(src="datagram.cpp")], level="other",
    assumptions=["std::ostream::write and std::istream::read pass bytes to and from the stream buffer in order (C++ stream library, not verified)",
                 "the object's own serialisation is any sequence of two writes and single characters (its round trip is property C03)", "the transport's stream buffer gives the bytes in order (sockets: not in reach)"],
    note="bounded: payloads of at most 6002 arbitrary bytes written in any two pieces with single characters in between, read back by up to three arbitrary stream buffer operations; truncation at every point; every change of a framing byte; two datagrams in a row")
