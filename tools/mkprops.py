#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
p("C01", "The ring deque behaves as a bounded sequence for every history",
  "A ring deque always behaves as a plain sequence with a capacity: pushes and pops at either end, indexing, clearing, resizing, copying, moving and assigning (to itself included) give exactly the elements, order, size and capacity that the same operations give on a mathematical sequence. Every element is constructed once and destroyed once, and no access leaves the storage.",
  ["histories", "inputs"], "every reachable ring position, capacity, element value and operation",
  "the unit test walks a handful of short push/pop sequences on one capacity; wrap-around positions, resizes of a wrapped ring and aliasing assignments are not reached",
  ["include/Pothos/Util/RingDeque.hpp"], [("RingDeque member functions", "include/Pothos/Util/RingDeque.hpp"), ("nextPow2", "include/Pothos/Util/RingDeque.hpp")])
p("C02", "Out-of-order buffers come back in index order, each exactly once",
  "An ordered queue releases what was pushed into it strictly in increasing index order, one item per index, never before that index's turn and never dropping an item whose index lies inside the window. It reports emptiness exactly when the next index in turn has not been pushed.",
  ["histories", "inputs"], "every push order of the outstanding indexes, every window size and starting index",
  "the tests push a few fixed permutations; wrap-around of the window and every relative order cannot be enumerated by tests",
  ["include/Pothos/Util/OrderedQueue.hpp"], [("OrderedQueue push/front/pop/empty", "include/Pothos/Util/OrderedQueue.hpp")])
p("C03", "Serialization round trips every value and stays inside the stream",
  "Reading back what was written yields an equal value for every integer, boolean, character, floating point and complex number, for strings, and for sequences and maps of them, and the reader consumes exactly the bytes the writer produced. Values keep their meaning across the writer's and reader's integer widths as far as the reader's type can represent them.",
  ["inputs"], "every value of every supported number type; strings and containers of any content",
  "tests archive one or two values per type; the variable length encoding has a distinct path for each magnitude and sign",
  ["include/Pothos/Archive/Numbers.hpp", "include/Pothos/Archive/BinaryObject.hpp", "include/Pothos/Archive/String.hpp", "include/Pothos/Archive/Vector.hpp", "include/Pothos/Archive/Map.hpp", "include/Pothos/Archive/Set.hpp", "include/Pothos/Archive/Pair.hpp", "include/Pothos/Archive/Complex.hpp", "lib/Archive"],
  [("save/load of integers, floats, bools", "include/Pothos/Archive/Numbers.hpp"), ("string and container framing", "include/Pothos/Archive")])
p("C04", "Numeric object conversion preserves the value or throws",
  "Converting an opaque object holding a number to another numeric type either yields the same mathematical value (up to rounding when the target is floating point, and truncation of the fraction when the target is an integer) or throws a range error; every value that the target can represent converts. It never silently wraps, changes sign, or invents a value for NaN or infinity.",
  ["inputs"], "every pair of numeric types and every source value",
  "the tests convert a few sample values per type pair; the errors sit at the exact range ends and at values a double cannot represent",
  ["lib/Object/Builtin/ConvertCommonImpl.hpp", "lib/Object/Builtin/ConvertIntegers.cpp", "lib/Object/Builtin/ConvertFloats.cpp", "lib/Object/Builtin/ConvertIntermediate.cpp"],
  [("checked numeric cast", "lib/Object/Builtin/ConvertCommonImpl.hpp")])
p("C05", "A buffer view never reaches outside the memory it was cut from",
  "A buffer made from a range of another buffer is accepted exactly when the whole range lies inside the memory the parent reports (from its address to the end of its range, or to the end of the second mapping for a circular buffer), and an accepted view reports the address, length, end and alias of exactly that range. Any other range is refused with an error, for all addresses and lengths up to the end of the address space.",
  ["inputs"], "every parent, address and length, with and without a circular alias",
  "tests try one or two ranges per case and never the arithmetic extremes",
  ["lib/Framework/SharedBuffer.cpp", "include/Pothos/Framework/SharedBuffer.hpp", "include/Pothos/Framework/BufferChunk.hpp"],
  [("subset constructor", "lib/Framework/SharedBuffer.cpp"), ("end/alias/elements accessors", "include/Pothos/Framework/BufferChunk.hpp")])
p("C06", "A managed buffer goes back to its manager exactly once, after its last user",
  "The memory behind a managed buffer stays alive and out of its manager while any handle to it exists, and when the last handle goes away it is returned to its manager exactly once, or freed exactly once if the manager is gone. This holds for any sequence of copies, moves, assignments (to itself included), resets and chained buffers, and the reported use count is the number of handles.",
  ["histories", "inputs"], "every sequence of handle operations, every use count",
  "tests copy a handle once or twice; aliasing assignments, long chains and use counts other than one or two are not reached",
  ["include/Pothos/Framework/ManagedBuffer.hpp", "lib/Framework/ManagedBuffer.cpp", "include/Pothos/Framework/BufferChunk.hpp", "lib/Framework/BufferChunk.cpp"],
  [("handle reference count", "include/Pothos/Framework/ManagedBuffer.hpp"), ("return to manager", "lib/Framework/ManagedBuffer.cpp"), ("chained references", "lib/Framework/BufferChunk.cpp")])
p("C07", "Buffer managers hand out each byte to one owner at a time",
  "A buffer manager offers as its front buffer only memory that no earlier, still outstanding, buffer covers, moves past the bytes taken, and makes memory available again only after it was returned. It reports itself empty exactly when it has nothing to offer, and after every buffer came back everything is available again.",
  ["histories", "inputs"], "every interleaving of taking any number of bytes and returning outstanding buffers in any order, any slab geometry",
  "tests drain and refill a manager of one geometry; partial takes combined with out-of-order returns and ring wrap are not enumerated",
  ["lib/Framework/Builtin/GenericBufferManager.cpp", "lib/Framework/Builtin/CircularBufferManager.cpp", "include/Pothos/Framework/BufferManager.hpp", "lib/Framework/BufferManager.cpp"],
  [("generic pool", "lib/Framework/Builtin/GenericBufferManager.cpp"), ("circular slab", "lib/Framework/Builtin/CircularBufferManager.cpp")])
p("C08", "The input accumulator is a lossless first-in first-out byte stream",
  "The bytes read from an accumulator's front and popped are exactly the bytes of the pushed buffers, in push order, none lost, repeated or altered, whatever mix of pushes, partial pops and contiguity requests is made. The byte count it reports always equals bytes pushed minus bytes popped, and the front is non-empty whenever bytes remain.",
  ["histories", "inputs"], "every sequence of push, pop and require, every buffer length, contiguous or not, circular or not",
  "tests push a few buffers of fixed sizes; merging of adjacent buffers, pool copies and alias wrap interact in ways that samples do not cover",
  ["lib/Framework/BufferAccumulator.cpp", "include/Pothos/Framework/BufferAccumulator.hpp", "lib/Framework/BufferPool.cpp"],
  [("push/pop/require", "lib/Framework/BufferAccumulator.cpp")])
p("C09", "Labels stay attached to the stream element they were posted on",
  "A label posted on an element of an output stream is seen by every downstream block at the same element of its input stream, whatever mix of partial consumption and buffering happens in between and whatever the element sizes, with its identifier, data and width intact. Labels are delivered in stream order, none is dropped or duplicated before its element is consumed, and each is removed when its element is consumed.",
  ["histories", "inputs", "configurations"], "every label position and width, element size, backlog and consumption amount",
  "tests use small fixed positions and same-size types",
  ["lib/Framework/Label.cpp", "include/Pothos/Framework/Label.hpp", "lib/Framework/InputPort.cpp", "include/Pothos/Framework/InputPortImpl.hpp", "include/Pothos/Framework/OutputPortImpl.hpp", "lib/Framework/WorkerActor.cpp", "lib/Framework/Block.cpp"],
  [("index scaling", "include/Pothos/Framework/Label.hpp"), ("enqueue offset", "lib/Framework/InputPort.cpp"), ("shift on consume", "lib/Framework/WorkerActor.cpp")])
p("C10", "What a block consumes and produces is accounted exactly",
  "After a work call, each input stream has advanced by exactly the elements the block consumed and each output has delivered exactly the elements it produced, the running totals grow by those amounts, and anything not consumed is offered again. Before a work call, the element counts and pointers offered describe memory that really holds that many elements, the reported minima are the minima over the ports, and work is only entered when inputs, messages and output space allow it.",
  ["histories", "inputs", "configurations"], "every port configuration, element size, reserve, buffered amount and amount consumed or produced",
  "tests run a few flow graphs with fixed amounts",
  ["lib/Framework/WorkerActor.cpp", "lib/Framework/InputPort.cpp", "lib/Framework/OutputPort.cpp", "include/Pothos/Framework/InputPortImpl.hpp", "include/Pothos/Framework/OutputPortImpl.hpp"],
  [("pre-work gating", "lib/Framework/WorkerActor.cpp"), ("post-work accounting", "lib/Framework/WorkerActor.cpp")])
p("C11", "Messages and slot calls arrive in order, once each",
  "Messages posted to a port, and slot calls made on it, are delivered to the receiving block once each, unmodified and in posting order, no matter how many are queued up to the documented overflow bound. Asking for a message when none is queued yields an empty object and changes nothing; peeking removes nothing.",
  ["histories", "inputs"], "every backlog length and sequence of post, peek, pop and clear",
  "tests post a handful of messages and never grow the queue across its internal boundaries",
  ["lib/Framework/InputPort.cpp", "include/Pothos/Framework/InputPortImpl.hpp", "lib/Framework/OutputPort.cpp"],
  [("message queue", "lib/Framework/InputPort.cpp"), ("slot queue", "lib/Framework/InputPort.cpp")])
p("C12", "Buffer conversion converts every element and only those elements",
  "Converting a buffer between element types yields, for every element, the value the element-wise numeric conversion gives (complex parts included), and never touches memory outside the source and destination elements. Fixed point helpers round trip: converting to fixed point and back gives the value within one quantisation step, for every representable value.",
  ["inputs"], "every type pair, element value and buffer length",
  "tests convert short buffers of small values",
  ["lib/Framework/BufferConvert.cpp", "include/Pothos/Util/QFormat.hpp"],
  [("conversion loops", "lib/Framework/BufferConvert.cpp"), ("Q format helpers", "include/Pothos/Util/QFormat.hpp")])
p("C13", "Locks exclude: at most one writer, never a writer with a reader",
  "At any moment at most one thread holds a spin lock, and a read-write spin lock is held either by one writer or by any number of readers, never both, for every interleaving of lock, try-lock and unlock calls by any number of threads. A try-lock returns true exactly when it acquired the lock.",
  ["schedules", "histories"], "every interleaving of any number of threads",
  "tests observe a few schedules that the operating system happens to produce",
  ["include/Pothos/Util/SpinLock.hpp", "include/Pothos/Util/SpinLockRW.hpp"],
  [("atomic transitions", "include/Pothos/Util/SpinLock.hpp"), ("reader/writer word", "include/Pothos/Util/SpinLockRW.hpp")])
p("C14", "Data type descriptions are consistent: size, category, equality, text",
  "For every data type, however it was built (from a name, an alias, a markup text, a C++ type or another data type), its size is the element size times its dimension, its category predicates (integer, signed, float, complex, custom) agree with the element, its name with its dimension and its markup text rebuild an equal type, and two types are equal exactly when element and dimension are. A text that is no known name (in any case), or whose dimension is no decimal number, and a C++ type that is no element type, is refused with an error, never mapped to some type.",
  ["inputs", "configurations"], "every element type, dimension and markup text",
  "tests build a few types",
  ["lib/Framework/DType.cpp", "include/Pothos/Framework/DType.hpp"],
  [("element tables", "lib/Framework/DType.cpp")])
p("C15", "Plugin paths and the plugin registry form a consistent tree",
  "A plugin path text is accepted exactly when it is the root '/' or one or more names of letters, digits, '_' and '-' each preceded by a slash; its text and its list of names are what it was made from, joining and concatenating append names in order (the root adding nothing), and two paths are equal exactly when their names are. The registry holds at most one plugin per path: get gives what was added at exactly that path and not removed since, adding over an existing plugin or removing or getting a missing one throws and changes nothing, listing gives exactly the names under which something is registered, looking up never changes the registry, and a handler registered at a path hears once of every plugin added or removed below it and of no other.",
  ["inputs", "histories"], "every path text, every pair of paths and every history of registrations and look-ups",
  "tests check a few paths and one history of registrations",
  ["lib/Plugin/Path.cpp", "include/Pothos/Plugin/Path.hpp", "lib/Plugin/Registry.cpp", "lib/Plugin/Plugin.cpp"],
  [("path validation and join", "lib/Plugin/Path.cpp"), ("registry tree", "lib/Plugin/Registry.cpp")])
p("C16", "The remote-call framing delivers whole datagrams in order or an error",
  "What one side of a remote call connection sends as one request or reply (below 4 GiB) is delivered to the other side as exactly those bytes, in order and once, whatever pieces the serialiser writes and the receiver reads it in, and a receive takes exactly one datagram from the stream and leaves what follows. A stream that ends early, or whose leading or trailing frame word is damaged, is reported as an error and nothing is delivered. (What the bytes mean, the object round trip, is C03.)",
  ["inputs", "fault_sequences"], "every payload, every split into written and read pieces, every truncation point",
  "tests run over loopback with small objects and an undamaged stream",
  ["lib/Remote/RemoteProxyDatagram.cpp", "lib/Remote/RemoteProxyDatagram.hpp"],
  [("send/receive datagram", "lib/Remote/RemoteProxyDatagram.cpp")])
p("C17", "Bound arguments reach exactly the parameters they were bound to",
  "Calling a wrapped function passes each caller argument to the unbound parameters in order and each bound value to the parameter it was bound to, and the reported argument count and types are those of the unbound parameters. Calling with too few or mistyped arguments throws and does not call the function; unbinding restores the original signature.",
  ["inputs", "histories"], "every function arity, binding pattern and argument list",
  "tests bind one or two parameters",
  ["lib/Callable/Callable.cpp", "include/Pothos/Callable/CallableImpl.hpp"],
  [("opaque call", "lib/Callable/Callable.cpp")])
p("C18", "An opaque object owns its value: shared, typed and freed exactly once",
  "All handles to an opaque object refer to the same value, which lives until the last handle is gone and is destroyed exactly once, for any sequence of copies, moves and assignments (to itself included). Extracting as a type gives that very value exactly when the held type is that type and otherwise throws; an empty object never yields a value.",
  ["histories", "inputs"], "every sequence of handle operations and every held and requested type",
  "tests cover a few handle operations on a few types",
  ["include/Pothos/Object/ObjectImpl.hpp", "lib/Object/Object.cpp", "include/Pothos/Object/Object.hpp"],
  [("reference count", "lib/Object/Object.cpp"), ("typed extract", "include/Pothos/Object/ObjectImpl.hpp")])
p("C19", "Flattening a topology keeps exactly the end-to-end connections",
  "Committing a hierarchical topology connects two blocks exactly when a chain of flows through the nested topologies' pass-through ports joins them, each pair once, on the right ports and in the right direction. Disconnecting undoes exactly what was connected.",
  ["configurations", "histories"], "every nesting and flow set",
  "tests build a few two-level topologies",
  ["lib/Framework/TopologySquashFlows.cpp", "lib/Framework/Topology.cpp"],
  [("squash flows", "lib/Framework/TopologySquashFlows.cpp")])
p("C20", "A block is never entered by two threads, and no change is missed",
  "At any moment at most one thread (worker or outside caller) is inside a block, for every interleaving of worker iterations and outside calls, and the right to enter is always given back. A change flagged from outside or by a call is never lost: the worker still sees it at its next iteration.",
  ["schedules"], "every interleaving of worker iterations, outside calls and change notifications",
  "tests see a few schedules",
  ["lib/Framework/ActorInterface.hpp"], [("acquire/release", "lib/Framework/ActorInterface.hpp")])
p("C21", "A running topology delivers everything from sources to sinks",
  "In a committed topology, every element, label and message a source block produces eventually reaches every connected sink, for all thread pool configurations and schedules, and waiting for inactivity returns only after the flow has drained.",
  ["schedules", "configurations"], "every thread pool configuration and schedule", "tests see a few schedules",
  ["lib/Framework/ThreadEnvironment.cpp", "lib/Framework/TopologyCommit.cpp"], [("worker loops", "lib/Framework/ThreadEnvironment.cpp")])
p("C22", "Network flows between processes lose nothing",
  "A flow that crosses process or host boundaries delivers the same elements, labels and messages, in the same order, as a local flow would, and ends cleanly when either side goes away.",
  ["schedules", "fault_sequences"], "every split of the traffic and every disconnection point", "tests run one loopback transfer",
  ["lib/Framework/TopologyNetworkFlows.cpp"], [("network source/sink pairing", "lib/Framework/TopologyNetworkFlows.cpp")])
p("C23", "Loading and unloading modules leaves the registry consistent",
  "After a module is unloaded, nothing it registered is reachable and everything else still is; loading it again restores the same entries.",
  ["histories"], "every load and unload order", "tests load one module",
  ["lib/Plugin/Module.cpp", "lib/Plugin/Loader.in.cpp", "lib/Plugin/Registry.cpp"], [("registration log", "lib/Plugin/Registry.cpp")])
def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
if __name__ == "__main__":
    main()
