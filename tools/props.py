"""The properties: data for properties.jsonl, MANIFEST.json and DESIGN.md (see gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, bounds, assumptions=(), state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, bounds=bounds, assumptions=list(assumptions), state=list(state), observe=list(observe)))


INC = "include/NazaraUtils/"
BASE_NOTE = ("Every execution / state within the stated bounds is run on the real headers and compared with an independent oracle; "
             "sanitizers (address, undefined) and the library's own asserts are on in the san* configurations. Nothing is claimed beyond the bounds.")

prop("C01", "Bitsets behave as finite sequences of bits under every mutation",
     "A bitset of any block type and any storage container, after any history of constructions, copies, moves, swaps, resizes, shifts, assignments and bitwise operations, holds exactly the bits that the same history gives a plain sequence of booleans (resizing and growing fill with the requested value, bitwise operations on bitsets of different sizes treat the missing bits as unset and give the larger size). No bit past the size is ever observable through a later operation. Converting from and to integers and strings is exact.",
     ["histories", "inputs"], "every history of mutating operations, every size (in particular around block boundaries), every block type (8 to 64 bits) and container",
     "The tests mutate a handful of bitsets; stale bits past the end or a wrong block boundary only show after a specific sequence of two or three operations at specific sizes.",
     [INC + "Bitset.hpp", INC + "Bitset.inl"],
     [("extra bits reset after each operation", "Bitset.inl ResetExtraBits"), ("block/bit index decomposition", "Bitset.inl GetBlockIndex/GetBitIndex"), ("shift operators", "Bitset.inl ShiftLeft/ShiftRight")],
     "explicit-state model checking of the real code against a bit-sequence model",
     BASE_NOTE,
     "all bitsets up to 9..17 bits with 8-bit blocks (every operation with every argument), block-boundary patterns up to 3..5 blocks for 8/16/32/64-bit blocks, all pairs up to 5..9 bits, all histories of 3..5 operations; containers std::vector, FixedVector, HybridVector; sizes on both sides of 2^8 and 2^16 bits, and of 2^16 blocks",
     ["reading a moved-from bitset before assigning it is excluded"],
     [("blocks and bit count", "the sequence of bits", "Bitset.hpp m_blocks, m_bitCount")])
prop("C02", "Bitset queries, searches and iteration agree with the bits",
     "Counting, testing (all, any, none, intersection), finding the first/next/last set bit, unbounded reads past the end, block reads, string and integer conversions and the iteration over set bits all report exactly what the individual bits say, for every bitset content and every starting position. Iterating visits every set bit exactly once in increasing order. Bit references read and write only their own bit.",
     ["inputs", "histories"], "every bitset content, size, block type and search position",
     "A search that skips a block boundary or the last block is only wrong for specific contents; tests check a few literals.",
     [INC + "Bitset.hpp", INC + "Bitset.inl", INC + "MathUtils.inl"],
     [("block-wise search", "Bitset.inl FindFirst/FindNext/FindLast"), ("iteration over set bits", "Bitset.inl BitIterator")],
     "exhaustive state enumeration of the real code against a bit-sequence model", BASE_NOTE,
     "all contents up to 9..18 bits, boundary patterns up to 4..9 blocks of 8/16/32/64 bits, every one- and two-bit content up to 196 bits, every query and every position; sparse contents of bitsets of more than 2^16 blocks")
prop("C03", "Bitset equality and ordering form a consistent total order",
     "Two bitsets are equal exactly when they represent the same set bits (trailing unset bits are not significant), and the ordering operators order them as the unsigned integers they represent. For every pair exactly one of less, equal, greater holds, all six operators agree with each other, and the order is transitive. The result never depends on the history that produced the operands.",
     ["inputs", "histories"], "all pairs and triples of bitsets, in every size combination",
     "Ordering mistakes only show with operands whose block counts differ or whose difference is in a given block; tests compare a few pairs.",
     [INC + "Bitset.inl"], [("comparison operators", "Bitset.inl operator==, operator<")],
     "exhaustive pair enumeration against big-integer comparison", BASE_NOTE,
     "all pairs of bitsets up to 8..12 bits with 8-bit blocks, all pairs of boundary patterns up to 3..8 blocks for each block type, same-content bitsets of different sizes")
prop("C04", "Bit streams are reproduced exactly by append, write and read",
     "Appending bits from an integer or writing bits from a byte sequence (starting at any bit offset, with any bit count) stores exactly these bits, in order, after the existing ones, without reading any byte not needed and ignoring the unrequested bits of the source. Splitting one stream into several successive writes gives the same bitset as a single write, each returning where the next one starts. Existing bits are not modified.",
     ["inputs", "histories"], "every stream content pattern, every split, every (size, offset, count) combination and block type",
     "Unaligned combinations of bitset size, source offset and count number in the thousands and fail only at specific ones; tests use a few aligned cases.",
     [INC + "Bitset.inl"], [("bit appending", "Bitset.inl AppendBits"), ("byte reader", "Bitset.inl Write, Read")],
     "exhaustive enumeration of stream operations against a bit-sequence model", BASE_NOTE,
     "every initial size (up to 9..129 bits), offset, count (up to 34..140 bits) and integer type; every split of a stream in up to 4 writes; histories of 3..5 operations; streams of more than 2^16 blocks")
prop("C05", "Fixed-capacity and hybrid vectors behave as std::vector",
     "Any history of operations on a fixed-capacity or hybrid vector gives the content, return values, iterators and size a standard vector gives, including when arguments alias elements of the vector itself. Every element is constructed and destroyed exactly once, elements before the modified position are neither moved nor copied while the capacity suffices, and insertion of rvalues moves and never copies. A fixed vector never allocates and a hybrid vector allocates only when it exceeds its in-place capacity.",
     ["histories", "inputs"], "every history of operations, element types (trivial, move-only, non default constructible, over-aligned) and capacity boundaries",
     "Lifetime errors and wrong positions depend on the position, count, remaining capacity and storage of each step of a history; tests follow a few scripted histories.",
     [INC + "FixedVector.hpp", INC + "FixedVector.inl", INC + "MemoryHelper.inl"],
     [("in-place storage", "FixedVector.hpp m_elements"), ("fallback to a std::vector", "FixedVector.inl push_back, insert, reserve")],
     "stateless exploration of all operation sequences plus BFS over states, against std::vector", BASE_NOTE,
     "all sequences of 2..4 operations (with all positions and argument kinds) from every state, BFS of all reachable states up to depth 6..10, capacities 1..6, 7 element types, arguments referring to (or moved from) the vector's own elements; sizes and positions around 2^8 and 2^16",
     ["moved-from standard elements are only reassigned or destroyed"])
prop("C06", "Copies, moves and swaps of vectors are value-exact in every storage state",
     "Copying, moving, assigning or swapping two fixed or hybrid vectors in any combination of storage states (in place, spilled to the heap, empty, self) leaves the target with exactly the source's elements, and a copy leaves its source unchanged. Both vectors stay usable afterwards, and every element is destroyed exactly once. Moving never copies elements.",
     ["histories", "inputs"], "every pair of storage states and sizes, every history of operations on two vectors",
     "The combinations of storage states of source and target are not covered by tests, which move or copy one vector at a time.",
     [INC + "FixedVector.inl"], [("assignment between in-place and fallback storage", "FixedVector.inl operator=")],
     "stateless exploration of operation sequences over two vectors, against std::vector", BASE_NOTE,
     "all (size, storage state) pairs up to size 4..7, all sequences of 3..5 operations on two vectors, BFS to depth 4..10; 9 element types, two of which have moves that may throw; copies, moves and allocations are counted")
prop("C07", "Stack-allocated arrays and vectors behave as std::vector within capacity",
     "Any history of operations on a stack vector (or stack array) gives the content, return values and size of a standard vector of the same elements, up to its fixed capacity. Every element is constructed and destroyed exactly once, including when the container is moved. Nothing outside of the given memory is read or written.",
     ["histories", "inputs"], "every history of operations, capacity and element type",
     "As for the other vectors: lifetime and position errors depend on specific histories and positions.",
     [INC + "StackVector.hpp", INC + "StackVector.inl", INC + "StackArray.hpp", INC + "StackArray.inl"],
     [("non-owning memory with size", "StackVector.hpp m_ptr, m_size, m_capacity"), ("allocation macros", "StackVector.hpp NazaraStackVector, StackArray.hpp NazaraStackArray")],
     "stateless exploration of all operation sequences plus BFS over states, against std::vector", BASE_NOTE,
     "all sequences of 2..4 operations from every state, BFS to depth 6, 6 element types, capacities up to 6; stack arrays of size 0..64; sizes around 2^8 and 2^16")
prop("C08", "Exceptions and allocation failures leave containers valid and leak nothing",
     "Whenever an element operation throws or an allocation fails in the middle of an operation of a container (vectors, arrays, memory pool, bitset), every element is destroyed exactly once, no memory is leaked, and the container stays usable. An insertion at the end or a pool allocation that fails has no effect on the contents. The failure reaches the caller instead of terminating the program.",
     ["fault_sequences", "histories"], "every operation, at every possible failure point of that operation, from every container state",
     "No test injects failures; each operation has several failure points per state.",
     [INC + "FixedVector.inl", INC + "StackVector.inl", INC + "StackArray.inl", INC + "MemoryPool.inl", INC + "MemoryHelper.inl"],
     [("uninitialised memory algorithms", "MemoryHelper.inl"), ("pool entry release on failure", "MemoryPool.inl Allocate")],
     "exhaustive fault-point enumeration over all operations and states", BASE_NOTE,
     "every k-th element operation or allocation failing, for every operation with every argument from every (size, storage) state; pool histories of 5..8 operations with one failure at any point")
prop("C09", "Memory pools never hand out overlapping or stale entries",
     "Under any history of allocations, frees, resets, moves and iterations, every live entry of a memory pool keeps its address and value, is aligned and disjoint from all others, and its index retrieves it. Freeing, resetting and destroying run each destructor exactly once, counters report exactly the live and free entries, iterating visits exactly the live entries, and freed entries are reused before the pool grows.",
     ["histories", "inputs"], "every history of allocate/free/reset/move operations, block size and alignment",
     "Errors appear only with a particular pattern of holes across blocks or after a reset/move followed by other operations; tests follow one scripted history.",
     [INC + "MemoryPool.hpp", INC + "MemoryPool.inl"],
     [("free entry bitset per block", "MemoryPool.hpp Block::freeEntries"), ("entry index to address", "MemoryPool.inl GetAllocatedPointer/RetrieveEntryIndex")],
     "BFS over reachable pool states and all operation sequences, against a map model", BASE_NOTE,
     "BFS to depth 5..8 with blocks of 1..4 entries, all sequences of 4..5 operations, every one/two-hole pattern in blocks of 1..130 entries; alignments 1..128; moves (also to itself) and swaps of pools; entries which use their own pool; blocks of more than 2^16 entries and more than 2^16 blocks",
     state=[("occupancy", "which entries are live", "MemoryPool.hpp Block::freeEntries")])
prop("C10", "Signal emission delivers to each connected slot exactly once",
     "An emission calls, with the emitted arguments, every slot connected when it starts and still connected when reached, exactly once and in connection order (when nothing was ever disconnected), whatever its callbacks do: connect, disconnect themselves or others, clear the signal, or throw. A disconnected slot is never called again, a slot connected during an emission is called at most once by it, and a later emission calls exactly the slots then connected. An exception leaves the signal usable for later emissions.",
     ["schedules", "histories"], "every interleaving of connections, disconnections, clears and exceptions with the calls of one or more emissions",
     "Tests try a few self-disconnections; reentrancy bugs need a specific slot acting on another specific slot at a specific moment of the emission.",
     [INC + "Signal.hpp", INC + "Signal.inl"],
     [("iteration index adjusted by disconnections", "Signal.inl operator(), Disconnect"), ("slot swap on removal", "Signal.inl Disconnect")],
     "stateless exploration of all callback behaviours under a controlled environment", BASE_NOTE,
     "all behaviours of up to 3..6 slots (up to 9 with fewer actions) with up to 2..5 actions distributed in any way over the callbacks and between 1..3 emissions; every kind of callable and argument (by value with connections and disconnections during the emission); more than 2^8 slots",
     ["emitting the same signal from one of its own callbacks ends the outer emission (known finding)", "slots connected during an emission may or may not be reached by it"])
prop("C11", "Signal connections track their slot through every lifetime event",
     "A connection or a connection guard reports being connected exactly as long as its slot is connected, through any history of connects, disconnects, copies, moves and destructions of connections, guards and signals (in any order). Destroying or reassigning a guard disconnects its slot exactly once; moving a signal keeps every connection valid and the emptied signal calls nothing. Nothing is used after being destroyed, and captured callback state is destroyed exactly once.",
     ["histories"], "every history of creations, copies, moves, disconnections and destructions of signals, connections and guards",
     "Use-after-free or wrong bookkeeping needs a specific order of destructions and moves; tests exercise a few.",
     [INC + "Signal.hpp", INC + "Signal.inl"],
     [("slot shared with connections by weak pointers", "Signal.hpp Connection::m_ptr"), ("slot retargeting on signal move", "Signal.inl operator=(Signal&&)")],
     "BFS over reachable object graphs plus all operation sequences, against a model", BASE_NOTE,
     "BFS to depth 4..40 over 2 signals, 2-3 connections/guards; all histories of bounded length; callbacks owning guards of slots of the same or another signal, cleared, assigned or destroyed in every order",
     ["assigning a guard from a connection to the guard's own slot and self-move of a connection are excluded"])
prop("C12", "Bit utilities return exact results for every integer type and value",
     "Counting, finding (first/last), testing, setting, clearing and toggling bits, reversing bits and arithmetic right shifts give for every integer type (signed, unsigned, every width) and every value the result defined by its two's complement binary representation. Every bit position is supported, and results are the same at compile time and at run time.",
     ["inputs"], "every value of every integer type and every bit position",
     "Sign extension, high bits and widths fail only for specific type/value pairs; tests use a few literals.",
     [INC + "MathUtils.hpp", INC + "MathUtils.inl"],
     [("intrinsic dispatch and constexpr fallback", "MathUtils.inl CountBits, FindFirstBit, FindLastBit, ReverseBits, ArithmeticRightShift")],
     "exhaustive value enumeration against a bit-by-bit model", BASE_NOTE,
     "all values of 8 and 16-bit types, boundary sets of 32 and 64-bit types (all 32-bit values in the thorough tier); every bit position; gcc and clang, C++17, 20 and 23")
prop("C13", "Integer math is exact wherever the result is representable",
     "Integer logarithm, power, power-of-two tests and roundings, alignment and multiply-add give the mathematically exact result for every integer type and every operand for which that result is representable. None of them overflows on the way. Alignment results are the smallest multiple not below the operand.",
     ["inputs"], "every integer type and operand combination with a representable result",
     "Intermediate overflow only happens close to the limits of a type; tests use small values.",
     [INC + "MathUtils.hpp", INC + "MathUtils.inl"],
     [("integer functions", "MathUtils.inl Align, AlignPow2, GetNearestPowerOfTwo, IntegralLog2, IntegralPow, IsPow2, MultiplyAdd, RoundToPow2")],
     "exhaustive value enumeration against 128-bit arithmetic", BASE_NOTE,
     "all values/pairs of 8-bit types, all values of 16-bit types (unary), boundary products for 16..64-bit types; gcc and clang, C++17 and 20",
     ["operands whose exact result is not representable are out of the domain"])
prop("C14", "Numeric comparison, clamping and interpolation are exact and safe",
     "Approximate equality, approach, clamping, modulo and interpolation helpers and floating-point classification return what their definition over the real numbers gives, for every arithmetic type and every operand including the limits, unsigned types, infinities and NaN. Moving towards a target never overshoots it, interpolation at 0 and 1 gives its ends. They never overflow.",
     ["inputs"], "every arithmetic type and operand triple",
     "Unsigned wrap-around and limit values are absent from the tests' samples.",
     [INC + "MathUtils.hpp", INC + "MathUtils.inl"],
     [("numeric helpers", "MathUtils.inl Approach, Clamp, Lerp, Mod, NumberEquals, IsInfinity, IsNaN, IsFinite, …")],
     "exhaustive value enumeration against exact arithmetic", BASE_NOTE,
     "all triples of 8-bit values (thorough; boundary triples in quick), boundary triples of wider types, boundary sets of float/double (all 2^32 floats for classification in the thorough tier)")
prop("C15", "Byte swapping and byte-order conversions are exact inverses",
     "Swapping the bytes of any arithmetic value or buffer reverses its bytes and nothing else, twice gives the original back, and conversions between little, big and host orders yield values whose memory bytes are in the named order. Compile-time and run-time results agree.",
     ["inputs"], "every arithmetic type and value, every buffer length",
     "Tests sample a few values of some widths.",
     [INC + "Endianness.hpp", INC + "Endianness.inl", INC + "MathUtils.inl"],
     [("byte swapping", "MathUtils.inl SwapBytes, ByteSwap"), ("order conversions", "Endianness.inl HostToLittleEndian, BigEndianToHost, …")],
     "exhaustive value enumeration against a byte-by-byte model", BASE_NOTE,
     "all 8/16-bit values, boundary values of 32/64-bit integers, float/double bit patterns, buffers of every length up to a bound at every alignment")
prop("C16", "Hashing is deterministic, byte-exact and consistent with equality",
     "String hashes are the published FNV-1a value of the bytes of the string (or standard CRC-32), identical at compile time and run time and for every way of passing the same characters. Combining hashes is deterministic and depends on every element and its order. Hashing and comparing strings of different kinds for heterogeneous lookup agree with the characters they hold.",
     ["inputs"], "every byte string, including embedded zeros and bytes above 0x7F, and every combination of values",
     "Tests hash a few ASCII strings.",
     [INC + "Hash.hpp", INC + "Hash.inl", INC + "StringHash.hpp", INC + "StringHash.inl"],
     [("FNV-1a and CRC32", "Hash.inl"), ("transparent string hash", "StringHash.inl")],
     "exhaustive string enumeration against reference implementations", BASE_NOTE,
     "all byte strings up to 2-3 bytes, all strings up to 5..9 characters over small alphabets, lengths up to some hundreds; char, char16_t, char32_t, wchar_t")
prop("C17", "Enum flag sets behave as sets of enumerators",
     "A flag set built from any enumeration behaves as the mathematical set of its enumerators: union, intersection, symmetric difference, complement (within the enumeration), difference, test, set and clear, comparison, conversion and iteration all agree with the set, for any number of enumerators (1 to 64), and for enumerators that are already bit masks. Iteration visits each member once in increasing order. Hashes of equal sets are equal.",
     ["inputs", "histories"], "every enumeration size and kind, every set and every history of operations",
     "Enumeration sizes around 8, 16, 32 and 64 and the complement at each size are not sampled by tests.",
     [INC + "Flags.hpp", INC + "Flags.inl"],
     [("bit value of an enumerator", "Flags.inl GetFlagValue"), ("complement mask", "Flags.hpp ValueMask")],
     "exhaustive state enumeration against a set model", BASE_NOTE,
     "all sets (or boundary sets for large enumerations) for enumerations of 1..64 values, automatic and explicit bit values; BFS over all reachable states for the histories")
prop("C18", "Enum-indexed arrays map each enumerator to its own element",
     "An enum-indexed array of any size holds one element per enumerator: every access through an enumerator reaches that element and no other, iteration (forward, reverse, key/value) visits each element exactly once paired with its own enumerator in order, and iterators obey all random-access identities. Fill, swap, copy, comparison behave as on the underlying array.",
     ["inputs", "histories"], "every enumeration kind and size (0 to 300), every element and iterator position pair",
     "Tests use one small enumeration; iterator arithmetic is barely exercised.",
     [INC + "EnumArray.hpp", INC + "EnumArray.inl"],
     [("key/value iterators", "EnumArray.hpp EnumArrayKeyValueIterator")],
     "exhaustive state enumeration against std::array", BASE_NOTE,
     "enumerations of 0,1,2,3,4,5,6,256,300 values; all contents over small alphabets, all iterator position pairs; gcc and clang")
prop("C19", "Results hold exactly one live value or error through every operation",
     "A result object always holds exactly one of a value or an error, and after any history of constructions, conversions, copies, moves, assignments, resets and mappings it holds what that history implies. Values and errors are constructed and destroyed exactly once, copying leaves the source unchanged and moving never copies; accessors return the held object or the given alternative. A copy that throws leaves both objects valid and leaks nothing.",
     ["histories", "fault_sequences"], "every pair of states, value/error types (same, void, move-only, non default constructible) and every fault point",
     "Tests use ints and strings with a few assignments; lifetime errors and state mix-ups need instrumented types and every state pair.",
     [INC + "Result.hpp", INC + "Result.inl"],
     [("union of value and error", "Result.hpp m_value/m_error/m_state")],
     "stateless exploration of all operations from all states with fault enumeration", BASE_NOTE,
     "all sequences of two/three operations from every state over 7 value/error type combinations; every fault point of every operation",
     ["element moves that throw and mappings to references are excluded"])
prop("C20", "Private-implementation holders own exactly one object through every operation",
     "A private-implementation holder, heap based or in-place, through any history of creations, copies, moves, self-assignments and accesses, holds an independent copy of the object its history implies. Each held object is constructed and destroyed exactly once, in suitably aligned memory. A copy that throws leaves a valid object and leaks nothing.",
     ["histories", "fault_sequences"], "every history of operations on two holders, held types (non assignable, move-only, over-aligned) and fault points",
     "Tests build and copy one holder.",
     [INC + "PrivateImpl.hpp", INC + "PrivateImpl.inl"],
     [("type-erased copy/move/destroy", "PrivateImpl.inl")],
     "stateless exploration of operation sequences with fault enumeration", BASE_NOTE,
     "all sequences of 2..5 operations over two holders for 9 kinds of holder; every fault point of every operation",
     ["what remains in a moved-from heap holder (nothing, or the target's former object) is not specified"])
prop("C21", "Scope-exit callbacks run exactly once",
     "A scope-exit object calls its function exactly once: when it is destroyed, or earlier on request, and never after it was reset or moved from. This holds through any history of moves, resets and early calls, and when the function throws or resets its own holder. The function object is only moved (never copied) and destroyed exactly once. The same holds while exceptions are unwinding the stack.",
     ["histories", "fault_sequences"], "every history of constructions, moves, resets, calls and destructions",
     "Tests run one scope; double calls appear only after a move or a reentrant reset.",
     [INC + "CallOnExit.hpp", INC + "CallOnExit.inl"],
     [("optional functor", "CallOnExit.inl")],
     "stateless exploration of operation sequences against a model", BASE_NOTE,
     "all sequences of 3..5 operations over two holders, with functions that do nothing, throw, or reset their holder",
     ["the pending call of an object that is assigned over may be made once or dropped"])
prop("C22", "Movable wrappers transfer their value exactly once",
     "A movable pointer, literal or value wrapper holds what its history implies; moving from it transfers the value and leaves the wrapper's documented default (or for an assignment possibly the target's old value), so no value is ever owned twice or lost. Copying or assigning from an lvalue leaves that lvalue unchanged. Dereference, comparison and conversion see exactly the held value.",
     ["histories"], "every history of constructions, assignments, moves and self-moves",
     "Tests move each wrapper once.",
     [INC + "MovablePtr.hpp", INC + "MovablePtr.inl", INC + "MovableValue.hpp", INC + "MovableValue.inl"],
     [("exchange on move", "MovablePtr.inl, MovableValue.inl")],
     "stateless exploration of operation sequences against a model", BASE_NOTE,
     "all sequences of 3..5 operations over two or three wrappers, 9 wrapped types")
prop("C23", "Function references call exactly the referenced callable",
     "Calling a function reference invokes exactly the callable it refers to (free function, lambda, const or non-const functor), with the exact arguments and value categories, and returns exactly its result, however the reference was copied, reassigned or passed. It never copies, moves or destroys the callable. Reassignment only affects the assigned reference.",
     ["histories", "inputs"], "every history of copies and reassignments, every callable kind and argument category",
     "Tests call a few lambdas.",
     [INC + "FunctionRef.hpp", INC + "FunctionRef.inl"],
     [("type-erased call", "FunctionRef.inl")],
     "stateless exploration of operation sequences against a model", BASE_NOTE,
     "all sequences of bounded length over several references and callables; all argument categories (value, reference, const, rvalue, move-only)",
     ["callables that were destroyed before the call are excluded"])
prop("C24", "Sparse pointers walk strided memory exactly like an array of elements",
     "A sparse pointer over any base address and stride (positive, negative, zero, larger or smaller than the element, misaligned with it) designates, after any history of increments, decrements, offsets and copies, exactly the element at base plus stride times the number of steps. Dereferencing and indexing access this element, differences and the six comparisons agree with the addresses, and standard algorithms produce on sparse pointers what they produce on plain iterators. No byte outside the designated elements is read or written. Converting to a const or base-class sparse pointer keeps designating the same objects.",
     ["histories", "inputs"], "every base, stride, element type and history of pointer operations, in particular large and negative offsets",
     "Tests walk one array forward; wrong signs and truncations show only with negative strides or large counts.",
     [INC + "SparsePtr.hpp", INC + "SparsePtr.inl"],
     [("byte offset arithmetic", "SparsePtr.inl operator+, operator-, operator[]"), ("conversions", "SparsePtr.inl constructors")],
     "explicit-state exploration of pointer-operation histories against address arithmetic", BASE_NOTE,
     "all histories of bounded depth over several pointers; all pairs of strides in -9..9 and offsets in -6..6, large strides and counts up to 2^40; standard algorithms on every permutation of small arrays",
     ["difference with a stride of 0, and between pointers whose distance is not a multiple of the stride, are excluded"])
prop("C25", "Safe casts and pointer casts preserve values or report the failure",
     "A safe cast between any two arithmetic or enumeration types gives exactly the original value whenever the target type can represent it, and in debug builds reports the error whenever it cannot, for every value including the limits of each type. A safe cast of a pointer or reference down a class hierarchy gives the same object when its dynamic type allows it and is reported otherwise. Casting a unique pointer transfers the same object, and integers and pointers convert to each other exactly.",
     ["inputs"], "every pair of arithmetic types and every value (all 8 and 16 bit values, all limits and neighbours of powers of two for wider ones, all floating-point classes)",
     "A missed range check concerns a few values of one pair out of hundreds of type pairs; tests check some of them.",
     [INC + "Algorithm.hpp", INC + "Algorithm.inl"],
     [("range checks", "Algorithm.inl SafeCast"), ("dynamic checks", "Algorithm.inl SafeCast of pointers and references")],
     "exhaustive enumeration of type pairs and values against exact arithmetic", BASE_NOTE,
     "all pairs of 13 integer types, bool, 3 floating-point types and enumerations with every value of the small types and boundary sets for the wide ones; all pairs of classes of a hierarchy with multiple and virtual inheritance",
     ["a conversion to bool is exact for 0 and 1 only", "conversions of infinities and NaN between floating-point types are not judged"])
prop("C26", "Type lists and function traits compute exactly the listed types",
     "Every type-list operation (size, access, search, append, prepend, concatenation, instantiation, transformation, uniqueness, application to each type, iteration) gives exactly the types, positions and order that the same operation gives on a plain sequence, for every list including empty ones and lists holding duplicates. Function traits give exactly the return type, argument types and owner of functions, member functions and functors, whatever their qualifiers. Applying a functor to a list visits each type once, in order.",
     ["inputs"], "every list of types and every function signature",
     "Tests compute each operation on one list; duplicates, empty lists and qualifier combinations are not covered.",
     [INC + "TypeList.hpp", INC + "TypeList.inl", INC + "FunctionTraits.hpp", INC + "TypeTraits.hpp", INC + "TypeTag.hpp"],
     [("recursive list computations", "TypeList.inl"), ("one specialization per qualifier", "FunctionTraits.hpp")],
     "exhaustive enumeration of type lists against a sequence model", BASE_NOTE,
     "all lists of up to 4..5 types over 3 types, all pairs of lists of up to 2..3 types; all cv/ref/noexcept qualifiers of member functions with up to 3 arguments",
     ["functors applied to a list receive rvalue arguments several times: only lvalues are used"])
prop("C27", "UTF-8 strings and paths are converted without changing a byte",
     "Converting a string between its char and UTF-8 forms, in either direction and from any kind of source (C string, string, view), keeps every byte and the length; a C string stops at its terminator, strings and views include embedded zeros. Views designate the memory they were given and nothing past the end of the source is read. A path built from UTF-8 text holds exactly this text, and the text of any path is its UTF-8 form with generic separators and gives back the same path, whatever encoding the path was built from.",
     ["inputs"], "every string, length, embedded zero and code point",
     "Tests convert a few literals; embedded zeros, unterminated views and each encoding length need specific inputs.",
     [INC + "StringUtils.hpp", INC + "StringUtils.inl", INC + "PathUtils.hpp", INC + "PathUtils.inl"],
     [("reinterpretation of the characters", "StringUtils.inl"), ("path conversions", "PathUtils.inl")],
     "exhaustive enumeration of strings against the byte sequence", BASE_NOTE,
     "all strings of up to 5 (thorough 7) characters over 8 significant bytes; every length up to 40 (140) with a special character at every position; all paths of up to 4 (6) code points over 8 significant ones; code points of every encoding length (thorough: every code point)",
     ["successive separators may be merged", "only POSIX paths can be observed here"])
prop("C28", "Constant expressions give exactly the results of run time",
     "Every constexpr function of the library gives in a constant expression the same result as at run time, for every argument, in C++17, C++20 and C++23, with each compiler. This covers the bit and byte-order utilities, integer and floating-point math, hashing, safe casts, flag sets, enum arrays, results, movable values and (C++20) bitsets. No constant expression over a valid call depends on undefined behaviour or fails to evaluate.",
     ["inputs", "histories"], "every function having a compile-time path, every argument and short program of operations",
     "Several functions use separate code for constant expressions (intrinsics at run time, loops at compile time); tests evaluate nearly only the run-time path.",
     [INC + "MathUtils.inl", INC + "Algorithm.inl", INC + "Hash.inl", INC + "Endianness.inl", INC + "ConstantEvaluated.hpp", INC + "Bitset.inl", INC + "Flags.inl", INC + "EnumArray.inl", INC + "Result.inl"],
     [("separate compile-time path", "ConstantEvaluated.hpp NAZARA_IS_CONSTANT_EVALUATED and its users")],
     "exhaustive evaluation of argument tables by the compiler and comparison with run time", "Each table is computed by the compiler in a constant expression (which also diagnoses undefined behaviour) and recomputed at run time on opaque arguments. " + BASE_NOTE,
     "for each integer type every limit, power of two and their neighbours (pairs of them for binary functions), 45 floating-point values per type and all their pairs, all short strings over 3 characters, all two-operation programs over flags, enum arrays, results, movable values and bitsets of 8 (thorough also: 32 and 64) bits blocks",
     ["functions using standard functions which are not constexpr in C++17 are only evaluated in C++20", "sums and products that are not finite are excluded"])
prop("C29", "Low-level helpers are exact for every type and operand",
     "Bit casts keep every bit in both directions, counting elements gives the length of any array or container, and retrieving a key gives the mapped element itself without changing the map. Placement helpers construct and destroy exactly the given object, the offset of a member is its real offset and accessing an object by offset designates exactly this member. Casting a unique pointer to a base or derived class keeps a single owner of the same object. Mathematical constants and limits are the nearest values of their type.",
     ["inputs"], "every representation of the cast types, container length, key set, member and element type",
     "Tests check one instance of each helper.",
     [INC + "Algorithm.inl", INC + "Constants.inl", INC + "MemoryHelper.inl", INC + "OffsetOf.hpp", INC + "Hash.inl"],
     [("helpers", "Algorithm.inl, MemoryHelper.inl, Constants.inl")],
     "exhaustive enumeration of inputs and operation sequences against a model", BASE_NOTE,
     "all 16-bit patterns and boundary patterns of wider ones for bit casts; every length up to 300; every set of up to 5 keys; every member of classes with padding, inheritance and arrays")
prop("C30", "Type names identify each type uniquely and completely",
     "The name given to a type is non-empty, is the same at compile time and run time and on every call, names the complete type (the full list of template arguments and qualifiers, no truncation, no surrounding text), and two different types never get the same name, for types of any length and nesting.",
     ["inputs"], "every type of a grammar of qualifiers, pointers, arrays, functions, templates and long names",
     "Tests compare the names of a few short types; truncation appears only with long names and wrong trimming with particular closing characters.",
     [INC + "TypeName.hpp", INC + "TypeName.inl"],
     [("extraction from the function signature", "TypeName.inl")],
     "exhaustive enumeration of a type grammar", BASE_NOTE,
     "all types of bounded depth over base types and constructors (cv, pointer, reference, array, function, template), names of every length up to several hundreds of characters and around every power of two up to several thousands, with GCC and Clang")
prop("C31", "Assertion macros evaluate once, report faithfully and nest safely",
     "An assertion macro evaluates its condition exactly once when enabled and not at all when disabled, has no effect when the condition holds, and when it does not hold calls the failure handler exactly once with the right source position and the complete text before stopping. The macros are a single statement: used in any nesting of if/else, loops and comma-free expressions, with or without braces, they never change which branch is taken.",
     ["inputs", "configurations"], "every combination of macro, condition outcome, surrounding statement and build configuration",
     "Tests cannot observe an abort, a disabled assertion or a dangling else.",
     [INC + "Assert.hpp", INC + "Assert.inl"],
     [("assertion macros", "Assert.hpp NazaraAssert, NazaraAssertMsg"), ("failure path", "Assert.inl")],
     "exhaustive enumeration of macro uses, outcomes and configurations", BASE_NOTE,
     "all macros x outcomes x 8+ surrounding statements x 10 configurations (debug, release, asserts forced on or off; GCC and Clang; C++17 and C++20); messages and file names of every length of a doubling scale up to 5,000 characters (70,000 in the thorough tier) made of nine kinds of text (conversions, multi-byte characters, line breaks), twelve line numbers, 192 values passed through eleven kinds of argument",
     ["the exact layout of the message is not specified"])
prop("C32", "Debug builds report contract breaches exactly and never valid calls",
     "In builds with assertions, every call that breaks the documented contract of a container, bitset, pool, iterator, map lookup, holder, signal, sparse pointer or bit helper (out of range index, empty access, exceeded capacity, freed entry, foreign iterator, missing key, bit number past the type) is reported, and no call within its contract is ever reported, whatever the state of the object.",
     ["inputs", "histories"], "every reachable state of bounded objects and every call on it, valid or not",
     "A missing or off-by-one check is invisible to tests, which only make valid calls; an assertion that is too strict fires only in particular states.",
     [INC + "Bitset.inl", INC + "FixedVector.inl", INC + "StackVector.inl", INC + "StackArray.inl", INC + "MemoryPool.inl", INC + "Result.inl", INC + "EnumArray.inl", INC + "MathUtils.inl", INC + "PrivateImpl.inl"],
     [("NazaraAssert on each precondition", "all .inl files")],
     "exhaustive enumeration of states and calls, comparing reports with the contract", BASE_NOTE,
     "every state of objects of up to 3..5 elements (20 bits for bitsets) and every argument around the limits",
     ["preconditions the library does not assert (front() of an empty stack array, a second Free of a pool entry without destruction tracking) are not judged"])
prop("C33", "Uses of different objects by different threads never race",
     "Threads using different objects of the library, or only reading the same object through its const interface, or writing different elements of the same container through accessors, never make conflicting unsynchronized accesses to memory, whatever the interleaving, and each observes exactly what it would alone: no function keeps hidden shared state.",
     ["schedules"], "every pair of operations executed by two threads, in both orders, from a fresh process",
     "Tests use one thread. A cache or static buffer added to a function is invisible to them.",
     [INC + "Bitset.inl", INC + "FixedVector.inl", INC + "MemoryPool.inl", INC + "Signal.inl", INC + "StringUtils.inl", INC + "PathUtils.inl", INC + "Hash.inl", INC + "TypeName.inl", INC + "EnumArray.inl", INC + "SparsePtr.inl"],
     [("functions without hidden state", "all headers")],
     "exhaustive enumeration of operation pairs and orders with happens-before race detection", "The library has no synchronization, so two operations of different threads are unordered in every interleaving: one execution of each ordered pair under a happens-before detector (ThreadSanitizer) decides all interleavings of that pair. Each suite starts a fresh process and runs its operation against itself first, so that state initialized on first use is initialized concurrently.",
     "34 operations on every class of the library (const uses of shared objects, own objects, distinct elements of shared containers), all ordered pairs, both orders, GCC with assertions and Clang without",
     ["emission of the same signal by several threads is not judged: the iterator of an emission is part of the signal"])
prop("C34", "Every header stands alone and describes its compilation correctly",
     "Each header of the library can be included on its own, any number of times, before or after any other and in any number of translation units of a program, with GCC and Clang in C++17, C++20 and C++23 and with every documented build option, and gives its users the same results; it leaves behind no macro without the library's prefix and no name outside of its namespace. The macros describing the compilation (compiler and version, language version, platform, architecture, byte order, export attributes) are exactly those of the target.",
     ["configurations"], "every header, inclusion order, pair of build options, compiler, language version and target platform",
     "Tests include many headers together in a fixed order, in one configuration on one platform, and most headers in a single translation unit.",
     [INC + h + ".hpp" for h in ("Prerequisites", "Endianness", "Concepts", "ConstantEvaluated", "Assert", "StringUtils", "PathUtils", "Hash", "MathUtils", "Signal", "TypeList")],
     [("target description", "Prerequisites.hpp, Endianness.hpp, Concepts.hpp"), ("inline definitions", "all .inl files")],
     "exhaustive enumeration of compilations and programs", "The executions explored are compilations and the programs they make: headers are discovered in the tree, every one is compiled alone with a use of its interface, all rotations of both orders put every header before and after every other, and programs of two translation units containing every header and use are linked and run.",
     "35 headers alone in 6 compiler and language combinations; all 35 rotations of both orders (thorough: all ordered pairs); every option, every pair of options (thorough: all 1024 sets); 31 target platforms by preprocessing with Clang's cross targets",
     ["target platforms are preprocessed with stand-in system headers, not compiled", "MSVC and ICC are not available here"])
prop("C35", "Objects are constructed at aligned, disjoint addresses inside their container",
     "Every object the library constructs for its user (vector and array elements in place, in the fallback or in stack memory, pool entries, private implementations, result values and errors, wrapped values, enum array elements) is at an address aligned for its type, including over-aligned types and the alignment requested from a pool, overlaps no other live object, stays inside its container when the container stores in place, and keeps its whole content for every size and alignment of the type.",
     ["inputs", "histories"], "every element size and alignment, every history of operations, every address at which the container itself or the stack frame may be",
     "An under-aligned or overlapping storage works by luck for the types and addresses of the tests: the allocator gives 16 bytes or more, frames happen to be aligned, and only over-aligned types or the right padding show it.",
     [INC + h for h in ("FixedVector.inl", "FixedVector.hpp", "MemoryPool.inl", "MemoryPool.hpp", "StackVector.hpp", "StackArray.hpp", "MemoryHelper.inl", "PrivateImpl.hpp", "PrivateImpl.inl", "Result.hpp")],
     [("aligned buffers", "FixedVector.hpp, PrivateImpl.hpp, Result.hpp"), ("aligned blocks", "MemoryPool.inl AllocateBlock"), ("stack memory", "MemoryHelper.inl AlignStackMemory")],
     "explicit-state model checking of the real code with a table of live objects", BASE_NOTE + " Elements register their address and extent at construction and leave at destruction; containers are placed at addresses aligned for them and for nothing more, and the heap of the check gives exactly the alignment it is asked for.",
     "payloads of 1, 3 and 40 bytes with alignments 1, 2, 8, 16, 32, 64 and 128; every history of 4..5 vector operations and 5..8 pool operations for each; stack helpers of 0..4 elements from six frame paddings; GCC and Clang, with and without sanitizers",
     ["user-provided storage given to StackVector constructors is the user's responsibility"])
prop("C36", "Types which promise not to allocate never touch the heap",
     "Fixed vectors, stack vectors and arrays, fixed bitsets, in-place private implementations, enum arrays, results, flags, function references, wrapped values and pointers, hashes and integer functions never allocate or free heap memory, whatever is done with them; a hybrid vector does not while it never grows past its in-place capacity, a bitset or hybrid vector does not within the capacity it has, a pool does not while it has a free entry; and no move or swap allocates.",
     ["histories"], "every history of operations within the capacity",
     "Tests look at contents, never at the allocator: a temporary container in one operation keeps every test passing and breaks real-time and no-throw users.",
     [INC + h for h in ("FixedVector.inl", "StackVector.inl", "StackArray.inl", "Bitset.inl", "MemoryPool.inl", "PrivateImpl.inl", "Result.inl", "FunctionRef.inl", "Hash.inl")],
     [("in-place storage", "FixedVector.inl"), ("free entries", "MemoryPool.inl")],
     "explicit-state model checking of the real code with an accounting allocator", BASE_NOTE + " The global allocation functions of the check count calls made while a library operation runs.",
     "every history of 5..6 operations of fixed and hybrid vectors (pairs of them) and bitsets, 8..9 operations of pools; every operation of the other types",
     ["moving from a signal, which allocates its first slots on connection, is not included"])
prop("C38", "Types answer queries truthfully and serve inside standard containers",
     "What the library's types answer when they are asked whether they can be constructed, converted, assigned, called, copied, moved or iterated agrees with their element types and with what really happens: a movable value accepts exactly what its value accepts, a result converts exactly when both its parts convert, a function reference accepts exactly the functors that can be called with its signature, handles convert exactly as pointers do; what is offered compiles, what is not possible is not offered, so overloads, options and variants choose rightly. Iterators have the types and operations of the category they declare. A standard container or algorithm that holds, grows, sorts or swaps objects of the library moves them, without copying their contents and without changing them.",
     ["inputs", "configurations"], "every pair of types of the sets, every number of elements",
     "A test only constructs what works; a wrong constraint, a lost noexcept or a copy in place of a move changes an overload or an element copy somewhere else.",
     [INC + h for h in ("MovableValue.hpp", "Result.hpp", "FunctionRef.hpp", "SparsePtr.hpp", "MovablePtr.hpp", "Signal.hpp", "MemoryPool.hpp", "FixedVector.hpp", "Bitset.hpp", "EnumArray.hpp", "PrivateImpl.hpp")],
     [("constraints and noexcept of constructors and assignments", "headers of the wrappers"), ("iterator types", "Bitset.hpp BitIterator, EnumArray.hpp EnumArrayKvIterator, MemoryPool.hpp, Flags.hpp")],
     "exhaustive enumeration of pairs of types, with the element types' own answers as the model, and of container sizes on the real code", BASE_NOTE + " The states are the pairs (type of the library, type it is asked about); what is answered yes is then instantiated and executed.",
     "21 value types in pairs for movable values and literals (3 value categories), 144 pairs of results over 7 shapes, 11 signatures x (14 functors, 21 arguments, 11 signatures), 19 iterators; 14 types in vectors of 1 to 40 elements (400 thorough), options, variants, maps, deques and pairs; GCC and Clang, C++17 and C++20",
     ["implicit construction of PrivateImpl, whose constructor accepts anything by design, is not judged"])
prop("C37", "What the interface forbids does not compile; the nearest allowed use does",
     "Misuses that the interface excludes are refused by the compiler: copying what owns a unique resource, writing through a constant container, iterator, holder, result or pointer, dropping constness by a conversion, converting between unrelated types, implicit conversions that are declared explicit, flags of enumerations that are not flags, types outside of the constraints of a function, sizes and alignments that do not fit. For each of them, the correct program which differs only by the misuse compiles, without needing more than the operation requires of its types (move-only elements, types without default constructor).",
     ["inputs", "configurations"], "every misuse, compiler and language version",
     "A test which does not compile cannot be part of the test suite: every `= delete`, `explicit`, `const`, static_assert and constraint can be lost without any test noticing.",
     [INC + h for h in ("CallOnExit.hpp", "MemoryPool.hpp", "FixedVector.hpp", "StackVector.hpp", "StackArray.hpp", "Signal.hpp", "SparsePtr.hpp", "Flags.hpp", "Result.hpp", "PrivateImpl.hpp", "EnumArray.hpp", "Bitset.hpp", "Algorithm.inl", "Constants.hpp", "MathUtils.hpp", "Concepts.hpp", "TypeList.inl", "FunctionTraits.hpp")],
     [("deleted functions, explicit conversions, const overloads, static_asserts and constraints", "all headers")],
     "exhaustive enumeration of pairs of programs, each given to every compiler", "The executions explored are compilations: each pair (misuse, nearest correct program) is enumerated over every compiler and language version; the oracle is the compiler's verdict, and the correct half of the pair shows that the refusal is due to the misuse alone.",
     "more than 130 pairs of programs, GCC and Clang, C++17 and C++20 (thorough: C++23 too)",
     ["the wording of the diagnostics is not judged"])
