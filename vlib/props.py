import client
import constants
import contract
import headers
import hook
from driver import PYTHON, Unit

AI = ("abstract interpretation (bit-level value-provenance domain, trace partitioning, no solver) of the LLVM IR of the "
      "library's own functions, entered through witness programs")
SAFE = "no out-of-bounds, dangling, uninitialised or otherwise undefined access on any path"

ONE = dict(stds=(11,), cfgs=("def",))
TWO = dict(stds=(11, 17), cfgs=("def",))
A2 = (("FA=ANY",), ("FA=WEAK_REFERENCE",))
LONG = (("PART=0",), ("PART=1",), ("PART=2",), ("PART=2", "REPLY_ALL"))
FRAMING = (("FE=LE", "FS=TC", "FA=ANY"), ("FE=BE", "FS=SM", "FA=WEAK_REFERENCE"))
FORMATS = tuple(("FE=%s" % e, "FS=%s" % s) for e in ("LE", "BE") for s in ("TC", "OC", "SM", "OB"))
# A keyring of more than 255 functions
WIDE = tuple(f + ("WIDE",) for f in FORMATS)
WEAK_WIDE = tuple(f + ("FA=WEAK_REFERENCE", "WIDE") for f in FORMATS)
# Functions which take and return user-extended types
EXT = tuple(f + ("EXT",) for f in FORMATS)
WEAK_EXT = tuple(f + ("FA=WEAK_REFERENCE", "EXT") for f in FORMATS)
BE_SM, LE_OC = 6, 1
ALL_FRAMING = tuple(f + a for f in FORMATS for a in A2)

HOSTS = [(std, cfg, t) for t, cfgs in (("x86_64", ("def",)), ("ppc64", ("def", "be", "bee", "s")), ("s390x", ("def", "be")), ("armeb", ("def", "be")),
                                      ("i386", ("def", "le")), ("arm", ("def", "le")), ("avr", ("def", "le")), ("msp430", ("def", "le", "e")))
         for cfg in cfgs for std in (11, 17)]
FEW_HOSTS = [(11, cfg, t) for t, cfg in (("x86_64", "def"), ("ppc64", "def"), ("ppc64", "be"), ("armeb", "be"), ("i386", "le"), ("avr", "def"), ("avr", "le"), ("msp430", "e"))]

PROPS = {
    "C01": dict(
        technique=AI,
        rules=["every byte produced for an integer equals the byte of the specified representation, for every value",
               "no other byte is written"],
        units=[Unit("C01_encode.cpp"), Unit("C01_iterators.cpp"), Unit("C01_primitive.cpp", internal=True)],
        thorough=[Unit(s, stds=(14, 20), cfgs=("def", "e", "s", "le")) for s in ("C01_encode.cpp", "C01_iterators.cpp")],
    ),
    "C02": dict(
        technique=AI,
        rules=["the value read equals the value denoted by the bytes, for every byte pattern", "reading writes nothing"],
        units=[Unit("C02_decode.cpp"), Unit("C02_iterators.cpp"), Unit("C02_primitive.cpp", internal=True)],
        thorough=[Unit(s, stds=(14, 20), cfgs=("def", "e", "s", "le")) for s in ("C02_decode.cpp", "C02_iterators.cpp")],
    ),
    "C04": dict(
        technique=AI,
        rules=["the storage is the concatenation of the encodings of the elements", "setting an element leaves every other byte as it was",
               "an element reads back what was stored last, whatever the others hold", SAFE],
        units=[Unit("C04_packed.cpp")],
        thorough=[Unit("C04_packed.cpp", stds=(14, 20))],
    ),
    "C05": dict(
        technique=AI,
        rules=["a view reads and writes exactly the bytes a tuple would have there", "bounds and slices designate those bytes",
               "no byte out of the range is touched", SAFE],
        units=[Unit("C05_views.cpp")],
        thorough=[Unit("C05_views.cpp", stds=(14, 20))],
    ),
    "C06": dict(
        technique=AI,
        rules=["each element of the target equals the element of the source after an assignment, for all pairs of formats",
               "default-constructed elements are zero", "a callable is invoked once with the elements in order and its result returned"],
        units=[Unit("C06_values.cpp")],
        thorough=[Unit("C06_values.cpp", stds=(14, 20))],
    ),
    "C07": dict(
        technique=AI,
        rules=["a user-extended value is represented by the bytes of its intermediate values at every place",
               "announced sizes equal the number of bytes produced and consumed", "decoding rebuilds the value"],
        units=[Unit("C07_extension.cpp")],
        thorough=[Unit("C07_extension.cpp", stds=(14, 20))],
    ),
    "C08": dict(
        technique=AI,
        rules=["a packet is the index in the keyring's index type followed by the encoded arguments",
               "the number of bytes equals payload_length", "indexes are the positions, pairwise distinct"],
        units=[Unit("C08_packets.cpp"), Unit("C08_packets.cpp", defs=(("WIDE",), ("EXT",), ("WIDE", "EXT")), **ONE), Unit("C08_long.cpp", defs=(("PART=8",),), **ONE)],
        thorough=[Unit("C08_packets.cpp", stds=(14, 20)), Unit("C08_long.cpp", defs=(("PART=8",),), **TWO)],
    ),
    "C09": dict(
        technique=AI,
        rules=["exactly the bytes of the return type are consumed, in order, once", "the value is the one they denote",
               "a hook receives the decoded value once"],
        units=[Unit("C09_responses.cpp"), Unit("C09_responses.cpp", defs=(("WIDE",), ("EXT",)), **ONE), Unit("C08_long.cpp", defs=(("PART=9",),), **ONE)],
        thorough=[Unit("C09_responses.cpp", stds=(14, 20)), Unit("C08_long.cpp", defs=(("PART=9",),), **TWO)],
    ),
    "C10": dict(
        technique=AI,
        rules=["input_size() bytes are fetched, then the callback is called once with the decoded arguments, then output_size() bytes are emitted",
               "the emitted bytes encode the result in the action's format", "an empty action does nothing"],
        units=[Unit("C10_actions.cpp"), Unit("C10_actions.cpp", defs=(("EXT",),), **ONE), Unit("C08_long.cpp", defs=(("PART=10",),), **ONE)],
        thorough=[Unit("C10_actions.cpp", stds=(14, 20)), Unit("C08_long.cpp", defs=(("PART=10",),), **TWO)],
    ),
    "C11": dict(
        technique=AI,
        rules=["construction, moves, replacement and destruction of actions balance the constructions and destructions of the callback and the allocations, exceptions included",
               "the state of the callback is the action's own"],
        units=[Unit("C11_ownership.cpp")],
        thorough=[Unit("C11_ownership.cpp", stds=(14, 20))],
    ),
    "C12": dict(
        technique=AI,
        rules=["for every index value: the designated action and no other runs, once, on the following bytes; otherwise nothing happens",
               "the received index is returned", "get_action() is null exactly out of range"],
        units=[Unit("C12_dispatch.cpp"), Unit("C12_dispatch.cpp", defs=(("WIDE",), ("EXT",)), **ONE), Unit("C08_long.cpp", defs=(("PART=12",),), **ONE)],
        thorough=[Unit("C12_dispatch.cpp", stds=(14, 20)), Unit("C08_long.cpp", defs=(("PART=12",),), **TWO)],
    ),
    "C13": dict(
        technique=AI,
        rules=["through any dispatcher of the keyring, the packet of a key runs its function once with equal arguments and the key decodes the response to the returned value"],
        units=[Unit("C13_remote.cpp", defs=A2), Unit("C13_remote.cpp", defs=(("FA=WEAK_REFERENCE", "WIDE"), ("FA=ANY", "EXT"), ("FA=WEAK_REFERENCE", "WIDE", "EXT")), **ONE)],
        thorough=[Unit("C13_remote.cpp", stds=(14, 20), defs=A2)],
    ),
    "C14": dict(
        technique=AI,
        rules=["from any state reached by any history of packets, the statuses, the function run and its arguments are those of the protocol",
               "after a dropped or resolved packet the next byte starts a packet"],
        units=[Unit("C14_framing.cpp", defs=FRAMING + WEAK_WIDE[BE_SM:BE_SM + 1] + WEAK_EXT[LE_OC:LE_OC + 1], **ONE), Unit("C14_large.cpp", **ONE), Unit("C16_long.cpp", defs=(("PART=0",),), **ONE)],
        thorough=[Unit("C16_long.cpp", defs=(("PART=0",), ("PART=1",)), **TWO), Unit("C14_framing.cpp", defs=ALL_FRAMING, **TWO), Unit("C14_framing.cpp", defs=WEAK_WIDE + WEAK_EXT, **ONE), Unit("C14_large.cpp", stds=(14, 17, 20), cfgs=("def", "le"))],
    ),
    "C15": dict(
        technique=AI,
        rules=["every access of a buffered dispatcher is within the buffer it designates (sub-object bounds), for every keyring shape and history",
               "buffer sizes cover the longest request and response"],
        units=[Unit("C15_bounds.cpp", defs=tuple(("PART=%d" % i,) for i in range(5)), **TWO), Unit("C14_large.cpp", **ONE), Unit("C16_long.cpp", defs=LONG, **ONE)],
        thorough=[Unit("C16_long.cpp", defs=LONG, **TWO), Unit("C15_bounds.cpp", defs=tuple(("PART=%d" % i,) for i in range(5)), stds=(14, 20)),
                  Unit("C14_framing.cpp", defs=FRAMING, **ONE), Unit("C16_responses.cpp", defs=FRAMING, **ONE)],
    ),
    "C16": dict(
        technique=AI,
        rules=["is_loaded() exactly as long as response bytes remain", "the bytes of the encoded result come out in order, once, however fetched",
               "fetching nothing changes nothing"],
        units=[Unit("C16_responses.cpp", defs=FRAMING + WEAK_WIDE[LE_OC:LE_OC + 1] + WEAK_EXT[BE_SM:BE_SM + 1], **ONE), Unit("C16_long.cpp", defs=LONG[:2], **ONE)],
        thorough=[Unit("C16_long.cpp", defs=LONG[:2], **TWO), Unit("C16_responses.cpp", defs=ALL_FRAMING, **TWO), Unit("C16_responses.cpp", defs=WEAK_WIDE + WEAK_EXT, **ONE)],
    ),
    "C17": dict(
        technique=AI,
        rules=["one packet made of the key's index and the response at the start of a zeroed buffer is emitted, and nothing is left",
               "otherwise nothing is emitted or changed and false is returned"],
        units=[Unit("C17_reply.cpp", defs=(("FE=LE", "FS=TC"), ("FE=BE", "FS=SM"), WIDE[LE_OC], WIDE[BE_SM], EXT[BE_SM]), **ONE), Unit("C16_long.cpp", defs=LONG[2:], **ONE)],
        thorough=[Unit("C16_long.cpp", defs=LONG[2:], **TWO), Unit("C17_reply.cpp", defs=FORMATS, **TWO), Unit("C17_reply.cpp", defs=WIDE + EXT, **ONE)],
    ),
    "C18": dict(
        technique=AI,
        rules=["after a replacement the new callback and only it answers its index, with the same sizes; all other actions are unchanged; nothing leaks"],
        units=[Unit("C18_replace.cpp", defs=(("FE=LE", "FS=TC", "PART=0"), ("FE=BE", "FS=SM", "PART=1"), ("FE=BE", "FS=OB", "PART=2")), **TWO),
               Unit("C18_replace.cpp", defs=(WIDE[LE_OC] + ("PART=0",), WIDE[BE_SM] + ("PART=1",), EXT[BE_SM] + ("PART=0",), EXT[LE_OC] + ("PART=1",)), **ONE)],
        thorough=[Unit("C18_replace.cpp", defs=tuple(f + ("PART=%d" % i,) for i in range(3) for f in FORMATS[::3]), stds=(14, 20), cfgs=("def",)),
                  Unit("C18_replace.cpp", defs=tuple(f + ("PART=%d" % i,) for i in range(3) for f in WIDE[::5]), **ONE)],
    ),
    "C19": dict(
        technique="compile-fail witnesses: pairs of programs which differ by the violation alone, decided by the type checkers of two compilers",
        rules=["every program which breaks the contract is rejected, in every language standard", "its corrected counterpart is accepted"],
        passes=[contract.run],
        note="decided for the listed kinds of violation and arguments; a rejection anywhere in the program counts, wherever the compiler reports it",
    ),
    "C20": dict(
        technique=AI,
        rules=["for every form of source or sink on one side and each kind on the other, the same bytes are transferred in the same order, each once, and the same value is returned"],
        units=[Unit("C20_streams.cpp", defs=(("FE=LE", "FS=TC"), ("FE=BE", "FS=SM")), **TWO)],
        thorough=[Unit("C20_streams.cpp", defs=FORMATS[1::2], stds=(14, 20), cfgs=("def", "le"))],
    ),
    "C03": dict(
        technique=AI + "; the results under each platform declaration are compared with those without declaration",
        rules=["what holds of bytes, values, sizes and statuses without a platform declaration holds with each of them, for every wire format"],
        relative=True,
        units=[Unit(s, cfgs=("def", "e", "s", "le")) for s in ("C01_encode.cpp", "C02_decode.cpp", "C02_iterators.cpp", "C01_iterators.cpp")] +
              [Unit("C01_primitive.cpp", cfgs=("def", "e", "s", "le"), internal=True, stds=(11,)),
               Unit("C02_primitive.cpp", cfgs=("def", "e", "s", "le"), internal=True, stds=(11,)),
               Unit("C04_packed.cpp", cfgs=("def", "e", "s", "le"), stds=(17,)),
               Unit("C07_extension.cpp", cfgs=("def", "e", "s", "le"), stds=(17,)),
               Unit("C08_packets.cpp", cfgs=("def", "e", "s", "le"), stds=(17,)),
               Unit("C09_responses.cpp", cfgs=("def", "e", "s", "le"), stds=(17,)),
               Unit("C13_remote.cpp", cfgs=("def", "e", "s", "le"), stds=(17,), defs=(("FA=ANY",),))],
        thorough=[Unit(s, cfgs=("def", "e", "s", "le"), stds=(14, 20)) for s in ("C01_encode.cpp", "C02_decode.cpp", "C05_views.cpp", "C06_values.cpp", "C10_actions.cpp", "C12_dispatch.cpp")] +
                 [Unit("C14_framing.cpp", defs=FRAMING, stds=(11,), cfgs=("def", "e", "s", "le"))],
    ),
    "C21": dict(
        technique=AI,
        arithmetic=True,
        rules=["no signed overflow, invalid shift, out-of-bounds access or use of an unwritten value while encoding any representable value or decoding any bytes",
               "every byte handed to the user was written"],
        units=[Unit(s, cfgs=("def", "e", "s", "le")) for s in ("C01_encode.cpp", "C02_decode.cpp")] +
              [Unit("C21_defined.cpp"), Unit("C04_packed.cpp", stds=(11,)), Unit("C01_iterators.cpp", stds=(11,)), Unit("C02_iterators.cpp", stds=(11,)),
               Unit("C07_extension.cpp", stds=(11,)), Unit("C10_actions.cpp", **ONE), Unit("C10_actions.cpp", defs=(("EXT",),), **ONE)],
        thorough=[Unit(s, cfgs=("def", "e", "s", "le"), stds=(14, 20)) for s in ("C01_encode.cpp", "C02_decode.cpp", "C21_defined.cpp", "C05_views.cpp")] +
                 [Unit(s, stds=(11, 17), cfgs=("def", "le"), targets=("i386", "avr", "msp430", "arm")) for s in ("C01_encode.cpp", "C02_decode.cpp")],
    ),
    "C22": dict(
        technique=AI,
        rules=["no path through a weak-reference dispatcher, a packet, a tuple or a view reaches an allocation function",
               "a storing action allocates when a callback is stored only, and its allocations are all released"],
        units=[Unit("C22_alloc.cpp", defs=tuple(("PART=%d" % i,) for i in range(5)) + (("PART=1", "WIDE"),), **ONE)],
        thorough=[Unit("C22_alloc.cpp", defs=tuple(("PART=%d" % i,) for i in range(5)), stds=(14, 17, 20), cfgs=("le",)), Unit("C22_alloc.cpp", defs=tuple(("PART=%d" % i, "WIDE") for i in range(4)), **ONE)],
    ),
    "C23": dict(
        technique=AI,
        rules=["operations on one instance, interleaved with or nested in operations on another of the same type, leave its bytes, statuses, calls and responses as they would be alone"],
        units=[Unit("C23_instances.cpp", defs=(("FE=LE", "FS=TC"), ("FE=BE", "FS=SM")), **TWO), Unit("C23_instances.cpp", defs=(WIDE[BE_SM], EXT[LE_OC]), **ONE)],
        thorough=[Unit("C23_instances.cpp", defs=FORMATS[1::2], stds=(14, 20), cfgs=("def", "le"))],
    ),
    "C24": dict(
        technique=AI + ", exceptional edges included",
        rules=["an exception of a callback, source or sink reaches the caller unchanged", "nothing leaks and nothing is destroyed twice",
               "the next packet is received from its start (from where it was, when the source threw), in every state"],
        units=[Unit("C24_exceptions.cpp", defs=FRAMING, **TWO), Unit("C24_exceptions.cpp", defs=WEAK_WIDE[BE_SM:BE_SM + 1], **ONE)],
        thorough=[Unit("C24_exceptions.cpp", defs=ALL_FRAMING, stds=(14, 20), cfgs=("def",))],
    ),
    "C25": dict(
        technique=AI,
        rules=["a copy or move taken at any byte of a packet or response, after any history, continues as the original would, whatever then happens to the original",
               "copies of tuples are independent, copies of views alias"],
        units=[Unit("C25_copies.cpp", defs=(("FE=LE", "FS=TC"), ("FE=BE", "FS=SM")), **TWO), Unit("C25_copies.cpp", defs=(WIDE[LE_OC], EXT[BE_SM]), **ONE)],
        thorough=[Unit("C25_copies.cpp", defs=FORMATS[1::2], stds=(14, 20), cfgs=("def", "le"))],
    ),
    "C26": dict(
        technique="generated inclusion sequences decided by the type checkers of two compilers; linkage, identity and references of the definitions read from the compiler's IR; symbol resolution by the linker",
        rules=["each public header is accepted alone, twice, and before or after any other, and what it declares can be used", "no strong definition and no per-unit variable",
               "a definition has the same body in every unit which has it, whatever the order of inclusion", "no reference to the library is left undefined"],
        passes=[headers.run],
        note="decided for the public headers found in include/upd, in each standard, with a use of each; bodies are compared for the entities which those uses instantiate",
    ),
    "C27": dict(
        technique="type-level encoding: a generated program of static assertions, computed from an independent description of the keyrings, decided by the type checkers of two compilers in every language standard",
        rules=["index types and values, payload lengths, sizes, element types, buffer sizes and formats are the ones the description gives, in every standard, with either compiler, however the object is made"],
        passes=[constants.run],
        note="decided for every integer, extension and array type, and for generated tuples and keyrings (up to 300 functions)",
    ),
    "C28": dict(
        technique=AI + ", on the IR produced for other hosts",
        rules=["what holds of the bytes on a 64-bit little-endian host without platform declaration holds on each other host, with and without its declaration"],
        relative=True,
        units=[Unit(s, combos=HOSTS) for s in ("C01_encode.cpp", "C02_decode.cpp")] +
              [Unit("C13_remote.cpp", combos=FEW_HOSTS, defs=A2), Unit("C08_packets.cpp", combos=FEW_HOSTS), Unit("C04_packed.cpp", combos=FEW_HOSTS[:5])],
        thorough=[Unit(s, combos=HOSTS) for s in ("C08_packets.cpp", "C09_responses.cpp", "C07_extension.cpp", "C05_views.cpp")] +
                 [Unit("C12_dispatch.cpp", combos=FEW_HOSTS), Unit("C10_actions.cpp", combos=FEW_HOSTS), Unit("C14_large.cpp", combos=FEW_HOSTS)],
    ),
    "C29": dict(
        technique=AI + "; pybind11 is replaced by a model of its documented object semantics",
        rules=["one key per function, under the function's own name, whose index is the function's position",
               "encode() returns the bytes of the C++ packet, all of them and nothing more", "decode() returns the value which the C++ key decodes from the same bytes, in order"],
        units=[Unit("C29_python.cpp", stds=(17,), cfgs=("def",), defs=(("FE=BE", "FS=SM"), ("FE=LE", "FS=OC")), flags=PYTHON, real="python_real.cpp", secs=120),
               Unit("python_large.cpp", stds=(17,), cfgs=("def",), defs=(("FE=BE", "FS=TC", "KEYS_ONLY"),), flags=PYTHON, real="python_real.cpp", secs=200)],
        thorough=[Unit("python_large.cpp", stds=(20,), cfgs=("def",), defs=(("FE=LE", "FS=TC", "KEYS_ONLY", "THOROUGH"),), flags=PYTHON, real="python_real.cpp", secs=300),
                  Unit("C29_python.cpp", stds=(17, 20), cfgs=("def", "le"), defs=FORMATS, flags=PYTHON, real="python_real.cpp", secs=200)],
        assumptions=["pybind11 behaves as modelled in witness/pystub (attributes, classes, conversions, iteration); names are demangled and matched by the host's C++ library",
                     "functions of the global namespace"],
    ),
    "C30": dict(
        technique=AI + "; pybind11 is replaced by a model of its documented object semantics",
        rules=["each bound operation has the effect and the result of the C++ operation of that name", "each Python status is the C++ status of that name",
               "replace() changes the action of the key's index and no other; the callable gets the decoded arguments, once, and its result is encoded"],
        units=[Unit("C30_python.cpp", stds=(17,), cfgs=("def",), defs=tuple(("FE=BE", "FS=SM", "PART=%d" % i) for i in range(4)), flags=PYTHON, real="python_real.cpp", secs=200),
               Unit("python_large.cpp", stds=(17,), cfgs=("def",), defs=(("FE=BE", "FS=TC"),), flags=PYTHON, real="python_real.cpp", secs=200)],
        thorough=[Unit("python_large.cpp", stds=(20,), cfgs=("def",), defs=(("FE=LE", "FS=TC", "THOROUGH"),), flags=PYTHON, real="python_real.cpp", secs=300),
                  Unit("C30_python.cpp", stds=(17, 20), cfgs=("def",), defs=tuple(f + ("PART=%d" % i,) for f in (("FE=LE", "FS=TC"), ("FE=BE", "FS=OB"), ("FE=LE", "FS=SM")) for i in range(4)),
                       flags=PYTHON, real="python_real.cpp", secs=300)],
        assumptions=["pybind11 behaves as modelled in witness/pystub (attributes, classes, conversions, calls)", "functions of the global namespace"],
    ),
    "C31": dict(
        technique="abstract interpretation of the Python syntax tree: opaque symbols for everything which comes from outside, all branches, exceptions and interleavings at await enumerated, no solver",
        rules=["one encoding of the given arguments, one request of that packet, one await", "a bytes response is decoded once by the same key and the value returned, another is returned as it is",
               "errors of the key and of the request reach the caller unchanged", "a client which implements no request raises NotImplementedError", "what a call does never depends on another call, before or meanwhile"],
        passes=[client.run],
        assumptions=["the user's request function, keys and responses are opaque; an interleaved call begins and ends while another is awaiting"],
    ),
    "C32": dict(
        technique="abstract interpretation of the Python syntax tree: opaque symbols for everything which comes from outside, all branches and exceptions enumerated, imports of other modules interpreted at each step, no solver",
        rules=["a module which is not found, or fails to be imported, is declined", "imports made during a lookup are declined without another lookup", "whatever the outcome of a lookup, the next one is a lookup",
               "an accepted module is built from its own source, described by its own name, after a stale binary was removed, with the include directories and the language standard, then loaded and returned"],
        passes=[hook.run],
        assumptions=["cppimport's functions, the file system and sys.meta_path behave as modelled in vlib/hook.py (their documented contracts)"],
    ),
    "C33": dict(
        technique=AI + " and evaluation of the type-level protocol in the same programs",
        rules=["std::tuple_size and std::tuple_element agree with member and free access and structured bindings",
               "all forms of access return the stored value; free writing equals member writing"],
        units=[Unit("C33_protocol.cpp")],
        thorough=[Unit("C33_protocol.cpp", stds=(14, 20))],
    ),
    "C34": dict(
        technique=AI + "; sets of the bytes read and written by the two activities on each path",
        rules=["in double-buffered mode, receiving a byte which does not complete a request writes no byte which the fetching of response bytes "
               "(get, is_loaded, write_to, reply) reads or writes, and conversely, in every reachable state: all interleavings of their instructions "
               "amount to one after the other", SAFE],
        units=[Unit("C34_contexts.cpp", **TWO)],
        thorough=[Unit("C34_contexts.cpp", stds=(14, 20), cfgs=("def", "le", "e"))],
        assumptions=["each of the two activities is called by one context only",
                     "loads whose value is used for nothing are not counted as reads"],
    ),
    "C35": dict(
        technique=AI + "; instructions executed and stack bytes in use metered on each path",
        rules=["in every reachable state and for every byte, put() and get() execute at most a bounded number of instructions (20000, plus 1500 for each byte of the "
               "longest packet, in unoptimised code) and use at most a bounded amount of stack", SAFE],
        units=[Unit("C35_bounded.cpp", defs=(("PART=0",), ("PART=1",)), **TWO)],
        thorough=[Unit("C35_bounded.cpp", defs=(("PART=0",), ("PART=1",)), stds=(14, 20), cfgs=("def", "le", "e"))],
        assumptions=["the work of the functions called is not counted"],
    ),
}

NA = {
}
