#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here so that they stay readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
I = "include/upd/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[f if f.startswith(("py/", "test/", "include")) else I + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)


p("C01", "Integers are encoded exactly in the requested wire format",
  "Serializing an integer of any supported type (bool, characters, signed and unsigned integers of 1 to 8 bytes) produces exactly as many bytes as the type has, holding the value in the requested signed-number representation (sign-magnitude, one's complement, two's complement, offset binary; plain binary for unsigned types), in the requested byte order. This holds for every value which the representation can express, including zero, the extreme values and -1, whichever interface writes it (tuple construction, element assignment, whole-tuple assignment, or the serialization primitive with or without an offset) and whatever kind of byte iterator is written through; no other byte is touched.",
  ["inputs", "configurations"], "all values of all integer types x 2 byte orders x 4 signed representations",
  "The tests serialize one or two hand-picked values per type and mode and check mostly round trips, which two mirrored errors survive.",
  ["detail/serialization.hpp", "detail/signed_representation.hpp", "detail/endianess.hpp", "tuple.hpp"],
  [("write_as", I + "detail/serialization.hpp"), ("to_signed_mode", I + "detail/signed_representation.hpp"), ("to_endianess", I + "detail/endianess.hpp")])
p("C02", "Every byte sequence decodes to the specified integer and round trips",
  "Reading an integer of any supported type back from bytes yields the number those bytes denote in the requested byte order and signed-number representation, for every byte pattern (both zeros of sign-magnitude and one's complement decode to 0), and does not modify the bytes. Hence serializing any representable value then reading it back returns the same value, through every reading interface and kind of byte iterator.",
  ["inputs", "configurations"], "all byte patterns of 1, 2, 4 and 8 bytes x 2 byte orders x 4 signed representations x all integer types",
  "The tests decode the few encodings produced by their own encoder; foreign patterns (negative zero, extreme values, high bytes set) are not sampled.",
  ["detail/serialization.hpp", "detail/signed_representation.hpp", "detail/endianess.hpp", "tuple.hpp"],
  [("read_as", I + "detail/serialization.hpp"), ("from_signed_mode", I + "detail/signed_representation.hpp"), ("from_endianess", I + "detail/endianess.hpp")])
p("C03", "Declaring the platform's native format never changes any byte",
  "Telling the library the platform's native byte order and/or native signed representation (each alone or both) is only an optimisation: every encoded byte, every decoded value, every size and every dispatcher status is the same as without the declaration, for every requested wire format, including those which match the native one and those which match it only in one of the two aspects.",
  ["configurations", "inputs"], "{no hint, byte-order hint, signed-mode hint, both} x all wire formats x all values, for tuples, packets, responses and dispatchers",
  "CI builds two of the four hint combinations, samples a few values in each and never compares them.",
  ["upd.hpp", "detail/endianess.hpp", "detail/signed_representation.hpp"],
  [("platform_info", I + "upd.hpp"), ("memcpy fast paths selected by SFINAE", I + "detail/endianess.hpp"), ("from_signed_mode/to_signed_mode", I + "detail/signed_representation.hpp")])
p("C04", "Tuples are packed without padding and elements are independent",
  "A tuple's storage is exactly the concatenation, in declaration order and without padding, of the encodings of its elements (array elements one after the other), so its size is the sum of the element sizes. Setting one element changes exactly the bytes of that element, getting an element depends on exactly those bytes and changes nothing, and each element reads back what was last stored in it whatever the others hold.",
  ["inputs", "histories", "programs"], "all values, all previous contents, every element index, mixed tuples of integers, arrays and user types",
  "The tests check a couple of tuples with fixed values; isolation of neighbouring bytes for every value and prior content is not observed.",
  ["tuple.hpp", "detail/serialization.hpp", "detail/type_traits/typelist.hpp"],
  [("tuple_base::get/set", I + "tuple.hpp"), ("offsets: sum<clip<sizes_t, 0, I>>", I + "tuple.hpp"), ("array overloads of read_as/write_as", I + "detail/serialization.hpp")])
p("C05", "Views alias exactly their byte range through any kind of iterator",
  "A view bound to a position of a byte sequence reads and writes exactly the bytes that a tuple of the same types would have at that position: writing through it encodes in place, reading through it sees the current bytes, its bounds are the start and the start plus the packed size, and a view over a slice of a tuple covers exactly that slice. The same holds whether the position is a plain pointer or any other (bidirectional or random-access) byte iterator, and no byte outside the range is read or written.",
  ["inputs", "programs"], "all values and byte contents, all slices, pointer, standard-library and user-written iterators",
  "The tests use one or two containers with fixed contents; out-of-range accesses stay invisible without instrumentation.",
  ["tuple.hpp", "detail/serialization.hpp"],
  [("tuple_view", I + "tuple.hpp"), ("tuple::view, make_view", I + "tuple.hpp"), ("iterator overloads of read_as/write_as", I + "detail/serialization.hpp")])
p("C06", "Assigning, default-constructing and invoking tuples preserve values",
  "Assigning a tuple or view to another of the same element types preserves every element's value, converting between byte orders and signed representations, also when storage formats differ. A default-constructed tuple holds zero in every element. Invoking a callable on a tuple calls it exactly once with the decoded elements in declaration order, and returns its result unchanged.",
  ["inputs", "configurations"], "all element values x all pairs of source and destination formats",
  "The tests transcode one value between two formats; 64 format pairs and all values are out of reach of samples.",
  ["tuple.hpp"], [("tuple_base::operator=", I + "tuple.hpp"), ("tuple_base::invoke", I + "tuple.hpp"), ("tuple::tuple()", I + "tuple.hpp")])
p("C07", "User-defined extension types are serialized by their extension alone",
  "A value of a user-extended type is represented by exactly the bytes of the intermediate values of its extension, in the enclosing byte order and signed representation, wherever it appears: alone, next to other elements, as the element of an array, as an argument or result of an action, or through any kind of iterator, and whatever the in-memory size of the type. Sizes announced by tuples, keys, actions and dispatcher buffers agree with the number of bytes actually produced and consumed, and decoding gives back the value rebuilt by the extension.",
  ["inputs", "programs"], "all values; extensions smaller than, equal to and larger than the in-memory type",
  "The tests use a single extension whose in-memory size equals its serialized size, with fixed values.",
  ["detail/serialization.hpp", "tuple.hpp", "detail/type_traits/signature.hpp", "key.hpp", "action.hpp", "buffered_dispatcher.hpp"],
  [("serialization_size", I + "tuple.hpp"), ("parameters_size/return_type_size", I + "detail/type_traits/signature.hpp"), ("user-serializable overloads of read_as/write_as", I + "detail/serialization.hpp")])
p("C08", "A request packet is exactly the key's index followed by its arguments",
  "Calling the key of a function with arguments produces a packet made of the position of the function in the keyring, encoded in the smallest unsigned integer type able to hold the number of functions, then the arguments in order, in the keyring's byte order and signed representation, and nothing else. Its length is the key's announced payload length for every argument, and two functions of a keyring never share an index.",
  ["inputs", "programs", "configurations"], "all argument values, keyrings of 1 to 300 functions (255/256/257 boundary), all wire formats",
  "The tests build small keyrings and compare a few packets; the index width boundary and all argument values are not covered.",
  ["key.hpp", "keyring.hpp", "detail/serialized_message.hpp", "detail/type_traits/smallest.hpp"],
  [("key::operator()", I + "key.hpp"), ("keyring::index_t, key_t", I + "keyring.hpp"), ("serialized_message::write_to", I + "detail/serialized_message.hpp")])
p("C09", "A key decodes responses exactly and its hooks receive the same value",
  "Reading a response through a key consumes exactly the bytes of the encoded return type, in order and each once, and yields the value they denote (nothing is consumed for functions returning nothing). A hook planned on a key receives the decoded values of the bytes it is fed, in the key's wire format, whether the hook is stored or refers to a function with static storage.",
  ["inputs", "programs"], "all response bytes, all return types, all wire formats, callables and iterators as byte sources",
  "The tests decode single values; over-consumption and order of fetches are not observed.",
  ["key.hpp", "action.hpp"], [("key::read_from", I + "key.hpp"), ("key::with_hook", I + "key.hpp")])
p("C10", "Invoking an action consumes, calls and emits exactly once and exactly enough",
  "Invoking an action fetches exactly its announced input size of bytes, calls the wrapped callback exactly once with the decoded arguments after all of them were fetched and before anything is emitted, then emits exactly its announced output size of bytes, which encode the returned value in the action's wire format. Actions which store their callback and actions which only refer to it behave alike; an empty action does nothing; the callback sees the caller's streams in order.",
  ["inputs", "programs", "histories"], "all argument and result values, all arities, all wire formats, repeated invocations",
  "The tests invoke a few actions and look at results, not at the exact sequence of fetches, calls and emissions.",
  ["action.hpp", "detail/function_reference.hpp", "detail/type_traits/input_tuple.hpp"],
  [("action::operator()", I + "action.hpp"), ("call/insert", I + "action.hpp"), ("static_storage_duration_callback_wrapper", I + "action.hpp")])
p("C11", "An action owns its own copy of the callback and releases it exactly once",
  "Creating an action from a callback object (temporary, moved or named) gives the action a copy of its own: later changes to, or destruction of, the original do not affect it, invocations may mutate the state held by the action, and moving the action transfers that state. Every copy is destroyed exactly once and every dynamic allocation is released, on every path including replacement and exceptions thrown while copying.",
  ["histories", "inputs", "fault_sequences"], "all sequences of create, move, assign, invoke, replace, destroy over bounded populations; stateful callbacks",
  "The tests wrap temporaries and never outlive a named callback; leaks and double destruction are invisible to them.",
  ["action.hpp"], [("action::action", I + "action.hpp"), ("action_model", I + "action.hpp")], [("m_concept_uptr", "owned callback", I + "action.hpp")])
p("C12", "A dispatcher runs exactly the action designated by the index, or nothing",
  "Given a byte stream, a dispatcher consumes exactly the bytes of the index, in the keyring's byte order; if the index designates a function it runs that action and no other, exactly once, with the following bytes as arguments, emits its result and returns the index; otherwise it runs nothing, consumes nothing more, emits nothing and returns the received index. Looking an action up yields the designated action, or a null pointer exactly when the index is out of range.",
  ["inputs", "programs"], "every index value of 1- and 2-byte indexes, every argument value, keyrings below, at and above 255 functions",
  "The tests dispatch a handful of valid indexes in keyrings of a few functions.",
  ["dispatcher.hpp"], [("dispatcher::operator()", I + "dispatcher.hpp"), ("dispatcher::get_action/get_index", I + "dispatcher.hpp")])
p("C13", "A remote call returns what the local call would have returned",
  "For every function of a keyring and all arguments, feeding the packet built by its key to any dispatcher of the same keyring (plain, single- or double-buffered, with or without storage, byte after byte or at once) invokes that function once with equal arguments, and decoding the emitted bytes with the same key yields the value the function returned.",
  ["inputs", "programs", "configurations"], "all arguments, all functions of mixed keyrings, all wire formats, all dispatcher kinds and feeding styles",
  "The tests run caller and callee on a few constants, one dispatcher kind at a time.",
  ["key.hpp", "keyring.hpp", "dispatcher.hpp", "buffered_dispatcher.hpp", "action.hpp", "tuple.hpp"],
  [("key::operator() / read_from", I + "key.hpp"), ("dispatcher::operator()", I + "dispatcher.hpp"), ("buffered_dispatcher::put/call", I + "buffered_dispatcher.hpp")])
p("C14", "Buffered framing reports the right status and resynchronises after every packet",
  "Over every byte stream, a buffered dispatcher answers 'loading' until a packet is decided, 'dropped' on the last byte of an index which designates no function, and 'resolved' on the last byte of a complete request (on the last index byte when there are no arguments), at which point the designated action and no other has run exactly once with the arguments of that packet. After a dropped or resolved packet the next byte starts a new packet, whatever the history.",
  ["histories", "inputs", "programs"], "all byte streams of any length, one- and two-byte indexes, actions with and without arguments, both buffering modes",
  "The tests feed a few well-formed packets; arbitrary interleavings of dropped, empty and full packets are unbounded.",
  ["buffered_dispatcher.hpp"], [("buffered_dispatcher::put", I + "buffered_dispatcher.hpp"), ("read_from", I + "buffered_dispatcher.hpp"), ("call", I + "buffered_dispatcher.hpp")],
  [("m_load_count, m_is_index_loaded, m_ibuf_next", "progress in the current packet", I + "buffered_dispatcher.hpp")])
p("C15", "A buffered dispatcher never reads or writes outside its buffers",
  "Whatever bytes are received, in whatever order bytes are put, results are fetched, packets are replied and actions replaced, a buffered dispatcher only touches memory inside its own buffers, and those are large enough for every request and every response of the keyring, also when responses are longer than requests, when some functions take no argument or return nothing, and when the index takes several bytes.",
  ["histories", "inputs", "programs"], "all operation sequences over arbitrary bytes; keyrings whose largest request and largest response differ either way",
  "An overflow by a few bytes inside an object does not fail a test; responses longer than the requests are not exercised with instrumentation.",
  ["buffered_dispatcher.hpp"], [("needed_input_buffer_size/needed_output_buffer_size", I + "buffered_dispatcher.hpp"), ("put/get/call", I + "buffered_dispatcher.hpp")])
p("C16", "Responses come out of a buffered dispatcher complete, in order and once",
  "After a request is resolved, the dispatcher is loaded exactly as long as response bytes remain; fetching yields the bytes of the encoded result in order, each once, whether one at a time, all at once or in any mixture, and leaves nothing behind; functions returning nothing leave nothing to fetch. Fetching when nothing is loaded returns an arbitrary byte and changes nothing, and in double-buffered mode receiving a new request does not disturb an unread response until that request is resolved.",
  ["histories", "inputs"], "all interleavings of put, get, write-out and is-loaded queries over arbitrary bytes",
  "The tests drain each response immediately after one request.",
  ["buffered_dispatcher.hpp"], [("get, write_to, is_loaded", I + "buffered_dispatcher.hpp")],
  [("m_obuf_next, m_obuf_bottom", "unread part of the response", I + "buffered_dispatcher.hpp")])
p("C17", "Replying forwards the pending response as one request packet",
  "Replying with a key whose action takes one byte buffer emits exactly one request packet for that key carrying the pending response at the start of its buffer and leaves nothing pending, provided that no byte of the response was fetched before and that it fits; otherwise it emits nothing, changes nothing and says so. Every byte that is sent is determined by the dispatcher's content (no stale or uninitialised memory leaks onto the wire).",
  ["inputs", "histories", "programs"], "all responses, all buffer sizes relative to the response, all fetch positions",
  "The tests reply once with an exactly fitting buffer.",
  ["buffered_dispatcher.hpp"], [("buffered_dispatcher::reply", I + "buffered_dispatcher.hpp")])
p("C18", "Replacing an action changes that action and no other",
  "After an action is replaced in a dispatcher (plain or buffered, by a function, a static object or any callable), requests for its index run the new callback with the same packet format and sizes, all other actions keep their behaviour, keys keep working unchanged, and the previous callback is neither run again nor leaked. Replacing between any two packets, however often, leaves packet framing and pending responses intact.",
  ["histories", "inputs", "programs"], "every index, all arguments, any number of replacements between packets",
  "The tests replace one action once and call only it.",
  ["dispatcher.hpp", "buffered_dispatcher.hpp"], [("dispatcher::replace", I + "dispatcher.hpp"), ("buffered_dispatcher::replace", I + "buffered_dispatcher.hpp")])
p("C19", "Programs that break the protocol contract do not compile",
  "The following are rejected at compile time, and their corrected counterparts accepted, in every supported language standard: tuples of unserializable, const, volatile or reference types; keys, actions or keyrings of things that are not callable; replacing an action at an index outside the keyring or by a callback of another signature; replacing by a callback that needs storage in a dispatcher restricted to weak references; passing something that is neither a byte source nor a byte sink where one is required; replying with something that is not a key; making a dispatcher from something that is not a keyring; calling a key with the wrong number of arguments.",
  ["programs", "configurations"], "each class of misuse x each entry point x C++11, 14, 17, 20",
  "A test suite can only contain programs that compile.",
  ["detail/static_error.hpp", "tuple.hpp", "key.hpp", "keyring.hpp", "action.hpp", "dispatcher.hpp", "buffered_dispatcher.hpp", "typelist.hpp"],
  [("static_assert and SFINAE guards", I + "detail/static_error.hpp")])
p("C20", "Every form of byte source and sink gives the same result",
  "Wherever bytes are read or written, a callable, a plain pointer, a standard iterator, an input-only or output-only iterator, a temporary or a named object, a const or non-const receiver, the named function or the stream operator all transfer the same bytes in the same order and return the same value, and mixing a callable on one side with an iterator on the other makes no difference.",
  ["programs", "inputs"], "all combinations of source and sink forms x all entry points (keys, packets, actions, dispatchers, buffered dispatchers)",
  "The number of combinations is large and the tests use a few of them.",
  ["detail/io/immediate_process.hpp", "detail/io/immediate_reader.hpp", "detail/io/immediate_writer.hpp"],
  [("immediate_process::operator()", I + "detail/io/immediate_process.hpp"), ("immediate_reader", I + "detail/io/immediate_reader.hpp"), ("immediate_writer", I + "detail/io/immediate_writer.hpp")])
p("C21", "Serialization never relies on undefined behaviour or unwritten memory",
  "Encoding any representable value and decoding any byte sequence, in every wire format and platform declaration, performs no signed overflow, no invalid shift, no out-of-bounds access and no read of memory that was not written, and no byte handed to the user depends on such memory.",
  ["inputs", "configurations"], "all values and byte patterns (two's complement and offset binary: including the lowest value of each type)",
  "Undefined behaviour usually produces the expected bytes under the test's compiler and flags.",
  ["detail/serialization.hpp", "detail/signed_representation.hpp", "detail/endianess.hpp", "tuple.hpp"],
  [("to_signed_mode_impl/from_signed_mode_impl", I + "detail/signed_representation.hpp"), ("to_endianess/from_endianess", I + "detail/endianess.hpp")])
p("C22", "Weak-reference dispatchers and serialization never allocate memory",
  "Constructing, feeding, draining, replacing in and destroying a dispatcher restricted to weak references, building and decoding packets, and every tuple and view operation perform no dynamic allocation. Storing actions allocate only when a callback is stored, never when invoked, and release everything they allocated.",
  ["programs", "histories", "inputs"], "every path of every operation reachable from the listed entry points",
  "Tests do not count allocations, and a rare path may allocate only for some packets.",
  ["action.hpp", "dispatcher.hpp", "buffered_dispatcher.hpp", "tuple.hpp", "key.hpp", "detail/function_reference.hpp"],
  [("no_storage_action", I + "action.hpp"), ("function_reference", I + "detail/function_reference.hpp")])
p("C23", "Instances do not share state",
  "Two dispatchers, actions, tuples or keys never influence each other except through streams and callbacks that the user shares between them: operations on one leave the behaviour of every other unchanged, even for instances of the same type and interleaved byte after byte.",
  ["histories", "programs"], "all interleavings of operations on two instances of the same type",
  "The tests use one instance at a time.",
  ["dispatcher.hpp", "buffered_dispatcher.hpp", "action.hpp", "tuple.hpp", "key.hpp"],
  [("all state is in non-static members", I + "buffered_dispatcher.hpp"), ("function-local objects only", I + "action.hpp")])
p("C24", "An exception from user code leaves dispatchers usable and nothing leaked",
  "When a callback, byte source or byte sink throws, the exception reaches the caller unchanged, nothing is leaked or destroyed twice, and the dispatcher stays valid: a buffered dispatcher whose callback threw accepts the next byte as the start of a new packet and has no partial response pending, and one whose byte source threw can resume the packet with the next byte.",
  ["fault_sequences", "histories", "inputs"], "an exception at every user-code call site, in every state of the packet, followed by any byte stream",
  "No test throws.",
  ["buffered_dispatcher.hpp", "action.hpp", "dispatcher.hpp"], [("buffered_dispatcher::call", I + "buffered_dispatcher.hpp"), ("unique_ptr ownership", I + "action.hpp")])
p("C25", "Moving or copying a dispatcher, tuple or view carries its complete state",
  "A buffered dispatcher copied or moved (where its actions allow it) at any point of a packet continues exactly where the original was: the same statuses, the same actions, the same pending response. Copies of tuples are independent of their source, copies of views alias the same bytes.",
  ["histories", "inputs"], "a copy or move at every point of every byte stream",
  "The tests only copy factory results right after construction.",
  ["buffered_dispatcher.hpp", "tuple.hpp"], [("implicit copy and move operations", I + "buffered_dispatcher.hpp")])
p("C26", "Every header stands alone and can be included from many translation units",
  "Each public header compiles on its own, in any inclusion order and more than once, in every supported standard, and a program whose translation units all include any of them links: nothing is defined with external, non-inline linkage and no two units see different definitions of the same entity.",
  ["programs", "configurations"], "each header alone, pairs in both orders, C++11, 14, 17, 20, both compilers; all emitted symbols",
  "Each test is one translation unit which includes headers in one order.",
  ["upd.hpp", "type.hpp", "format.hpp", "unevaluated.hpp", "typelist.hpp", "tuple.hpp", "key.hpp", "keyring.hpp", "action.hpp", "dispatcher.hpp", "buffered_dispatcher.hpp", "policy.hpp"],
  [("include guards and inline templates", I + "tuple.hpp")])
p("C27", "Sizes, indexes and types are the same in every language standard and interface",
  "The constants and types that caller and callee must agree on (index type and values, payload lengths, tuple sizes, element types, buffer sizes, number of functions, wire format) are the same in C++11, 14, 17 and 20, with either compiler, and whether objects are made by factory functions, constructors or deduction guides.",
  ["configurations", "programs"], "every constant and type of a family of keyrings and tuples x standards x compilers x construction forms",
  "Each test binary is built by one compiler with one standard, and nothing compares two builds.",
  ["keyring.hpp", "key.hpp", "tuple.hpp", "typelist.hpp", "detail/type_traits/typelist.hpp", "detail/type_traits/smallest.hpp", "buffered_dispatcher.hpp"],
  [("typelist algorithms, implemented twice (C++11 and C++17)", I + "detail/type_traits/typelist.hpp")])
p("C28", "The wire format does not depend on the host platform",
  "Compiled for hosts of another native byte order, word size, int width or character signedness, with or without the matching platform declaration, the library encodes and decodes fixed-width integers, packets and responses with exactly the same bytes.",
  ["configurations", "inputs"], "little- and big-endian hosts of 16, 32 and 64 bits x all wire formats x all values",
  "The tests run on one host.",
  ["detail/serialization.hpp", "detail/signed_representation.hpp", "detail/endianess.hpp", "upd.hpp"],
  [("shift-based and memcpy-based conversions", I + "detail/endianess.hpp")])
p("C29", "Python keys encode, decode and index exactly as the C++ keys",
  "For every function of a keyring exposed to Python there is exactly one key object, under the function's own name; encoding arguments through it returns exactly the C++ packet, all of it and nothing more, decoding bytes returns the value that the C++ key decodes from the same bytes in the same order, and its index is the function's position.",
  ["inputs", "programs"], "all arguments and responses for keyrings mixing functions, function objects and arrays",
  "The Python tests use one-byte arguments and results only.",
  ["python.hpp"], [("define_pykey, define_pykeys", I + "python.hpp"), ("demangled_fname", I + "python.hpp")])
p("C30", "Python dispatchers and packet statuses mirror their C++ counterparts",
  "A dispatcher exposed to Python forwards each operation to the operation of the same meaning (receive, put one byte, fetch one byte, write out, query, replace) with the same bytes and the same results; each Python packet status denotes the C++ status of the same name; replacing an action designated by a key installs the Python callable at that key's index and at no other, called with the decoded arguments and its result encoded as the function's return type.",
  ["inputs", "programs", "histories"], "every binding, every status, every key of the keyring",
  "The Python tests exercise each binding once and only two of the three statuses.",
  ["python.hpp", "py/unpadded/_details.cpp"], [("declare_dispatcher", I + "python.hpp"), ("__make_action", I + "python.hpp"), ("PacketStatus", "py/unpadded/_details.cpp")])
p("C31", "The Python client sends one request per call and decodes the response once",
  "Calling a key through a client encodes the given arguments with that key, passes the resulting packet exactly once to the user's request function, awaits it, and returns the response decoded by the same key if it is a bytes object, or the response itself otherwise; errors propagate to the caller. A client which does not implement requests says so with a 'not implemented' error.",
  ["inputs", "programs", "fault_sequences"], "every path of the call for any key, arguments and response object",
  "The Python tests take both branches once each and never the unimplemented one.",
  ["py/unpadded/client.py"], [("Client.call, Client.new_request", "py/unpadded/client.py")])
p("C32", "The import hook never breaks unrelated imports and never stays locked",
  "The import hook declines (returns nothing for) every module which it does not find as an opted-in native source, never lets an import error escape to unrelated imports, does not recurse into itself, and always re-arms itself after each lookup on success, refusal or failure. A native module it accepts is built from its own source with the library's and the user's include directories and the required language standard, replacing any stale binary.",
  ["fault_sequences", "histories", "programs"], "every path of the lookup, including every call that may raise",
  "The Python tests import one module that exists.",
  ["py/unpadded/hook.py"], [("Hook.find_spec", "py/unpadded/hook.py"), ("setup_unpadded, set_extra_include_dirs", "py/unpadded/hook.py")], [("_running", "re-entrancy guard", "py/unpadded/hook.py")])
p("C33", "Tuples and views follow the standard tuple protocol",
  "For every tuple and view, the standard size and element-type traits, member access, free-function access and (where the standard has them) structured bindings agree: the size is the number of elements, element types are those returned by access (standard arrays for array elements), and all forms of access return equal values; free-function writing equals member writing.",
  ["programs", "inputs", "configurations"], "tuples and views of 0 to 8 elements of all kinds, all values, C++11 to 20",
  "The tests check two elements of one tuple.",
  ["tuple.hpp"], [("std::tuple_size, std::tuple_element specialisations", I + "tuple.hpp"), ("get, set", I + "tuple.hpp")])
p("C34", "Interrupt-context puts and main-context gets do not corrupt each other",
  "In double-buffered mode, bytes put from an interrupt handler while the main program fetches response bytes (with get(), is_loaded(), write_to() or reply()), or the other way round, are never lost, duplicated or torn in either direction, as long as no byte put completes a request (which replaces the response): whatever the state, receiving such a byte neither writes what fetching reads or writes nor reads what fetching writes.",
  ["schedules", "histories", "inputs"], "all interleavings of one putting and one fetching context at machine-instruction granularity; all reachable states; all bytes",
  "The tests are single threaded.",
  ["buffered_dispatcher.hpp"], [("separate input and output buffers", I + "buffered_dispatcher.hpp")])
p("C35", "Processing a byte takes bounded time and stack",
  "Receiving one byte (put) or fetching one (get) returns after a bounded number of steps and uses a bounded amount of stack, the bounds depending on the keyring and not on the bytes received or fetched before, so that it can be called from a serial interrupt. The time and stack taken by the user's functions are not counted.",
  ["inputs", "histories"], "all byte streams; all reachable states; keyrings of many shapes",
  "Time and stack are not observed by the tests.",
  ["buffered_dispatcher.hpp", "action.hpp"], [("put", I + "buffered_dispatcher.hpp")])

with open(OUT, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
