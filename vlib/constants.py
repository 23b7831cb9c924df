"""C27: the constants and types which caller and callee must agree on, decided by the type checker.

A program made of static assertions is generated from an independent description of the types (sizes on the wire, types
read back) and of keyrings, then checked by g++ 11 and clang 18 in every language standard. Nothing runs."""
import concurrent.futures as cf
import os
import random
import re
import tempfile

import driver

HEAD = r'''
#include <array>
#include <cstddef>
#include <cstdint>
#include <tuple>
#include <type_traits>
#include <utility>
#include <upd/action.hpp>
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/format.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
#include <upd/policy.hpp>
#include <upd/tuple.hpp>
#include <upd/typelist.hpp>
#include <upd/unevaluated.hpp>
struct ext_small { std::uint8_t a; };
struct ext_padded { std::uint8_t a; std::int64_t b; };
struct ext_nested { ext_padded x; ext_small y; };
template<> struct upd_extension<ext_small> {
  template<typename View> static void serialize(const ext_small &, View &) {}
  static ext_small unserialize(std::uint32_t) { return {}; }
};
template<> struct upd_extension<ext_padded> {
  template<typename View> static void serialize(const ext_padded &, View &) {}
  static ext_padded unserialize(std::uint8_t, std::int64_t) { return {}; }
};
template<> struct upd_extension<ext_nested> {
  template<typename View> static void serialize(const ext_nested &, View &) {}
  static ext_nested unserialize(ext_padded, ext_small) { return {}; }
};
template<typename A, typename B> struct same : std::false_type {};
template<typename A> struct same<A, A> : std::true_type {};
template<typename T> struct bare { using type = typename std::remove_cv<typename std::remove_reference<T>::type>::type; };
#define SAME(A, ...) same<bare<decltype(std::declval<A>())>::type, __VA_ARGS__>::value
using upd::byte_t;
using upd::endianess; using upd::signed_mode; using upd::action_features; using upd::unevaluated;
'''
INTS = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "std::int8_t": 1, "std::uint8_t": 1, "std::int16_t": 2, "std::uint16_t": 2,
        "std::int32_t": 4, "std::uint32_t": 4, "std::int64_t": 8, "std::uint64_t": 8, "short": 2, "long": 8, "unsigned long": 8, "long long": 8,
        "wchar_t": 4, "char16_t": 2, "char32_t": 4}
EXTS = {"ext_small": 4, "ext_padded": 9, "ext_nested": 13}
FORMATS = [("LITTLE", "TWOS_COMPLEMENT", "little_endian", "twos_complement"), ("BIG", "SIGNED_MAGNITUDE", "big_endian", "signed_magnitude"),
           ("BIG", "ONES_COMPLEMENT", "big_endian", "ones_complement"), ("LITTLE", "OFFSET_BINARY", "little_endian", "offset_binary")]


class T:
    def __init__(self, name, size, read=None, array=False):
        self.name, self.size, self.read, self.array = name, size, read or name, array


def scalars():
    return [T(n, s) for n, s in INTS.items()]


def types():
    out = scalars() + [T(n, s) for n, s in EXTS.items()]
    for n, s in list(INTS.items())[3:12] + list(EXTS.items()):
        for k in (1, 3):
            out.append(T("std::array<%s, %d>" % (n, k), s * k, array=True))
            out.append(T("%s[%d]" % (n, k), s * k, "std::array<%s, %d>" % (n, k), array=True))
    out.append(T("std::uint8_t[300]", 300, "std::array<std::uint8_t, 300>", array=True))
    out.append(T("std::array<std::uint32_t, 200>", 800, array=True))
    return out


class Program:
    def __init__(self):
        self.lines = []  # text, label or None, first standard, compilers
        self.names = 0

    def add(self, text, label=None, since=11, gcc_only=False):
        self.lines.append((text, label, since, gcc_only))

    def check(self, expr, label, since=11, gcc_only=False):
        self.add('static_assert(%s, "%s");' % (expr, label), label, since, gcc_only)

    def fresh(self, p):
        self.names += 1
        return "%s%d" % (p, self.names)


def tuple_of(p, ts, fmt):
    E, S, e, s = fmt
    t = p.fresh("T")
    names = ", ".join(x.name for x in ts)
    L = "tuple<%s%s>" % (E + ", " + S, "".join(", " + x.name for x in ts))
    p.add("using %s = upd::tuple<endianess::%s, signed_mode::%s%s>;" % (t, E, S, "".join(", " + x.name for x in ts)))
    size = sum(x.size for x in ts)
    p.check("%s::size == %d" % (t, size), "size of " + L)
    if ts:
        p.check("sizeof(%s) == %d" % (t, size), "storage of " + L)
    p.check("std::tuple_size<%s>::value == %d" % (t, len(ts)), "number of elements of " + L)
    p.check("%s::storage_endianess == endianess::%s" % (t, E), "byte order of " + L)
    p.check("%s::storage_signed_mode == signed_mode::%s" % (t, S), "signed representation of " + L)
    for i, x in enumerate(ts):
        p.check("same<%s::arg_t<%d>, %s>::value" % (t, i, x.name), "type of element %d of %s" % (i, L))
        p.check("same<decltype(std::declval<%s &>().get<%d>()), %s>::value" % (t, i, x.read), "type read from element %d of %s" % (i, L))
        p.check("same<std::tuple_element<%d, %s>::type, %s>::value" % (i, t, x.read), "tuple_element %d of %s" % (i, L))
    n = len(ts)
    slices = [(i, l) for i in range(n) for l in range(1, n - i + 1)]
    for i, l in slices if n <= 4 else slices[::max(1, len(slices) // 8)]:
        args = "endianess::%s, signed_mode::%s, %s" % (E, S, ", ".join(x.name for x in ts[i:i + l]))
        p.check("same<decltype(std::declval<%s &>().view<%d, %d>()), upd::tuple_view<byte_t *, %s>>::value" % (t, i, l, args),
                "slice (%d, %d) of %s" % (i, l, L))
        p.check("same<decltype(std::declval<const %s &>().view<%d, %d>()), upd::tuple_view<const byte_t *, %s>>::value" % (t, i, l, args),
                "constant slice (%d, %d) of %s" % (i, l, L))
        p.check("decltype(std::declval<%s &>().view<%d, %d>())::size == %d" % (t, i, l, sum(x.size for x in ts[i:i + l])),
                "size of the slice (%d, %d) of %s" % (i, l, L))
    if ts:
        p.check("same<decltype(upd::make_tuple<%s>(upd::%s, upd::%s)), %s>::value" % (names, e, s, t), "make_tuple() without values for " + L)
        p.check("same<decltype(upd::make_view<%s>(upd::%s, upd::%s, std::declval<byte_t *>())), upd::tuple_view<byte_t *, endianess::%s, signed_mode::%s, %s>>::value" %
                (names, e, s, E, S, names), "make_view() for " + L)
        values = ", ".join("std::declval<const %s &>()" % x.name for x in ts)
        if not any("[" in x.name for x in ts):
            p.check("same<decltype(upd::make_tuple(upd::%s, upd::%s, %s)), %s>::value" % (e, s, values, t), "make_tuple() for " + L)
            p.check("same<decltype(upd::tuple{upd::%s, upd::%s, %s}), %s>::value" % (e, s, values, t), "deduction guide for " + L, 17)


def keyring_of(p, sigs, fmt, templated=False):
    """sigs: [(return T or None, [(T, qualifiers)])]"""
    E, S, e, s = fmt
    n = len(sigs)
    w = 1 if n < 256 else 2
    fs = []
    if templated:
        g = p.fresh("g")
        r, a = sigs[0]
        ptr = "%s (*)(%s)" % (r.read if r else "void", ", ".join(q % x.read for x, q in a))
        p.add("template<int> %s %s(%s);" % (r.read if r else "void", g, ", ".join(q % x.read for x, q in a)))
        k = p.fresh("K")
        p.add("template<int... Is> auto %s_l(std::integer_sequence<int, Is...>) -> decltype(upd::make_keyring(upd::make_flist(unevaluated<%s, &%s<Is>>{}...), upd::%s, upd::%s));"
              % (k, ptr, g, e, s), None, 14)
        p.add("using %s = decltype(%s_l(std::make_integer_sequence<int, %d>{}));" % (k, k, n), None, 14)
        since = 14
        fs = ["unevaluated<%s, &%s<%d>>" % (ptr, g, i) for i in range(n)]
        which = sorted({0, 1, n // 2, n - 1, 254 % n, 255 % n, 256 % n})
    else:
        since = 11
        for r, a in sigs:
            f = p.fresh("f")
            p.add("%s %s(%s);" % (r.read if r else "void", f, ", ".join(q % x.read for x, q in a)))
            fs.append(f)
        k = p.fresh("K")
        p.add("using %s = decltype(upd::make_keyring(upd::make_flist(%s), upd::%s, upd::%s));" % (k, ", ".join("UPD_CTREF(%s)" % f for f in fs), e, s))
        which = range(n)
        fl = ", ".join(fs)
        p.add("using %s_17 = decltype(upd::keyring{upd::flist<%s>, upd::%s, upd::%s});" % (k, fl, e, s), None, 17)
        p.check("same<%s_17, %s>::value" % (k, k), "deduction guide of the keyring of %s" % fl, 17)
        if (E, S) == ("LITTLE", "TWOS_COMPLEMENT"):
            p.check("same<decltype(upd::keyring{upd::flist<%s>}), %s>::value" % (fl, k), "default format of the keyring of %s" % fl, 17)
    L = "keyring %s of %d functions" % (k, n)
    index = "std::uint8_t" if w == 1 else "std::uint16_t"
    p.check("same<%s::index_t, %s>::value" % (k, index), "type of the index in " + L, since)
    p.check("%s::size == %d" % (k, n), "number of functions in " + L, since)
    p.check("%s::endianess == endianess::%s && %s::signed_mode == signed_mode::%s" % (k, E, k, S), "format of " + L, since)
    for i in which:
        r, a = sigs[i]
        h = fs[i] if templated else "unevaluated<decltype(&%s), &%s>" % (fs[i], fs[i])
        kk = p.fresh("k")
        p.add("using %s = decltype(%s{}.get(%s{}));" % (kk, k, h), None, since)
        what = "key %d of %s" % (i, L)
        p.check("%s::index == %d" % (kk, i), "index of " + what, since)
        p.check("same<%s::index_t, %s>::value" % (kk, index), "type of the index of " + what, since)
        p.check("%s::payload_length == %d" % (kk, w + sum(x.size for x, _ in a)), "length of the packets of " + what, since)
        p.check("same<%s::return_t, %s>::value" % (kk, r.read if r else "void"), "type of the response of " + what, since)
        p.check("same<%s::tuple_t, upd::tuple<endianess::%s, signed_mode::%s%s>>::value" % (kk, E, S, "".join(", " + x.read for x, _ in a)),
                "arguments of " + what, since)
        p.check("same<%s::signature_t, %s(%s)>::value" % (kk, r.read if r else "void", ", ".join(q % x.read for x, q in a)), "signature of " + what, since)
        p.check("%s::endianess == endianess::%s && %s::signed_mode == signed_mode::%s" % (kk, E, kk, S), "format of " + what, since)
        p.check("same<%s::key_t<%s>, %s>::value" % (k, h, kk), "named type of " + what, since)
        p.check("sizeof(%s) == 1" % kk, "no state in " + what, since)
        if not templated:
            p.check("same<decltype(%s{}.get<%s>()), %s>::value" % (k, fs[i], kk), "named by value: " + what, 17)
    imax = max(sum(x.size for x, _ in a) for _, a in sigs) + w
    omax = max(r.size if r else 0 for r, _ in sigs)
    for A, pol in (("ANY", "any_callback"), ("WEAK_REFERENCE", "weak_reference")):
        d = p.fresh("D")
        p.add("using %s = upd::dispatcher<%s, action_features::%s>;" % (d, k, A), None, since)
        W = "%s dispatcher of %s" % (A, L)
        p.check("%s::size == %d" % (d, n), "number of functions in the " + W, since)
        p.check("same<%s::index_t, %s>::value" % (d, index), "type of the index in the " + W, since)
        p.check("%s::endianess == endianess::%s && %s::signed_mode == signed_mode::%s" % (d, E, d, S), "format of the " + W, since)
        p.check("same<decltype(upd::make_dispatcher(%s{}, upd::policy::%s)), %s>::value" % (k, pol, d), "make_dispatcher(): " + W, since)
        p.check("same<decltype(upd::dispatcher{%s{}, upd::policy::%s}), %s>::value" % (k, pol, d), "deduction guide: " + W, 17 if since < 17 else since)
        for b, size in (("single_buffered_dispatcher", {"buffer_size": max(imax, omax)}),
                        ("double_buffered_dispatcher", {"input_buffer_size": imax, "output_buffer_size": omax})):
            for m, v in size.items():
                p.check("upd::%s<%s>::%s == %d" % (b, d, m, v), "%s of the %s" % (m, W), since)
            p.check("same<upd::%s<%s>::index_t, %s>::value" % (b, d, index), "type of the index in the %s %s" % (b, W), since)
            p.check("same<decltype(upd::make_%s(%s{}, upd::policy::%s)), upd::%s<%s>>::value" % (b, k, pol, b, d), "make_%s(): %s" % (b, W), since)
            p.check("same<decltype(upd::%s{%s{}, upd::policy::%s}), upd::%s<%s>>::value" % (b, k, pol, b, d), "deduction guide of %s: %s" % (b, W), 17)


def generate(seed, amount):
    rnd = random.Random(seed)
    p = Program()
    all_types = types()
    ints = scalars()
    for i, t in enumerate(all_types):
        tuple_of(p, [t], FORMATS[i % 4])
    tuple_of(p, [], FORMATS[0])
    tuple_of(p, [T("std::uint8_t", 1)] * 40, FORMATS[1])
    tuple_of(p, [T("std::uint64_t", 8)] * 35, FORMATS[0])
    for i in range(amount):
        tuple_of(p, [rnd.choice(all_types if rnd.random() < .6 else ints) for _ in range(rnd.randint(2, 7))], FORMATS[i % 4])
    by_value = [t for t in all_types if "[" not in t.name]
    quals = ["%s", "%s", "const %s &"]

    def sig():
        r = None if rnd.random() < .25 else rnd.choice(by_value)
        return r, [(rnd.choice(by_value if rnd.random() < .5 else ints), rnd.choice(quals)) for _ in range(rnd.randint(0, 4))]
    for i in range(amount):
        keyring_of(p, [sig() for _ in range(rnd.randint(1, 6))], FORMATS[i % 4])
    keyring_of(p, [(None, [])], FORMATS[0])
    keyring_of(p, [(None, [(T("std::array<std::uint32_t, 200>", 800), "%s")]), (T("std::array<std::uint32_t, 200>", 800), [])], FORMATS[2])
    def bytes_(n):
        return T("std::array<std::uint8_t, %d>" % n, n, array=True)
    sizes = ((300, 100), (257, 3), (255, 256), (254, 255, 1), (70000, 200), (65535, 65536), (65536, 5), (511, 513, 512))
    for i, ns in enumerate(sizes + tuple(x[::-1] for x in sizes)):
        keyring_of(p, [(None, [(bytes_(n), "%s")]) for n in ns], FORMATS[i % 4])
        keyring_of(p, [(bytes_(n), []) for n in ns], FORMATS[i % 4])
        tuple_of(p, [bytes_(n) for n in ns], FORMATS[i % 4])
    for n in (255, 256, 257, 300):
        keyring_of(p, [(T("std::int32_t", 4), [(T("std::int16_t", 2), "%s")])] * n, FORMATS[n % 4], templated=True)
    return p


def run(res, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = generate(seed, 12 if tier == "quick" else 60)
    res.methods.append("generated static assertions, evaluated by the type checkers of g++ 11 and clang 18 in C++11, 14, 17 and 20")
    with tempfile.TemporaryDirectory(prefix="c27.") as tmp:
        jobs = [(cc, std, cfg) for cc in (driver.GCC, driver.CLANG) for std in (11, 14, 17, 20)
                for cfg in (("def", "le") if tier == "thorough" else ("def",))]

        def one(j):
            cc, std, cfg = j
            src = os.path.join(tmp, "%s.%d.%s.cpp" % j)
            lab = {}
            with open(src, "w") as f:
                f.write(HEAD + "#line 1 \"constants\"\n")
                n = 0
                for text, label, since, gcc_only in p.lines:
                    if std < since or (gcc_only and cc != driver.GCC):
                        continue
                    n += 1
                    f.write(text + "\n")
                    lab[n] = label
            opts = ["-fmax-errors=0", "-ftemplate-depth=2000"] if cc == driver.GCC else ["-ferror-limit=0", "-ftemplate-depth=2000", "-fbracket-depth=4096"]
            r = driver.sh([cc, "-std=c++%d" % std, "-I", driver.INCLUDE, "-w", "-fsyntax-only", *opts, *driver.CFG[cfg], src])
            return j, lab, r
        with cf.ThreadPoolExecutor(driver.JOBS) as ex:
            results = list(ex.map(one, jobs))
    for (cc, std, cfg), lab, r in results:
        unit = "%s[c++%d,%s]" % (cc, std, cfg)
        failed = {}
        other = []
        for m in re.finditer(r"^(\S+?):(\d+)(?::\d+)?: (?:fatal )?error: (.*)$", r.stderr, re.M):
            if m.group(1) == "constants":
                failed.setdefault(int(m.group(2)), m.group(3))
            else:
                # an error within the library: charged to the line which required it
                rest = r.stderr[m.end():m.end() + 6000] + r.stderr[max(0, m.start() - 3000):m.start()]
                k = re.search(r"constants:(\d+)", rest)
                other.append((m.group(0)[:300], int(k.group(1)) if k else None))
        for what, line in other:
            failed.setdefault(line if line is not None else 0, what)
        if r.returncode and not failed:
            failed[0] = driver.first_error(r.stderr)
        unnamed = [(k, v) for k, v in failed.items() if not lab.get(k)]
        for n, label in lab.items():
            if label is None:
                continue
            if n in failed:
                res.add(unit, label, "constant", "REFUTED", failed[n], "constants:%d" % n)
            elif unnamed:
                res.add(unit, label, "constant", "UNKNOWN", "the program has errors elsewhere")
            else:
                res.add(unit, label, "constant", "PROVED")
        for n, v in unnamed:
            res.add(unit, "program", "the declarations are accepted", "REFUTED", v, "constants:%d" % n)
        res.units.append({"unit": unit, "entries": sum(1 for x in lab.values() if x)})
