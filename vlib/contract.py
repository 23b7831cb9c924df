"""C19: programs which break the contract are rejected by the compilers, their corrected counterparts are accepted.

Each witness is a pair of programs differing by the violation alone: the type checker decides both (-fsyntax-only, nothing
runs). A rejected counterpart shows that the rejection of the first would mean nothing."""
import concurrent.futures as cf
import os
import re
import tempfile

import driver

PRE = r'''
#include <array>
#include <cstdint>
#include <list>
#include <memory>
#include <vector>
#include <upd/action.hpp>
#include <upd/buffered_dispatcher.hpp>
#include <upd/dispatcher.hpp>
#include <upd/format.hpp>
#include <upd/key.hpp>
#include <upd/keyring.hpp>
#include <upd/policy.hpp>
#include <upd/tuple.hpp>
#include <upd/typelist.hpp>
#include <upd/unevaluated.hpp>
using namespace upd;
std::uint16_t f(std::uint8_t, std::int32_t);
std::uint16_t f_bis(std::uint8_t, std::int32_t);
void g(std::array<byte_t, 8>);
std::uint32_t f_result(std::uint8_t, std::int32_t);
std::uint16_t f_argument(std::uint8_t, std::uint32_t);
std::uint16_t f_fewer(std::uint8_t);
std::uint16_t f_more(std::uint8_t, std::int32_t, std::int32_t);
int variable;
struct opaque { int a; };
struct storing { int state; std::uint16_t operator()(std::uint8_t, std::int32_t) { return std::uint16_t(state); } };
struct storing_other { int state; std::uint16_t operator()(std::uint8_t, std::uint8_t) { return std::uint16_t(state); } };
#define STORING(N, R, ...) struct storing_##N { int state; R operator()(__VA_ARGS__) { return R(state); } };
STORING(result, std::uint32_t, std::uint8_t, std::int32_t)
STORING(sign, std::int16_t, std::uint8_t, std::int32_t)
STORING(void, void, std::uint8_t, std::int32_t)
STORING(argument, std::uint16_t, std::uint8_t, std::uint32_t)
STORING(swapped, std::uint16_t, std::int32_t, std::uint8_t)
STORING(split, std::uint16_t, std::uint8_t, std::int16_t, std::int16_t)
STORING(bytes, std::uint16_t, std::array<std::uint8_t, 5>)
STORING(fewer, std::uint16_t, std::uint8_t)
STORING(more, std::uint16_t, std::uint8_t, std::int32_t, std::int32_t)
STORING(none, std::uint16_t, void)
std::int16_t f_sign(std::uint8_t, std::int32_t);
void f_void(std::uint8_t, std::int32_t);
std::uint16_t f_swapped(std::int32_t, std::uint8_t);
std::uint16_t f_split(std::uint8_t, std::int16_t, std::int16_t);
std::uint16_t f_bytes(std::array<std::uint8_t, 5>);
std::uint16_t f_none();
struct extended { std::int16_t a; };
enum color : std::uint8_t { RED };
enum class strong : std::uint8_t { RED };
union either { std::uint8_t a; std::uint16_t b; };
template<> struct upd_extension<extended> {
  template<typename View> static void serialize(const extended &x, View &v) { v.template set<0>(x.a); }
  static extended unserialize(std::int16_t a) { return extended{a}; }
};
constexpr auto E = endianess::LITTLE; constexpr auto S = signed_mode::TWOS_COMPLEMENT;
using ring = decltype(make_keyring(make_flist(UPD_CTREF(f), UPD_CTREF(g)), little_endian, twos_complement));
using f_key = ring::key_t<unevaluated<decltype(&f), &f>>;
using g_key = ring::key_t<unevaluated<decltype(&g), &g>>;
using any_t = dispatcher<ring, action_features::ANY>;
using weak_t = dispatcher<ring, action_features::WEAK_REFERENCE>;
using single_t = single_buffered_dispatcher<any_t>;
using double_t = double_buffered_dispatcher<weak_t>;
byte_t buffer[16];
byte_t source();
void sink(byte_t);
struct not_a_source { void operator()(); };
struct not_a_sink { byte_t operator()(); };
'''

# name, text, what breaks the contract, what does not, first standard (11 by default)
W = []


def w(name, text, bad, good, since=11):
    for i, b in enumerate(bad if isinstance(bad, list) else [bad]):
        W.append((name if not isinstance(bad, list) or len(bad) == 1 else "%s: %s" % (name, b), text, b, good, since))


UNSERIALIZABLE = ["float", "double", "opaque", "std::uint8_t *", "void (*)()", "std::vector<byte_t>", "either", "std::unique_ptr<int>", "std::nullptr_t",
                  "strong", "color", "float[2]", "opaque[2]", "std::array<double, 2>"]
w("tuple of an unserializable type", "tuple<E, S, std::uint8_t, %s> t;", UNSERIALIZABLE, "extended")
w("view of an unserializable type", "tuple_view<byte_t *, E, S, std::uint8_t, %s> v{buffer};", UNSERIALIZABLE, "extended[2]")
w("make_tuple() with an unserializable value", "void h(%s x) { (void)upd::make_tuple(little_endian, twos_complement, x); }",
  ["double", "opaque", "const char *"], "std::int64_t")
CVREF = ["const std::uint16_t", "volatile std::uint16_t", "const volatile std::uint16_t", "std::uint16_t &", "const std::uint16_t &", "std::uint16_t &&"]
w("tuple of a qualified type", "tuple<E, S, %s, std::uint8_t> *p; auto n = sizeof *p;", CVREF, "std::uint16_t")
w("view of a qualified type", "tuple_view<byte_t *, E, S, %s> v{buffer};", CVREF, "std::uint16_t")

w("key of something which is not callable", "key<std::uint8_t, 0, %s, E, S> k; auto n = k.payload_length;", ["opaque", "int"], "storing")
w("action of something which is not callable", "auto h() -> void { action a{%s, little_endian, twos_complement}; }", ["5", "opaque{}", "variable", "\"text\""], "storing{1}")
w("action returning an unserializable value", "double h1(std::uint8_t); std::uint16_t h2(std::uint8_t); action a{%s, little_endian, twos_complement};", "h1", "h2")
w("action taking an unserializable value", "void h1(opaque); void h2(extended); action a{%s, little_endian, twos_complement};", "h1", "h2")
w("stateless action of an unserializable value", "void h1(opaque); void h2(extended); no_storage_action a{UPD_CTREF(%s), little_endian, twos_complement};", "h1", "h2")
w("list of something which is not callable", "auto l = make_flist(UPD_CTREF(f), UPD_CTREF(%s));", "variable", "f_bis")
w("list of something which is not callable (C++17)", "auto l = flist<f, %s>;", "variable", "f_bis", 17)
w("keyring of something which is not callable", "auto k = make_keyring(make_flist(UPD_CTREF(%s)), little_endian, twos_complement);", "variable", "f_bis")
w("hook which is not callable", "void h() { f_key k; auto a = k.with_hook(%s); }", ["5", "opaque{}", "variable"], "[](std::uint16_t) {}")

for D in ("any_t", "weak_t", "single_t", "double_t"):
    w("replacing beyond the keyring in %s" % D, "void h(%s &d) { d.replace<%%s>(UPD_CTREF(f_bis)); }" % D, ["2", "255"], "0")
    w("replacing by another signature in %s" % D, "void h(%s &d) { d.replace<0>(UPD_CTREF(%%s)); }" % D,
      ["f_result", "f_sign", "f_void", "f_argument", "f_swapped", "f_split", "f_bytes", "f_fewer", "f_more", "f_none", "g"], "f_bis")
    w("replacing by something which is not callable in %s" % D, "void h(%s &d) { d.replace<0>(UPD_CTREF(%%s)); }" % D, "variable", "f_bis")
for D in ("any_t", "single_t"):
    w("replacing beyond the keyring by an object in %s" % D, "void h(%s &d) { d.replace<%%s>(storing{1}); }" % D, ["2", "200"], "0")
    w("replacing by an object of another signature in %s" % D, "void h(%s &d) { d.replace<0>(%%s{1}); }" % D,
      ["storing_" + x for x in ("other", "result", "sign", "void", "argument", "swapped", "split", "bytes", "fewer", "more", "none")], "storing")
    w("replacing by a function of another signature in %s" % D, "void h(%s &d) { d.replace<0>(%%s); }" % D,
      ["f_result", "f_sign", "f_argument", "f_swapped", "f_split", "f_bytes", "f_none"], "f_bis")
    w("replacing by a value in %s" % D, "void h(%s &d) { d.replace<0>(%%s); }" % D, ["5", "opaque{}"], "storing{1}")
for D, G in (("weak_t", "any_t"), ("double_t", "single_t")):
    w("storing a callback in %s" % D, "void h(%s &d) { d.replace<0>(storing{1}); }", D, G)
    w("storing a lambda in %s" % D, "void h(%s &d) { int n = 0; d.replace<0>([n](std::uint8_t, std::int32_t) -> std::uint16_t { return std::uint16_t(n); }); }", D, G)

NOT_SOURCE = ["5", "opaque{}", "variable", "sink", "not_a_source{}"]
w("reading a response from something else than a source", "void h() { f_key k; k.read_from(%s); }", NOT_SOURCE, "source")
w("reading a response with << from something else than a source", "void h() { f_key k; k << %s; }", NOT_SOURCE, "source")
w("receiving from something else than a source", "void h(double_t &d) { d.read_from(%s); }", NOT_SOURCE, "source")
w("receiving with << from something else than a source", "void h(single_t &d) { d << %s; }", NOT_SOURCE, "source")
w("dispatching from something else than a source", "void h(any_t &d) { d(%s, buffer); }", NOT_SOURCE, "source")
w("dispatching from something else than a source, to a sink", "void h(weak_t &d) { d(%s, sink); }", ["5", "opaque{}", "not_a_source{}"], "source")
w("invoking an action on something else than a source", "void h(action &a) { a(%s, sink); }", ["5", "opaque{}", "not_a_source{}"], "source")
w("invoking a stateless action on something else than a source", "void h(no_storage_action &a) { a(%s, sink); }", ["5", "opaque{}", "not_a_source{}"], "source")
w("getting an action from something else than a source", "void h(weak_t &d) { d.get_action(%s); }", ["5", "not_a_source{}"], "source")
w("processing from something else than a source", "void h(double_t &d) { d(%s, sink); }", ["5", "not_a_source{}"], "source")
NOT_SINK = ["5", "opaque{}", "variable", "not_a_source{}"]
w("writing a packet to something else than a sink", "void h() { f_key k; k(1, 2).write_to(%s); }", NOT_SINK + ["(const byte_t *)buffer"], "sink")
w("writing a packet with >> to something else than a sink", "void h() { f_key k; k(1, 2) >> %s; }", NOT_SINK + ["(const byte_t *)buffer"], "sink")
w("writing a response to something else than a sink", "void h(double_t &d) { d.write_to(%s); }", NOT_SINK + ["(const byte_t *)buffer"], "sink")
w("writing a response with >> to something else than a sink", "void h(single_t &d) { d >> %s; }", NOT_SINK, "sink")
w("dispatching to something else than a sink", "void h(any_t &d) { d(source, %s); }", NOT_SINK, "sink")
w("invoking an action to something else than a sink", "void h(action &a) { a(source, %s); }", NOT_SINK, "sink")
w("invoking a stateless action to something else than a sink", "void h(no_storage_action &a) { a(source, %s); }", NOT_SINK, "sink")
w("processing to something else than a sink", "void h(single_t &d) { d(source, %s); }", NOT_SINK, "sink")

w("replying with something which is not a key", "void h(single_t &d) { d.reply(sink, %s); }", ["5", "opaque{}", "f"], "g_key{}")
w("replying to something which is not a sink", "void h(double_t &d) { d.reply(%s, g_key{}); }", ["5", "opaque{}"], "sink")
w("dispatcher of something which is not a keyring", "void h() { make_dispatcher(%s, policy::any_callback); }", ["5", "opaque{}", "f_key{}"], "ring{}")
w("type of dispatcher of something which is not a keyring", "dispatcher<%s, action_features::ANY> *d; auto n = sizeof *d;", ["int", "f_key", "opaque"], "ring")
w("buffered dispatcher of something which is not a keyring", "void h() { make_double_buffered_dispatcher(%s, policy::any_callback); }", ["5", "f_key{}"], "ring{}")
w("dispatcher with something which is not a policy", "void h() { make_dispatcher(ring{}, %s); }", ["5", "little_endian"], "policy::any_callback")
w("keyring in something which is not a format", "void h() { (void)make_keyring(make_flist(UPD_CTREF(f)), %s); }", ["twos_complement, twos_complement", "little_endian, little_endian", "1, 2"],
  "little_endian, twos_complement")
w("key of a function which is not in the keyring", "auto k = ring{}.get(UPD_CTREF(%s)); auto n = k.payload_length;", ["f_bis", "f_more"], "f")
w("calling a key with the wrong number of arguments", "void h() { f_key k; k(%s).write_to(buffer); }", ["", "1", "1, 2, 3"], "1, 2")
w("calling a key with arguments of other types", "void h() { f_key k; k(1, %s).write_to(buffer); }", ["opaque{}", "\"text\"", "buffer"], "2")
w("getting an element out of bounds", "auto h(tuple<E, S, std::uint8_t, std::uint16_t> &t) -> void { (void)t.get<%s>(); }", ["2", "100"], "1")
w("setting an element out of bounds", "void h(tuple<E, S, std::uint8_t, std::uint16_t> &t) { t.set<%s>(0); }", ["2", "100"], "1")
w("viewing elements out of bounds", "void h(tuple<E, S, std::uint8_t, std::uint16_t> &t) { (void)t.view<1, %s>(); }", ["2", "100"], "1")
w("invoking with another number of arguments", "std::uint16_t h(tuple<E, S, %s> &t) { return t.invoke(f); }", ["std::uint8_t", "std::uint8_t, std::int32_t, std::uint8_t"], "std::uint8_t, std::int32_t")
w("writing to a constant tuple", "void h(%s tuple<E, S, std::uint8_t> &t) { t.set<0>(1); }", "const", "")


def sources(tmp):
    out = []
    for i, (name, text, bad, good, since) in enumerate(W):
        b = os.path.join(tmp, "b%d.cpp" % i)
        with open(b, "w") as f:
            f.write(PRE + "#line 1 \"witness\"\n" + text.replace("%s", bad) + "\n")
        out.append((name, since, b, text.replace("%s", bad), text.replace("%s", good)))
    return out


def flags(std):
    return ["-std=c++%d" % std, "-I", driver.INCLUDE, "-fsyntax-only", "-w"]


def run(res, tier):
    stds = (11, 14, 17, 20)
    compilers = (driver.GCC, driver.CLANG)
    cfgs = ("def", "le") if tier == "thorough" else ("def",)
    res.methods.append("type checking of pairs of programs by g++ 11 and clang 18 (templates instantiated, static assertions evaluated)")
    with tempfile.TemporaryDirectory(prefix="c19.") as tmp:
        progs = sources(tmp)
        goods = sorted({(g, since) for _, since, _, _, g in progs})
        jobs = []
        for cc in compilers:
            for std in stds:
                for cfg in cfgs:
                    for name, since, path, text, good in progs:
                        if std >= since:
                            jobs.append(("bad", cc, std, cfg, name, path, text, good))
                    for i, (g, since) in enumerate(goods):
                        if std >= since:
                            jobs.append(("good", cc, std, cfg, None, os.path.join(tmp, "g%d.cpp" % i), g, g))
        for i, (g, since) in enumerate(goods):
            with open(os.path.join(tmp, "g%d.cpp" % i), "w") as f:
                f.write(PRE + "#line 1 \"witness\"\n" + g + "\n")

        # precompiled preamble: the headers are parsed once for each configuration
        def pch(key):
            cc, std, cfg = key
            d = os.path.join(tmp, "%s.%d.%s" % (cc, std, cfg))
            os.makedirs(d)
            h = os.path.join(d, "pre.hpp")
            with open(h, "w") as f:
                f.write(PRE)
            o = h + (".gch" if cc == driver.GCC else ".pch")
            r = driver.sh([cc, "-std=c++%d" % std, "-I", driver.INCLUDE, "-w", *driver.CFG[cfg], "-x", "c++-header", h, "-o", o])
            return key, (h, o, r)
        out = {}
        with cf.ThreadPoolExecutor(driver.JOBS) as ex:
            pchs = dict(ex.map(pch, sorted({(j[1], j[2], j[3]) for j in jobs})))

            def check(j):
                kind, cc, std, cfg, name, path, text, good = j
                h, o, r = pchs[cc, std, cfg]
                if r.returncode:
                    return j, r
                body = path + ".%s.%d.%s.cpp" % (cc, std, cfg)
                with open(body, "w") as f:
                    f.write("#line 1 \"witness\"\n" + text + "\n")
                inc = ["-include", h] if cc == driver.GCC else ["-include-pch", o]
                r = driver.sh([cc, *flags(std), *driver.CFG[cfg], *inc, body])
                os.remove(body)
                return j, r
            for j, r in ex.map(check, jobs):
                out[j] = r
    good_ok = {}
    for j, r in out.items():
        kind, cc, std, cfg, name, path, text, good = j
        if kind == "good":
            good_ok[cc, std, cfg, text] = r.returncode == 0
            unit = "%s[c++%d,%s]" % (cc, std, cfg)
            if r.returncode:
                res.add(unit, text, "correct program is accepted", "REFUTED", driver.first_error(r.stderr), where(r.stderr))
            else:
                res.add(unit, text, "correct program is accepted", "PROVED")
    for j, r in out.items():
        kind, cc, std, cfg, name, path, text, good = j
        if kind != "bad":
            continue
        unit = "%s[c++%d,%s]" % (cc, std, cfg)
        if not good_ok.get((cc, std, cfg, good)):
            res.add(unit, name, "rejected", "UNKNOWN", "the corrected counterpart is rejected as well")
        elif r.returncode == 0:
            res.add(unit, name, "rejected", "REFUTED", "the compiler accepts: " + text, "include/upd")
        elif "internal compiler error" in r.stderr or r.returncode < 0:
            res.add(unit, name, "rejected", "UNKNOWN", "the compiler crashed")
        else:
            res.add(unit, name, "rejected", "PROVED", where(r.stderr))
    res.units = [{"unit": "%s[c++%d,%s]" % (cc, std, cfg), "entries": sum(1 for j in out if j[1:4] == (cc, std, cfg))}
                 for cc in compilers for std in stds for cfg in cfgs]


def where(err):
    m = re.search(r"(\S*include/upd/\S+?:\d+)", err)
    return m.group(1) if m else ""
