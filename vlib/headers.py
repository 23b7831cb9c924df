"""C26: every public header stands alone, can be included in any order, twice and from many translation units.

Decided by the compilers (type checking of generated inclusion sequences), by the symbols of the resulting IR (what is
defined, with which linkage, what is referenced) and by the linker's symbol resolution. Nothing runs."""
import concurrent.futures as cf
import glob
import os
import re
import tempfile

import driver

PYTHON = "python.hpp"

# what a user of this header alone does with it; "%d" makes names unique
TUPLE = r'''
template<typename T> void use_%s(T &t) { t.template set<0>(1); (void)t.template get<1>(); auto v = t.template view<0, 2>(); v.template set<1>(3); }
std::uint32_t call_%s(std::uint8_t a, std::int32_t b) { return a + std::uint32_t(b); }
unsigned tuple_%s() {
  upd::tuple<upd::endianess::BIG, upd::signed_mode::SIGNED_MAGNITUDE, std::uint8_t, std::int32_t> t;
  upd::tuple<upd::endianess::LITTLE, upd::signed_mode::OFFSET_BINARY, std::uint8_t, std::int32_t> u{1, 2};
  use_%s(t); use_%s(u); t = upd::tuple<upd::endianess::LITTLE, upd::signed_mode::TWOS_COMPLEMENT, std::uint8_t, std::int32_t>{3, 4};
  auto m = upd::make_tuple(upd::little_endian, upd::ones_complement, std::uint16_t(1), std::int64_t(2), std::array<std::int16_t, 3>{});
  unsigned char raw[5];
  auto w = upd::make_view<std::uint8_t, std::int32_t>(upd::big_endian, upd::twos_complement, (unsigned char *)raw);
  w = static_cast<decltype(t) &&>(t); u = upd::tuple<upd::endianess::BIG, upd::signed_mode::SIGNED_MAGNITUDE, std::uint8_t, std::int32_t>{5, 6}; upd::set<1>(m, 5);
  return t.invoke(call_%s) + unsigned(t.size) + unsigned(upd::get<0>(m)) + *t.begin() + unsigned(t.end() - t.begin()) + t[0];
}'''
RING = r'''
#include <upd/keyring.hpp>
std::uint16_t f_%s(std::uint8_t, std::int32_t) { return 5; }
void g_%s(std::array<unsigned char, 8>) {}
constexpr auto ring_%s = upd::make_keyring(upd::make_flist(UPD_CTREF(f_%s), UPD_CTREF(g_%s)), upd::big_endian, upd::signed_magnitude);
unsigned char source_%s() { return 0; }
void sink_%s(unsigned char) {}
'''
ACTION = r'''
std::uint16_t h_%s(std::uint8_t, std::int32_t) { return 5; }
struct stateful_%s { int n; std::uint16_t operator()(std::uint8_t, std::int32_t) { return std::uint16_t(n++); } };
unsigned char asource_%s() { return 0; }
void asink_%s(unsigned char) {}
unsigned action_%s() {
  upd::action a{stateful_%s{1}, upd::little_endian, upd::twos_complement}, b, c{stateful_%s{2}, upd::big_endian, upd::offset_binary};
  upd::no_storage_action n{UPD_CTREF(h_%s), upd::little_endian, upd::twos_complement};
  unsigned char in[5] = {}, out[2];
  a(in, out); a(asource_%s, asink_%s); n(in, asink_%s); n(asource_%s, out); b = static_cast<upd::action &&>(c);
  return unsigned(a.input_size() + b.output_size() + n.input_size() + n.output_size());
}'''
KEYRING = RING + r'''
unsigned keyring_%s() {
  auto k = ring_%s.get(UPD_CTREF(f_%s));
  unsigned char packet[6] = {}, response[2] = {};
  k(1, 2).write_to(packet); k(1, 2) >> packet; k(3, 4).write_to(sink_%s); k(3, 4) >> sink_%s;
  unsigned r = k.read_from(response); r += k << response; r += k.read_from(source_%s); ring_%s.get(UPD_CTREF(g_%s)).read_from(source_%s);
  return r + unsigned(k.index) + unsigned(k.payload_length) + unsigned(ring_%s.size);
}'''
KEY = r'''
unsigned char ksource_%s() { return 0; }
void ksink_%s(unsigned char) {}
unsigned key_%s() {
  upd::key<std::uint8_t, 3, std::int32_t(std::int16_t, std::uint8_t), upd::endianess::BIG, upd::signed_mode::ONES_COMPLEMENT> k;
  unsigned char packet[4] = {};
  k(1, 2).write_to(packet); k(1, 2) >> ksink_%s;
  return unsigned(k.read_from(packet) + k.read_from(ksource_%s)) + unsigned(k.payload_length);
}'''
DISPATCHER = RING + r'''
struct dcallback_%s { int n; std::uint16_t operator()(std::uint8_t, std::int32_t) { return std::uint16_t(n++); } };
std::uint16_t dother_%s(std::uint8_t, std::int32_t) { return 6; }
unsigned dispatcher_%s() {
  auto d = upd::make_dispatcher(ring_%s, upd::policy::any_callback);
  upd::dispatcher<decltype(ring_%s), upd::action_features::WEAK_REFERENCE> w{};
  unsigned char in[9] = {}, out[8];
  unsigned r = d(in, out); r += d(source_%s, sink_%s); r += w(in, sink_%s); r += w(source_%s, out);
  d.template replace<0>(dcallback_%s{1}); w.template replace<0>(UPD_CTREF(dother_%s)); d[1](in, out); w[0](source_%s, sink_%s);
  return r + unsigned(d.get_action(source_%s) != nullptr) + unsigned(w.size);
}'''
BUFFERED = RING + r'''
struct bcallback_%s { int n; std::uint16_t operator()(std::uint8_t, std::int32_t) { return std::uint16_t(n++); } };
std::uint16_t bother_%s(std::uint8_t, std::int32_t) { return 6; }
template<typename D> unsigned feed_%s(D &d) {
  unsigned r = unsigned(d.put(1)) + unsigned(d.read_from(source_%s)) + unsigned(d << source_%s);
  d.write_to(sink_%s); d >> sink_%s; r += unsigned(d(source_%s, sink_%s)); r += d.reply(sink_%s, ring_%s.get(UPD_CTREF(g_%s)));
  d.template replace<0>(UPD_CTREF(bother_%s)); d[1](source_%s, sink_%s);
  return r + d.get() + d.is_loaded();
}
unsigned buffered_%s() {
  auto s = upd::make_single_buffered_dispatcher(ring_%s, upd::policy::any_callback);
  auto d = upd::make_double_buffered_dispatcher(ring_%s, upd::policy::weak_reference);
  s.template replace<0>(bcallback_%s{1});
  return feed_%s(s) + feed_%s(d);
}'''
SMALL = {
    "format.hpp": r'''
int format_%s() { auto e = upd::little_endian; auto s = upd::offset_binary; (void)e; (void)s; return int(upd::endianess::BIG) + int(upd::signed_mode::OFFSET_BINARY); }''',
    "policy.hpp": r'''
int policy_%s() { auto a = upd::policy::any_callback; auto w = upd::policy::weak_reference; (void)a; (void)w; return int(upd::action_features::ANY); }''',
    "type.hpp": r'''
upd::byte_t type_%s() { upd::byte_t b = 5; return b; }''',
    "typelist.hpp": r'''
void tl_%s() {}
unsigned typelist_%s() { auto l = upd::make_flist(UPD_CTREF(tl_%s)); (void)l; return 0; }''',
    "unevaluated.hpp": r'''
int ue_%s(int) { return 0; }
int unevaluated_%s() { auto u = UPD_CTREF(ue_%s); (void)u; return 0; }''',
    "upd.hpp": r'''
int upd_%s() { return upd::platform_info.endianess == upd::endianess::LITTLE && upd::platform_info.signed_mode == upd::signed_mode::TWOS_COMPLEMENT; }''',
}
STD = "#include <array>\n#include <cstdint>\n"  # what the user needs for its own declarations, after the header
PY = r'''
int pf_%s(int) { return 0; }
constexpr auto pring_%s = upd::make_keyring(upd::make_flist(UPD_CTREF(pf_%s)), upd::little_endian, upd::twos_complement);
void python_%s(pybind11::module_ &m) { upd::py::unpack_keyring(m, pring_%s); upd::py::declare_dispatcher(m, "d", pring_%s); }'''
USES = dict(SMALL, **{"tuple.hpp": TUPLE, "action.hpp": ACTION, "key.hpp": KEY, "keyring.hpp": KEYRING, "dispatcher.hpp": DISPATCHER,
                      "buffered_dispatcher.hpp": BUFFERED, PYTHON: "\n#include <upd/keyring.hpp>\n" + PY})
# headers which a user of the constructs above includes beside: none; their own header suffices


def uses(h, tag):
    return STD + USES.get(h, "").replace("%s", tag) + "\n"


def python_flags():
    """Where pybind11 and Python are, if they are."""
    if not os.path.exists("/usr/include/pybind11/pybind11.h"):
        return None
    for d in sorted(glob.glob("/usr/include/python3.*"), reverse=True):
        if os.path.exists(os.path.join(d, "Python.h")):
            return ["-isystem", d]
    return None


def public_headers():
    return sorted(os.path.relpath(p, os.path.join(driver.INCLUDE, "upd")) for p in glob.glob(os.path.join(driver.INCLUDE, "upd", "*.hpp")))


DEF = re.compile(r"^(?:define|declare) ")


def symbols(ir):
    """name -> (linkage, constant, kind, text) of what the module defines; set of what it refers to only."""
    out, decl = {}, set()
    strings = {}
    lines = ir.splitlines()
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'^@("[^"]*"|[\w.$]+) = (.*)$', l)
        if m:
            name = m.group(1).strip('"')
            rest = m.group(2)
            if re.match(r"(?:external|extern_weak)\b", rest):
                decl.add(name)
            else:
                link = re.match(r"((?:private|internal|linkonce_odr|linkonce|weak_odr|weak|common|appending|available_externally|dso_local|hidden|protected|unnamed_addr|local_unnamed_addr|thread_local(?:\(\w+\))?|comdat|\s)*)", rest).group(1)
                const = re.search(r"\b(constant|global)\b", rest)
                alias = re.search(r"\balias\b", rest) and not const
                kind = "alias" if alias else "variable"
                out[name] = (link, bool(const and const.group(1) == "constant"), kind, l)
                if "private" in link:
                    strings[name] = re.sub(r"^.*?(constant|global) ", "", rest)
        elif l.startswith("define "):
            m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
            name = m.group(1).strip('"')
            body = [l]
            while lines[i] != "}":
                i += 1
                body.append(lines[i])
            head = l[:m.start()]
            out[name] = (head, True, "function", "\n".join(body))
        elif l.startswith("declare "):
            decl.add(re.search(r'@("[^"]*"|[\w.$]+)\(', l).group(1).strip('"'))
        i += 1
    return out, decl, strings


def strong(head):
    return not re.search(r"\b(private|internal|linkonce_odr|linkonce|weak_odr|weak|common|appending|available_externally)\b", head)


def canonical(text, strings):
    text = re.sub(r", ![\w.]+ ![0-9]+", "", text)
    text = re.sub(r"(, )?!\w+ ![0-9]+", "", text)
    text = re.sub(r"\s#\d+", "", text)
    text = re.sub(r'@("[^"]*"|[\w.$]+)', lambda m: strings.get(m.group(1).strip('"'), m.group(0)), text)
    text = re.sub(r'(%"?(?:class|struct|union)\.[^\s,*)\]}"]*?)(?:\.\d+)?("?)(?=[\s,*)\]}])', r"\1\2", text)
    text = re.sub(r"; preds = .*", "", text)
    return text


def demangle(names):
    r = driver.subprocess.run(["c++filt"], input="\n".join(names) + "\n", text=True, stdout=driver.subprocess.PIPE)
    return dict(zip(names, r.stdout.splitlines()))


def run(res, tier):
    hs = public_headers()
    py = python_flags()
    plain = [h for h in hs if h != PYTHON]
    res.methods.append("generated inclusion sequences decided by the type checkers of g++ 11 and clang 18; linkage and identity of the definitions read from the IR; symbol resolution by the linker")
    compilers = (driver.GCC, driver.CLANG)
    stds = (11, 14, 17, 20)
    cfgs = ("def", "le") if tier == "thorough" else ("def",)

    def inc(seq):
        return "".join("#include <upd/%s>\n" % h for h in seq)
    jobs = []  # label, headers, source, cc, std, cfg
    seqs = []
    for h in hs:
        seqs.append(("%s alone" % h, [h], inc([h]), "stands alone"))
        seqs.append(("%s twice" % h, [h], inc([h, h]), "can be included twice"))
        seqs.append(("%s used alone" % h, [h], inc([h]) + uses(h, "a"), "is complete: what it declares can be used without another header"))
    rest = lambda h, rev: sorted([x for x in plain if x != h], reverse=rev)
    for h in plain:
        seqs.append(("%s then the others" % h, [h], inc([h] + rest(h, False)) + uses(h, "a"), "can be included in any order"))
        seqs.append(("the others then %s" % h, [h], inc(rest(h, True) + [h]) + uses(h, "a"), "can be included in any order"))
    pairs = [(a, b) for a in plain for b in plain if a != b]
    pseqs = [("%s then %s" % (a, b), [a, b], inc([a, b]) + uses(a, "a") + uses(b, "b"), "can be included in any order") for a, b in pairs]
    if PYTHON in hs:
        for h in plain:
            pseqs.append(("%s then %s" % (PYTHON, h), [PYTHON], inc([PYTHON, h]), "can be included in any order"))
            pseqs.append(("%s then %s" % (h, PYTHON), [PYTHON], inc([h, PYTHON]), "can be included in any order"))
    for cc in compilers:
        for cfg in cfgs:
            for std in stds:
                for s in seqs:
                    jobs.append((*s, cc, std, cfg))
                if tier == "thorough" or (cc == driver.CLANG and std in (11, 17)):
                    for s in pseqs:
                        if PYTHON in s[1] and tier != "thorough":
                            continue
                        jobs.append((*s, cc, std, cfg))
    jobs = [j for j in jobs if not (PYTHON in j[1] and (py is None or j[5] < 17))]
    if PYTHON in hs and py is None:
        res.skipped.append({"unit": PYTHON, "why": "pybind11 or Python.h is not installed"})

    with tempfile.TemporaryDirectory(prefix="c26.") as tmp:
        def flags(j, name):
            return ["-std=c++%d" % j[5], "-I", driver.INCLUDE, "-w", *driver.CFG[j[6]], *(py if PYTHON in j[1] else [])]

        def check(ij):
            i, j = ij
            src = os.path.join(tmp, "s%d.cpp" % i)
            with open(src, "w") as f:
                f.write(j[2])
            r = driver.sh([j[4], *flags(j, None), "-fsyntax-only", src])
            os.remove(src)
            return j, r
        with cf.ThreadPoolExecutor(driver.JOBS) as ex:
            out = list(ex.map(check, enumerate(jobs)))
        count = {}
        baseline = {}
        for j, r in out:
            unit = "%s[c++%d,%s]" % (j[4], j[5], j[6])
            count[unit] = count.get(unit, 0) + 1
            if r.returncode:
                res.add(unit, j[0], j[3], "REFUTED", driver.first_error(r.stderr), where(r.stderr) or "include/upd/" + j[1][0])
            else:
                res.add(unit, j[0], j[3], "PROVED")
        link(res, tier, hs, plain, py, tmp, inc, rest)
    res.units = [{"unit": u, "entries": n} for u, n in sorted(count.items())]


def linker_error(err):
    return "; ".join(sorted(set(re.findall(r"(?:multiple definition of|undefined reference to) .*", err)))[:3])


def where(err):
    m = re.search(r"(include/upd/\S+?:\d+)", err)
    return m.group(1) if m else ""


def link(res, tier, hs, plain, py, tmp, inc, rest):
    """Three translation units for each header, which include it alone, first and last, and use it."""
    todo = []
    cfgs = ("def", "le") if tier == "thorough" else ("def",)
    for cfg in cfgs:
        for std in (11, 14, 17, 20):
            for h in plain:
                todo.append((std, cfg, h, "alone", inc([h])))
                todo.append((std, cfg, h, "first", inc([h] + rest(h, False))))
                todo.append((std, cfg, h, "last", inc(rest(h, True) + [h])))
            todo.append((std, cfg, "*", "bare", inc(plain)))
            if PYTHON in hs and py is not None and std >= 17:
                todo.append((std, cfg, PYTHON, "alone", inc([PYTHON])))
                todo.append((std, cfg, PYTHON, "last", inc(rest(PYTHON, True) + [PYTHON])))

    def build(t):
        std, cfg, h, kind, text = t
        base = os.path.join(tmp, "l%d.%s.%s.%s" % (std, cfg, h.replace("*", "all"), kind))
        src = base + ".cpp"
        # the functions of the user are the same in all units but for the tag: keep them internal
        with open(src, "w") as f:
            f.write(text)
            if kind != "bare":
                f.write(uses(h, "u%s_%s" % (kind, h.replace(".", "_"))))
        fl = ["-std=c++%d" % std, "-I", driver.INCLUDE, "-w", *driver.CFG[cfg], *(py if h == PYTHON else []), "-fPIC"]
        ir = obj = None
        # the same code with the same user-side names in the three units: what differs is the order of inclusion alone
        same = base + ".same.cpp"
        with open(same, "w") as f:
            f.write(text)
            if kind != "bare":
                f.write(uses(h, "same"))
        r = driver.sh([driver.CLANG, *fl, "-O0", "-fignore-exceptions", "-S", "-emit-llvm", "-fno-discard-value-names", same, "-o", base + ".ll"])
        if r.returncode == 0:
            with open(base + ".ll") as f:
                ir = symbols(f.read())
            os.remove(base + ".ll")
        r = driver.sh([driver.CLANG, *fl, "-O0", "-c", src, "-o", base + ".o"])
        if r.returncode == 0:
            obj = base + ".o"
        return t, ir, obj
    with cf.ThreadPoolExecutor(driver.JOBS) as ex:
        built = list(ex.map(build, todo))
        names = sorted({n for _, ir, _ in built if ir for n in ir[0]})
        human = demangle(names)
        defs = {}
        for (std, cfg, h, kind, _), ir, obj in built:
            unit = "clang++[c++%d,%s]" % (std, cfg)
            if ir is None:
                continue  # reported by the type checker already
            syms, decl, strings = ir
            entry = "%s %s" % (h, kind)
            # what the user's own snippet defines
            own = re.compile(r"\b\w+_same\b")
            bad = [n for n, (link_, const, k, _) in syms.items()
                   if strong(link_) and not own.search(human[n].split("(")[0]) and not n.startswith(("llvm.", "__"))]
            res.add(unit, entry, "nothing is defined with external, non-inline linkage", "REFUTED" if bad else "PROVED",
                    "defined in every unit which includes the header: " + ", ".join(human[n] for n in bad[:5]), "include/upd/" + h)
            local = [n for n, (link_, const, k, t) in syms.items()
                     if k == "variable" and re.search(r"\binternal\b", link_) and not const and not own.search(human[n])
                     and not re.match(r"(std::__ioinit|__dso_handle|guard variable)", human[n]) and "std::" != human[n][:5]
                     and "pybind11::" not in human[n].split("(")[0]]
            res.add(unit, entry, "no variable has a copy of its own in each unit", "REFUTED" if local else "PROVED",
                    "internal and not constant: " + ", ".join(human[n] for n in local[:5]), "include/upd/" + h)
            undefined = [n for n in decl if re.search(r"^(?:\w+\s)*?&?\(?upd::", demangle_one(n)) ]
            res.add(unit, entry, "no entity of the library is left undefined", "REFUTED" if undefined else "PROVED",
                    "referred to and never defined: " + ", ".join(demangle_one(n) for n in undefined[:5]), "include/upd/" + h)
            for n, (link_, const, k, text) in syms.items():
                if "linkonce_odr" in link_ or "weak_odr" in link_:
                    defs.setdefault((std, cfg, n), {}).setdefault(canonical(text, strings), []).append("%s (%s)" % (h, kind))
        differing = {}
        for (std, cfg, n), bodies in defs.items():
            if len(bodies) > 1:
                differing.setdefault((std, cfg), []).append((n, [v[0] for v in bodies.values()]))
        for std, cfg in sorted({(k[0], k[1]) for k in defs}):
            unit = "clang++[c++%d,%s]" % (std, cfg)
            bad = differing.get((std, cfg), [])
            total = sum(1 for k in defs if k[:2] == (std, cfg))
            for n, kinds in bad[:20]:
                res.add(unit, human[n], "defined identically in all units", "REFUTED", "definitions differ between units including " + " and ".join(kinds[:3]), "include/upd")
            for _ in range(total - len(bad)):
                res.add(unit, "definitions", "defined identically in all units", "PROVED")
        # all units of a standard together
        for cfg in cfgs:
            for std in (11, 14, 17, 20):
                unit = "clang++[c++%d,%s]" % (std, cfg)
                group = [(t, o) for t, _, o in built if t[0] == std and t[1] == cfg and t[2] != PYTHON]
                if any(o is None for _, o in group):
                    continue
                main = os.path.join(tmp, "main.%d.%s.cpp" % (std, cfg))
                with open(main, "w") as f:
                    f.write("int main() {}\n")
                r = driver.sh([driver.CLANG, main, *[o for _, o in group], "-o", main + ".exe"])
                res.add(unit, "program of %d units" % len(group), "links", "REFUTED" if r.returncode else "PROVED", linker_error(r.stderr), "include/upd")


_demangled = {}


def demangle_one(n):
    if n not in _demangled:
        _demangled.update(demangle([n]))
    return _demangled[n]
