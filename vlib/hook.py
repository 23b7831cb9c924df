"""C32: the import hook, by abstract interpretation of its source on every path.

cppimport, the file system and the import system are modelled by their contracts: each lookup, build and load may succeed,
fail with an import error or with another error, and imports other modules meanwhile."""
import os
import pathlib

import client
import driver
import pyai
from pyai import Exc, Ext, Instance, Interp, Native, Raised, Sym, Unsupported

MOD = "unpadded.hook"
FILE = "/site/unpadded/hook.py"
INCLUDE = "/site/unpadded/include"


class World:
    """What surrounds the hook during one path."""

    def __init__(self, interp, fail=None, exists=True, nested=True, mode="import"):
        self.i = interp
        self.log = []
        self.fail = fail or {}  # stage -> type of the exception raised there, or function
        self.exists = {}  # path -> bool
        self.default_exists = exists
        self.nested = nested
        self.hook = None
        self.depth = 0
        self.nested_results = []
        self.meta_path = []
        self.source, self.ext = {}, {}
        self.data = {}
        self.modules = {}
        self.stats = {}

    def stage(self, name, *what):
        self.log.append((name,) + what)
        if self.nested and self.hook is not None and self.depth == 0:
            # the import system looks for other modules, and for this one, meanwhile
            self.depth = 1
            try:
                for n in ("other", "json.decoder"):
                    lo = len(self.log)
                    try:
                        r = ("returned", self.i.call(self.i.getattr(self.hook, "find_spec"), [n, None], {}))
                    except Raised as e:
                        r = ("raised", e.value)
                    self.nested_results.append((name, r, self.log[lo:]))
            finally:
                self.depth = 0
        f = self.fail.get(name)
        if f:
            raise Raised(Exc(f, ("from " + name,)))

    def externals(self):
        def find(i, a, k):
            a = list(a)
            name = a[0] if a else k.get("modulename")
            opt = a[1] if len(a) > 1 else k.get("opt_in", False)
            self.stage("find", name, opt)
            key = id(name) if isinstance(name, Sym) else name
            if key not in self.source:
                self.source[key] = Sym("source of %s" % i.show(name), "str", True)
            return self.source[key]

        def setup(i, a, k):
            name = a[0] if a else k.get("fullname")
            path = a[1] if len(a) > 1 else k.get("filepath")
            self.stage("setup", name, path)
            ext = Sym("binary of %s" % i.show(name), "str", True)
            d = {"fullname": name, "filepath": path, "filedirname": Sym("dir", "str", True), "filebasename": Sym("base", "str", True), "ext_name": Sym("ext_name", "str", True), "ext_path": ext}
            self.data[id(d)] = d
            self.ext[id(d)] = ext
            return d

        def build(i, a, k):
            path = a[0] if a else k.get("filepath")
            d = a[1] if len(a) > 1 else k.get("module_data")
            self.stage("build", path, d, dict(d) if isinstance(d, dict) else None)
            self.stats.clear()
            return None

        def load(i, a, k):
            d = a[0] if a else k.get("module_data")
            self.stage("load", d)
            if isinstance(d, dict):
                m = Sym("module", "module", True)
                d["module"] = m
                self.modules[id(d)] = m
            return None

        def exists(i, a, k):
            p = pyai.path_arg(a[0])
            if isinstance(p, Sym) and p.type == "pathlib.Path":
                p = p.attrs["path"][0]
            key = id(p) if isinstance(p, Sym) else p
            self.log.append(("exists", p))
            return self.exists.setdefault(key, self.default_exists)

        def remove(i, a, k):
            p = pyai.path_arg(a[0])
            if isinstance(p, Sym) and p.type == "pathlib.Path":
                p = p.attrs["path"][0]
            key = id(p) if isinstance(p, Sym) else p
            there = self.exists.setdefault(key, self.default_exists)
            if not there:
                if k.get("missing_ok"):
                    return None
                raise Raised(Exc("FileNotFoundError", (p,)))
            self.log.append(("remove", p))
            f = self.fail.get("remove")
            if f:
                raise Raised(Exc(f, ("from remove",)))
            self.exists[key] = False
            self.stats.clear()
            return None

        def file_of(p):
            p = pyai.path_arg(p)
            if isinstance(p, Sym) and p.type == "pathlib.Path":
                p = p.attrs["path"][0]
            while isinstance(p, Sym) and p.attrs.get("term", ("",))[0] in ("abspath", "normpath"):
                p = p.attrs["term"][1][0]
            return p

        def stat(i, p):
            """what the file system tells about a file: nothing is known of it"""
            p = file_of(p)
            key = id(p) if isinstance(p, Sym) else p
            known = any(p is x for x in self.source.values())
            if not known and not self.exists.setdefault(key, self.default_exists):
                raise Raised(Exc("FileNotFoundError", (p,)))
            if key not in self.stats:
                self.stats[key] = {n: Sym("%s of %s" % (n, i.show(p)), "float", True, free=True) for n in ("st_mtime", "st_ctime", "st_atime", "st_size", "st_mtime_ns", "st_ctime_ns")}
                self.stats[key]["file"] = p
            return self.stats[key]

        def stat_result(i, a, k):
            return i.namespace({n: v for n, v in stat(i, a[0]).items() if n != "file"})

        def setup_pybind11(i, a, k):
            cfg = a[0]
            self.log.append(("setup_pybind11", cfg))
            i.call(i.getattr(i.getitem(cfg, "include_dirs"), "extend"), [[Sym("pybind11 include", "str", True)]], {})
            i.setitem(cfg, "extra_compile_args", ["-std=c++11", "-fvisibility=hidden"] + list(i.getitem(cfg, "extra_compile_args")))
            return None

        def path_method(i, a, k):
            raise Unsupported("path method")
        out = {"cppimport.find.find_module_cpppath": find, "cppimport.importer.setup_module_data": setup, "cppimport.importer.build_safely": build,
               "cppimport.importer.load_module": load, "cppimport.templating.setup_pybind11": setup_pybind11,
               "os.path.exists": exists, "os.path.isfile": exists, "os.path.lexists": exists, "os.remove": remove, "os.unlink": remove}
        out["os.stat"] = stat_result
        for n, field in (("getmtime", "st_mtime"), ("getctime", "st_ctime"), ("getatime", "st_atime"), ("getsize", "st_size")):
            out["os.path." + n] = lambda i, a, k, field=field: stat(i, a[0])[field]
        ext = {n: Native(n, f) for n, f in out.items()}
        ext["sys.meta_path"] = self.meta_path
        ext["sys.path"] = []
        ext["sys.modules"] = {}
        # a Path made of an opaque name

        def mkpath(i, a, k):
            if all(isinstance(x, (str, pathlib.PurePath)) for x in a):
                return pathlib.PurePosixPath(*a)
            p = Sym("Path(%s)" % ", ".join(map(i.show, a)), "pathlib.Path", True, path=list(a))
            p.attrs["exists"] = Native("exists", lambda j, b, l: exists(j, [a[0]], {}))
            p.attrs["is_file"] = p.attrs["exists"]
            p.attrs["stat"] = Native("stat", lambda j, b, l: stat_result(j, [a[0]], {}))
            p.attrs["unlink"] = Native("unlink", lambda j, b, l: remove(j, [a[0]], l))
            return p
        ext["pathlib.Path"] = Native("pathlib.Path", mkpath)
        return ext


STAGES = ("find", "setup", "build", "load")


class Scenario(client.Scenario):
    def verdict(self, interp, rule, ok, detail=""):
        n = self.verdicts.get(rule, [""])[0]
        super().verdict(interp, rule, ok, detail)
        if not ok and self.verdicts[rule][0] != n:
            self.verdicts[rule][2] = "%s/hook.py:%s" % (client.PKG, getattr(interp.where, "lineno", "?"))

    def run_world(self, path, **kw):
        def build(decisions):
            i = Interp(self.modules, {}, decisions, files={MOD: FILE})
            w = World(i, **kw)
            i.externals.update(w.externals())
            try:
                i.module(MOD)
                hooks = [h for h in w.meta_path if isinstance(h, Instance) and i.class_attr(h.cls, "find_spec") is not None]
                hooks += [h for h in w.meta_path if isinstance(h, pyai.Class) and i.class_attr(h, "find_spec") is not None]
                self.verdict(i, "the hook is installed when the module is imported", len(hooks) >= 1, "sys.meta_path holds %d hooks" % len(hooks))
                if hooks:
                    w.hook = hooks[0]
                path(i, self, w)
            except Unsupported as e:
                self.verdicts["path"] = ["UNKNOWN", "not modelled: %s (line %s)" % (e, getattr(i.where, "lineno", "?")), ""]
            except Raised as r:
                self.verdict(i, "no error of the module's own", False, "it raises %r" % (r.value,))
            self.functions |= i.functions
            self.paths += 1
            return i, None
        try:
            for _ in pyai.paths(build):
                pass
        except Unsupported as e:
            self.verdicts["path"] = ["UNKNOWN", str(e), ""]


def lookup(i, w, name, path=None, **kw):
    lo = len(w.log)
    try:
        r = ("returned", i.call(i.getattr(w.hook, "find_spec"), [name, path], kw))
    except Raised as e:
        r = ("raised", e.value)
    return r, w.log[lo:]


def outer(log):
    return [e for e in log if e[0] in STAGES + ("remove",)]


def same_path(i, w, p, name):
    """p designates the source which was found for `name`"""
    src = w.source.get(id(name) if isinstance(name, Sym) else name)
    while isinstance(p, Sym) and p is not src and p.attrs.get("term", ("",))[0] in ("abspath", "normpath"):
        p = p.attrs["term"][1][0]
    if isinstance(p, Sym) and p.type == "pathlib.Path":
        p = p.attrs["path"][0]
    return p is src and src is not None


def standard(f):
    return f.startswith("-std=")


def check_cfg(i, s, w, fn, dirs, label=""):
    """the function given to the template of the source: twice, for two different modules"""
    own = [[Sym("own include %d" % n, "str", True)] for n in (0, 1)]
    for n in (0, 1):
        for key in ("extra_compile_args",):
            cfg = {"sources": [], "include_dirs": list(own[n]), "extra_compile_args": ["-O2"], "libraries": [], "library_dirs": [], "extra_link_args": [], "dependencies": [], "parallel": False}
            try:
                i.call(fn, [cfg], {})
            except Raised as r:
                s.verdict(i, "the build is configured without error" + label, False, "it raises %r" % (r.value,))
                return
            inc = [pyai.path_arg(x) for x in cfg["include_dirs"]]
            flat = [os.path.normpath(x) if isinstance(x, str) else x for x in inc]
            s.verdict(i, "the library's include directory is given to the build" + label, INCLUDE in flat, "include_dirs: %s" % (flat,))
            s.verdict(i, "the user's include directories are given to the build" + label, all(any(x is d or (isinstance(x, str) and x == d) for x in inc) for d in dirs + own[n]), "include_dirs: %s, wanted %s" % (flat, dirs + own[n]))
            s.verdict(i, "pybind11 is set up" + label, any(isinstance(x, Sym) and x.name == "pybind11 include" for x in inc), "include_dirs: %s" % (flat,))
            s.verdict(i, "one build is not configured by another" + label, not any(x is own[1 - n][0] for x in inc), "include_dirs: %s" % (flat,))
            args = list(cfg["extra_compile_args"])
            stds = [x for x in args if isinstance(x, str) and standard(x)]
            last = stds[-1] if stds else "none"
            s.verdict(i, "the required language standard is given to the build, last" + label, last.split("=")[-1] in ("c++17", "gnu++17", "c++20", "gnu++20", "c++1z", "c++2a", "gnu++1z", "gnu++2a"), "the compiler is given %s" % (args,))
            s.verdict(i, "the module's own compiler arguments are kept" + label, "-O2" in args, "the compiler is given %s" % (args,))


def accepted(i, s, w, name, r, log, label=""):
    ev = outer(log)
    order = [e[0] for e in ev]
    find = [e for e in ev if e[0] == "find"]
    s.verdict(i, "an accepted module is looked for among the opted-in sources" + label, len(find) >= 1 and all(e[1] is name and e[2] is True for e in find), "looked for %s" % ([(i.show(e[1]), e[2]) for e in find],))
    build = [e for e in ev if e[0] == "build"]
    load = [e for e in ev if e[0] == "load"]
    setup = [e for e in ev if e[0] == "setup"]
    ok = len(build) == 1 and same_path(i, w, build[0][1], name)
    s.verdict(i, "an accepted module is built once, from its own source" + label, ok, "built %d times, from %s" % (len(build), [i.show(e[1]) for e in build]))
    s.verdict(i, "its build is described by its own name and source" + label, len(setup) >= 1 and all(e[1] is name and same_path(i, w, e[2], name) for e in setup) and len(build) == 1 and id(build[0][2]) in w.data,
              "described by %s" % ([(i.show(e[1]), i.show(e[2])) for e in setup],))
    s.verdict(i, "it is loaded once, after it was built" + label, len(load) == 1 and len(build) == 1 and load[0][1] is build[0][2] and order.index("load") > order.index("build"), "order: %s" % order)
    if len(build) == 1 and id(build[0][2]) in w.data:
        ext = w.ext[id(build[0][2])]
        before = w.default_exists
        removed = [n for n, e in enumerate(ev) if e[0] == "remove" and e[1] is ext]
        if before:
            s.verdict(i, "a stale binary is removed before the build" + label, len(removed) == 1 and removed[0] < order.index("build"), "order: %s" % order)
        s.verdict(i, "no other file is removed" + label, len([e for e in ev if e[0] == "remove"]) == len(removed), "removed %s" % ([i.show(e[1]) for e in ev if e[0] == "remove"],))
        s.verdict(i, "the module built and loaded is the one returned" + label, r[0] == "returned" and (r[1] is w.modules.get(id(build[0][2])) or derived(r[1], w.modules.get(id(build[0][2])))), "got %s" % (r,))
        fn = (build[0][3] or {}).get("setup_unpadded")
        s.verdict(i, "setup_unpadded() is available to its template" + label, fn is not None, "the template knows %s" % sorted(k for k in build[0][3] or {} if isinstance(k, str)))
        return fn
    return None


def derived(v, m):
    return isinstance(v, Sym) and isinstance(m, Sym) and v in m.attrs.values()


def nested(i, s, w, label=""):
    for stage, r, log in w.nested_results:
        s.verdict(i, "imports made during a lookup are declined without another lookup" + label, r == ("returned", None) and not outer(log),
                  "during %s: %s, %s" % (stage, r, [e[0] for e in outer(log)]))


def rearmed(i, s, w, label=""):
    """whatever happened, the next lookup is a lookup"""
    for _ in range(2):
        w.fail = {}
        w.default_exists = True
        w.nested_results.clear()
        name = Sym("next module", "str", True)
        r, log = lookup(i, w, name)
        s.verdict(i, "the hook is armed again after a lookup" + label, any(e[0] == "find" and e[1] is name for e in log), "the next lookup does nothing")
        accepted(i, s, w, name, r, log)
        nested(i, s, w)


def scenarios(modules, tier):
    out = []

    def add(name, path, **kw):
        s = Scenario(name, modules)
        s.run_world(path, **kw)
        out.append(s)

    for exists in (True, False):
        for nest in (True, False):
            for extra in (None, [], ["/user/a"], ["/user/a", "/user/b"]):
                def path(i, s, w, extra=extra):
                    names = i.loaded[MOD].names
                    if extra is not None:
                        i.call(names["set_extra_include_dirs"], [list(extra)], {})
                    name = Sym("fullname", "str", True)
                    r, log = lookup(i, w, name, target=None)
                    fn = accepted(i, s, w, name, r, log)
                    nested(i, s, w)
                    if fn is not None:
                        check_cfg(i, s, w, fn, extra or [])
                    rearmed(i, s, w)
                    # replaced by others afterwards
                    i.call(names["set_extra_include_dirs"], [["/later"]], {})
                    if fn is not None:
                        check_cfg(i, s, w, fn, ["/later"], " (after they were changed)")
                add("module found, %s, %s, %s" % ("stale binary" if exists else "no binary", "imports meanwhile" if nest else "no import meanwhile", "include directories %s" % (extra,)),
                    path, exists=exists, nested=nest)
    IMPORT = ("ImportError", "ModuleNotFoundError")
    OTHER = ("OSError", "Exception", "ValueError", "RuntimeError", "SystemExit", "KeyboardInterrupt", "FileNotFoundError", "SyntaxError", "AttributeError", "RecursionError", "UnicodeDecodeError")
    for stage in STAGES:
        for t in IMPORT + OTHER:
            for exists in (True, False):
                for p in (None, ["/dir"]):
                    def path(i, s, w, stage=stage, t=t, p=p):
                        name = Sym("fullname", "str", True)
                        r, log = lookup(i, w, name, p)
                        if t in IMPORT:
                            s.verdict(i, "an import error does not escape from the lookup", r[0] == "returned", "got %s" % (r,))
                            if stage == "find":
                                s.verdict(i, "a module which is not found is declined", r == ("returned", None), "got %s" % (r,))
                                s.verdict(i, "nothing is built, loaded nor removed for a declined module", not [e for e in outer(log) if e[0] != "find"], "did %s" % [e[0] for e in outer(log)])
                                s.verdict(i, "only opted-in sources are looked for", all(e[2] is True and e[1] is name for e in log if e[0] == "find") and any(e[0] == "find" for e in log),
                                          "looked for %s" % ([(i.show(e[1]), e[2]) for e in log if e[0] == "find"],))
                            if stage != "load":
                                s.verdict(i, "a module which was not built is not loaded", not [e for e in outer(log) if e[0] == "load"], "did %s" % [e[0] for e in outer(log)])
                            s.verdict(i, "a module which fails to be imported is declined", r == ("returned", None), "got %s" % (r,))
                        nested(i, s, w)
                        rearmed(i, s, w)
                    add("%s raises %s, %s, path %s" % (stage, t, "stale binary" if exists else "no binary", p), path, exists=exists, fail={stage: t})
    for t in ("PermissionError", "FileNotFoundError", "OSError"):
        def path(i, s, w):
            r, log = lookup(i, w, Sym("fullname", "str", True))
            nested(i, s, w)
            rearmed(i, s, w)
        add("removing the binary raises %s" % t, path, fail={"remove": t})

    return out


def run(res, tier):
    srcs = client.sources()
    if MOD not in srcs:
        raise driver.Broken("there is no %s any more" % MOD)
    modules = pyai.Modules(srcs)
    res.methods.append("abstract interpretation of the syntax tree of py/unpadded/hook.py, with cppimport and the file system modelled by their contracts: every branch, every exception, imports made during each step")
    n = 0
    for s in scenarios(modules, tier):
        res.entries += 1
        n += 1
        res.states += s.paths
        res.functions |= s.functions
        for rule, (status, detail, loc) in s.verdicts.items():
            res.add("hook.py", s.name, rule, status, detail, loc)
        if "path" in s.verdicts:
            res.undecided_entries.append({"unit": "hook.py", "entry": s.name, "why": s.verdicts["path"][1]})
    res.units.append({"unit": "py/unpadded/hook.py", "entries": n})
