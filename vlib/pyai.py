"""Abstract interpreter of Python sources, over their syntax trees.

Values which come from outside (arguments, results of the user's functions or of other packages) are opaque symbols;
a condition on an opaque symbol is explored both ways, once and for all on a path. All paths are enumerated; nothing of the
analysed source is executed by Python. What is not modelled makes the path undecided."""
import ast
import pathlib
import posixpath


class Unsupported(Exception):
    """The construct is not modelled: nothing is said about the path."""


class Raised(Exception):
    """An exception of the analysed program."""

    def __init__(self, value):
        self.value = value


class Returned(Exception):
    def __init__(self, value):
        self.value = value


class Broke(Exception):
    pass


class Continued(Exception):
    pass


class Escape(Exception):
    """A return, break or continue of the body of a `with`, on its way through the context manager."""

    def __init__(self, signal):
        self.signal = signal


class Sym:
    """An opaque value. `type` (a dotted name) and `truth` when they are known."""

    def __init__(self, name, type=None, truth=None, **methods):
        self.name, self.type, self.truth, self.attrs = name, type, truth, dict(methods)

    def __repr__(self):
        return "<%s>" % self.name


class Star:
    """An unknown number of values within an argument list."""

    def __init__(self, sym):
        self.sym = sym


class Ext:
    """Something of another package, by its dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Native:
    """A modelled function: called with (interp, args, kwargs)."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return self.name


class Func:
    def __init__(self, node, env, module, cls=None):
        self.node, self.env, self.module, self.cls = node, env, module, cls
        self.name = getattr(node, "name", "<lambda>")
        self.attrs = {}
        self.defaults = self.kwdefaults = ()


class Bound:
    def __init__(self, f, obj):
        self.f, self.obj = f, obj


class Wrapped:
    """property, staticmethod, classmethod, contextmanager, cache"""

    def __init__(self, kind, f):
        self.kind, self.f, self.memo = kind, f, []


class Class:
    def __init__(self, name, bases, ns):
        self.name, self.bases, self.ns = name, bases, ns

    def __repr__(self):
        return "class " + self.name

    def mro(self):
        out = [self]
        for b in self.bases:
            out += b.mro() if isinstance(b, Class) else [b]
        return out


class Instance:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return "<%s instance>" % (self.cls.name if isinstance(self.cls, Class) else self.cls)


class Exc:
    """An exception of a known type."""

    def __init__(self, type, args=(), cls=None):
        self.type, self.args, self.cls, self.attrs = type, args, cls, {}

    def __repr__(self):
        return "%s exception" % self.type


class Coro:
    def __init__(self, run):
        self.run, self.done = run, False


class Iter:
    def __init__(self, items):
        self.items, self.at = items, 0


class Env:
    def __init__(self, parent=None, names=None):
        self.parent, self.names, self.globals, self.nonlocals = parent, names if names is not None else {}, set(), set()


HIERARCHY = {"bool": "int", "ModuleNotFoundError": "ImportError", "ImportError": "Exception", "Exception": "BaseException", "OSError": "Exception", "FileNotFoundError": "OSError",
             "PermissionError": "OSError", "ValueError": "Exception", "UnicodeDecodeError": "ValueError", "TypeError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
             "RecursionError": "RuntimeError", "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception", "SystemExit": "BaseException",
             "KeyboardInterrupt": "BaseException", "GeneratorExit": "BaseException", "SyntaxError": "Exception", "AssertionError": "Exception", "StopIteration": "Exception",
             "NameError": "Exception", "UnboundLocalError": "NameError", "asyncio.CancelledError": "BaseException", "asyncio.TimeoutError": "Exception", "TimeoutError": "OSError",
             "EnvironmentError": "OSError", "IOError": "OSError", "Warning": "Exception", "ZeroDivisionError": "Exception", "MemoryError": "Exception", "BufferError": "Exception"}
ALIASES = {"EnvironmentError": "OSError", "IOError": "OSError"}


def is_subtype(a, b):
    a, b = ALIASES.get(a, a), ALIASES.get(b, b)
    while a is not None:
        if a == b or b == "object":
            return True
        a = HIERARCHY.get(a)
    return False


class Modules:
    """Sources under analysis: name of the module -> path"""

    def __init__(self, paths):
        self.trees = {}
        for name, path in paths.items():
            with open(path) as f:
                self.trees[name] = (ast.parse(f.read(), path), path)


class Interp:
    def __init__(self, modules, externals, decisions, files=None, cwd="/cwd"):
        self.modules, self.externals, self.decisions = modules, externals, decisions
        self.taken = []  # (chosen, number of alternatives, label)
        self.loaded, self.files, self.cwd = {}, files or {}, cwd
        self.steps = 0
        self.tainted = None
        self.facts = {}
        self.where = None
        self.functions = set()
        self.depth = 0
        self.handling = []
        self.yields = []

    # ---- choices
    def choose(self, n, label):
        i = len(self.taken)
        c = self.decisions[i] if i < len(self.decisions) else 0
        self.taken.append((c, n, label))
        return c

    def taint(self, why):
        if self.tainted is None:
            self.tainted = why

    # ---- modules
    def module(self, name):
        if name in self.loaded:
            return self.loaded[name]
        tree, path = self.modules.trees[name]
        env = Env(None, {"__name__": name, "__file__": self.files.get(name, path), "__package__": name.rpartition(".")[0]})
        self.loaded[name] = env
        self.block(tree.body, env, name)
        return env

    # ---- statements
    def block(self, body, env, mod, cls=None):
        for s in body:
            self.stmt(s, env, mod)

    def tick(self, node):
        self.steps += 1
        self.where = node
        if self.steps > 20000:
            raise Unsupported("too many steps")

    def stmt(self, s, env, mod):
        self.tick(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, env, mod)

    def s_Expr(self, s, env, mod):
        self.ev(s.value, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Return(self, s, env, mod):
        raise Returned(self.ev(s.value, env, mod) if s.value else None)

    def s_Break(self, s, env, mod):
        raise Broke()

    def s_Continue(self, s, env, mod):
        raise Continued()

    def s_Global(self, s, env, mod):
        env.globals |= set(s.names)

    def s_Nonlocal(self, s, env, mod):
        env.nonlocals |= set(s.names)

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env, mod)
            new = self.binop(s.op, old, self.ev(s.value, env, mod), True)
            self.assign(t, new, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            self.setattr(o, t.attr, self.binop(s.op, self.getattr(o, t.attr), self.ev(s.value, env, mod), True))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env, mod), self.ev(t.slice, env, mod)
            self.setitem(o, k, self.binop(s.op, self.getitem(o, k), self.ev(s.value, env, mod), True))
        else:
            raise Unsupported("augmented assignment")

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.scope(t.id, env, mod).names.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env, mod)
                if not isinstance(o, Instance):
                    raise Unsupported("del")
                if t.attr not in o.attrs:
                    raise Raised(Exc("AttributeError", (t.attr,)))
                del o.attrs[t.attr]
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, env, mod), self.ev(t.slice, env, mod)
                if not isinstance(o, (dict, list)):
                    raise Unsupported("del")
                try:
                    del o[k]
                except (KeyError, IndexError) as e:
                    raise Raised(Exc(type(e).__name__, (k,)))
            else:
                raise Unsupported("del")

    def s_If(self, s, env, mod):
        self.block(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)

    def s_While(self, s, env, mod):
        n = 0
        while self.truth(self.ev(s.test, env, mod)):
            n += 1
            if n > 50:
                raise Unsupported("loop without a known bound")
            try:
                self.block(s.body, env, mod)
            except Broke:
                return
            except Continued:
                pass
        self.block(s.orelse, env, mod)

    def s_For(self, s, env, mod):
        for v in self.iterate(self.ev(s.iter, env, mod)):
            self.assign(s.target, v, env, mod)
            try:
                self.block(s.body, env, mod)
            except Broke:
                return
            except Continued:
                pass
        self.block(s.orelse, env, mod)

    def s_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            raise Raised(Exc("AssertionError"))

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            if not self.handling:
                raise Raised(Exc("RuntimeError"))
            raise Raised(self.handling[-1])
        v = self.ev(s.exc, env, mod)
        if isinstance(v, (Ext, Class)):
            v = self.call(v, [], {})
        if s.cause is not None:
            self.ev(s.cause, env, mod)
        raise Raised(v)

    def s_Try(self, s, env, mod):
        try:
            try:
                self.block(s.body, env, mod)
            except Raised as r:
                for h in s.handlers:
                    if h.type is None or self.catches(self.ev(h.type, env, mod), r.value):
                        if h.name:
                            self.assign(ast.Name(h.name, ast.Store()), r.value, env, mod)
                        self.handling.append(r.value)
                        try:
                            self.block(h.body, env, mod)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, mod)
        except (Raised, Returned, Broke, Continued, Escape):
            self.block(s.finalbody, env, mod)
            raise
        else:
            self.block(s.finalbody, env, mod)

    def catches(self, t, v):
        if isinstance(t, (tuple, list)):
            return any(self.catches(x, v) for x in t)
        return self.isinstance(v, t)

    def s_With(self, s, env, mod):
        self.with_items(s.items, s.body, env, mod, False)

    def s_AsyncWith(self, s, env, mod):
        self.with_items(s.items, s.body, env, mod, True)

    def with_items(self, items, body, env, mod, asynchronous):
        if not items:
            return self.block(body, env, mod)
        it = items[0]
        c = self.ev(it.context_expr, env, mod)

        def inner(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, mod)
            self.with_items(items[1:], body, env, mod, asynchronous)
        if isinstance(c, ManagedCall):
            return c.run(self, inner)
        if isinstance(c, Sym) and c.type == "contextlib.suppress":
            try:
                inner(None)
            except Raised as r:
                if not any(self.isinstance(r.value, t) for t in c.attrs["types"]):
                    raise
            return
        if isinstance(c, Lock):
            self.lock(c)
            try:
                inner(c)
            finally:
                c.count -= 1
            return
        if isinstance(c, Instance):
            en, ex = ("__aenter__", "__aexit__") if asynchronous else ("__enter__", "__exit__")
            call = lambda n, *a: self.maybe_await(self.call(self.getattr(c, n), list(a), {}), asynchronous)
            v = call(en)
            try:
                inner(v)
            except Raised as r:
                if self.truth(call(ex, self.type_of(r.value), r.value, None)):
                    return
                raise
            except (Returned, Broke, Continued, Escape):
                call(ex, None, None, None)
                raise
            call(ex, None, None, None)
            return
        if isinstance(c, Sym):
            self.taint("context manager %s" % c.name)
            return inner(c)
        raise Unsupported("context manager")

    def maybe_await(self, v, yes):
        return self.await_(v) if yes else v

    def lock(self, c):
        if c.count and not c.reentrant:
            raise Unsupported("a lock is taken twice")
        c.count += 1

    def s_FunctionDef(self, s, env, mod):
        f = Func(s, env, mod)
        self.set_defaults(f, env, mod)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env, mod), v)
        self.assign(ast.Name(s.name, ast.Store()), v, env, mod)

    s_AsyncFunctionDef = s_FunctionDef

    def set_defaults(self, f, env, mod):
        a = f.node.args
        f.defaults = [self.ev(x, env, mod) for x in a.defaults]
        f.kwdefaults = [None if x is None else (self.ev(x, env, mod),) for x in a.kw_defaults]

    def decorate(self, d, v):
        if isinstance(d, Ext):
            n = d.name
            if n in ("property", "staticmethod", "classmethod"):
                return Wrapped(n, v)
            if n in ("contextlib.contextmanager", "contextlib.asynccontextmanager"):
                return Wrapped("contextmanager", v)
            if n in ("functools.lru_cache", "functools.cache"):
                return Wrapped("cache", v)
            if n in ("abc.abstractmethod", "typing.override", "typing.final", "functools.wraps", "typing.no_type_check"):
                return v
        if isinstance(d, Sym) and d.type == "decorator":
            return Wrapped("cache", v) if d.attrs.get("cache") else v
        if isinstance(d, (Func, Native, Bound, Class)):
            return self.call(d, [v], {})
        raise Unsupported("decorator %r" % (d,))

    def s_ClassDef(self, s, env, mod):
        bases = [self.ev(b, env, mod) for b in s.bases]
        inner = Env(env, {})
        inner.is_class = True
        self.block(s.body, inner, mod)
        c = Class(s.name, bases, inner.names)
        for v in inner.names.values():
            f = v.f if isinstance(v, Wrapped) else v
            if isinstance(f, Func) and f.cls is None:
                f.cls = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env, mod), v)
        self.assign(ast.Name(s.name, ast.Store()), v, env, mod)

    def s_Import(self, s, env, mod):
        for a in s.names:
            if a.asname:
                v = self.import_name(a.name, mod)
            else:
                v = self.import_name(a.name.split(".")[0], mod)
            self.assign(ast.Name(a.asname or a.name.split(".")[0], ast.Store()), v, env, mod)

    def s_ImportFrom(self, s, env, mod):
        base = s.module or ""
        if s.level:
            pkg = mod.split(".")[:-s.level] if not mod.endswith("__init__") else mod.split(".")
            base = ".".join(pkg + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                if base in self.modules.trees:
                    for k, v in self.module(base).names.items():
                        if not k.startswith("_"):
                            env.names[k] = v
                    continue
                raise Unsupported("import *")
            if base + "." + a.name in self.modules.trees:
                v = ModuleRef(base + "." + a.name)
            elif base in self.modules.trees:
                names = self.module(base).names
                if a.name not in names:
                    raise Raised(Exc("ImportError"))
                v = names[a.name]
            else:
                v = self.external_value(base + "." + a.name)
            self.assign(ast.Name(a.asname or a.name, ast.Store()), v, env, mod)

    def import_name(self, name, mod):
        if name in self.modules.trees:
            self.module(name)
            return ModuleRef(name)
        return self.external_value(name)

    def external_value(self, name):
        if name in self.externals and not isinstance(self.externals[name], Native):
            return self.externals[name]
        return Ext(name)

    def s_Match(self, s, env, mod):
        v = self.ev(s.subject, env, mod)
        for c in s.cases:
            if self.matches(c.pattern, v, env, mod) and (c.guard is None or self.truth(self.ev(c.guard, env, mod))):
                return self.block(c.body, env, mod)

    def matches(self, p, v, env, mod):
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env, mod):
                return False
            if p.name:
                self.assign(ast.Name(p.name, ast.Store()), v, env, mod)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(x, v, env, mod) for x in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.kwd_patterns and len(p.patterns) <= 1:
            if not self.isinstance(v, self.ev(p.cls, env, mod)):
                return False
            return not p.patterns or self.matches(p.patterns[0], v, env, mod)
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, env, mod)))
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, p.value)
        raise Unsupported("pattern")

    # ---- names
    def scope(self, name, env, mod):
        if name in env.globals:
            return self.loaded[mod]
        if name in env.nonlocals:
            e = env.parent
            while e is not None and (name not in e.names or getattr(e, "is_class", False)):
                e = e.parent
            return e or env
        return env

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.scope(t.id, env, mod).names[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env, mod), self.ev(t.slice, env, mod), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise Raised(Exc("ValueError"))
                parts = vs[:i] + [vs[i:len(vs) - after]] + vs[len(vs) - after:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, mod)
            else:
                if len(vs) != len(t.elts):
                    raise Raised(Exc("ValueError"))
                for x, y in zip(t.elts, vs):
                    self.assign(x, y, env, mod)
        else:
            raise Unsupported("assignment target")

    def lookup(self, name, env, mod):
        e = self.loaded[mod] if name in env.globals else env
        first = True
        while e is not None:
            if name in e.names and (first or not getattr(e, "is_class", False)):
                return e.names[name]
            first = False
            e = e.parent
        if name in self.loaded[mod].names:
            return self.loaded[mod].names[name]
        if name in BUILTINS:
            return Ext(name)
        raise Raised(Exc("NameError", (name,)))

    # ---- expressions
    def ev(self, n, env, mod):
        self.tick(n)
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n, env, mod)

    def e_Constant(self, n, env, mod):
        return n.value

    def e_Name(self, n, env, mod):
        return self.lookup(n.id, env, mod)

    def e_NamedExpr(self, n, env, mod):
        v = self.ev(n.value, env, mod)
        self.assign(n.target, v, env, mod)
        return v

    def e_Attribute(self, n, env, mod):
        return self.getattr(self.ev(n.value, env, mod), n.attr)

    def e_Tuple(self, n, env, mod):
        return tuple(self.elements(n.elts, env, mod))

    def e_List(self, n, env, mod):
        return list(self.elements(n.elts, env, mod))

    def e_Set(self, n, env, mod):
        return list(self.elements(n.elts, env, mod))

    def elements(self, elts, env, mod):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.items(self.ev(x.value, env, mod))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_Dict(self, n, env, mod):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, env, mod)
                if not isinstance(d, dict):
                    raise Unsupported("**")
                out.update(d)
            else:
                out[self.hashable(self.ev(k, env, mod))] = self.ev(v, env, mod)
        return out

    def hashable(self, k):
        if isinstance(k, list):
            raise Unsupported("key")
        return k

    def e_IfExp(self, n, env, mod):
        return self.ev(n.body if self.truth(self.ev(n.test, env, mod)) else n.orelse, env, mod)

    def e_BoolOp(self, n, env, mod):
        for x in n.values[:-1]:
            v = self.ev(x, env, mod)
            if self.truth(v) == isinstance(n.op, ast.Or):
                return v
        return self.ev(n.values[-1], env, mod)

    def e_UnaryOp(self, n, env, mod):
        v = self.ev(n.operand, env, mod)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(n.op)]()
        raise Unsupported("unary operator")

    def e_BinOp(self, n, env, mod):
        return self.binop(n.op, self.ev(n.left, env, mod), self.ev(n.right, env, mod))

    def binop(self, op, a, b, inplace=False):
        if isinstance(op, ast.Add):
            if isinstance(a, list) and inplace:
                a.extend(self.items(b))
                return a
            for t in (str, bytes, list, tuple):
                if isinstance(a, t) and isinstance(b, t):
                    return a + b
            if isinstance(a, (str, Sym)) and isinstance(b, (str, Sym)):
                return Sym("(%s + %s)" % (self.show(a), self.show(b)), (a.type if isinstance(a, Sym) else "str"))
        if isinstance(op, ast.Div) and isinstance(a, pathlib.PurePath) and isinstance(b, (str, pathlib.PurePath)):
            return a / b
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return Sym("%s %% %s" % (a, self.show(b)), "str")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b}.get(type(op))
            if isinstance(a, int) and isinstance(b, int):
                f = f or {ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b, ast.BitXor: lambda: a ^ b}.get(type(op))
            if f:
                return f()
        if isinstance(op, ast.BitOr) and isinstance(a, dict) and isinstance(b, dict):
            if inplace:
                a.update(b)
                return a
            return {**a, **b}
        raise Unsupported("operator %s" % type(op).__name__)

    def e_Compare(self, n, env, mod):
        a = self.ev(n.left, env, mod)
        r = True
        for op, x in zip(n.ops, n.comparators):
            b = self.ev(x, env, mod)
            r = self.compare(op, a, b)
            if not self.truth(r):
                return r
            a = b
        return r

    CONCRETE = (type(None), bool, int, float, str, bytes, pathlib.PurePath)

    def identical(self, a, b):
        if isinstance(a, (Ext, Class)) and isinstance(b, (Ext, Class)):
            return a == b
        if isinstance(a, self.CONCRETE) and isinstance(b, self.CONCRETE):
            return type(a) == type(b) and a == b
        if isinstance(a, Sym) and a is not b and (a.type is None or isinstance(b, Sym)):
            if isinstance(b, self.CONCRETE) and a.type is None:
                return self.fact(("is", id(a), b), "%s is %r" % (a.name, b))
            if isinstance(b, Sym) and (a.type is None or b.type is None or a.type == b.type):
                return False  # distinct symbols are distinct objects
            return False
        if isinstance(b, Sym) and a is not b:
            return self.identical(b, a)
        return a is b

    def fact(self, key, label):
        if key not in self.facts:
            self.facts[key] = self.choose(2, label) == 0
        return self.facts[key]

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return not self.identical(a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (list, tuple)):
                r = any(x is a or self.equal(a, x) for x in b)
            elif isinstance(b, dict):
                r = a in b or any(self.equal(a, x) for x in b)
            elif isinstance(b, (str, bytes)) and isinstance(a, type(b)):
                r = a in b
            elif isinstance(b, Sym):
                self.taint("membership in %s" % b.name)
                r = self.fact(("in", self.show(a), id(b)), "%s in %s" % (self.show(a), b.name))
            else:
                raise Unsupported("in")
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if any(isinstance(x, Sym) and x.attrs.get("free") for x in (a, b)) and all(isinstance(x, (int, float)) or isinstance(x, Sym) and x.attrs.get("free") for x in (a, b)):
            # numbers of which nothing is known: they compare any way, consistently
            ka, kb = [id(x) if isinstance(x, Sym) else ("number", x) for x in (a, b)]
            swap = str(ka) > str(kb)
            key = ("order", kb, ka) if swap else ("order", ka, kb)
            if a is b:
                c = 0
            else:
                if key not in self.facts:
                    self.facts[key] = (self.choose(3, "order of %s and %s" % (self.show(a), self.show(b))) - 1, a, b)
                c = -self.facts[key][0] if swap else self.facts[key][0]
            return {ast.Lt: c < 0, ast.LtE: c <= 0, ast.Gt: c > 0, ast.GtE: c >= 0}[type(op)]
        if isinstance(a, Sym) or isinstance(b, Sym):
            self.taint("comparison of %s and %s" % (self.show(a), self.show(b)))
            return self.fact((type(op).__name__, self.show(a), self.show(b)), "comparison")
        raise Unsupported("comparison")

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, (list, tuple)) and type(a) == type(b):
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, self.CONCRETE) and isinstance(b, self.CONCRETE):
            return a == b
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(o, Sym):
                if (o.type and s.type and o.type != s.type) or (o.attrs.get("closed") and s.attrs.get("closed")):
                    return False
                return self.fact(("==", min(id(s), id(o)), max(id(s), id(o))), "%s == %s" % (s.name, o.name))
            if s.type is not None and isinstance(o, self.CONCRETE) and s.type != type(o).__name__:
                if not {s.type, type(o).__name__} <= {"bytes", "bytearray", "int", "bool", "float"}:
                    return False
            if isinstance(o, (Ext, Class)):
                return False
            if isinstance(o, self.CONCRETE):
                if s.truth is not None and s.truth != bool(o):
                    return False
                return self.fact(("==", id(s), o), "%s == %r" % (s.name, o))
            return False
        if isinstance(a, (Ext, Class)) or isinstance(b, (Ext, Class)):
            return a == b
        return False

    def e_Call(self, n, env, mod):
        f = self.ev(n.func, env, mod)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.items(self.ev(a.value, env, mod))
            else:
                args.append(self.ev(a, env, mod))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported("**")
                kw.update(v)
            else:
                kw[k.arg] = v
        if isinstance(f, Ext) and f.name == "super" and not args:
            obj, cls = self.super_context(env)
            return Super(obj, cls)
        self.where = n
        return self.call(f, args, kw)

    def super_context(self, env):
        e = env
        while e is not None:
            if hasattr(e, "this"):
                return e.this
            e = e.parent
        raise Unsupported("super()")

    def e_Lambda(self, n, env, mod):
        f = Func(n, env, mod)
        self.set_defaults(f, env, mod)
        return f

    def e_Await(self, n, env, mod):
        return self.await_(self.ev(n.value, env, mod))

    def e_JoinedStr(self, n, env, mod):
        parts = [self.ev(x, env, mod) for x in n.values]
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return Sym("".join(self.show(p) for p in parts), "str")

    def e_FormattedValue(self, n, env, mod):
        v = self.ev(n.value, env, mod)
        if isinstance(v, (str, int, pathlib.PurePath)) and n.format_spec is None and n.conversion == -1:
            return str(v)
        return Sym("{%s}" % self.show(v), "str")

    def e_Subscript(self, n, env, mod):
        return self.getitem(self.ev(n.value, env, mod), self.ev(n.slice, env, mod))

    def e_Slice(self, n, env, mod):
        f = lambda x: None if x is None else self.ev(x, env, mod)
        return slice(f(n.lower), f(n.upper), f(n.step))

    def e_Starred(self, n, env, mod):
        raise Unsupported("star")

    def e_Yield(self, n, env, mod):
        if not self.yields:
            raise Unsupported("generator")
        v = self.ev(n.value, env, mod) if n.value else None
        k = self.yields[-1]
        if k["done"]:
            raise Unsupported("second yield of a context manager")
        k["done"] = True
        saved = self.yields
        self.yields = saved[:-1]
        try:
            k["body"](v)
        except (Returned, Broke, Continued) as e:
            raise Escape(e)
        finally:
            self.yields = saved
        return None

    def comprehension(self, n, env, mod, f):
        out = []

        def go(i, e):
            if i == len(n.generators):
                out.append(f(e))
                return
            g = n.generators[i]
            for v in self.iterate(self.ev(g.iter, e if i else env, mod)):
                self.assign(g.target, v, e, mod)
                if all(self.truth(self.ev(c, e, mod)) for c in g.ifs):
                    go(i + 1, e)
        go(0, Env(env))
        return out

    def e_ListComp(self, n, env, mod):
        return self.comprehension(n, env, mod, lambda e: self.ev(n.elt, e, mod))

    e_SetComp = e_ListComp

    def e_GeneratorExp(self, n, env, mod):
        return self.e_ListComp(n, env, mod)

    def e_DictComp(self, n, env, mod):
        return dict(self.comprehension(n, env, mod, lambda e: (self.ev(n.key, e, mod), self.ev(n.value, e, mod))))

    # ---- operations
    def show(self, v):
        return v.name if isinstance(v, (Sym, Ext)) else repr(v)

    def truth(self, v):
        if isinstance(v, Sym):
            if v.truth is None:
                v.truth = self.choose(2, "truth of " + v.name) == 0
                if v.attrs.get("unmodelled"):
                    self.taint("truth of " + v.name)
            return v.truth
        if isinstance(v, (list, tuple, dict, str, bytes, int, float, type(None))):
            if isinstance(v, (list, tuple)) and v and all(isinstance(x, Star) for x in v):
                return self.fact(("some", id(v[0].sym)), "some arguments")
            return bool(v)
        if isinstance(v, Instance):
            for n in ("__bool__", "__len__"):
                m = self.class_attr(v.cls, n)
                if m is not None:
                    return self.truth(self.call(self.getattr(v, n), [], {}))
        return True

    def items(self, v):
        """as arguments: unknown ones allowed"""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Iter):
            r = v.items[v.at:]
            v.at = len(v.items)
            return r
        if isinstance(v, (str, bytes)):
            return list(v)
        raise Unsupported("iteration over %s" % self.show(v))

    def iterate(self, v):
        for x in self.items(v):
            if isinstance(x, Star):
                raise Unsupported("iteration over an unknown number of values")
            yield x

    def type_of(self, v):
        if isinstance(v, Sym):
            if v.type is None:
                return Sym("type(%s)" % v.name)
            return Ext(v.type)
        if isinstance(v, Instance):
            return v.cls
        if isinstance(v, Exc):
            return v.cls or Ext(v.type)
        if isinstance(v, self.CONCRETE + (list, tuple, dict)):
            return Ext(type(v).__name__)
        raise Unsupported("type of %r" % (v,))

    def isinstance(self, v, t):
        if isinstance(t, (tuple, list)):
            return any(self.isinstance(v, x) for x in t)
        if isinstance(v, Sym) and v.type is None:
            if isinstance(t, Ext):
                self.taint("type of %s" % v.name)
                return self.fact(("isinstance", id(v), t.name), "%s is a %s" % (v.name, t.name))
            raise Unsupported("isinstance")
        k = self.type_of(v)
        if isinstance(k, Class):
            return any((isinstance(b, Class) and b is t) or (isinstance(b, Ext) and isinstance(t, Ext) and is_subtype(b.name, t.name)) for b in k.mro()) or t == Ext("object")
        if isinstance(t, Ext):
            n = t.name
            if n in ("collections.abc.Awaitable", "typing.Awaitable"):
                return k.name in ("awaitable", "coroutine")
            if n in ("collections.abc.ByteString", "typing.ByteString"):
                return k.name in ("bytes", "bytearray", "memoryview")
            return is_subtype(k.name, n)
        return False

    def class_attr(self, c, name):
        for b in c.mro() if isinstance(c, Class) else []:
            if isinstance(b, Class) and name in b.ns:
                return b.ns[name]
        return None

    def bind(self, a, obj, cls):
        if isinstance(a, Wrapped):
            if a.kind == "staticmethod":
                return a.f
            if a.kind == "classmethod":
                return Bound(a.f, cls)
            if a.kind == "property":
                return self.call(Bound(a.f, obj), [], {})
            return Bound(a, obj)
        if isinstance(a, (Func, Native)) and obj is not None:
            return Bound(a, obj)
        return a

    def getattr(self, o, name, default=None):
        if isinstance(o, ModuleRef):
            names = self.module(o.name).names
            if name in names:
                return names[name]
            if o.name + "." + name in self.modules.trees:
                return ModuleRef(o.name + "." + name)
        elif isinstance(o, Ext):
            if o.name + "." + name in self.externals:
                return self.external_value(o.name + "." + name)
            return Ext(o.name + "." + name)
        elif isinstance(o, Instance):
            if name in o.attrs:
                return o.attrs[name]
            a = self.class_attr(o.cls, name)
            if a is not None or any(isinstance(b, Class) and name in b.ns for b in o.cls.mro()):
                return self.bind(a, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
        elif isinstance(o, Super):
            mro = o.obj.cls.mro()
            for b in mro[mro.index(o.cls) + 1:]:
                if isinstance(b, Class) and name in b.ns:
                    return self.bind(b.ns[name], o.obj, o.obj.cls)
            if name == "__init__":
                return Native("object.__init__", lambda i, a, k: None)
        elif isinstance(o, Class):
            a = self.class_attr(o, name)
            if a is not None or any(isinstance(b, Class) and name in b.ns for b in o.mro()):
                return self.bind(a, None, o)
            if name == "__name__":
                return o.name
        elif isinstance(o, Sym):
            if name in o.attrs:
                return o.attrs[name]
            if o.attrs.get("closed"):
                pass
            else:
                s = Sym("%s.%s" % (o.name, name), unmodelled=True)
                o.attrs[name] = s
                return s
        elif isinstance(o, Exc):
            if name in o.attrs:
                return o.attrs[name]
            if name == "args":
                return tuple(o.args)
            if name in ("__traceback__", "__cause__", "__context__", "name", "path", "msg"):
                return Sym("%s of %r" % (name, o))
            if name == "with_traceback":
                return Native("with_traceback", lambda i, a, k: o)
            if name == "__class__":
                return self.type_of(o)
        elif isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
        elif isinstance(o, Lock):
            return Native("Lock." + name, lambda i, a, k: i.lock_method(o, name, a, k))
        elif isinstance(o, pathlib.PurePath):
            return self.path_attr(o, name)
        elif isinstance(o, (list, dict, str, bytes, tuple)):
            return Native("%s.%s" % (type(o).__name__, name), lambda i, a, k: i.method(o, name, a, k))
        elif isinstance(o, Bound) and name == "__self__":
            return o.obj
        elif isinstance(o, Native):
            raise Unsupported("attribute of a function")
        raise Raised(Exc("AttributeError", (name,)))

    def lock_method(self, o, name, a, k):
        if name == "acquire":
            blocking = a[0] if a else k.get("blocking", True)
            if o.count and not o.reentrant:
                if self.truth(blocking):
                    raise Unsupported("a lock is taken twice")
                return False
            o.count += 1
            return True
        if name == "release":
            if not o.count:
                raise Raised(Exc("RuntimeError"))
            o.count -= 1
            return None
        if name == "locked":
            return o.count > 0
        raise Unsupported("lock." + name)

    def path_attr(self, o, name):
        if name in ("parent", "name", "stem", "suffix"):
            return getattr(o, name)
        if name in ("absolute", "resolve"):
            return Native(name, lambda i, a, k: pathlib.PurePosixPath(posixpath.normpath(posixpath.join(i.cwd, str(o)))))
        if name in ("joinpath", "with_name", "with_suffix", "as_posix", "__str__", "__fspath__", "as_uri"):
            return Native(name, lambda i, a, k: getattr(o, name)(*a))
        if name == "parents":
            return list(o.parents)
        return Native("Path." + name, lambda i, a, k: i.external("pathlib.Path." + name, [o] + a, k))

    def method(self, o, name, a, k):
        if isinstance(o, list):
            if name == "append":
                o.append(a[0])
                return None
            if name == "extend":
                o.extend(self.items(a[0]))
                return None
            if name == "insert" and isinstance(a[0], int):
                o.insert(a[0], a[1])
                return None
            if name == "copy":
                return list(o)
            if name == "clear":
                o.clear()
                return None
            if name == "pop":
                if not o:
                    raise Raised(Exc("IndexError"))
                return o.pop(*a)
            if name == "remove":
                for i, x in enumerate(o):
                    if self.equal(x, a[0]):
                        del o[i]
                        return None
                raise Raised(Exc("ValueError"))
        if isinstance(o, dict):
            if name == "get":
                return o.get(a[0], a[1] if len(a) > 1 else None)
            if name == "setdefault":
                return o.setdefault(a[0], a[1] if len(a) > 1 else None)
            if name == "pop":
                if a[0] in o:
                    return o.pop(a[0])
                if len(a) > 1:
                    return a[1]
                raise Raised(Exc("KeyError", (a[0],)))
            if name == "update":
                for x in a:
                    if not isinstance(x, dict):
                        raise Unsupported("update")
                    o.update(x)
                o.update(k)
                return None
            if name in ("items", "keys", "values"):
                return list(getattr(o, name)())
            if name == "copy":
                return dict(o)
            if name == "clear":
                o.clear()
                return None
            if name == "__getitem__":
                return self.getitem(o, a[0])
            if name == "__setitem__":
                return self.setitem(o, a[0], a[1])
        if isinstance(o, (str, bytes)):
            if all(isinstance(x, (str, bytes, int, tuple)) for x in a) and name not in ("format", "join") and not k:
                try:
                    return getattr(o, name)(*a)
                except Exception as e:
                    raise Raised(Exc(type(e).__name__))
            if name == "join":
                xs = self.items(a[0])
                if all(isinstance(x, type(o)) for x in xs):
                    return o.join(xs)
            return Sym("%r.%s(...)" % (o, name), type(o).__name__)
        raise Unsupported("%s.%s" % (type(o).__name__, name))

    def setattr(self, o, name, v):
        if isinstance(o, Instance):
            a = self.class_attr(o.cls, name)
            if isinstance(a, Wrapped) and a.kind == "property":
                raise Unsupported("property setter")
            o.attrs[name] = v
        elif isinstance(o, Class):
            o.ns[name] = v
        elif isinstance(o, ModuleRef):
            self.module(o.name).names[name] = v
        elif isinstance(o, (Func, Exc)):
            o.attrs[name] = v
        elif isinstance(o, Sym) and not o.attrs.get("closed"):
            o.attrs[name] = v
        elif isinstance(o, Ext):
            self.externals[o.name + "." + name] = v
        else:
            raise Unsupported("attribute assignment")

    KEYMAP = {}

    def getitem(self, o, k):
        if isinstance(o, (list, tuple, str, bytes)) and isinstance(k, (int, slice)):
            if any(isinstance(x, Star) for x in o):
                raise Unsupported("index among an unknown number of values")
            try:
                return o[k]
            except IndexError:
                raise Raised(Exc("IndexError"))
        if isinstance(o, dict):
            if k in o:
                return o[k]
            raise Raised(Exc("KeyError", (k,)))
        if isinstance(o, Sym):
            if "__getitem__" in o.attrs:
                return self.call(o.attrs["__getitem__"], [k], {})
            s = Sym("%s[%s]" % (o.name, self.show(k)), unmodelled=True)
            return s
        if isinstance(o, Instance):
            return self.call(self.getattr(o, "__getitem__"), [k], {})
        if isinstance(o, (Ext, Class)):
            return o  # a generic alias
        raise Unsupported("subscript")

    def setitem(self, o, k, v):
        if isinstance(o, (dict, list)):
            try:
                o[k] = v
            except IndexError:
                raise Raised(Exc("IndexError"))
            return
        if isinstance(o, Sym) and "__setitem__" in o.attrs:
            return self.call(o.attrs["__setitem__"], [k, v], {})
        if isinstance(o, Instance):
            return self.call(self.getattr(o, "__setitem__"), [k, v], {})
        raise Unsupported("subscript assignment")

    def await_(self, v):
        if isinstance(v, Coro):
            if v.done:
                raise Raised(Exc("RuntimeError"))
            v.done = True
            return v.run()
        if isinstance(v, Sym) and "await" in v.attrs:
            return self.call(v.attrs["await"], [], {})
        if isinstance(v, Instance) and self.class_attr(v.cls, "__await__"):
            raise Unsupported("__await__")
        if isinstance(v, Sym) and v.type is None:
            self.taint("await of %s" % v.name)
            return Sym("await " + v.name, unmodelled=True)
        raise Raised(Exc("TypeError"))

    # ---- calls
    def call(self, f, args, kw):
        self.depth += 1
        try:
            if self.depth > 60:
                raise Unsupported("deep recursion")
            return self.call_(f, args, kw)
        finally:
            self.depth -= 1

    def call_(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.f, [f.obj] + args, kw)
        if isinstance(f, Native):
            return f.f(self, args, kw)
        if isinstance(f, Wrapped):
            if f.kind == "cache":
                for a, k, r in f.memo:
                    if len(a) == len(args) and all(x is y or self.equal(x, y) for x, y in zip(a, args)) and k == kw:
                        return r
                r = self.call(f.f, args, kw)
                f.memo.append((args, kw, r))
                return r
            if f.kind == "contextmanager":
                return ManagedCall(f.f, args, kw)
            if f.kind in ("staticmethod", "classmethod"):
                return self.call(f.f, args, kw)
            raise Unsupported("call of a property")
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, Sym):
            if "call" in f.attrs:
                return self.call(f.attrs["call"], args, kw)
            self.taint("call of %s" % f.name)
            return Sym("%s(%s)" % (f.name, ", ".join(self.show(a) for a in args)), unmodelled=True)
        if isinstance(f, Instance):
            return self.call(self.getattr(f, "__call__"), args, kw)
        if isinstance(f, Ext):
            return self.external(f.name, args, kw)
        raise Raised(Exc("TypeError"))

    def instantiate(self, c, args, kw):
        bases = c.mro()
        exc = [b.name for b in bases if isinstance(b, Ext) and is_subtype(b.name, "BaseException")]
        if exc:
            o = Exc(exc[0], args, c)
            return o
        unknown = [b.name for b in bases if isinstance(b, Ext) and b.name not in ("object", "abc.ABC", "typing.Generic", "typing.Protocol", "importlib.abc.MetaPathFinder")]
        if unknown:
            self.taint("base class " + unknown[0])
        o = Instance(c)
        init = self.class_attr(c, "__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            if not unknown:
                raise Raised(Exc("TypeError"))
        return o

    def call_func(self, f, args, kw):
        a = f.node.args
        env = Env(f.env, {})
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        args = list(args)
        for i, name in enumerate(pos):
            if args:
                if isinstance(args[0], Star):
                    raise Unsupported("an unknown number of arguments")
                if name in kw:
                    raise Raised(Exc("TypeError"))
                env.names[name] = args.pop(0)
            elif name in kw:
                env.names[name] = kw.pop(name)
            else:
                j = i - (len(pos) - len(f.defaults))
                if j < 0:
                    raise Raised(Exc("TypeError"))
                env.names[name] = f.defaults[j]
        if a.vararg:
            env.names[a.vararg.arg] = tuple(args)
        elif args:
            raise Raised(Exc("TypeError"))
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                env.names[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env.names[x.arg] = d[0]
            else:
                raise Raised(Exc("TypeError"))
        if a.kwarg:
            env.names[a.kwarg.arg] = kw
        elif kw:
            raise Raised(Exc("TypeError"))
        if f.cls is not None and pos:
            env.this = (env.names[pos[0]], f.cls)
        self.functions.add("%s.%s" % (f.module, f.name))
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env, f.module)

        def run():
            try:
                self.block(f.node.body, env, f.module)
            except Returned as r:
                return r.value
            return None
        if isinstance(f.node, ast.AsyncFunctionDef):
            return Coro(run)
        if not self.yields_marker(f):
            return run()
        raise Unsupported("generator")

    def yields_marker(self, f):
        if not hasattr(f.node, "_yields"):
            f.node._yields = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f.node))
        return f.node._yields and not (self.yields and self.yields[-1].get("func") is f)

    def namespace(self, kw):
        o = Instance(Class("namespace", [], {}))
        o.attrs.update(kw)
        return o

    def external(self, name, args, kw):
        h = self.externals.get(name)
        if isinstance(h, Native):
            return h.f(self, args, kw)
        h = BUILTINS.get(name)
        if callable(h):
            return h(self, args, kw)
        if is_subtype(name, "BaseException"):
            return Exc(name, args)
        for prefix in PURE:
            if name.startswith(prefix):
                return Sym("%s(%s)" % (name, ", ".join(self.show(a) for a in args)), "str" if name in PURE_STR else None, unmodelled=True)
        # something which is not modelled: an unknown value, and nothing else is assumed to happen
        self.taint("call of %s" % name)
        return Sym("%s(%s)" % (name, ", ".join(self.show(a) for a in args)), unmodelled=True)


class ModuleRef:
    def __init__(self, name):
        self.name = name


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Lock:
    def __init__(self, reentrant):
        self.reentrant, self.count = reentrant, 0


class ManagedCall:
    """A call of a function decorated with contextmanager: the body of the `with` runs at its `yield`."""

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw

    def run(self, interp, body):
        f, args = self.f, self.args
        while isinstance(f, Bound):
            args = [f.obj] + args
            f = f.f
        k = {"body": body, "done": False, "func": f}
        interp.yields = interp.yields + [k]
        try:
            v = interp.call(f, args, self.kw)
            if isinstance(v, Coro):
                interp.await_(v)
        except Escape as e:
            raise e.signal
        finally:
            interp.yields = [x for x in interp.yields if x is not k]
        if not k["done"]:
            raise Raised(Exc("RuntimeError"))


def own_nodes(f):
    todo = list(f.body) if isinstance(f.body, list) else [f.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


PURE = ("logging.", "traceback.", "warnings.", "time.", "os.getenv", "os.environ", "os.getpid", "typing.", "sys.exc_info", "shutil.which")
PURE_STR = ("traceback.format_exc",)


def path_arg(a):
    if isinstance(a, Sym) and a.type == "pathlib.Path" and len(a.attrs["path"]) == 1:
        return a.attrs["path"][0]
    return str(a) if isinstance(a, pathlib.PurePath) else a


def os_path(f, type_=None):
    def g(i, args, kw):
        xs = [path_arg(a) for a in args]
        if all(isinstance(x, str) for x in xs):
            if f == "abspath":
                return posixpath.normpath(posixpath.join(i.cwd, xs[0]))
            return getattr(posixpath, f)(*xs)
        if f == "abspath" and isinstance(xs[0], Sym) and xs[0].attrs.get("absolute"):
            return xs[0]
        key = ("term", f, tuple(id(x) if isinstance(x, Sym) else x for x in xs))
        if key not in i.facts:
            s = Sym("%s(%s)" % (f, ", ".join(i.show(x) for x in xs)), type_ or "str", True)
            s.attrs["term"] = (f, xs)
            if f == "abspath":
                s.attrs["absolute"] = True
            i.facts[key] = (s, xs)  # keeps the operands alive
        return i.facts[key][0]
    return g


def b_len(i, a, k):
    v = a[0]
    if isinstance(v, (list, tuple, dict, str, bytes)) and not any(isinstance(x, Star) for x in v):
        return len(v)
    if isinstance(v, Sym) or isinstance(v, (list, tuple)):
        i.taint("length of %s" % i.show(v))
        return Sym("len(%s)" % i.show(v), "int", v.truth if isinstance(v, Sym) else None)
    raise Unsupported("len")


def b_getattr(i, a, k):
    try:
        return i.getattr(a[0], a[1])
    except Raised as r:
        if len(a) > 2 and isinstance(r.value, Exc) and r.value.type == "AttributeError":
            return a[2]
        raise


def b_hasattr(i, a, k):
    if isinstance(a[0], Sym) and not a[0].attrs.get("closed") and a[1] not in a[0].attrs:
        i.taint("hasattr")
    try:
        i.getattr(a[0], a[1])
        return True
    except Raised:
        return False


def b_type(i, a, k):
    return i.type_of(a[0])


def b_str(i, a, k):
    if not a:
        return ""
    if isinstance(a[0], (str, int, pathlib.PurePath)):
        return str(a[0])
    v = path_arg(a[0])
    if isinstance(v, Sym) and v.type == "str":
        return v
    return Sym("str(%s)" % i.show(a[0]), "str")


def b_bytes(i, a, k):
    if a and isinstance(a[0], bytes):
        return a[0]
    if a and isinstance(a[0], Sym) and a[0].type == "bytes":
        return a[0]
    return Sym("bytes(%s)" % ", ".join(i.show(x) for x in a), "bytes")


def b_sequence(make):
    def g(i, a, k):
        if not a:
            return make([])
        return make(i.items(a[0]))
    return g


def b_dict(i, a, k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for x in i.iterate(a[0]):
                kk, v = list(i.iterate(x))
                d[kk] = v
    d.update(k)
    return d


def b_enumerate(i, a, k):
    return [(n, x) for n, x in enumerate(i.iterate(a[0]))]


def b_range(i, a, k):
    if all(isinstance(x, int) for x in a):
        return list(range(*a))[:100]
    raise Unsupported("range")


def b_next(i, a, k):
    if isinstance(a[0], (Iter, list)):
        it = a[0] if isinstance(a[0], Iter) else Iter(a[0])
        if it.at < len(it.items):
            it.at += 1
            return it.items[it.at - 1]
        if len(a) > 1:
            return a[1]
        raise Raised(Exc("StopIteration"))
    raise Unsupported("next")


BUILTINS = {
    "len": b_len, "getattr": b_getattr, "hasattr": b_hasattr, "type": b_type, "str": b_str, "bytes": b_bytes,
    "isinstance": lambda i, a, k: i.isinstance(a[0], a[1]),
    "issubclass": lambda i, a, k: i.isinstance(Exc(a[0].name) if isinstance(a[0], Ext) else Instance(a[0]), a[1]),
    "setattr": lambda i, a, k: i.setattr(a[0], a[1], a[2]),
    "callable": lambda i, a, k: isinstance(a[0], (Func, Native, Bound, Class)) or (isinstance(a[0], Sym) and "call" in a[0].attrs),
    "list": b_sequence(list), "tuple": b_sequence(tuple), "set": b_sequence(list), "frozenset": b_sequence(list), "dict": b_dict,
    "iter": lambda i, a, k: Iter(i.items(a[0])), "next": b_next, "enumerate": b_enumerate, "range": b_range,
    "bool": lambda i, a, k: i.truth(a[0]) if a else False,
    "repr": lambda i, a, k: Sym("repr", "str"), "print": lambda i, a, k: None,
    "any": lambda i, a, k: any(i.truth(x) for x in i.iterate(a[0])), "all": lambda i, a, k: all(i.truth(x) for x in i.iterate(a[0])),
    "object": lambda i, a, k: Sym("object()", "object", True), "super": None, "property": None, "staticmethod": None, "classmethod": None,
    "id": lambda i, a, k: id(a[0]),
    "int": None, "float": None, "bytearray": None, "memoryview": None, "map": None, "zip": None, "sorted": None, "NotImplemented": None,
    "open": None, "__import__": None, "globals": None, "vars": None, "Ellipsis": None, "filter": None, "sum": None, "min": None, "max": None,
    "os.path.abspath": os_path("abspath"), "os.path.join": os_path("join"), "os.path.dirname": os_path("dirname"), "os.path.basename": os_path("basename"),
    "os.path.splitext": os_path("splitext", "tuple"), "os.path.realpath": os_path("abspath"), "os.path.normpath": os_path("normpath"),
    "os.path.isabs": lambda i, a, k: posixpath.isabs(a[0]) if isinstance(a[0], str) else Sym("isabs"),
    "os.fspath": lambda i, a, k: path_arg(a[0]), "os.getcwd": lambda i, a, k: i.cwd,
    "pathlib.Path": lambda i, a, k: pathlib.PurePosixPath(*a) if all(isinstance(x, (str, pathlib.PurePath)) for x in a) else Sym("Path(%s)" % ", ".join(map(i.show, a)), "pathlib.Path", path=a),
    "pathlib.PurePath": lambda i, a, k: pathlib.PurePosixPath(*a),
    "contextlib.suppress": lambda i, a, k: Sym("suppress", "contextlib.suppress", types=a),
    "contextlib.nullcontext": lambda i, a, k: Sym("nullcontext", "contextlib.suppress", types=()),
    "functools.wraps": lambda i, a, k: Sym("wraps", "decorator"),
    "functools.lru_cache": lambda i, a, k: Sym("lru_cache", "decorator", cache=True) if not a or not isinstance(a[0], (Func, Bound)) else Wrapped("cache", a[0]),
    "functools.cache": lambda i, a, k: Wrapped("cache", a[0]),
    "functools.partial": lambda i, a, k: Native("partial", lambda j, b, l: j.call(a[0], a[1:] + b, {**k, **l})),
    "threading.Lock": lambda i, a, k: Lock(False), "threading.RLock": lambda i, a, k: Lock(True), "asyncio.Lock": lambda i, a, k: Lock(False),
    "threading.local": lambda i, a, k: Instance(Class("local", [], {})), "types.SimpleNamespace": lambda i, a, k: i.namespace(k),
    "inspect.isawaitable": lambda i, a, k: isinstance(a[0], Coro) or (isinstance(a[0], Sym) and "await" in a[0].attrs),
    "asyncio.iscoroutine": lambda i, a, k: isinstance(a[0], Coro), "inspect.iscoroutine": lambda i, a, k: isinstance(a[0], Coro),
    "asyncio.ensure_future": lambda i, a, k: a[0], "asyncio.shield": lambda i, a, k: a[0], "asyncio.create_task": lambda i, a, k: a[0],
    "asyncio.sleep": lambda i, a, k: Sym("sleep", "awaitable", True, **{"await": Native("sleep", lambda j, b, l: None)}),
    "typing.cast": lambda i, a, k: a[1], "typing.TypeVar": lambda i, a, k: Ext("typing.TypeVar"),
    "time.sleep": lambda i, a, k: None,
    "sys.exc_info": lambda i, a, k: (i.type_of(i.handling[-1]), i.handling[-1], None) if i.handling else (None, None, None),
}
for _n in list(HIERARCHY) + ["BaseException"]:
    if "." not in _n:
        BUILTINS.setdefault(_n, None)
BUILTINS.setdefault("object", None)


def paths(build, limit=4000):
    """build(decisions) runs one path and returns (interp, result); all of them are enumerated."""
    decisions = []
    n = 0
    while True:
        interp, result = build(decisions)
        n += 1
        yield interp, result
        taken = [(c, k) for c, k, _ in interp.taken]
        while taken and taken[-1][0] + 1 >= taken[-1][1]:
            taken.pop()
        if not taken:
            return
        if n >= limit:
            raise Unsupported("too many paths")
        decisions = [c for c, _ in taken[:-1]] + [taken[-1][0] + 1]
