"""C31: the Python client, by abstract interpretation of its source on every path."""
import glob
import os

import driver
import pyai
from pyai import Exc, Instance, Interp, Native, Raised, Star, Sym, Unsupported

MOD = "unpadded.client"
PKG = os.path.join("py", "unpadded")


def sources():
    """Every module of the package but those which have effects when imported; they are interpreted when imported only."""
    out = {}
    for p in glob.glob(os.path.join(driver.REPO, PKG, "*.py")):
        n = os.path.splitext(os.path.basename(p))[0]
        if n not in ("__init__", "__main__"):
            out["unpadded." + n] = p
    return out


class Key:
    """A key: what is asked to it is recorded, its answers are opaque."""

    def __init__(self, name, log, encode_fails=False, decode_fails=False, decoded=None):
        self.name = name
        self.payload = Sym("packet of " + name, "bytes", True)
        self.decoded = decoded if decoded is not None else [Sym("value decoded by " + name)]
        self.error = Exc("ValueError", (name,))

        def encode(i, a, k):
            log.append(("encode", self, a, k))
            if encode_fails:
                raise Raised(self.error)
            return self.payload

        def decode(i, a, k):
            log.append(("decode", self, a, k))
            if decode_fails:
                raise Raised(self.error)
            return self.decoded[0]
        self.value = Sym("key " + name, "Key", True, encode=Native("encode", encode), decode=Native("decode", decode), closed=True,
                         index=Native("index", lambda i, a, k: Sym("index of " + name, "int")))


RESPONSES = [
    ("empty bytes", lambda: b"", True), ("bytes", lambda: Sym("response", "bytes", True), True), ("bytes of unknown content", lambda: Sym("response", "bytes"), True),
    ("None", lambda: None, False), ("integer", lambda: Sym("value", "int"), False), ("zero", lambda: 0, False), ("False", lambda: False, False),
    ("string", lambda: Sym("text", "str"), False), ("empty string", lambda: "", False), ("tuple", lambda: Sym("tuple", "tuple"), False), ("list", lambda: Sym("list", "list"), False),
    ("dictionary", lambda: Sym("dict", "dict"), False), ("float", lambda: Sym("float", "float"), False), ("object", lambda: Sym("object", "UserType", True), False),
    ("bytearray", lambda: Sym("bytearray", "bytearray"), False), ("memoryview", lambda: Sym("memoryview", "memoryview"), False),
    ("exception object", lambda: Exc("ValueError"), False),
]
ARGS = [("no argument", lambda: []), ("one argument", lambda: [Sym("a")]), ("two arguments", lambda: [Sym("a"), Sym("b")]),
        ("five arguments", lambda: [Sym(x) for x in "abcde"]), ("falsy arguments", lambda: [0, None, False, b"", ()]),
        ("one bytes argument", lambda: [Sym("a", "bytes")]), ("one list argument", lambda: [Sym("a", "list")]),
        ("equal arguments", lambda: (lambda s: [s, s])(Sym("a"))), ("any number of arguments", lambda: [Star(Sym("args"))])]


def same_args(a, b):
    return len(a) == len(b) and all((x.sym is y.sym) if isinstance(x, Star) and isinstance(y, Star) else (x is y or (not isinstance(x, (Sym, Star)) and type(x) == type(y) and x == y)) for x, y in zip(a, b))


class Scenario:
    def __init__(self, name, modules):
        self.name, self.modules = name, modules
        self.verdicts = {}  # rule -> [status, detail, loc]
        self.paths = 0
        self.functions = set()

    def verdict(self, interp, rule, ok, detail=""):
        if ok:
            self.verdicts.setdefault(rule, ["PROVED", "", ""])
            return
        loc = "%s/client.py:%s" % (PKG, getattr(interp.where, "lineno", "?"))
        if interp.tainted:
            if self.verdicts.get(rule, ["PROVED"])[0] != "REFUTED":
                self.verdicts[rule] = ["UNKNOWN", "depends on what is not modelled (%s): %s" % (interp.tainted, detail), loc]
        elif self.verdicts.get(rule, [""])[0] != "REFUTED":
            self.verdicts[rule] = ["REFUTED", detail + (" [when %s]" % ", ".join("%s: %s" % (l, "yes" if c == 0 else "no") for c, n, l in interp.taken) if interp.taken else ""), loc]

    def run(self, path):
        """path(interp, scenario)"""
        def build(decisions):
            i = Interp(self.modules, {}, decisions)
            try:
                i.module(MOD)
                path(i, self)
            except Unsupported as e:
                self.verdicts["path"] = ["UNKNOWN", "not modelled: %s (line %s)" % (e, getattr(i.where, "lineno", "?")), ""]
            except Raised as r:
                self.verdict(i, "no error of the client's own", False, "the client raises %r" % (r.value,))
            self.functions |= i.functions
            self.paths += 1
            return i, None
        try:
            for _ in pyai.paths(build):
                pass
        except Unsupported as e:
            self.verdicts["path"] = ["UNKNOWN", str(e), ""]


def user_client(i, log, answer):
    """An instance of a user's class which derives from Client and implements new_request(); answer(interp) is what the
    request does once awaited."""
    base = i.loaded[MOD].names.get("Client")
    if not isinstance(base, pyai.Class):
        raise Unsupported("Client is not a class of the module")

    def new_request(interp, a, k):
        log.append(("request", a[0], a[1:], k))
        req = len([e for e in log if e[0] == "request"])

        def wait(j, b, l):
            log.append(("await", req))
            return answer(j)
        return Sym("request %d" % req, "awaitable", True, **{"await": Native("await", wait), "closed": True})
    cls = pyai.Class("UserClient", [base], {"new_request": Native("new_request", new_request)})
    return i.instantiate(cls, [], {})


def call(i, client, key, args):
    """-> ("returned", value) or ("raised", exception)"""
    try:
        return "returned", i.await_(i.call(i.getattr(client, "call"), [key.value] + list(args), {}))
    except Raised as r:
        return "raised", r.value


def check(s, i, client, key, args, log, out, response=None, response_error=None, expect_decode=None, encode_fails=False, decode_fails=False, lo=0, nested=()):
    """the events of one call, given what the user's side does"""
    ev = [e for e in log[lo:] if e not in nested]
    enc = [e for e in ev if e[0] == "encode"]
    req = [e for e in ev if e[0] == "request"]
    dec = [e for e in ev if e[0] == "decode"]
    s.verdict(i, "the key encodes exactly the given arguments, once", len(enc) == 1 and enc[0][1] is key and not enc[0][3] and same_args(enc[0][2], args),
              "%d calls of encode()%s" % (len(enc), " with other arguments" if len(enc) == 1 else ""))
    if encode_fails:
        s.verdict(i, "an error of the encoding reaches the caller unchanged and nothing is sent", out == ("raised", key.error) and not req and not dec, "got %s" % (out,))
        return
    s.verdict(i, "exactly that packet is passed to the request function, once", len(req) == 1 and req[0][1] is client and len(req[0][2]) == 1 and req[0][2][0] is key.payload and not req[0][3],
              "%d requests%s" % (len(req), " of %r" % (req[0][2],) if len(req) == 1 else ""))
    s.verdict(i, "the request is awaited once", len([e for e in ev if e[0] == "await"]) == 1, "awaited %d times" % len([e for e in ev if e[0] == "await"]))
    if response_error is not None:
        s.verdict(i, "an error of the request reaches the caller unchanged", out[0] == "raised" and out[1] is response_error and not dec, "got %s" % (out,))
        return
    if expect_decode:
        s.verdict(i, "the same key decodes the response, once", len(dec) == 1 and dec[0][1] is key and len(dec[0][2]) == 1 and dec[0][2][0] is response and not dec[0][3],
                  "%d calls of decode()%s" % (len(dec), " of %s" % ("another key" if dec and dec[0][1] is not key else "something else") if len(dec) == 1 else ""))
        if decode_fails:
            s.verdict(i, "an error of the decoding reaches the caller unchanged", out == ("raised", key.error), "got %s" % (out,))
        else:
            s.verdict(i, "the decoded value is returned", out[0] == "returned" and out[1] is key.decoded[0], "got %s" % (out,))
    else:
        s.verdict(i, "a response which is not bytes is returned as it is, not decoded", out[0] == "returned" and out[1] is response and type(out[1]) == type(response) and not dec,
                  "got %s after %d calls of decode()" % (out, len(dec)))


def scenarios(modules, tier):
    out = []

    def add(name, path):
        s = Scenario(name, modules)
        s.run(path)
        out.append(s)
    for an, mk in ARGS:
        for rn, resp, dec in RESPONSES if an in ("two arguments", "no argument") or tier == "thorough" else RESPONSES[:4]:
            def path(i, s, mk=mk, resp=resp, dec=dec):
                log = []
                r = resp()
                k, args = Key("k", log), mk()
                c = user_client(i, log, lambda j: r)
                o = call(i, c, k, args)
                check(s, i, c, k, args, log, o, response=r, expect_decode=dec)
            add("%s, %s" % (an, rn), path)
    for dn, d in (("None", None), ("zero", 0), ("False", False), ("empty bytes", b""), ("empty list", lambda: [])):
        def path(i, s, d=d):
            log = []
            r = Sym("response", "bytes", True)
            k = Key("k", log, decoded=[d() if callable(d) else d])
            c = user_client(i, log, lambda j: r)
            args = [Sym("a")]
            check(s, i, c, k, args, log, call(i, c, k, args), response=r, expect_decode=True)
        add("response decoded to " + dn, path)
    for kind in ("encode", "request", "await", "decode"):
        for t in ("ValueError", "NotImplementedError", "asyncio.CancelledError", "ImportError", "OSError", "KeyError", "AttributeError", "TimeoutError", "KeyboardInterrupt", "TypeError"):
            def path(i, s, kind=kind, t=t):
                log = []
                e = Exc(t, ("user",))
                r = Sym("response", "bytes", True)
                k = Key("k", log, encode_fails=kind == "encode", decode_fails=kind == "decode")
                k.error = e

                def answer(j):
                    if kind == "await":
                        raise Raised(e)
                    return r
                c = user_client(i, log, answer)
                if kind == "request":
                    base = c.cls.ns["new_request"]

                    def failing(j, a, kw):
                        base.f(j, a, kw)
                        log.append(("await", 0))
                        raise Raised(e)
                    c.cls.ns["new_request"] = Native("new_request", failing)
                args = [Sym("a"), Sym("b")]
                o = call(i, c, k, args)
                check(s, i, c, k, args, log, o, response=r, response_error=e if kind in ("request", "await") else None, expect_decode=kind not in ("request", "await"),
                      encode_fails=kind == "encode", decode_fails=kind == "decode")
                # the client works as before afterwards
                log2 = len(log)
                k2 = Key("k2", log)
                if kind in ("encode", "decode"):
                    o = call(i, c, k2, args)
                    check(s, i, c, k2, args, log, o, response=r, expect_decode=True, lo=log2)
            add("%s raises %s" % ({"encode": "the encoding", "request": "the request function", "await": "the request", "decode": "the decoding"}[kind], t), path)

    def sequence(i, s, same):
        log = []
        rs = [Sym("response %d" % n, "bytes", True) for n in range(4)]
        at = [0]

        def answer(j):
            at[0] += 1
            return rs[at[0] - 1]
        c = user_client(i, log, answer)
        a, b = Sym("a"), Sym("b")
        k = Key("k", log)
        for n, (key, args) in enumerate([(k, [a]), (k if same else Key("l", log), [b]), (k, [a]), (k, [])]):
            # each encoding is a new packet
            key.payload = Sym("packet %d" % n, "bytes", True)
            key.decoded = [Sym("value %d" % n)]
            lo = len(log)
            o = call(i, c, key, args)
            check(s, i, c, key, args, log, o, response=rs[n], expect_decode=True, lo=lo)
    add("calls of one key in sequence", lambda i, s: sequence(i, s, True))
    add("calls of two keys in sequence", lambda i, s: sequence(i, s, False))

    def interleaved(i, s, kinds, same_key, two_clients):
        """while the first request is pending, another call begins and ends"""
        log, inner = [], []
        r = [b"" if kinds[0] == "b" else Sym("value 0", "int"), Sym("response 1", "bytes", True) if kinds[1] == "b" else Sym("value 1", "int")]
        k = Key("k", log)
        l = k if same_key else Key("l", log)
        p0, p1 = Sym("packet 0", "bytes", True), Sym("packet 1", "bytes", True)
        k.payload = p0
        a, b = [Sym("a")], [Sym("b"), Sym("c")]
        depth = [0]
        state = {}

        def answer(j):
            depth[0] += 1
            if depth[0] == 1:
                lo = len(log)
                if same_key:
                    k.payload = p1
                else:
                    l.payload = p1
                o = call(i, c2, l, b)
                state["inner"] = (lo, len(log), o)
                inner.extend(log[lo:])
                if same_key:
                    k.payload = p0
                return r[0]
            return r[1]
        c = user_client(i, log, answer)
        c2 = user_client(i, log, answer) if two_clients else c
        o = call(i, c, k, a)
        if "inner" not in state:
            check(s, i, c, k, a, log, o, response=r[0], expect_decode=kinds[0] == "b")
            return
        lo, hi, oi = state["inner"]
        check(s, i, c, k, a, log[:lo] + log[hi:], o, response=r[0], expect_decode=kinds[0] == "b")
        if same_key:
            k.payload = p1
        check(s, i, c2, l, b, log[lo:hi], oi, response=r[1], expect_decode=kinds[1] == "b")
    for kinds in ("bb", "bv", "vb", "vv"):
        for same in (False, True):
            for two in (False, True):
                add("interleaved calls (%s, %s, %s)" % (kinds, "one key" if same else "two keys", "two clients" if two else "one client"),
                    lambda i, s, kinds=kinds, same=same, two=two: interleaved(i, s, kinds, same, two))

    def abstract(i, s):
        base = i.loaded[MOD].names.get("Client")
        c = i.instantiate(base, [], {})
        try:
            i.await_(i.call(i.getattr(c, "new_request"), [Sym("packet", "bytes", True)], {}))
            got = "no error"
        except Raised as r:
            got = r.value.type if isinstance(r.value, Exc) else r.value
        s.verdict(i, "a client which implements no request says so", got == "NotImplementedError", "got %s" % (got,))
        log = []
        o = call(i, c, Key("k", log), [Sym("a")])
        s.verdict(i, "a call through a client which implements no request says so", o[0] == "raised" and isinstance(o[1], Exc) and o[1].type == "NotImplementedError", "got %s" % (o,))
        s.verdict(i, "nothing is decoded when no request was made", not [e for e in log if e[0] == "decode"], "")
    add("client without requests", abstract)

    def override(i, s):
        """derived of derived, with state of its own"""
        log = []
        r = Sym("response", "bytes", True)
        c = user_client(i, log, lambda j: r)
        c.attrs["state"] = Sym("state")
        cls = pyai.Class("Derived", [c.cls], {})
        d = i.instantiate(cls, [], {})
        k, args = Key("k", log), [Sym("a")]
        check(s, i, d, k, args, log, call(i, d, k, args), response=r, expect_decode=True)
    add("client derived twice", override)
    return out


def run(res, tier):
    srcs = sources()
    if MOD not in srcs:
        raise driver.Broken("there is no %s any more" % MOD)
    modules = pyai.Modules(srcs)
    res.methods.append("abstract interpretation of the syntax tree of py/unpadded/client.py: opaque arguments, keys, requests and responses, every branch and every exception")
    n = 0
    for s in scenarios(modules, tier):
        res.entries += 1
        n += 1
        res.states += s.paths
        res.functions |= {f for f in s.functions}
        for rule, (status, detail, loc) in s.verdicts.items():
            res.add("client.py", s.name, rule, status, detail, loc)
        if "path" in s.verdicts:
            res.undecided_entries.append({"unit": "client.py", "entry": s.name, "why": s.verdicts["path"][1]})
    res.units.append({"unit": "py/unpadded/client.py", "entries": n})
