"""Driver of the analyses: builds the analyser, compiles the witnesses against /repo's current headers, runs the
analyses, writes the evidence, prints the verdict."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WITNESS = os.path.join(VERIF, "witness")
BUILD = os.path.join(VERIF, "build")
INCLUDE = os.path.join(REPO, "include")
JOBS = 8

CLANG = "clang++"
GCC = "g++-11"

CFG = {
    "def": [],
    "le": ["-DUPD_PLATFORM_ENDIANESS=LITTLE", "-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT"],
    "e": ["-DUPD_PLATFORM_ENDIANESS=LITTLE"],
    "s": ["-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT"],
    # big-endian hosts only
    "be": ["-DUPD_PLATFORM_ENDIANESS=BIG", "-DUPD_PLATFORM_SIGNED_MODE=TWOS_COMPLEMENT"],
    "bee": ["-DUPD_PLATFORM_ENDIANESS=BIG"],
}
HOST = "x86_64"
TARGETS = {
    HOST: [],
    "ppc64": ["--target=powerpc64-linux-gnu"],  # big-endian, 64 bits
    "s390x": ["--target=s390x-linux-gnu"],  # big-endian, 64 bits
    "i386": ["--target=i386-linux-gnu"],  # 32 bits
    "arm": ["--target=arm-linux-gnueabi"],  # 32 bits, char is unsigned
    "armeb": ["--target=armeb-linux-gnueabi"],  # 32 bits, big-endian
    "avr": ["--target=avr", "-mmcu=atmega328p"],  # 16-bit int
    "msp430": ["--target=msp430"],  # 16-bit int
}


REAL_FLAGS = ["-isystem", "/usr/include/python3.12"]
PYTHON = ["-isystem", os.path.join(WITNESS, "pystub"), '-DPY_DETAILS="%s"' % os.path.join(REPO, "py", "unpadded", "_details.cpp")]


class Broken(Exception):
    """The check itself cannot give an answer."""


def sh(cmd, timeout=600, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=cwd,
                          errors="replace")


# ---------------------------------------------------------------------------------------------------- the analyser

def build_engine():
    src = os.path.join(VERIF, "engine", "va.cpp")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "va-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    cfg = sh(["llvm-config-18", "--cxxflags", "--ldflags", "--libs", "core", "irreader", "support", "demangle"])
    if cfg.returncode:
        raise Broken("llvm-config-18 failed: " + cfg.stderr)
    tmp = exe + ".%d.tmp" % os.getpid()
    r = sh([CLANG, "-O1", "-std=c++17", src, "-o", tmp] + cfg.stdout.split() + ["-fexceptions", "-Wno-everything"])
    if r.returncode:
        raise Broken("the analyser does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def target_flags(t):
    if t == HOST:
        return []
    return TARGETS[t] + [
        "-nostdinc++", "-nostdlibinc", "-isystem", os.path.join(WITNESS, "stub"), "-isystem", "/usr/include/c++/13",
        "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-isystem", "/usr/lib/llvm-18/lib/clang/18/include",
        "-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", "/usr/include", "-Wno-everything"
    ]


class Unit:
    """A witness program and the configurations under which it is analysed."""

    def __init__(self, src, stds=(11, 17), cfgs=("def", "le"), targets=(HOST,), defs=((),), internal=False, secs=60,
                 flags=(), combos=None, real=None):
        self.real = real  # the same program without the stand-ins of libraries
        self.src, self.stds, self.cfgs, self.targets, self.defs = src, stds, cfgs, targets, defs
        self.internal, self.secs, self.flags, self.combos = internal, secs, list(flags), combos

    def jobs(self):
        for d in self.defs:
            if self.combos:
                for std, cfg, t in self.combos:
                    yield Job(self, std, cfg, t, d)
                continue
            for t in self.targets:
                for cfg in self.cfgs:
                    for std in self.stds:
                        yield Job(self, std, cfg, t, d)


class Job:
    def __init__(self, unit, std, cfg, target, defs):
        self.unit, self.std, self.cfg, self.target, self.defs = unit, std, cfg, target, tuple(defs)

    def name(self):
        return "%s[c++%d,%s,%s%s]" % (self.unit.src, self.std, self.cfg, self.target,
                                      "".join("," + d for d in self.defs))

    def flags(self):
        return (["-std=gnu++%d" % self.std] + CFG[self.cfg] + ["-D" + d for d in self.defs] + self.unit.flags +
                ["-I" + INCLUDE, "-I" + WITNESS])


def headers_only(src, tmp):
    out = os.path.join(tmp, "h_" + os.path.basename(src))
    with open(src) as f, open(out, "w") as g:
        for line in f:
            if re.match(r"\s*#\s*include\s*<upd/", line):
                g.write(line)
    return out


def compile_job(job, tmp, idx):
    src = os.path.join(WITNESS, job.unit.src)
    bc = os.path.join(tmp, "w%d.bc" % idx)
    cmd = [CLANG] + job.flags() + target_flags(job.target) + [
        "-O1", "-fbracket-depth=4096", "-ftemplate-depth=4096", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-Wno-everything", "-emit-llvm", "-c",
        src, "-o", bc]
    r = sh(cmd)
    if r.returncode == 0:
        return bc, None
    err = first_error(r.stderr)
    # the witness is rejected: whose fault is it?
    if job.unit.real:
        base = [GCC, "-std=gnu++%d" % job.std, "-fsyntax-only", "-w", "-I" + INCLUDE, "-I" + os.path.join(REPO, "py", "unpadded")] + REAL_FLAGS
        alone = os.path.join(tmp, "alone%d.cpp" % idx)
        with open(alone, "w") as f:
            f.write("#include <pybind11/pybind11.h>\n#include <pybind11/functional.h>\n#include <pybind11/stl.h>\n")
        if sh(base + [alone]).returncode:
            return None, ("toolchain", "pybind11 cannot be compiled: " + err)
        r = sh(base + [os.path.join(WITNESS, job.unit.real)])
        if r.returncode == 0:
            return None, ("toolchain", "the model of pybind11 is too small (g++-11 and pybind11 accept the program): " + err)
        return None, ("rejected", first_error(r.stderr))
    g = sh([GCC] + job.flags() + ["-fsyntax-only", "-w", src]) if job.target == HOST else None
    h = sh([CLANG] + job.flags() + target_flags(job.target) + ["-fsyntax-only", "-w", headers_only(src, tmp)])
    if h.returncode:
        return None, ("toolchain", "clang rejects the headers themselves: " + first_error(h.stderr))
    if g is None or g.returncode == 0:
        return None, ("toolchain", "clang rejects the witness (g++-11 does not): " + err)
    if job.unit.internal:
        return None, ("internal", "the witness relies on internal names which are gone: " + err)
    return None, ("rejected", err + " | g++-11: " + first_error(g.stderr))


def first_error(s):
    for line in s.splitlines():
        if re.search(r"\b(fatal )?error\b", line):
            return line.strip()[:600]
    return s.strip()[:300]


class Watch:
    """Ends the analyses when they last too long, or soon after one of them has reported a violation."""

    def __init__(self, pid):
        self.t0 = time.time()
        self.found = None
        self.limit = float(os.environ.get("VERIF_LIMIT", "760"))
        self.known = known_findings(pid) if pid else None

    def over(self):
        t = time.time()
        return t - self.t0 > self.limit or (self.found is not None and t - self.found > 20)

    def why(self):
        return "not needed any more: a violation was found" if self.found else "the time allowed to the check is over"

    def run(self, cmd):
        with tempfile.TemporaryFile("w+", errors="replace") as out, tempfile.TemporaryFile("w+", errors="replace") as err:
            p = subprocess.Popen(cmd, stdout=out, stderr=err)
            at = 0
            while True:
                try:
                    p.wait(timeout=1)
                except subprocess.TimeoutExpired:
                    pass
                at = self.scan(out, at)
                if p.returncode is not None:
                    break
                if self.over():
                    p.kill()
                    p.wait()
                    break
            out.seek(0)
            err.seek(0)
            return subprocess.CompletedProcess(cmd, p.returncode, out.read(), err.read())

    def scan(self, out, at):
        if self.known is None or self.found is not None:
            return at
        data = os.pread(out.fileno(), 1 << 26, at)
        end = data.rfind(b"\n") + 1
        for line in data[:end].decode(errors="replace").splitlines():
            if '"REFUTED"' not in line:
                continue
            d = json.loads(line)
            if d.get("kind") != "obligation" or d["status"] != "REFUTED" or d["id"] in ("arithmetic", "safety"):
                continue
            key = "%s/%s" % (re.sub(r"^prop_", "", d["entry"]), d["id"])
            if not any(rx.fullmatch(key) for rx, _, _ in self.known):
                self.found = time.time()
        return at + end


class Obligation:
    __slots__ = ("unit", "entry", "id", "status", "detail", "loc", "path")

    def __init__(self, unit, entry, id, status, detail="", loc="", path=()):
        self.unit, self.entry, self.id, self.status, self.detail, self.loc, self.path = (unit, entry, id, status, detail,
                                                                                        loc, list(path))

    def key(self):
        return "%s/%s" % (re.sub(r"^prop_", "", self.entry), self.id)


class Result:
    def __init__(self):
        self.obligations = []
        self.units = []
        self.skipped = []
        self.functions = set()
        self.entries = 0
        self.states = self.steps = self.instructions = self.joined = 0
        self.undecided_entries = []
        self.notes = []
        self.methods = []

    def add(self, *a, **k):
        self.obligations.append(Obligation(*a, **k))


def analyse_units(units, res, arithmetic=False, exe=None, safety=True, pid=None):
    tmp = tempfile.mkdtemp(prefix="va.")
    try:
        jobs = [j for u in units for j in u.jobs()]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            engine = ex.submit(build_engine) if exe is None else None

            watch = Watch(pid)

            def one(i):
                job = jobs[i]
                if watch.over():
                    return job, None, ("time", watch.why())
                bc, err = compile_job(job, tmp, i)
                if bc is None:
                    return job, None, err
                va = engine.result() if engine else exe
                r = watch.run([va, bc, "--repo", REPO, "--secs", str(job.unit.secs)])
                os.remove(bc)
                return job, r, None

            # the first worker builds the analyser
            out = list(ex.map(one, range(len(jobs))))
        ok = 0
        for job, r, err in out:
            n = job.name()
            if err:
                kind, msg = err
                if kind == "rejected":
                    res.add(n, "program", "client program is accepted", "REFUTED",
                            "a client program which uses the documented interface no longer compiles: " + msg, msg)
                    ok += 1
                else:
                    res.skipped.append({"unit": n, "why": kind + ": " + msg})
                continue
            entries = 0
            for line in r.stdout.splitlines():
                if not line.startswith("{"):
                    continue
                try:
                    d = json.loads(line)
                except ValueError:  # interrupted
                    continue
                if d["kind"] == "error":
                    res.skipped.append({"unit": n, "why": d["msg"]})
                elif d["kind"] == "obligation":
                    if d["id"] == "arithmetic":
                        if not arithmetic:
                            continue
                    if d["id"] == "safety" and not safety:
                        continue
                    res.add(n, d["entry"], d["id"], d["status"], d["detail"], d["loc"], d["path"])
                elif d["kind"] == "entry":
                    entries += 1
                    res.entries += 1
                    res.states += d["states"]
                    res.steps += d["steps"]
                    res.joined += d["joined"]
                    res.instructions += d["lib_instructions"]
                    res.functions.update(d["libs"])
                    if d["incomplete"]:
                        res.undecided_entries.append({"unit": n, "entry": d["entry"], "why": d["why"]})
                    elif d["safety"] == "PROVED" and safety:
                        res.add(n, d["entry"], "safety", "PROVED")
                    if arithmetic and not d["incomplete"] and not any(
                            o.unit == n and o.entry == d["entry"] and o.id == "arithmetic" for o in res.obligations[-400:]):
                        res.add(n, d["entry"], "arithmetic", "PROVED")
            if r.returncode == -9 and watch.found is not None:
                res.skipped.append({"unit": n, "why": watch.why()})
                ok += 1
                continue
            if r.returncode != 0 or not entries:
                res.skipped.append({"unit": n, "why": "analyser ended with %d: %s" % (r.returncode, r.stderr[-400:])})
                continue
            ok += 1
            res.units.append({"unit": n, "entries": entries})
        if not ok:
            raise Broken("no witness could be analysed: " + json.dumps(res.skipped)[:2000])
        if not res.functions and not any(o.status == "REFUTED" for o in res.obligations):
            raise Broken("no function of the library was analysed")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


UNIT = re.compile(r"(?P<src>[^\[]+)\[c\+\+(?P<std>\d+),(?P<cfg>\w+),(?P<target>\w+)(?P<defs>.*)\]$")


def relative(res):
    """What fails in the baseline (no platform declaration, native host) does not depend on the platform: it belongs to
    other properties. What could not be decided there proves nothing either."""
    def split(o):
        m = UNIT.match(o.unit)
        return m and ((m["src"], m["std"], m["defs"], o.entry, o.id), m["cfg"] == "def" and m["target"] == HOST)
    base = {}
    analysed = set()
    for o in res.obligations:
        k = split(o)
        if k and k[1]:
            analysed.add(k[0][:3])
            if o.status != "PROVED":
                base.setdefault(k[0], o.status)
    whole = {k[:3] for k in base if k[3] == "program"}
    for o in res.obligations:
        k = split(o)
        if not k or o.status != "REFUTED":
            continue
        if k[1] or k[0] in base or k[0][:3] in whole or k[0][:3] not in analysed:
            o.status = "UNKNOWN"
            o.detail = "fails without any platform declaration as well: " + o.detail


# ------------------------------------------------------------------------------------------------------- verdict

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) loc=(\S*) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2).replace("~", " ")), m.group(3), m.group(4)))
    return out


def finish(pid, tier, level, res, t0, rules, assumptions, technique):
    known = known_findings(pid)
    refuted = [o for o in res.obligations if o.status == "REFUTED"]
    violations, knownhits = [], {}
    for o in refuted:
        for rx, loc, what in known:
            if rx.fullmatch(o.key()) and (not loc or loc in o.loc):
                knownhits.setdefault(what, []).append(o)
                break
        else:
            violations.append(o)
    proved = [o for o in res.obligations if o.status == "PROVED"]
    unknown = [o for o in res.obligations if o.status == "UNKNOWN"]
    samples = []
    seen = set()
    for o in proved:
        k = (o.entry, o.id)
        if len(samples) < 12 and o.entry not in seen:
            seen.add(o.entry)
            samples.append(dict({"unit": o.unit, "entry": o.entry, "rule": o.id, "status": o.status}, **({"detail": o.detail} if o.detail else {})))
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "technique": technique,
            "rules": rules,
            "obligations": len(res.obligations),
            "discharged": len(proved),
            "undecided": len(unknown),
            "violated": len(violations),
            "known_findings": len(knownhits),
            "checker_cmd": "python3 %s/vlib/main.py %s" % (VERIF, pid),
            "trusted_base": [
                "engine/va.cpp (abstract interpreter, %s)" % "LLVM 18 IR semantics as modelled there",
                "clang 18 front end (source to unoptimised LLVM IR)",
                "witness/*.cpp,*.hpp (statement of the property; the specification is independent of the library)",
            ] if res.entries else ["vlib/*.py", "gcc 11 and clang 18 front ends"],
            "witness_programs": res.units,
            "entries": res.entries,
            "abstract_states": res.states,
            "abstract_steps": res.steps,
            "states_joined_modulo_renaming": res.joined,
            "library_instructions_analysed": res.instructions,
            "library_functions": sorted(f.split(":")[0] if f.count(":") > 3 else f for f in res.functions)[:400],
            "samples": samples,
            "skipped_units": res.skipped,
            "undecided_entries": res.undecided_entries,
            "undecided_obligations": [{"unit": o.unit, "entry": o.entry, "rule": o.id, "why": o.detail} for o in unknown][:200],
            "notes": res.notes,
            "explanation": "; ".join(res.methods) or technique,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for what, os_ in knownhits.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d entries, %d library functions, %.1f s" %
          (pid, len(res.obligations), len(proved), len(unknown), len(violations), res.entries, len(res.functions),
           time.time() - t0))
    for s in res.skipped[:10]:
        print("  not analysed: %s: %s" % (s["unit"], s["why"][:300]))
    for s in res.undecided_entries[:10]:
        print("  undecided: %s %s: %s" % (s["unit"], s["entry"], s["why"][:300]))
    if not violations:
        return 0
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + ".txt")
    with open(rp, "w") as f:
        f.write("property %s\nrules: %s\nreplay: cd %s && python3 vlib/main.py %s\n\n" % (pid, "; ".join(rules), VERIF, pid))
        for o in violations:
            f.write("unit:  %s\nentry: %s\nrule:  %s\nat:    %s\nwhat:  %s\n" % (o.unit, o.entry, o.id, o.loc, o.detail))
            for p in o.path:
                f.write("   through %s\n" % p)
            f.write("\n")
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    groups = {}
    for o in violations:
        groups.setdefault((o.id, o.loc), []).append(o)
    for (i, loc), os_ in list(groups.items())[:12]:
        o = os_[0]
        print("  rule:   %s (%d instance(s), e.g. %s in %s)" % (i, len(os_), o.entry, o.unit))
        print("  at:     %s" % loc)
        print("  what:   %s" % o.detail)
        for p in o.path[:6]:
            print("    through %s" % p)
    return 1
