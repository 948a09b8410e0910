"""What surrounds a call: C22 (outcomes do not depend on the process they
happen in), C23 (calls do nothing but return), C24 (calls leave no memory
behind)."""

import gc
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import tracemalloc

from . import api, core, plans, spec, watch
from .checks import ENCODERS, any_text, check, size
from .history import cluster, random_call
from .spec import CODING, CODINGS_OF

HERE = os.path.dirname(os.path.abspath(__file__))


def hostile_call(c):
    """A call that need not make sense."""
    r = c.rng
    t, cpl = any_text(c)
    k = r.random()
    if k < 0.3:
        t = c.gen.mutate(t)
    elif k < 0.34:  # much more memory than the tag needs
        cs = r.choice([x for s in spec.TAGGED for x in CODINGS_OF[s]])
        b = spec.encode(c.gen.fitting(cs), cs, r.choice(list(spec.filters(cs))))
        b += r.choice(["0", "1", "01"]) * r.choice([64, 512, 1000, 4000])
        b += "0" * (-len(b) % 8)
        t = r.choice([spec.hexform(b), spec.base64form(b)])
        return (("g_hex" if r.random() < 0.6 else "g_get_key", (t,)) if t == spec.hexform(b) else ("g_base64", (t,))) \
            if r.random() < 0.7 else ("g_binary", (b,))
    s = r.choice(spec.SCHEMES)
    return r.choice([
        ("new", (s, t)), ("from_epc_uri", (s, t)), ("from_tag_uri", (r.choice(spec.TAGGED), t)),
        ("from_binary", (r.choice(spec.TAGGED), t)), ("from_hex", (r.choice(spec.TAGGED), t)),
        ("from_base64", (r.choice(spec.TAGGED), t)), ("from_element", (r.choice(spec.ELEMENT), t, cpl)),
        ("g_from_element", (t, cpl)), ("g_tag_uri", (t,)), ("g_binary", (t,)), ("g_hex", (t,)), ("g_base64", (t,)),
        ("g_get_key", (t, r.choice([None, cpl]), None)), ("g_scheme", (t,)), ("g_element", (t,)),
        ("g_element_string", (t,)), ("g_keyed", (t,)), ("g_key", (t,)), ("g_tagenc", (t,))])


def everything(ident, r):
    """All conversions of one identity, with all codings and filters."""
    calls = []
    for cs in CODINGS_OF.get(ident.scheme, ()):
        for f in spec.filters(cs):
            calls += [(enc, (("o", 0), cs, f, r.choice(["kw", "pos", "mix"]))) for enc in ENCODERS]
            if spec.fits(ident, cs):
                b = spec.encode(ident, cs, f)
                h, b64, t = spec.hexform(b), spec.base64form(b), spec.tag_uri(ident, cs, f)
                for op, x in (("binary", b), ("hex", h), ("base64", b64), ("tag_uri", t)):
                    calls += [("from_" + op, (ident.scheme, x)), ("g_" + op, (x,))]
                calls += [("g_get_key", (x, None, None)) for x in (b, h, t)]
    u = spec.uri(ident)
    if ident.scheme in ("SGTIN", "LGTIN"):
        calls += [(op, (("o", 0), n)) for op in ("gtin", "key_type") for n in (8, 12, 13, 14)]
    if ident.scheme in spec.KEYED:
        calls.append(("key", (("o", 0),)))
    if ident.scheme in spec.ELEMENT:
        es = spec.element(ident)
        calls.append(("element", (("o", 0),)))
        for n in range(6, 13):
            calls += [("from_element", (ident.scheme, es, n)), ("g_from_element", (es, n)), ("g_get_key", (es, n, None))]
    calls += [(op, (u,)) for op in ("g_scheme", "g_element", "g_element_string", "g_keyed", "g_key", "g_tagenc")]
    calls += [("g_get_key", (u, None, None)), ("new", (ident.scheme, u)), ("from_epc_uri", (ident.scheme, u)),
              ("eq", (("o", 0), ("o", 0))), ("uri", (("o", 0),))]
    return calls


COPIES = [how for how in api.COPIES if not how.startswith("pickle")]  # pickling looks up classes, which C23 would see


def besides(ident, r):
    """Uses of one identity that are no conversions: comparing it with other
    things, copying it, reading it as a client's own class; and the GTIN."""
    u = spec.uri(ident)
    calls = [(op, (("o", 0), x)) for op in ("eq", "ne", "req") for x in (u, None, 0, "", {"epc_uri": u}, [u], ident.parts[-1])]
    calls += [("copy", (("o", 0), how)) for how in COPIES]
    calls += [("copy_refusal", (ident.scheme, u + ":", how)) for how in COPIES]
    calls += [("sub", (kind, op, ident.scheme, u)) for kind in api.SUBCLASSES for op in ("new", "from_epc_uri")]
    for cs in CODINGS_OF.get(ident.scheme, ()):
        if spec.fits(ident, cs):
            f = r.choice(list(spec.filters(cs)))
            b = spec.encode(ident, cs, f)
            forms = {"binary": b, "hex": spec.hexform(b), "base64": spec.base64form(b), "tag_uri": spec.tag_uri(ident, cs, f)}
            calls += [("sub", (r.choice(api.SUBCLASSES), "from_" + k, ident.scheme, forms[k])) for k in forms]
    if ident.scheme in spec.ELEMENT:
        calls.append(("sub", (r.choice(api.SUBCLASSES), "from_element", ident.scheme, spec.element(ident), len(ident.parts[0]))))
    if ident.scheme == "SGTIN":
        serials = (ident.parts[2], "".join(x for x in ident.parts[2] if x not in spec.ESC_S) or "1", "a b", "")
        calls += [("from_gtin", (spec.key(ident)[i:], x, n)) for i in (0, 1, 6) for x in serials for n in range(6, 13)]
    return calls


def blocks(c, n, whole):
    """A plan: n small groups of related calls, and all conversions of some
    identities of every scheme."""
    r = c.rng
    out = []
    for _ in range(n):
        idents = cluster(c, r.randint(2, 5))
        calls = [random_call(c, idents) if r.random() < 0.75 else hostile_call(c) for _ in range(r.randint(8, 24))]
        out.append((idents, calls))
    for s in spec.SCHEMES:
        for _ in range(whole):
            ident = c.gen.fitting(r.choice(CODINGS_OF[s])) if s in spec.TAGGED else c.gen.ident(s)
            out.append(([ident], everything(ident, r) + besides(ident, r)))
    r.shuffle(out)
    return out


# ------------------------------------------------------------------- C22 ---

RESERVED = re.compile(r"PYTHON|LD_|LC_|LANG|MALLOC|PATH$|HOME$|TZ$|TMP|EPCMON|VERIF")
USUAL = ("DEBUG", "STRICT", "LEGACY", "EPCPY_DEBUG", "EPCPY_STRICT", "EPCPY_LEGACY", "EPC_DEBUG", "EPC_STRICT", "EPC_LEGACY")


def words(lib):
    """Names the library's code could look up in the environment, and values
    it could compare them with."""
    mined = core.mine_constants(lib, 60)[1]
    names = {s for s in mined if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]{2,}", s)} | set(USUAL)
    return sorted(n for n in names if not RESERVED.match(n) and n not in os.environ), mined


def open_to_all(path):
    """Whether every user can read the library and the modules it imports."""
    return all(os.stat(p).st_mode & 5 == 5 for p in _above(os.path.join(os.path.realpath(path), "epcpy")) + _above(os.path.realpath(os.__file__))[1:])


def _above(path):
    return [path] + (_above(os.path.dirname(path)) if path != "/" else [])


def surroundings(c, scratch):
    """(name, interpreter options, environment, changes inside)"""
    base = dict(os.environ, PYTHONHASHSEED="0")
    names, mined = words(c.lib)
    mined = [m for m in mined if "\0" not in m]
    empty = os.path.join(scratch, "empty")
    os.makedirs(empty, exist_ok=True)

    def env(**kw):
        return dict(base, **kw)

    bare = {k: base[k] for k in ("EPCMON_REPO", "LD_LIBRARY_PATH") if k in base}
    out = []
    for s in ("1", "2", "3", "7", "42", "4294967295", str(c.rng.randrange(1 << 32)), str(c.rng.randrange(1 << 32))):
        out.append(("string hash seed " + s, [], env(PYTHONHASHSEED=s), {}))
    out += [
        ("option -O", ["-O"], env(), {}),
        ("option -OO", ["-OO"], env(PYTHONHASHSEED="5"), {}),
        ("option -I", ["-I"], env(), {}),
        ("option -E -S", ["-E", "-S"], env(), {}),
        ("development mode", ["-X", "dev"], env(), {}),
        ("UTF-8 mode off, C locale", ["-X", "utf8=0"], env(LC_ALL="C", LANG="C", PYTHONCOERCECLOCALE="0"), {"locale": ""}),
        ("UTF-8 mode on", ["-X", "utf8=1"], env(LC_ALL="POSIX"), {"locale": "POSIX"}),
        ("locale C.utf8", [], env(LC_ALL="C.utf8"), {"locale": "C.utf8"}),
        ("no environment variables", [], bare, {}),
        ("time zone Pacific/Apia", [], env(TZ="Pacific/Apia"), {"tz": "XXX-13:45"}),
        ("another working directory", [], env(HOME=empty, TMPDIR=empty), {"cwd": empty}),
        ("working directory /", [], env(), {"cwd": "/"}),
        ("no limit on integer digits", ["-X", "int_max_str_digits=0"], env(), {}),
        ("few integer digits", [], env(), {"digits": 640}),
        ("clock a year ahead", [], env(), {"clock": 366 * 86400.0}),
        ("clock 31 years ahead", [], env(), {"clock": 31 * 365.25 * 86400}),
        ("clock ten years back", [], env(), {"clock": -10 * 365.25 * 86400}),
        ("clock half a day ahead", [], env(), {"clock": 43200.0}),
        ("clock some days off", [], env(), {"clock": c.rng.uniform(-14, 14) * 86400}),
        ("clock some months off", [], env(), {"clock": c.rng.uniform(-24, 24) * 30 * 86400}),
        ("clock some years off", [], env(), {"clock": c.rng.uniform(-40, 10) * 365 * 86400}),
        ("seeded random module", [], env(), {"random": 1}),
        ("random module seeded otherwise", [], env(), {"random": 99}),
        ("another thread", [], env(), {"thread": True}),
        ("an event loop", [], env(), {"nested": True}),
        ("no standard streams", [], env(), {"close": [0, 1, 2]}),
        ("other command line arguments", [], env(), {"argv": ["-v", "--debug", "--strict", "--legacy"]}),
        ("frequent garbage collection", [], env(), {"gc": [1, 1, 1]}),
        ("other modules loaded", [], env(), {"imports": ["asyncio", "decimal", "numbers", "logging", "unittest", "pdb", "ctypes",
                                                         "multiprocessing", "sqlite3", "xml.dom.minidom"]}),
        ("a later process", [], env(), {"pid": 3}),
        ("few decimal digits", [], env(), {"decimal": 2}),
        ("everything logged", [], env(), {"logging": 1}),
        ("a terminal", [], env(TERM="xterm"), {"terminal": True}),
        ("a deep call stack", [], env(), {"depth": 500}),
        ("traced and profiled", [], env(), {"traced": True}),
    ] + ([("another user", [], env(), {"user": 65534})] if os.geteuid() == 0 and open_to_all(api.REPO) else []) + [
    ]
    for value in ("1", "0", "", "true", "yes"):
        out.append(("environment variables of all likely names set to %r" % value, [], env(**{n: value for n in names}), {}))
    for _ in range(2):
        out.append(("environment variables of all likely names set to likely values", [],
                    env(**{n: c.rng.choice(mined) for n in names}), {}))
    return out


def asked_for(c, names):
    """Surroundings with values for environment variables that the library
    was seen to ask for."""
    mined = [m for m in words(c.lib)[1] if "\0" not in m]
    values = ["1", "0", "", "true", "false", "yes", "no", "on", "off", "debug", "strict", "legacy", "lenient", "-1", "8", "96"]
    values += c.rng.sample(mined, min(len(mined), 40))
    names = [n for n in names if not RESERVED.match(n)]
    for v in values:
        for n in names:
            yield "environment variable %s=%r" % (n, v), [], dict(os.environ, PYTHONHASHSEED="0", **{n: v}), {}


class Children:
    def __init__(self):
        self.scratch = tempfile.mkdtemp(prefix="epcmon-env-")
        self.n = 0

    def run(self, options, env, change, source, mode="plan"):
        """-> ("ran", results), ("import", why) or ("died", how)"""
        for attempt in (1, 2):
            self.n += 1
            res = os.path.join(self.scratch, "res%d" % self.n)
            js = os.path.join(self.scratch, "spec%d" % self.n)
            with open(js, "w") as f:
                json.dump(change, f)
            try:
                p = self._start([sys.executable, "-X", "pycache_prefix=" + os.path.join(self.scratch, "pyc")] + options
                                + [os.path.join(HERE, "child.py"), mode, js, source, res], env)
            except subprocess.TimeoutExpired:
                return ("died", "no outcomes within five minutes")
            try:
                with open(res, "rb") as f:
                    v = pickle.load(f)
                os.remove(res)
                return v
            except (OSError, EOFError):
                pass
        return ("died", "exit status %s: %s" % (p.returncode, p.stderr.decode(errors="replace")[-300:]))

    def _start(self, command, env):
        return subprocess.run(command, env=env, cwd=self.scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                              stderr=subprocess.PIPE, timeout=300)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


@check("C22", must=("processes", "surroundings"),
       rule="distinct (operation, arguments, identity) combinations whose outcome was compared between a plain process and "
            "processes with other options, environment, clock, locale, thread or hash seed",
       assumptions=["the clock is moved by replacing the functions of the time and datetime modules before the library is imported"])
def c22(c):
    kids = Children()
    try:
        source = os.path.join(kids.scratch, "plan")
        for k in c.each(range(size(c, 2, 12))):
            plan = blocks(c, size(c, 60, 150), size(c, 1, 2))
            with open(source, "wb") as f:
                pickle.dump(plan, f)
            want = kids.run([], dict(os.environ, PYTHONHASHSEED="0"), {"lookups": os.path.realpath(api.REPO) + "/epcpy"}, source)
            if want[0] != "ran":
                raise RuntimeError("no outcomes from a plain process: %s" % (want,))
            asked, want = want[2], want[1]
            c.lib.begin()
            compare(c, plan, want, [plans.execute(c.lib, *b) for b in plan], "the process of the check")
            ways = surroundings(c, kids.scratch) + list(asked_for(c, asked))
            for name, options, env, change in c.each(ways):
                got = kids.run(options, env, change, source)
                c.note("processes")
                if got[0] != "ran":
                    c.report("with %s the calls cannot be made at all: %s" % (name, got[1]))
                    continue
                compare(c, plan, want, got[1], name)
            c.note("surroundings", len(ways))
            c.note("environment variables asked for", len(asked))
    finally:
        kids.close()


def compare(c, plan, want, got, name):
    for (idents, calls), a, b in zip(plan, want, got):
        for call, x, y in zip(calls, a, b):
            if x is None and y is None:
                continue
            key = (call[0],) + tuple(spec.uri(idents[v[1]]) if isinstance(v, tuple) and v and v[0] == "o" else repr(v) for v in call[1])
            c.observe(call[0], call[1], key, ("ok", None), x or ("conv", ""))
            if x != y:
                plans.execute(c.lib, idents, [call])
                c.report("%s gives %s in a plain process but %s with %s" % (key, x, y, name))
                return


# ------------------------------------------------------------------- C23 ---

@check("C23", must=("watched blocks", "watched imports", "failing calls"),
       rule="distinct (operation, arguments, identity) combinations executed while files, processes, sockets, output and "
            "process-wide settings were watched",
       assumptions=["reading files of the library itself and importing modules are allowed at any time"])
def c23(c):
    r = c.rng
    kids = Children()
    w = None
    saved = [os.dup(1), os.dup(2)]
    try:
        if c.worker < 2:
            for options in ([], ["-O"])[c.worker::2]:
                res = kids.run(options, {k: v for k, v in os.environ.items() if k != "PYTHONWARNINGS"}, {"scratch": kids.scratch},
                               "-", "import")
                c.note("watched imports")
                if res[0] != "ran":
                    raise RuntimeError(res[1])
                for what, how in res[1]:
                    c.report("importing the library: %s: %s" % (what, how))
        w = watch.Watch(kids.scratch)
        watch.show_warnings()

        def judged(idents, calls):
            c.lib.begin()
            w.before()
            w.active = True
            try:
                objs = plans.make(c.lib, idents)
                for call in calls:
                    if plans.usable(call, objs):
                        plans.perform(c.lib, objs, call)
            finally:
                w.active = False
            found = w.after()
            for op, args, out in c.lib.events:
                c.observe(op, args, None, ("ok", None), out)
                c.note("failing calls", out[0] != "ok")
            c.note("watched blocks")
            return found

        def block(idents, calls):
            found = judged(idents, calls)
            if found:
                # which call was it?
                for call in calls:
                    again = judged(idents, [call])
                    if again:
                        c.report("%s: %s" % (call, "; ".join("%s: %s" % x for x in again)))
                        return
                c.report("during these calls: %s" % "; ".join("%s: %s" % x for x in found))

        for idents, calls in c.each(blocks(c, size(c, 900, 8000), size(c, 3, 20))):
            for i in range(0, len(calls), 60):
                block(idents, calls[i:i + 60])
        # identities of the sweep, so that rarely used branches are entered
        for ident in c.idents(spec.SCHEMES, 0, sweep=size(c, 12, 2)):
            calls = everything(ident, r)
            block([ident], r.sample(calls, min(len(calls), 40)) + r.sample(besides(ident, r), 8))
    finally:
        if w:
            w.active = False
            for n, fd in zip((1, 2), saved):
                os.dup2(fd, n)
        for fd in saved:
            os.close(fd)
        kids.close()


# ------------------------------------------------------------------- C24 ---

@check("C24", must=("repeated plans", "failing calls"),
       rule="distinct (operation, arguments, identity) combinations that were repeated hundreds of times while the memory "
            "held by the process was measured",
       assumptions=["memory is what tracemalloc accounts for: all Python objects, not memory of extension modules"])
def c24(c):
    r = c.rng
    c.limit = 1  # a closer look takes long

    def rounds(idents, calls, n, objs=None):
        lib, kept = c.lib, objs
        for _ in range(n):
            lib.begin()
            objs = kept or plans.make(lib, idents)
            for call in calls:
                if plans.usable(call, objs):
                    plans.perform(lib, objs, call)
        events = lib.events
        lib.begin()
        return events

    def held():
        gc.collect()
        return tracemalloc.get_traced_memory()[0]

    def leaks(idents, calls, n, per, objs):
        """Bytes gained a round, if memory grows in step with the number of
        rounds (a cache that fills up or a table that is resized does not)."""
        m = [held()]
        for k in (1, 2, 4):
            rounds(idents, calls, n * k, objs)
            m.append(held())
        if m[3] - m[0] < per * 7 * n or m[3] - m[1] < per * 6 * n * 0.7 or m[3] - m[2] < per * 4 * n * 0.5:
            return None
        return (m[3] - m[0]) / (7.0 * n)

    tracemalloc.start(1)
    try:
        for k in c.each(range(size(c, 90, 700))):
            if k % 2:
                ident = c.gen.any_ident(spec.SCHEMES)
                idents = [ident]
                calls = everything(ident, r)
                calls = r.sample(calls, min(len(calls), 25)) + r.sample(besides(ident, r), 8) + [hostile_call(c) for _ in range(6)]
            else:
                idents = cluster(c, 4)
                calls = [random_call(c, idents) for _ in range(20)] + [hostile_call(c) for _ in range(12)]
            for op, args, out in rounds(idents, calls, 20):
                c.observe(op, args, None, ("ok", None), out)
                c.note("failing calls", out[0] != "ok")
            c.note("repeated plans")
            for objs in (None, plans.make(c.lib, idents)):
                rounds(idents, calls, 3, objs)
                a = held()
                rounds(idents, calls, 50, objs)
                if held() - a < 300:
                    continue
                c.note("closer looks")
                before = tracemalloc.take_snapshot()
                gain = leaks(idents, calls, 1000, 6, objs)
                if gain:
                    top = tracemalloc.take_snapshot().compare_to(before, "lineno")[:3]
                    plans.execute(c.lib, idents, calls)
                    c.report("repeating these %d calls on %s objects keeps %.1f bytes more each time, allocated at %s" % (
                        len(calls), "the same" if objs else "new", gain,
                        "; ".join("%s:%d" % (t.traceback[0].filename, t.traceback[0].lineno) for t in top)))
    finally:
        tracemalloc.stop()
