"""History monitors: C16 (purity), C17 (concurrency), C20 (time)."""

import os
import pickle
import random
import resource
import signal
import sys
import threading
import time

from . import api, spec
from .core import Stop
from .checks import ENCODERS, any_text, bad_element, check, size
from .plans import make, outcome, perform, usable
from .spec import CODING, CODINGS_OF


# ------------------------------------------------------------- call plans ---
# A plan is a list of calls over numbered objects; it can be executed in any
# order, repeatedly, in another process or by several threads.

def random_call(c, idents):
    """One call as (op, args); ("o", i) stands for the i-th object."""
    r = c.rng
    k = r.random()
    i = r.randrange(len(idents))
    ident = idents[i]
    s = ident.scheme
    u = spec.uri(ident)
    if k < 0.40 and s in spec.TAGGED:
        cs = r.choice(CODINGS_OF[s])
        return (r.choice(ENCODERS), (("o", i), cs, r.choice(list(spec.filters(cs))), r.choice(["kw", "pos", "mix"])))
    if k < 0.50 and s in spec.KEYED:
        if s in ("SGTIN", "LGTIN") and r.random() < 0.7:
            return (r.choice(["gtin", "key_type"]), (("o", i), r.choice([8, 12, 13, 14])))
        return ("key", (("o", i),))
    if k < 0.58 and s in spec.ELEMENT:
        return ("element", (("o", i),))
    if k < 0.72 and s in spec.TAGGED:
        cs = r.choice(CODINGS_OF[s])
        if spec.fits(ident, cs):
            f = r.choice(list(spec.filters(cs)))
            b = spec.encode(ident, cs, f)
            if r.random() < 0.15:
                b = b[:r.randrange(len(b))]
            elif r.random() < 0.15:
                b = c.gen.tag_memory() or b
            k = r.random()
            if k < 0.3:
                return (r.choice(["from_binary"]), (s, b)) if r.random() < 0.6 else ("g_binary", (b,))
            if k < 0.6:
                return ("from_hex", (s, spec.hexform(b))) if r.random() < 0.5 else ("g_hex", (spec.hexform(b),))
            if k < 0.8:
                return ("from_base64", (s, spec.base64form(b))) if r.random() < 0.5 else ("g_base64", (spec.base64form(b),))
            t = spec.tag_uri(ident, cs, f)
            if r.random() < 0.2:
                t = c.gen.mutate(t)
            return ("from_tag_uri", (s, t)) if r.random() < 0.5 else ("g_tag_uri", (t,))
    if k < 0.80 and s in spec.ELEMENT:
        es = spec.element(ident)
        n = r.choice([len(ident.parts[0]), len(ident.parts[0]), r.randint(6, 12)])
        if r.random() < 0.15:
            es = bad_element(c, ident, es)
        return ("from_element", (s, es, n)) if r.random() < 0.5 else ("g_from_element", (es, n))
    if k < 0.84 and s == "SGTIN":
        ser = "".join(x for x in ident.parts[2] if x not in spec.ESC_S) or "1"
        return ("from_gtin", (spec.key(ident), ser, r.choice([len(ident.parts[0]), r.randint(6, 12)])))
    if k < 0.90:
        src = r.choice([u, u.replace(":id:", ":idpat:"), spec.element(ident) or u])
        t = (s, r.choice([8, 12, 13, 14])) if s in ("SGTIN", "LGTIN") and r.random() < 0.5 else None
        return ("g_get_key", (src, r.choice([None, len(ident.parts[0])]), t))
    if k < 0.94:
        if r.random() < 0.3:
            u = c.gen.near_miss_uri(ident)
        return (r.choice(["g_scheme", "g_element", "g_element_string", "g_keyed", "g_key", "g_tagenc"]), (u,))
    if k < 0.97:
        return (r.choice(["new", "from_epc_uri"]), (s, c.gen.near_miss_uri(ident) if r.random() < 0.4 else u))
    return (r.choice(["eq", "ne"]), (("o", i), ("o", r.randrange(len(idents)))))


def cluster(c, n=6):
    """Identities that a wrong cache key or shared scratch state would mix up."""
    r = c.rng
    base = c.gen.any_ident(spec.SCHEMES if r.random() < 0.3 else spec.TAGGED)
    out = [base]
    out += c.gen.neighbours(base, n - 2)
    out.append(c.gen.ident(base.scheme))
    if r.random() < 0.5:
        out.append(base)  # a second object of the same identity
    return out


def model(call, idents):
    """What the reference model says, or ("any", ..)."""
    op, args = call
    if op in ("eq", "ne"):
        same = idents[args[0][1]] == idents[args[1][1]]
        return ("ok", same if op == "eq" else not same)
    if op == "from_gtin":
        from .checks import gtin_want
        return gtin_want(*args)
    ident = None
    if args and isinstance(args[0], tuple) and args[0][0] == "o":
        ident = idents[args[0][1]]
        args = (None,) + tuple(args[1:])
    return api.expect(op, args, ident)


# ------------------------------------------------------------------- C16 ---

class Pristine:
    """Answers single calls from a process that has made no other call: a
    child forked before the history starts forks again for every question."""

    def __init__(self, lib):
        self.r1, w1 = os.pipe()
        r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r1)
            os.close(self.w2)
            self._serve(lib, r2, w1)
            os._exit(0)
        os.close(w1)
        os.close(r2)
        self.fin = os.fdopen(self.r1, "rb")
        self.fout = os.fdopen(self.w2, "wb")

    @staticmethod
    def _serve(lib, r, w):
        fin, fout = os.fdopen(r, "rb"), os.fdopen(w, "wb")
        while True:
            try:
                idents, call = pickle.load(fin)
            except EOFError:
                return
            a, b = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(a)
                api.Hangs(lib).start()
                try:
                    objs = make(lib, idents)
                    res = outcome(perform(lib, objs, call))
                except BaseException as e:
                    res = ("error", repr(e))
                with os.fdopen(b, "wb") as f:
                    pickle.dump(res, f)
                os._exit(0)
            os.close(b)
            with os.fdopen(a, "rb") as f:
                res = pickle.load(f)
            os.waitpid(pid, 0)
            pickle.dump(res, fout)
            fout.flush()

    def ask(self, idents, call):
        pickle.dump((idents, call), self.fout)
        self.fout.flush()
        return pickle.load(self.fin)

    def close(self):
        self.fout.close()
        self.fin.close()
        os.waitpid(self.pid, 0)


def run_history(c, lib_calls, idents, objs, seen, fresh, rate=0.02):
    """Execute calls; compare each with its own earlier outcome, with the
    model and (sometimes) with a pristine process."""
    report = c.report
    uris = [spec.uri(i) for i in idents]
    for call in lib_calls:
        if not usable(call, objs):
            continue
        out = perform(c.lib, objs, call)
        key = (call[0],) + tuple(uris[a[1]] if isinstance(a, tuple) and a and a[0] == "o" else a for a in call[1])
        got = outcome(out)
        want = model(call, idents)
        c.observe(call[0], call[1], key, want, out)
        if key in seen:
            c.note("repeated calls")
            if seen[key] != got:
                report("%s gave %s before and %s now" % (key, seen[key], got))
        else:
            seen[key] = got
        m = api.mismatch(out, want)
        if m and want[0] != "any":
            # wrong already on its own?  then it is not a matter of history
            if fresh.ask(idents, call) != got:
                report("after this history %s %s" % (key, m[1]))
            else:
                c.note("wrong without history")
        if c.rng.random() < rate:
            c.note("pristine comparisons")
            alone = fresh.ask(idents, call)
            if alone != got:
                report("%s gives %s alone but %s after this history" % (key, alone, got))
        for a in call[1]:
            if isinstance(a, tuple) and a and a[0] == "o":
                o = objs[a[1]]
                if o.raw.epc_uri != uris[a[1]] or o.scheme != idents[a[1]].scheme:
                    report("%s changed the object's identity from %s to %s" % (call, uris[a[1]], o.raw.epc_uri))


@check("C16", must=("repeated calls", "pristine comparisons", "failing calls", "short histories", "long histories",
                    "first-use histories", "short-lived objects", "calls repeated in a row"),
       rule="distinct (operation, arguments, identity) combinations executed inside histories; each outcome was compared "
            "with its own earlier outcomes, with the model, or with a process that had made no other call")
def c16(c):
    r = c.rng
    fresh = Pristine(c.lib)
    try:
        # (a) first use: every history starts in a process that has only
        # imported the library
        for k in c.each(range(size(c, 60, 600))):
            idents = cluster(c, r.randint(2, 5))
            calls = [random_call(c, idents) for _ in range(r.randint(4, 25))]
            calls += r.sample(calls, len(calls) // 2)
            forked_history(c, fresh, idents, calls)
        # (b) short histories in one long-lived process
        for k in c.each(range(size(c, 500, 6000))):
            c.lib.begin()
            idents = cluster(c, r.randint(2, 7))
            objs = make(c.lib, idents)
            calls = [random_call(c, idents) for _ in range(r.randint(10, 60))]
            again = list(calls)
            r.shuffle(again)
            run_history(c, calls + again, idents, objs, {}, fresh)
            c.note("failing calls", sum(1 for e in c.lib.events if e[2][0] == "conv"))
            c.note("short histories")
        # (c) all filters, codings and GTIN types of one object, twice, in
        # different orders
        for k in c.each(range(size(c, 150, 1500))):
            c.lib.begin()
            ident = c.gen.any_ident(spec.TAGGED)
            idents = [ident] + c.gen.neighbours(ident, 1)
            objs = make(c.lib, idents)
            calls = []
            for i, x in enumerate(idents):
                for cs in CODINGS_OF.get(x.scheme, ()):
                    for f in spec.filters(cs):
                        for enc in ENCODERS:
                            calls.append((enc, (("o", i), cs, f, r.choice(["kw", "pos"]))))
                if x.scheme in ("SGTIN", "LGTIN"):
                    calls += [("gtin", (("o", i), t)) for t in (8, 12, 13, 14)]
                    calls += [("key_type", (("o", i), t)) for t in (8, 12, 13, 14)]
                if x.scheme in spec.KEYED:
                    calls.append(("key", (("o", i),)))
                if x.scheme in spec.ELEMENT:
                    calls.append(("element", (("o", i),)))
            calls = calls[:400]
            a, b = list(calls), list(calls)
            r.shuffle(a)
            r.shuffle(b)
            run_history(c, a + b, idents, objs, {}, fresh, 0.002)
        # (d) long histories: many objects alive, probes repeated at intervals
        for k in c.each(range(size(c, 1, 6))):
            c.lib.begin()
            idents = []
            while len(idents) < 60:
                idents += cluster(c, 6)
            objs = make(c.lib, idents)
            probes = [random_call(c, idents) for _ in range(150)]
            seen = {}
            run_history(c, probes, idents, objs, seen, fresh)
            for block in c.each(range(size(c, 12, 60))):
                c.lib.events = []
                run_history(c, [random_call(c, idents) for _ in range(450)], idents, objs, seen, fresh, 0.002)
                # plenty of distinct short-lived objects, as caches would see
                for _ in range(150):
                    x = c.gen.any_ident(spec.SCHEMES)
                    o = make(c.lib, [x])
                    run_history(c, [random_call(c, [x]) for _ in range(3)], [x], o, {}, fresh, 0.002)
                run_history(c, r.sample(probes, 60), idents, objs, seen, fresh, 0.002)
            run_history(c, probes, idents, objs, seen, fresh)
            c.note("long histories")
        # (e) objects of one scheme made, used once and thrown away one after
        # the other, so that later ones take the places of earlier ones
        for s in c.each([s for s in spec.SCHEMES for _ in range(size(c, 2, 20))]):
            for op, further in conversions(c, s):
                c.lib.begin()
                idents = []
                while len(idents) < 24:
                    idents += c.gen.neighbours(c.gen.ident(s), 3) if r.random() < 0.5 else [c.gen.fitting(
                        further[0] if op in ENCODERS else r.choice(CODINGS_OF[s]))] if s in spec.TAGGED else [c.gen.ident(s)]
                idents = [i for i in idents if i.scheme == s]
                k, got = c.lib.call("churn", s, tuple(spec.uri(i) for i in idents), op, further)
                for n, (i, x) in enumerate(zip(idents, got)):
                    call = (op, (("o", 0),) + further)
                    c.observe(op, call[1], (op, further, spec.uri(i)), model(call, [i]), tuple(x or ("conv", "")))
                    c.note("short-lived objects")
                    if x is not None and api.mismatch(tuple(x), model(call, [i])):
                        alone = fresh.ask([i], call)
                        if (alone[0], alone[1] or "") != (x[0], x[1] if x[0] == "ok" else ""):
                            c.report("%s on %s gives %s alone but %s after %d other objects of its scheme" % (
                                (op,) + further, spec.uri(i), alone, x, n))
        # (f) the same call thousands of times
        from .surroundings import besides, everything
        for s in c.each(spec.SCHEMES):
            ident = c.gen.fitting(r.choice(CODINGS_OF[s])) if s in spec.TAGGED else c.gen.ident(s)
            kinds = {}
            for call in everything(ident, r) + besides(ident, r) + [("new", (s, c.gen.near_miss_uri(ident)))]:
                kind = (s, call[0], call[1][1] if call[0] in ENCODERS else None)
                kinds.setdefault(kind, []).append(call)
            for call in c.each([r.choice(kinds[k]) for k in kinds if c.lib.turn(8, k) == c.worker]):
                c.lib.begin()
                objs = make(c.lib, [ident])
                if not usable(call, objs):
                    continue
                args = [objs[0] if a == ("o", 0) else a for a in call[1]]
                n = size(c, 2500, 20000)
                k, got = c.lib.call("repeat", n, call[0], *args)
                c.observe(call[0], call[1], ("repeat", spec.uri(ident)), ("ok", None), (k, got))
                c.note("calls repeated in a row", n)
                if k != "ok" or not got.startswith("%d times" % n):
                    c.report("%s on %s: %s" % (call, spec.uri(ident), got))
    finally:
        fresh.close()


def conversions(c, s):
    """Ways to convert objects of a scheme, as (operation, further arguments)."""
    r = c.rng
    out = []
    for cs in CODINGS_OF.get(s, ()):
        out += [(enc, (cs, r.choice(list(spec.filters(cs))), r.choice(["kw", "pos", "mix"]))) for enc in ENCODERS]
    if s in ("SGTIN", "LGTIN"):
        out += [(op, (n,)) for op in ("gtin", "key_type") for n in (8, 12, 13, 14)]
    if s in spec.KEYED:
        out.append(("key", ()))
    if s in spec.ELEMENT:
        out.append(("element", ()))
    return out


def forked_history(c, fresh, idents, calls):
    """Run one history in a child process that has only imported the library,
    and compare every outcome with that of the same call made alone."""
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(a)
        api.Hangs(c.lib).start()
        try:
            c.violations = []
            c.lib.begin()
            objs = make(c.lib, idents)
            res = [(x, outcome(perform(c.lib, objs, x))) for x in calls if usable(x, objs)]
            res = (res, c.lib.dump())
        except Stop:
            res = (None, c.violations)
        except BaseException as e:
            res = (None, repr(e))
        with os.fdopen(b, "wb") as f:
            pickle.dump(res, f)
        os._exit(0)
    os.close(b)
    with os.fdopen(a, "rb") as f:
        res, events = pickle.load(f)
    os.waitpid(pid, 0)
    if res is None and isinstance(events, list):
        c.violations += events
        raise Stop()
    if res is None:
        raise RuntimeError(events)
    c.note("first-use histories")
    alone = {}
    for call, got in res:
        if call not in alone:
            alone[call] = fresh.ask(idents, call)
        c.evaluations += 1
        c.note("pristine comparisons")
        c.decisive.add(hash((call, tuple(idents))))
        if alone[call] != got:
            c.violations.append({"message": "%s on %s gives %s alone but %s in this history" % (
                call, [spec.uri(i) for i in idents], alone[call], got), "events": events})
            if len(c.violations) >= c.limit:
                raise Stop()


# ------------------------------------------------------------------- C17 ---

import copy  # noqa: E402

LIBRARY = os.path.join(os.path.realpath(api.REPO), "epcpy") + os.sep
FOREVER = 1 << 60


class Scheduler:
    """Runs one job per thread and hands control from thread to thread at
    chosen points of library code.  A plan is a list of (thread, steps): let
    that thread make so many line (or opcode) steps in library code, then pause
    it.  Threads that block while another is paused are left alone until the
    plan is over, so locks inside the library cause no false alarm."""

    def __init__(self, jobs, plan, opcodes=False):
        self.jobs, self.plan, self.opcodes = jobs, plan, opcodes
        n = len(jobs)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = [threading.Semaphore(0) for _ in range(n)]
        self.budget = [0] * n
        self.steps = [0] * n
        self.done = [False] * n
        self.results = [None] * n
        self.switches = []
        self.blocked = 0
        self.free = False

    def _thread(self, i):
        self.go[i].acquire()
        sys.settrace(lambda frame, event, arg: self._enter(i, frame))
        try:
            self.results[i] = self.jobs[i]()
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.back[i].release()

    def _enter(self, i, frame):
        if not frame.f_code.co_filename.startswith(LIBRARY):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True

        def local(frame, event, arg):
            if event == "opcode" or (event == "line" and not self.opcodes):
                self._step(i, frame)
            return local
        return local

    def _step(self, i, frame):
        self.steps[i] += 1
        if self.free:
            return
        self.budget[i] -= 1
        if self.budget[i] <= 0:
            self.switches.append((i, frame.f_code.co_name, frame.f_lineno, frame.f_lasti if self.opcodes else 0))
            self.back[i].release()
            self.go[i].acquire()

    def _wait(self, i):
        """Until thread i pauses or ends; False if it no longer makes steps."""
        while True:
            before = self.steps[i]
            if self.back[i].acquire(timeout=0.025):
                return True
            if self.steps[i] == before:
                return False

    def run(self):
        if not self.opcodes:
            return self._run()
        # settrace looks whether any frame ever asked for opcodes; as long as
        # one thread keeps tracing, the interpreter need not rewrite code that
        # a paused thread is executing
        sys._getframe().f_trace_opcodes = True
        sys.settrace(lambda *_: None)
        try:
            return self._run()
        finally:
            sys.settrace(None)

    def _run(self):
        n = len(self.jobs)
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        blocked = set()
        for i, steps in self.plan:
            if self.done[i] or i in blocked:
                continue
            self.budget[i] = steps
            self.go[i].release()
            if not self._wait(i):
                blocked.add(i)
        self.blocked = len(blocked)
        self.free = True
        for i in range(n):
            self.go[i].release()
        for t in threads:
            t.join(60)
        return not any(t.is_alive() for t in threads)


def thread_job(lib, objs, calls):
    view = copy.copy(lib)
    view.count = {}
    view.begin()
    return lambda: ([outcome(perform(view, objs, x)) for x in calls], view)


def pick_pair(c, idents):
    """Two calls that are likely to share something."""
    r = c.rng
    a = random_call(c, idents)
    k = r.random()
    for _ in range(30):
        b = random_call(c, idents)
        if k < 0.35 and b[0] == a[0] and b != a:
            return a, b
        if 0.35 <= k < 0.65 and b[1] and a[1] and b[1][0] == a[1][0] and b != a:
            return a, b
        if k >= 0.65 and b != a:
            return a, b
    return a, b


def alike_pairs(c):
    """For every scheme and every operation: two calls of that operation with
    different results, on one object where arguments can differ and on two."""
    r = c.rng
    out = []

    def two(make_one):
        for _ in range(50):
            x, y = make_one(), make_one()
            if x != y:
                return x, y
        return x, y

    for s in spec.SCHEMES:
        for cs in CODINGS_OF.get(s, ()):
            x, y = two(lambda: c.gen.fitting(cs))
            fs = list(spec.filters(cs))
            f, g = (r.sample(fs, 2) if len(fs) > 1 else (None, None))
            for enc in ENCODERS:
                if f is not None:
                    out.append(([x], (enc, (("o", 0), cs, f, "kw")), (enc, (("o", 0), cs, g, "kw"))))
                out.append(([x, y], (enc, (("o", 0), cs, f, "kw")), (enc, (("o", 1), cs, g, "kw"))))
            bx, by = spec.encode(x, cs, f), spec.encode(y, cs, g)
            out.append(([x, y], ("from_binary", (s, bx)), ("from_binary", (s, by))))
            out.append(([x, y], ("g_hex", (spec.hexform(bx),)), ("g_hex", (spec.hexform(by),))))
            out.append(([x, y], ("from_tag_uri", (s, spec.tag_uri(x, cs, f))), ("g_tag_uri", (spec.tag_uri(y, cs, g),))))
        for other in CODINGS_OF.get(s, ())[1:]:
            cs = CODINGS_OF[s][0]
            x = c.gen.fitting(cs)
            if spec.fits(x, other):
                f = r.choice(list(spec.filters(cs)))
                for enc in ENCODERS:
                    out.append(([x], (enc, (("o", 0), cs, f, "kw")), (enc, (("o", 0), other, f, "kw"))))
        x, y = two(lambda: c.gen.ident(s))
        ux, uy = spec.uri(x), spec.uri(y)
        out.append(([x, y], ("new", (s, ux)), ("new", (s, uy))))
        out.append(([x, y], ("g_scheme", (ux,)), ("g_scheme", (uy,))))
        if s in spec.ELEMENT:
            out.append(([x, y], ("element", (("o", 0),)), ("element", (("o", 1),))))
            out.append(([x, y], ("from_element", (s, spec.element(x), len(x.parts[0]))),
                        ("g_from_element", (spec.element(y), len(y.parts[0])))))
        if s in spec.KEYED:
            out.append(([x, y], ("key", (("o", 0),)), ("key", (("o", 1),))))
            out.append(([x, y], ("g_get_key", (ux, None, None)), ("g_get_key", (uy, None, None))))
        if s in ("SGTIN", "LGTIN"):
            z = spec.Ident(s, ("0000000", "012345", "1"))
            out.append(([z], ("gtin", (("o", 0), 13)), ("gtin", (("o", 0), 14))))
            out.append(([z, x], ("key_type", (("o", 0), 8)), ("key_type", (("o", 1), 14))))
    return out


def concurrent(c, idents, calls, plan, opcodes, alone, objs=None):
    """One controlled execution; every call must end as it does alone."""
    c.lib.begin()
    used = {a[1] for t in calls for x in t for a in x[1] if isinstance(a, tuple) and a and a[0] == "o"}
    objs = objs or make(c.lib, idents, used)
    jobs = [thread_job(c.lib, objs, x) for x in calls]
    s = Scheduler(jobs, plan, opcodes)
    finished = s.run()
    what = "threads %s with plan %s over %s%s" % (calls, plan, [spec.uri(i) for i in idents], " (opcode steps)" if opcodes else "")
    if not finished:
        c.report("calls do not return: " + what)
        return s
    for i, r in enumerate(s.results):
        got, view = r
        for op, n in view.count.items():
            c.lib.count[op] = c.lib.count.get(op, 0) + n
        for call, x, w in zip(calls[i], got, alone[i]):
            c.evaluations += 1
            if x != w:
                c.lib.events += view.events
                c.report("%s gave %s instead of %s; %s" % (call, x, w, what))
    for o, i in zip(objs, idents):
        if o is not None and o.raw.epc_uri != spec.uri(i):
            c.report("identity changed from %s to %s; %s" % (spec.uri(i), o.raw.epc_uri, what))
    if s.switches:
        c.decisive.add(hash((tuple(s.switches), tuple(map(tuple, calls)))))
        c.note("controlled interleavings")
    return s


@check("C17", must=("controlled interleavings", "single preemptions", "double preemptions", "opcode preemptions",
                    "free-running calls", "first-use interleavings"),
       rule="distinct interleavings: (calls of each thread, sequence of library source positions at which control was "
            "taken away), from executions where a preemption really happened inside a library call",
       assumptions=["threads are preempted between lines or bytecode instructions of library code only"])
def c17(c):
    r = c.rng
    fresh = Pristine(c.lib)

    def setup():
        while True:
            idents = cluster(c, r.randint(2, 4))
            if all(x is not None for x in make(c.lib, idents)):
                return idents

    def skip(locked):
        """Where locks keep the other thread out anyway, fewer points do."""
        return locked >= 5 and r.random() < 0.8

    try:
        # (a) first use by two threads at once, in a process that has only
        # imported the library
        for idents, a, b in c.each(alike_pairs(c)[c.worker::8]):
            alone = [[fresh.ask(idents, a)], [fresh.ask(idents, b)]]

            def first(plan):
                c.note("first-use interleavings")

                def one():
                    s = concurrent(c, idents, [[a], [b]], plan, False, alone)
                    return s.steps[0], s.blocked
                return in_child(c, one)

            points = list(range(1, first([(0, FOREVER), (1, FOREVER)])[0] + 1))
            most = size(c, 40, 200)
            if len(points) > most:
                points = sorted(r.sample(points, most))
            locked = 0
            for p in points:
                if skip(locked):
                    continue
                locked += first([(0, p), (1, FOREVER), (0, FOREVER)])[1]
        for _ in c.each(range(size(c, 60, 900))):
            idents = cluster(c, 3)
            a, b = pick_pair(c, idents)
            if not all(usable(x, [1] * len(idents)) for x in (a, b)):
                continue
            alone = [[fresh.ask(idents, a)], [fresh.ask(idents, b)]]
            plan = [(0, r.randint(1, 80)), (1, r.choice([FOREVER, r.randint(1, 80)])), (0, FOREVER), (1, FOREVER)]
            in_child(c, lambda: concurrent(c, idents, [[a], [b]], plan, r.random() < 0.3, alone) and None)
            c.note("first-use interleavings")
        # (b) every single preemption point of one call, the other call running
        # to its end there: first the same conversion of each kind, on a shared
        # object and on separate objects, then pairs drawn at random
        pairs = [x for i, x in enumerate(alike_pairs(c)) if i % 8 == c.worker]
        for k in c.each(range(size(c, 16, 300))):
            idents = setup()
            pairs.append((idents,) + pick_pair(c, idents))
        for k, (idents, a, b) in c.each(enumerate(pairs)):
            objs = make(c.lib, idents)
            if not (usable(a, objs) and usable(b, objs)):
                continue
            alone = [[outcome(perform(c.lib, objs, a))], [outcome(perform(c.lib, objs, b))]]
            for ops in ((False,) if k % 3 else (False, True)):
                probe = concurrent(c, idents, [[a], [b]], [(0, FOREVER), (1, FOREVER)], ops, alone)
                points = list(range(1, probe.steps[0] + 1))
                most = size(c, 60 if ops else 150, 400)
                if len(points) > most:
                    points = sorted(r.sample(points, most))
                locked = 0
                for p in points:
                    if skip(locked):
                        continue
                    locked += concurrent(c, idents, [[a], [b]], [(0, p), (1, FOREVER), (0, FOREVER)], ops, alone).blocked
                    c.note("opcode preemptions" if ops else "single preemptions")
                # (c) both paused in the middle
                n, m = probe.steps[0], probe.steps[1]
                if n and m:
                    for _ in c.each(range(size(c, 10, 80))):
                        plan = [(0, r.randint(1, n)), (1, r.randint(1, m)), (0, r.choice([FOREVER, r.randint(1, n)])),
                                (1, FOREVER), (0, FOREVER)]
                        concurrent(c, idents, [[a], [b]], plan, ops, alone)
                        c.note("double preemptions")
        # (d) three threads, several calls each, many switches
        for _ in c.each(range(size(c, 60, 900))):
            idents = setup()
            calls = [[random_call(c, idents) for _ in range(r.randint(2, 4))] for _ in range(3)]
            objs = make(c.lib, idents)
            alone = [[outcome(perform(c.lib, objs, x)) for x in t] for t in calls]
            q = r.choice([1, 2, 3, 5, 10, 30])
            plan = [(r.randrange(3), r.randint(1, q)) for _ in range(r.choice([30, 100, 200]))]
            concurrent(c, idents, calls, plan, r.random() < 0.3, alone)
        # (e) no control at all, the interpreter switching as fast as it can
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for _ in c.each(range(size(c, 10, 80))):
                c.lib.begin()
                idents = setup()
                objs = make(c.lib, idents)
                pool = [random_call(c, idents) for _ in range(24)]
                expected = {x: outcome(perform(c.lib, objs, x)) for x in pool}
                lists = [[r.choice(pool) for _ in range(120)] for _ in range(4)]
                jobs = [thread_job(c.lib, objs, x) for x in lists]
                res = [None] * 4

                def work(i):
                    res[i] = jobs[i]()
                ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(4)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(120)
                for i in range(4):
                    if res[i] is None:
                        c.report("calls do not return in free-running threads over %s" % [spec.uri(x) for x in idents])
                        continue
                    for call, got in zip(lists[i], res[i][0]):
                        c.evaluations += 1
                        if got != expected[call]:
                            c.report("%s gave %s instead of %s in free-running threads over %s" % (
                                call, got, expected[call], [spec.uri(x) for x in idents]))
                    c.note("free-running calls", len(lists[i]))
        finally:
            sys.setswitchinterval(old)
    finally:
        fresh.close()


def in_child(c, f, lost=(0, 0)):
    """Run f in a forked child; its observations are merged into c.  A few
    children may be lost: tracing code that other threads execute can crash
    the interpreter itself."""
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(a)
        api.Hangs(c.lib).start()
        try:
            c.violations, c.evaluations, c.notes, c.decisive = [], 0, {}, set()
            c.limit = FOREVER
            try:
                value = f()
            except Stop:
                value = lost
            res = (c.violations, c.evaluations, c.notes, c.decisive, value)
        except BaseException as e:
            res = repr(e)
        with os.fdopen(b, "wb") as out:
            pickle.dump(res, out)
        os._exit(0)
    os.close(b)
    with os.fdopen(a, "rb") as src:
        data = src.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        c.note("lost children")
        if c.notes["lost children"] > 5:
            raise RuntimeError("children end by signal %d" % os.WTERMSIG(status))
        return lost
    res = pickle.loads(data)
    if isinstance(res, str):
        raise RuntimeError(res)
    c.evaluations += res[1]
    c.decisive |= res[3]
    for k, v in res[2].items():
        c.note(k, v)
    c.violations += res[0]
    if len(c.violations) >= c.limit:
        raise Stop()
    return res[4]


# ------------------------------------------------------------------- C20 ---

CPU_CEILING = 20.0  # seconds of CPU for one call; sound code needs milliseconds


def hostile(r, n):
    """Long strings and the calls they go to."""
    fills = ["0", "1", "9", "a", "A", "-", "_", ".", ":", "*", "%", "%2F", "%25", "%2f", "%2", "/", "#", "%23", "(", ")", "()",
             "(21)", "(8011)", " ", "\n", "=", "0.", ".0", "a.", "0A", "%2Fa", "A%23", "-%2F", "\x00", "é", "١", "000000",
             "urn:epc:id:", "(01)", "10", "01", "F"]
    ends = ["", "!", "\n", " ", "$", ".", "é", "%", "%2", ":", "(", "x", "(21)", ".0"]
    out = []

    def fill(f):
        return (f * (n // len(f) + 1))[:n]

    for s in spec.SCHEMES:
        pre = spec.PREFIX_OF[s]
        for f in fills:
            big = fill(f)
            e = r.choice(ends)
            forms = [pre + big + e, pre + "0614141.%s.1" % big + e, pre + "0614141.812345." + big + e,
                     pre + "%s.1.1" % big + e]
            if s in ("USDOD", "ADI"):
                forms += [pre + "CAGE5." + big + e, pre + "CAGE5.A." + big + e, pre + "CAGE5.%s.A" % big + e]
            if s == "ITIP":
                forms += [pre + "4012345.012345.01.02." + big + e, pre + "4012345.012345.%s.02.1" % big + e]
            if s in ("GIAI", "GINC"):
                forms += [pre + "0614141." + big + e]
            t = r.choice(forms)
            out.append(("new", (s, t)))
            out.append(("g_scheme", (r.choice(forms),)))
            out.append(("g_get_key", (r.choice(forms).replace(":id:", r.choice([":idpat:", ":id:"])), 7, None)))
            if s in spec.AI:
                ai = spec.AI[s]
                first = r.choice(["(%s)" % ai[0], "(%s)0614141123452" % ai[0], "(%s)00614141123452" % ai[0], "(%s)06141411234520102" % ai[0]])
                second = r.choice(["", "(%s)" % ai[-1], "1(%s)" % ai[-1]])
                es = r.choice([first + second + big + e, first + big + second + "1" + e, first + big + e])
                out.append(("from_element", (s, es, 7)))
                out.append(("g_from_element", (es, 7)))
                out.append(("g_get_key", (es, 7, None)))
            if s in spec.TAGGED:
                cs = r.choice(CODINGS_OF[s])
                t = "urn:epc:tag:%s:%s%s" % (cs, "" if s == "GID" else r.choice(["0.", "0.", big + "."]), r.choice(forms)[len(pre):])
                out.append(("from_tag_uri", (s, t)))
                out.append(("g_tag_uri", (t,)))
                out.append(("g_get_key", (t, None, None)))
                h = format(spec.CODING[cs][1], "08b")
                bits = h + "000" + "101" + "".join(r.choice("01") for _ in range(30)) + r.choice(["", "", "000000"]) + r.choice(
                    ["1" * n, "0" * n, "01" * (n // 2), "000001" * (n // 6), "110000" * (n // 6), "100000" * (n // 6),
                     "".join(r.choice("01") for _ in range(n))]) + r.choice(
                    ["", "2", "\n", "0" * 6, "0" * 12, "000000000001000000", "0" * 40])
                out.append(("from_binary", (s, bits)))
                out.append(("g_binary", (bits,)))
                out.append(("from_hex", (s, "%02X" % spec.CODING[cs][1] + big)))
                out.append(("g_hex", ("%02X" % spec.CODING[cs][1] + big + e,)))
                out.append(("from_base64", (s, "MA" + big)))
                out.append(("g_base64", ("MA" + big + e,)))
    for f in fills:
        big = fill(f)
        out += [("g_get_key", (big, 7, None)), ("g_scheme", (big,)), ("g_tag_uri", (big,)), ("g_from_element", (big, 7)),
                ("g_get_key", (":::" + big, None, None)), ("from_gtin", (big, "1", 7)), ("from_gtin", ("80614141123458", big, 7))]
    return out


@check("C20", must=("hostile calls", "short calls"),
       rule="distinct (operation, arguments) combinations executed under the CPU ceiling, hostile strings of 300 to 16000 "
            "characters and near-miss strings of ordinary length",
       assumptions=["one call that uses %d s of CPU, or grows faster than quadratically beyond 2 s, is not bounded" % CPU_CEILING])
def c20(c):
    r = c.rng
    c.limit = 1

    def alarm(*_):
        raise api.Timeout()

    signal.signal(signal.SIGVTALRM, alarm)

    def timed(op, args):
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_CEILING)
        t = time.thread_time()
        try:
            c.lib.begin()
            c.lib.call(op, *args)
        except api.Timeout:
            c.lib.events = [(op, args, ("exc", "no result within %d s of CPU" % CPU_CEILING))]
            return None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return time.thread_time() - t

    def judge(op, args):
        dt = timed(op, args)
        c.evaluations += 1
        c.decisive.add(hash((op, args)))
        if c.evaluations in (10, 1000):
            c.samples.append("%s of %d characters: %s s CPU" % (op, max(len(a) for a in args if isinstance(a, str)), dt))
        if dt is None:
            c.report("%s needs more than %d s of CPU on %r" % (op, CPU_CEILING, shorten(args)))
        return dt

    worst = 0.0
    slow = []
    for n in (300, 1200, 4000, 16000) if c.tier == "quick" else (300, 1200, 2500, 4000, 8000, 16000, 40000):
        jobs = hostile(r, n)
        r.shuffle(jobs)
        for op, args in c.each(jobs[:size(c, 700, 4000)]):
            dt = judge(op, args) or 0
            worst = max(worst, dt)
            c.note("hostile calls")
            if dt > 0.25:
                slow.append((op, args))
    # calls that were slow: how do they grow?
    for op, args in slow[:20]:
        text = max((a for a in args if isinstance(a, str)), key=len)
        times = []
        for cut in (4, 2, 1):
            half = squeeze(text, cut)
            times.append(judge(op, tuple(half if a is text else a for a in args)) or 0)
        c.note("growth curves")
        if times[2] > 2.0 and times[2] > 40 * max(times[0], 1e-4):
            c.report("%s grows faster than quadratically: %s s of CPU for a quarter, half and all of %r" % (op, times, shorten(args)))
    c.note("slowest call (microseconds, summed over workers)", int(worst * 1e6))
    for _ in c.each(range(size(c, 2500))):
        t, cpl = any_text(c)
        t = c.gen.mutate(t, r.randint(0, 3))
        op = r.choice(["new", "from_tag_uri", "from_binary", "from_hex", "from_base64", "g_scheme", "g_tag_uri", "g_hex", "g_binary",
                       "g_base64", "g_from_element", "g_get_key", "from_element"])
        if op == "new":
            args = (r.choice(spec.SCHEMES), t)
            for s in spec.SCHEMES:
                if t.startswith(spec.PREFIX_OF[s]):
                    args = (s, t)
        elif op == "from_element":
            args = (r.choice(spec.ELEMENT), t, cpl)
        elif op.startswith("from_"):
            args = (r.choice(spec.TAGGED), t)
        elif op == "g_from_element":
            args = (t, cpl)
        elif op == "g_get_key":
            args = (t, cpl, None)
        else:
            args = (t,)
        judge(op, args)
        c.note("short calls")


def squeeze(text, cut):
    """The same string with its middle cut down to 1/cut of the length."""
    if cut == 1:
        return text
    keep = len(text) // cut
    return text[:keep - keep // 8] + text[len(text) - keep // 8:]


def shorten(args):
    return tuple(a if not isinstance(a, str) or len(a) < 120 else a[:60] + "...(%d)..." % len(a) + a[-30:] for a in args)
