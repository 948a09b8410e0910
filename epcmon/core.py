"""Case context shared by the checks: drives recorded calls, judges them
against the reference model, counts what was observed, collects violations."""

import random
import sys
import time
import types

from . import api, spec
from .gen import Gen


SOFT_LIMIT = 600.0  # seconds after which a worker ends its loops early


class Stop(Exception):
    """Enough violations seen by this worker."""


def mine_constants(lib, longest=12):
    """Integers and short strings that occur in the imported library code.
    They only enrich the generators; no verdict depends on them."""
    ints, strs, seen = set(), set(), set()

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        for c in code.co_consts:
            add(c)

    def add(c):
        if isinstance(c, types.CodeType):
            walk(c)
        elif isinstance(c, bool):
            pass
        elif isinstance(c, int):
            ints.add(abs(c))
        elif isinstance(c, str):
            if 0 < len(c) <= longest and c.isprintable() and "\n" not in c:
                strs.add(c)
        elif isinstance(c, (tuple, frozenset)):
            for x in c:
                add(x)

    def of(o):
        if isinstance(o, types.FunctionType):
            walk(o.__code__)
        elif isinstance(o, (classmethod, staticmethod)):
            of(o.__func__)
        elif isinstance(o, property):
            for f in (o.fget, o.fset):
                of(f)

    for name, mod in sorted(sys.modules.items()):
        if name == "epcpy" or name.startswith("epcpy."):
            try:  # what only runs at import leaves no function behind
                with open(mod.__file__) as f:
                    walk(compile(f.read(), "<mined>", "exec"))
            except (OSError, SyntaxError, ValueError, TypeError):
                pass
            for v in list(vars(mod).values()):
                of(v)
                if isinstance(v, (int, str, tuple)):
                    add(v)
                if isinstance(v, type) and getattr(v, "__module__", "").startswith("epcpy"):
                    for m in list(vars(v).values()):
                        of(m)
    return sorted(ints), sorted(strs)


class Coverage:
    """Branch outcomes of library code not seen before by this worker, used to
    keep interesting identities as seeds for mutation."""
    TOOL = 3

    def __init__(self):
        self.new = 0
        self.total = 0
        self.seen = {}
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        mon.use_tool_id(self.TOOL, "epcmon")
        mon.register_callback(self.TOOL, mon.events.BRANCH, self._hit)
        for name, mod in list(sys.modules.items()):
            if name == "epcpy" or name.startswith("epcpy."):
                for code in self._codes(mod):
                    mon.set_local_events(self.TOOL, code, mon.events.BRANCH)
        self.on = True

    @staticmethod
    def _codes(mod):
        out, todo = set(), []
        for v in list(vars(mod).values()):
            if isinstance(v, types.FunctionType):
                todo.append(v.__code__)
            elif isinstance(v, type):
                for m in list(vars(v).values()):
                    f = getattr(m, "__func__", m)
                    if isinstance(f, types.FunctionType):
                        todo.append(f.__code__)
        while todo:
            c = todo.pop()
            if c in out or "epcpy" not in c.co_filename:
                continue
            out.add(c)
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
        return out

    def _hit(self, code, offset, dest):
        d = self.seen.setdefault((code, offset), set())
        if dest not in d:
            d.add(dest)
            self.new += 1
            self.total += 1
        if len(d) >= 2:
            return sys.monitoring.DISABLE


class Ctx:
    def __init__(self, pid, seed, worker, tier, limit=3):
        self.pid, self.tier, self.worker = pid, tier, worker
        self.rng = random.Random("%s/%s/%s/%s" % (pid, seed, worker, tier))
        self.lib = api.Lib()
        self.gen = Gen(self.rng, mine_constants(self.lib))
        self.cov = Coverage()
        self.evaluations = 0
        self.decisive = set()
        self.unclaimed = 0
        self.samples = []
        self.notes = {}
        self.violations = []
        self.limit = limit
        self.lib.hung = self.hung
        self.corpus = {}
        self.deadline = time.monotonic() + SOFT_LIMIT

    # ------------------------------------------------------------ verdicts --
    def report(self, message, events=None):
        self.violations.append({"message": message, "events": self.lib.dump(events)[-3000:]})
        if len(self.violations) >= self.limit:
            raise Stop()

    def hung(self, message):
        """A call that never returns is a violation of anything promised
        about calls; this worker cannot go on."""
        self.limit = 1
        self.report(message)

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def observe(self, op, args, ident, want, out):
        """Bookkeeping of one judged call."""
        self.evaluations += 1
        if want[0] == "any":
            self.unclaimed += 1
            return
        self.decisive.add(hash((op, ident) + tuple(
            repr(a) if isinstance(a, (dict, list)) else a for a in args if not isinstance(a, api.Obj))))
        n = self.evaluations
        if n & (n - 1) == 0:
            self.samples.append("%s%s -> %s" % (
                op, tuple(api.show(a) for a in args), (out[0], api.show(out[1]))))

    def do(self, op, *args, ident=None, kinds=None, want=None):
        """Call, judge against the model (or ``want``), report a mismatch."""
        out = self.lib.call(op, *args)
        if want is None:
            want = api.expect(op, args, ident)
        self.observe(op, args, ident, want, out)
        m = api.mismatch(out, want)
        if m and (kinds is None or m[0] in kinds):
            self.report("%s%s %s" % (op, tuple(api.show(a) for a in args), m[1]))
        return out

    def obj(self, ident, how=None):
        """Object of a valid identity; failing to get one is a violation of
        whatever is claimed for all valid identities."""
        how = how or self.rng.choice(["new", "from_epc_uri"])
        out = self.do(how, ident.scheme, spec.uri(ident))
        if out[0] == "ok" and isinstance(out[1], api.Obj) and out[1].scheme == ident.scheme:
            return out[1]
        return None

    # ------------------------------------------------------------ workload --
    def each(self, items):
        """The items, ending early (and saying so) when time runs out."""
        for x in items:
            if time.monotonic() > self.deadline:
                self.note("loops cut short")
                return
            yield x

    def idents(self, schemes, n, sweep=None, mutate=True):
        """Sweep identities of this worker, then n seeded random ones; with
        feedback from branch coverage."""
        from .gen import sweep_idents
        schemes = list(schemes)
        todo = []
        if sweep != 0:
            todo = [i for i in sweep_idents() if i.scheme in schemes]
            todo = todo[self.worker::8]
            if sweep:
                todo = todo[self.rng.randrange(sweep)::sweep]
        for ident in self.each(todo):
            self.lib.begin()
            yield ident
        g = self.gen
        for k in self.each(range(n)):
            s = schemes[(k + self.worker) % len(schemes)]
            pool = self.corpus.get(s)
            if mutate and pool and self.rng.random() < 0.35:
                base = self.rng.choice(pool)
                ident = self.blend(base, g.ident(s, len(base.parts[0]) if s in spec.PREFIXED else None))
            else:
                ident = g.ident(s)
            before = self.cov.total
            self.lib.begin()
            yield ident
            if self.cov.total != before:
                self.corpus.setdefault(s, []).append(ident)

    def tag_grid(self, schemes=spec.TAGGED, times=1, part=1):
        """(identity, coding scheme, filter) for every point of the tag grids
        of this worker, or for every part-th of them."""
        for cs in spec.CODING:
            if spec.CODING[cs][0] not in schemes:
                continue
            points = self.gen.tag_grid(cs)[self.worker::8]
            for point in self.each(points[self.rng.randrange(part)::part] * times):
                ident = self.gen.at(point)
                if ident is not None:
                    self.lib.begin()
                    self.note("grid points")
                    yield ident, cs, point[2]

    def text_grid(self, schemes, times=1):
        """(identity, prefix length to ask for) likewise."""
        for s in schemes:
            for point in self.each(self.gen.text_grid(s)[self.worker::8] * times):
                ident = self.gen.at_text(point)
                if ident is not None:
                    self.lib.begin()
                    self.note("grid points")
                    yield ident, point[3]

    def blend(self, a, b):
        """Some components of a, the others of b."""
        parts = tuple(x if self.rng.random() < 0.6 else y for x, y in zip(a.parts, b.parts))
        c = spec.Ident(a.scheme, parts)
        try:
            return spec.check(c)
        except spec.Bad:
            return b

    def filters(self, cs, k=1):
        f = list(spec.filters(cs))
        return f if k >= len(f) else self.rng.sample(f, k)

    def style(self):
        return self.rng.choice(["kw", "pos", "mix"])

    def result(self):
        return {"evaluations": self.evaluations, "decisive": self.decisive, "unclaimed": self.unclaimed,
                "samples": self.samples[-6:], "notes": self.notes, "violations": self.violations,
                "calls": dict(self.lib.count), "branches": self.cov.total}
