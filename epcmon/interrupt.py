"""C27: a call that is broken off (Ctrl-C, a timeout raised by a signal
handler) passes the interruption on and leaves nothing behind."""

from . import api, spec
from .checks import check, size
from .history import FOREVER, Pristine, alike_pairs, cluster, in_child, model, random_call
from .plans import make, outcome, perform, usable
from .values import own_calls


def break_off(c, objs, call, n):
    """The call, interrupted at its n-th point; -> where, or "" if it ended before."""
    out = perform(c.lib, objs, ("break", (n, call[0]) + tuple(call[1])))
    if out[0] != "ok" or out[1].startswith("swallowed"):
        c.report("%s: the interruption did not reach the caller: %s" % (call, out[1]))
    if not out[1].startswith("interrupted"):
        return ""
    c.decisive.add(hash((call, out[1])))
    c.note("interruptions")
    if "at loop" in out[1]:
        c.note("interrupted loops")
    return "%s was %s" % (call, out[1])


def points(c, objs, call):
    out = perform(c.lib, objs, ("break", (FOREVER, call[0]) + tuple(call[1])))
    return int(out[1].split()[0]) if out[0] == "ok" else 0


def judge(c, idents, objs, call, want, last):
    c.evaluations += 1
    out = perform(c.lib, objs, call)
    kind, w = want
    if kind == "alone":
        wrong = outcome(out) != w and "gave %s instead of %s" % (outcome(out), w)
    else:
        m = api.mismatch(out, w)
        wrong = m and m[1]
    if wrong:
        c.report("%s %s after %s, over %s" % (call, wrong, last or "no interruption", [spec.uri(i) for i in idents]))


def unchanged(c, idents, objs, last):
    for o, i in zip(objs, idents):
        if o is not None and o.raw.epc_uri != spec.uri(i):
            c.report("identity changed from %s to %s; %s" % (spec.uri(i), o.raw.epc_uri, last))


@check("C27", must=("interruptions", "first-use interruptions", "repeated interruptions", "interrupted loops",
                    "interrupted constructions", "objects", "histories"),
       rule="distinct (call, source position in the library at which it was interrupted); the interruption must reach "
            "the caller, and afterwards the same call and others must end as in a process without interruptions",
       assumptions=["interruptions arrive where the interpreter looks for them: at the start of functions, after calls "
                    "of built-in code, and when a loop goes round; module and class bodies are left alone"])
def c27(c):
    r = c.rng
    fresh = Pristine(c.lib)
    try:
        # (a) the first use of something, broken off at each point in a
        # process that has only imported the library
        for idents, a, b in c.each(alike_pairs(c)[c.worker::8]):
            todo = [(x, ("alone", fresh.ask(idents, x))) for x in (a, b)]
            used = {x[1] for call in (a, b) for x in call[1] if isinstance(x, tuple) and x and x[0] == "o"}

            def first(n, again=()):
                def one():
                    c.lib.begin()
                    objs = make(c.lib, idents, used)
                    if not (usable(a, objs) and usable(b, objs)):
                        return 0
                    if n is None:
                        return points(c, objs, a)
                    last = break_off(c, objs, a, n)
                    for call, m in again:
                        last += "; " + break_off(c, objs, call, m)
                    for call, want in todo:
                        judge(c, idents, objs, call, want, last)
                    unchanged(c, idents, objs, last)
                c.note("first-use interruptions")
                return in_child(c, one, 0)

            n = first(None)
            if not n:
                continue
            most = size(c, 40, 250)
            for p in range(1, n + 1) if n <= most else sorted(r.sample(range(1, n + 1), most)):
                r.shuffle(todo)
                first(p)
            for _ in range(size(c, 3, 20)):
                first(r.randint(1, n), again=[(r.choice((a, b)), r.randint(1, n)) for _ in range(r.randint(1, 3))])
                c.note("repeated interruptions")
        # (b) making objects, broken off everywhere; then the same again
        for ident in c.idents(spec.SCHEMES, size(c, 42, 400), sweep=0):
            u = spec.uri(ident)
            call = r.choice([("new", (ident.scheme, u)), ("g_scheme", (u,)), ("from_epc_uri", (ident.scheme, u))])
            for p in range(1, points(c, [], call) + 1):
                last = break_off(c, [], call, p)
                judge(c, [ident], [], call, ("model", ("ok", ident)), last)
                c.note("interrupted constructions")
        # (c) every conversion of one object, broken off everywhere; then others
        for ident in c.idents(spec.SCHEMES, size(c, 126, 1500), sweep=0):
            o = c.obj(ident)
            calls = own_calls(c, ident, 100)
            if o is None or not calls:
                continue
            last = ""
            for call in r.sample(calls, min(5, len(calls))):
                n = points(c, [o], call)
                for p in range(1, n + 1) if n <= 40 else r.sample(range(1, n + 1), 40):
                    last = break_off(c, [o], call, p)
                    x = r.choice(calls)
                    judge(c, [ident], [o], x, ("model", model(x, [ident])), last)
            for x in calls:
                judge(c, [ident], [o], x, ("model", model(x, [ident])), last)
            unchanged(c, [ident], [o], last)
            c.note("objects")
        # (d) histories with interruptions in them
        for _ in c.each(range(size(c, 120, 1500))):
            c.lib.begin()
            idents = cluster(c, r.randint(2, 5))
            objs = make(c.lib, idents)
            calls = [x for x in (random_call(c, idents) for _ in range(r.randint(4, 10))) if usable(x, objs)]
            if not calls:
                continue
            want = {}
            for x in calls:
                w = model(x, idents)
                want[x] = ("alone", fresh.ask(idents, x)) if w[0] == "any" or r.random() < 0.1 else ("model", w)
            last = ""
            for _ in range(r.randint(20, 60)):
                x = r.choice(calls)
                if r.random() < 0.6:
                    last = break_off(c, objs, x, r.randint(1, r.choice([10, 40, 150]))) or last
                else:
                    judge(c, idents, objs, x, want[x], last)
            unchanged(c, idents, objs, last)
            c.note("histories")
    finally:
        fresh.close()
