"""Runs a recorded plan of calls in an interpreter of its own.

    child.py <mode> <spec.json> <plan> <result>

The caller chooses interpreter options and environment variables; the spec
says what to change inside the process before the library is imported.
Mode "plan" writes the outcomes of all calls, mode "objects" those of calls on
objects pickled elsewhere, mode "import" the side effects of importing the
library.
"""

import json
import os
import pickle
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def disturb(spec):
    """Change what the library's outcomes must not depend on."""
    if "cwd" in spec:
        os.chdir(spec["cwd"])
    if "locale" in spec:
        import locale
        locale.setlocale(locale.LC_ALL, spec["locale"])
    if "digits" in spec:
        sys.set_int_max_str_digits(spec["digits"])
    if "random" in spec:
        import random
        random.seed(spec["random"])
    if "clock" in spec:
        shift_clock(spec["clock"])
    if "close" in spec:
        for fd in spec["close"]:
            os.close(fd)
        sys.stdin = sys.stdout = sys.stderr = None
    if "argv" in spec:
        sys.argv = spec["argv"]
    if "tz" in spec:
        import time
        os.environ["TZ"] = spec["tz"]
        time.tzset()
    if "lookups" in spec:
        record_lookups(spec["lookups"])
    if "gc" in spec:
        import gc
        gc.set_threshold(*spec["gc"])
    if "decimal" in spec:
        import decimal
        for context in (decimal.DefaultContext, decimal.getcontext()):
            context.prec = spec["decimal"]
            context.rounding = decimal.ROUND_UP
    if "logging" in spec:
        import logging
        logging.basicConfig(level=spec["logging"], handlers=[logging.NullHandler()])
    if "terminal" in spec:
        spec["kept"], terminal = os.openpty()
        for fd in (0, 1, 2):
            os.dup2(terminal, fd)
    for name in spec.get("imports", ()):
        __import__(name)
    if "pid" in spec:  # some processes later
        for _ in range(spec["pid"]):
            p = os.fork()
            if p == 0:
                os._exit(0)
            os.waitpid(p, 0)
        if os.fork():
            os.wait()
            os._exit(0)


LOOKUPS = set()


def record_lookups(repo):
    """Note the environment variables that code below ``repo`` asks for."""
    real = type(os.environ).__getitem__

    def getitem(self, key):
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_filename.startswith(repo):
                LOOKUPS.add(key)
                break
            f = f.f_back
        return real(self, key)
    type(os.environ).__getitem__ = getitem


def shift_clock(by):
    import datetime
    import time
    for name in ("time", "monotonic", "perf_counter"):
        def moved(real=getattr(time, name)):
            return real() + by
        setattr(time, name, moved)
    for name in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        def moved_ns(real=getattr(time, name)):
            return real() + int(by * 1e9)
        setattr(time, name, moved_ns)

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return datetime.date.fromtimestamp(time.time())

    class DateTime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    local, gm, strf, ctime = time.localtime, time.gmtime, time.strftime, time.ctime
    time.localtime = lambda s=None: local(time.time() if s is None else s)
    time.gmtime = lambda s=None: gm(time.time() if s is None else s)
    time.strftime = lambda f, t=None: strf(f, time.localtime() if t is None else t)
    time.ctime = lambda s=None: ctime(time.time() if s is None else s)
    datetime.date, datetime.datetime = Date, DateTime


def plan(spec, path):
    with open(path, "rb") as f:
        blocks = pickle.load(f)
    try:
        from epcmon import api
        lib = api.Lib()
    except BaseException as e:
        return ("import", "%s: %s" % (type(e).__name__, e))
    from epcmon import plans
    out = []

    def run():
        for idents, calls in blocks:
            out.append(plans.execute(lib, idents, calls))

    if spec.get("depth"):
        inner = run

        def run(n=spec["depth"]):
            return run(n - 1) if n else inner()
    if spec.get("user"):
        os.seteuid(spec["user"])
    if spec.get("traced"):
        def tracer(frame, event, arg):
            return None
        sys.settrace(tracer)
        sys.setprofile(tracer)
    if spec.get("thread"):
        import threading
        t = threading.Thread(target=run)
        t.start()
        t.join()
    elif spec.get("nested"):
        import asyncio

        async def go():
            run()
        asyncio.run(go())
    else:
        run()
    sys.settrace(None)
    sys.setprofile(None)
    if spec.get("user"):
        os.seteuid(0)
    return ("ran", out, sorted(LOOKUPS))


def objects(path):
    """Unpickle objects (the library is not imported before) and use them."""
    with open(path, "rb") as f:
        parcels = pickle.load(f)
    from epcmon import api
    sys.path.insert(0, api.REPO)
    raws = []
    for parcel, _ in parcels:
        try:
            raws.append(pickle.loads(parcel))
        except BaseException as e:
            raws.append(e)
    from epcmon import plans
    lib = api.Lib()
    out = []
    for raw, (_, calls) in zip(raws, parcels):
        if isinstance(raw, BaseException):
            out.append("%s: %s" % (type(raw).__name__, raw))
            continue
        lib.begin()
        obj = lib.handle(raw)
        out.append([plans.outcome(plans.perform(lib, [obj], call)) for call in calls])
    return ("ran", out)


def importing(spec):
    from epcmon import api, watch
    w = watch.Watch(spec["scratch"])
    escapes = set()
    show = warnings.showwarning

    def keep(message, category, filename, lineno, file=None, line=None):
        if category is SyntaxWarning and str(message).startswith("invalid escape sequence"):
            escapes.add(os.path.basename(filename))
        else:
            show(message, category, filename, lineno, file, line)
    warnings.showwarning = keep
    w.before()
    sys.path.insert(0, api.REPO)
    w.active = True
    try:
        import epcpy  # noqa: F401
        import epcpy.epc_schemes  # noqa: F401
        import epcpy.utils.parsers  # noqa: F401
    finally:
        w.active = False
    sys.path.remove(api.REPO)
    found = w.after()
    if escapes:
        found.append(("SyntaxWarning", "invalid escape sequence, printed when the source is compiled: " + ", ".join(sorted(escapes))))
    return ("ran", found)


if __name__ == "__main__":
    mode, js, source, result = sys.argv[1:5]
    with open(js) as f:
        SPEC = json.load(f)
    disturb(SPEC)
    res = plan(SPEC, source) if mode == "plan" else objects(source) if mode == "objects" else importing(SPEC)
    with open(result + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.replace(result + ".tmp", result)
