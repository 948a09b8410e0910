"""Monitor of what happens outside the library's own objects: audit events
(files, sockets, processes, ...), output, and process-wide state."""

import atexit
import builtins
import contextvars
import decimal
import faulthandler
import gc
import locale
import logging
import os
import random
import re
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import warnings

from . import api

# what a conversion has no business doing, by audit event
PREFIXES = ("os.", "socket.", "subprocess.", "shutil.", "tempfile.", "ctypes.", "mmap.", "fcntl.", "pty.", "signal.",
            "syslog.", "urllib.", "http.", "ftplib.", "smtplib.", "imaplib.", "poplib.", "telnetlib.", "nntplib.",
            "sqlite3.", "webbrowser.", "resource.", "faulthandler.", "time.sleep", "_thread.start", "glob.", "pathlib.",
            "msvcrt.", "ensurepip.", "pickle.find_class")
EXACT = {"open", "builtins.input", "builtins.input/result", "builtins.breakpoint", "sys.settrace", "sys.setprofile",
         "sys.addaudithook", "sys.set_asyncgen_hooks_firstiter", "sys.set_asyncgen_hooks_finalizer", "setopencodehook",
         "sys.unraisablehook", "sys.excepthook", "cpython.run_command", "gc.get_objects", "gc.get_referrers",
         "gc.get_referents", "sys.monitoring.register_callback"}
STANDARD = ("re", "base64", "math", "enum", "string", "typing", "binascii", "functools", "itertools", "collections", "json")


def importing():
    """Is this the import machinery at work (or another module being set up),
    rather than the library's own code?"""
    own = os.path.realpath(api.REPO) + os.sep
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if name.startswith("<frozen importlib"):
            return True
        if os.path.realpath(name).startswith(own):
            return False
        f = f.f_back
    return False


def show_warnings():
    """Let warnings appear as they do in a program that changes nothing."""
    warnings.resetwarnings()
    warnings.simplefilter("always")
    for kind in (DeprecationWarning, PendingDeprecationWarning, ImportWarning, ResourceWarning):
        warnings.simplefilter("ignore", kind)
    warnings.filterwarnings("always", category=DeprecationWarning, module=r"epcmon\.api|__main__")


class Watch:
    """Between before() and after(), with ``active`` set around the library's
    own work, collects everything that happened elsewhere."""

    def __init__(self, scratch):
        self.active = False
        self.seen = []
        self.paths = [os.path.join(scratch, "fd%d-%d" % (n, os.getpid())) for n in (1, 2)]
        sys.addaudithook(self._event)
        self.files = []
        for n, p in zip((1, 2), self.paths):
            fd = os.open(p, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, n)
            os.close(fd)

    def _event(self, name, args):
        if not self.active:
            return
        if not (name in EXACT or name.startswith(PREFIXES)):
            return
        self.active = False
        try:
            if importing():
                return
            if name == "open" and args and isinstance(args[0], str) and self._own_read(args):
                return
            self.seen.append("%s%s" % (name, tuple(str(a)[:120] for a in args)))
        finally:
            self.active = True

    @staticmethod
    def _own_read(args):
        """Reading (never writing) a file that belongs to the library."""
        p = os.path.realpath(args[0])
        mode = args[1] if len(args) > 1 else "r"
        flags = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
        if mode is None:
            mode = "r" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) == 0 else "w"
        return p.startswith(os.path.realpath(api.REPO) + os.sep) and not set(mode) & set("wax+")

    def state(self):
        for s in (sys.stdout, sys.stderr):
            try:
                s.flush()
            except Exception:
                pass
        root = logging.getLogger()
        d = {
            "output on stdout": os.fstat(1).st_size,
            "output on stderr": os.fstat(2).st_size,
            "environment variables": dict(os.environ),
            "working directory": os.getcwd(),
            "locale": locale.setlocale(locale.LC_ALL),
            "recursion limit": sys.getrecursionlimit(),
            "switch interval": sys.getswitchinterval(),
            "integer digit limit": sys.get_int_max_str_digits(),
            "decimal context": repr(decimal.getcontext()) + repr(decimal.DefaultContext),
            "random state": hash(random.getstate()),
            "warning filters": list(warnings.filters),
            "warning display": id(warnings.showwarning),
            "module search path": list(sys.path),
            "import hooks": list(map(id, sys.meta_path)) + list(map(id, sys.path_hooks)),
            "signal handlers": [signal.getsignal(s) for s in sorted(signal.valid_signals()) if s not in (9, 19)],
            "timers": signal.getitimer(signal.ITIMER_REAL)[1],
            "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count()),
            "threads": threading.active_count(),
            "trace hooks": (id(sys.gettrace()), id(sys.getprofile())),
            "interpreter hooks": (id(sys.displayhook), id(sys.excepthook), id(sys.unraisablehook), id(threading.excepthook)),
            "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
            "open files": len(os.listdir("/proc/self/fd")),
            "umask": self._umask(),
            "time zone": time.tzname,
            "logging setup": (root.level, len(root.handlers), len(root.filters), root.manager.disable, logging.raiseExceptions),
            "socket timeout": socket.getdefaulttimeout(),
            "bytecode setting": (sys.dont_write_bytecode, sys.pycache_prefix),
            "niceness": os.getpriority(os.PRIO_PROCESS, 0),
            "arguments": list(sys.argv),
            "exit handlers": atexit._ncallbacks() if hasattr(atexit, "_ncallbacks") else None,
            "stack size": threading.stack_size(),
            "context variables": len(contextvars.copy_context()),
            "fault handler": faulthandler.is_enabled(),
            "memory tracing": tracemalloc.is_tracing(),
            "resource limits": [resource.getrlimit(n) for n in range(16)],
            "cpus": os.sched_getaffinity(0),
            "uncollectable objects": len(gc.garbage),
            "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"},
        }
        for m in STANDARD:
            if m in sys.modules:
                d["module " + m] = {k: id(v) for k, v in vars(sys.modules[m]).items()}
        return d

    @staticmethod
    def _umask():
        u = os.umask(0o077)
        os.umask(u)
        return u

    def before(self):
        self.seen = []
        re.compile("the caller's own pattern")
        self.patterns = any("caller's own" in str(k) for k in getattr(re, "_cache", ()))
        self.start = self.state()

    def after(self):
        """-> list of (what, how), empty when nothing happened."""
        found = [("event", s) for s in self.seen[:5]]
        now = self.state()
        for k, a in self.start.items():
            b = now.get(k)
            if a == b or a is None:
                continue
            if k.startswith("module "):  # names may be added, not changed
                gone = [n for n in a if b.get(n) != a[n]] if b else [k]
                if gone:
                    found.append((k, "changed " + ", ".join(gone[:4])))
            elif isinstance(a, dict):
                diff = {n for n in set(a) | set(b) if a.get(n) != b.get(n)}
                found.append((k, "changed " + ", ".join(sorted(diff)[:4])))
            else:
                found.append((k, "was %.150s, is %.150s" % (a, b)))
        if self.patterns and not any("caller's own" in str(k) for k in getattr(re, "_cache", ())):
            found.append(("compiled patterns", "the caller's were thrown away"))
        for n, p in zip((1, 2), self.paths):
            if os.fstat(n).st_size:
                with open(p, errors="replace") as f:
                    found.append(("text", f.read()[-200:]))
                os.ftruncate(n, 0)
                os.lseek(n, 0, 0)
        return found
