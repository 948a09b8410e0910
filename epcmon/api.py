"""Recorder at the client boundary of the library.

Every call a check makes goes through ``Lib.call``; it is logged as an event
(operation, arguments, outcome) before anybody judges it.  Outcomes are

* ``("ok", value)``   value is a str, bool or an ``Obj`` handle
* ``("conv", text)``  the library raised ConvertException
* ``("exc", text)``   the library raised anything else

Events are JSON-able, so a violating case can be written out and re-executed.
"""

import abc
import copy
import dis
import importlib
import inspect
import os
import pickle
import signal
import sys
import types
import zlib

from . import spec

REPO = os.environ.get("EPCMON_REPO", "/repo")


class Obj:
    """Handle of a library object."""
    __slots__ = ("raw", "n", "lib")

    def __init__(self, lib, raw, n):
        self.lib, self.raw, self.n = lib, raw, n

    @property
    def uri(self):
        return self.raw.epc_uri

    @property
    def scheme(self):
        """Name of the one scheme this object belongs to, else None."""
        return self.lib.scheme_of(self.raw)

    def describe(self):
        return {"h": self.n, "scheme": self.scheme, "uri": getattr(self.raw, "epc_uri", None)}


GENERIC = {
    "g_scheme": "epc_pure_identity_to_scheme",
    "g_element": "epc_pure_identity_to_gs1_element",
    "g_element_string": "epc_pure_identity_to_gs1_element_string",
    "g_keyed": "epc_pure_identity_to_gs1_keyed",
    "g_key": "epc_pure_identity_to_gs1_key",
    "g_tagenc": "epc_pure_identity_to_tag_encodable",
    "g_from_element": "gs1_element_string_to_gs1_element",
    "g_tag_uri": "tag_uri_to_tag_encodable",
    "g_binary": "binary_to_tag_encodable",
    "g_hex": "hex_to_tag_encodable",
    "g_base64": "base64_to_tag_encodable",
    "g_get_key": "get_gs1_key",
}


def member(enum, name, value):
    """The member a client means, by its name, else by its value."""
    if name in enum.__members__:
        return enum.__members__[name]
    return next((m for m in enum if m.value == value), None)


COPIES = ("copy", "deepcopy", "pickle 2", "pickle 3", "pickle 4", "pickle 5", "deepcopy in a list")


def duplicate(x, how):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "deepcopy in a list":
        a, b = copy.deepcopy([x, x])
        return a
    return pickle.loads(pickle.dumps(x, int(how.split()[1])))


SUBCLASSES = ("plain", "with its own constructor", "of a subclass", "with a mixin", "with slots", "named like others", "named like its class", "registered as abstract")


def subclass(base, kind):
    name = "My" + base.__name__
    if kind == "plain":
        return type(name, (base,), {})
    if kind == "with its own constructor":
        def __init__(self, epc_uri):
            base.__init__(self, epc_uri)
            self.remark = "made by a client"
        return type(name, (base,), {"__init__": __init__})
    if kind == "of a subclass":
        return type("Our" + name, (type(name, (base,), {}),), {})
    if kind == "named like others":
        return type("Tag", (base,), {})
    if kind == "named like its class":
        return type(base.__name__, (base,), {})
    if kind == "registered as abstract":
        return abc.ABCMeta(name, (base, abc.ABC), {})
    if kind == "with a mixin":
        return type(name, (type("Mixin", (), {"remark": "made by a client"}), base), {})
    return type(name, (base,), {"__slots__": ("remark",)})


class Lib:
    def __init__(self):
        self._subclasses = {}
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        import epcpy
        where = os.path.realpath(epcpy.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("epcpy was imported from %s, not from %s" % (where, REPO))
        self.epcpy = epcpy
        self.Conv = importlib.import_module("epcpy.utils.common").ConvertException
        schemes = importlib.import_module("epcpy.epc_schemes")
        parsers = importlib.import_module("epcpy.utils.parsers")
        self.cls, self.filter, self.coding, self.gtin_type = {}, {}, {}, {}
        self._by_type = {}
        for s in spec.SCHEMES:
            c = getattr(schemes, s)
            self.cls[s] = c
            self._by_type[c] = s
            mod = importlib.import_module("epcpy.epc_schemes.%s" % s.lower())
            if s in spec.TAGGED:
                for cs in spec.CODINGS_OF[s]:
                    self.coding[cs] = member(c.BinaryCodingScheme, cs.upper().replace("-", "_"), cs)
                if s != "GID":
                    e = getattr(mod, s + "FilterValue")
                    self.filter[s] = {f: member(e, spec.filter_name(s, f), str(f)) for f in spec.filters(spec.CODINGS_OF[s][0])}
            if s in ("SGTIN", "LGTIN"):
                self.gtin_type[s] = {n: member(mod.GTIN_TYPE, "GTIN%d" % n, n) for n in (8, 12, 13, 14)}
        # most generic functions are public under two names; use them in turn
        self.parsers = {op: [getattr(parsers, name)] for op, name in GENERIC.items()}
        for op, name in GENERIC.items():
            if hasattr(epcpy, name):
                self.parsers[op].append(getattr(epcpy, name))
        self._order = {}
        self.events = []
        self.count = {}
        self._n = 0
        self._live = {}
        self.clock = 0  # odd while a call is in progress
        self.hung = None  # told about a call that does not return

    # ------------------------------------------------------------ helpers --
    def scheme_of(self, raw):
        s = self._by_type.get(type(raw))
        if s is not None:
            return s
        hits = [s for c, s in self._by_type.items() if isinstance(raw, c)]
        return hits[0] if len(hits) == 1 else None

    def sub(self, scheme, kind):
        """A client's own subclass of a scheme."""
        k = (scheme, kind)
        if k not in self._subclasses:
            self._subclasses[k] = subclass(self.cls[scheme], kind)
        return self._subclasses[k]

    def begin(self):
        """Forget the events (and handles) of the previous case."""
        self.events = []
        self._live = {}
        self._n = 0

    def handle(self, raw):
        o = Obj(self, raw, self._n)
        self._live[self._n] = o
        self._n += 1
        return o

    def order(self, raw, op):
        """Parameter names (and which have defaults) of the method that
        receives the coding scheme and filter."""
        k = (type(raw), op)
        if k not in self._order:
            name = "tag_uri" if op == "tag_uri" else "binary"
            ps = inspect.signature(getattr(type(raw), name)).parameters
            self._order[k] = [(p.name, p.default) for p in list(ps.values())[1:]]
        return self._order[k]

    def arguments(self, raw, op, cs, filt, style):
        """-> (args, kwargs).  style: 'kw', 'pos' or 'mix'."""
        given = {}
        if cs is not None:
            given["binary_coding_scheme"] = self.coding[cs]
        s = self.scheme_of(raw)
        if filt is not None:
            given["filter_value"] = self.filter[s][filt]
        if style == "kw":
            return (), given
        args = []
        for i, (name, _) in enumerate(self.order(raw, op)):
            if name not in given or (style == "mix" and i == 1):
                break
            args.append(given.pop(name))
        return tuple(args), given

    # --------------------------------------------------------------- call --
    def call(self, op, *args):
        """Perform one operation and record it."""
        self.count[op] = self.count.get(op, 0) + 1
        self.clock += 1
        try:
            v = self._do(op, args)
            out = ("ok", v)
        except self.Conv as e:
            out = ("conv", "")
        except Hang as e:
            self.events.append((op, args, ("exc", str(e))))
            if self.hung is None:
                raise
            self.hung("%s%s: %s" % (op, tuple(show(a) for a in args), e))
            raise
        except (KeyboardInterrupt, SystemExit, Timeout):
            raise
        except BaseException as e:  # noqa: every escaping type is an observation
            out = ("exc", "%s: %s" % (type(e).__name__, str(e)[:200]))
        finally:
            self.clock += 1
        self.events.append((op, args, out))
        return out

    @staticmethod
    def turn(n, *what):
        """A choice among n ways to make the same call, the same every time."""
        return zlib.crc32(repr(what).encode("ascii", "backslashreplace")) % n

    def _gtin(self, method, raw, n):
        t = self.gtin_type[self.scheme_of(raw)][n]
        k = self.turn(4, raw.epc_uri, n)
        if k == 0:
            return method(t)
        if k == 1 and n == 14:
            return method()
        return method(gtin_type=t)

    def _do(self, op, args):
        if op == "new":
            return self.handle(self.cls[args[0]](args[1]))
        if op in ("from_epc_uri", "from_tag_uri", "from_binary", "from_hex", "from_base64"):
            return self.handle(getattr(self.cls[args[0]], op)(args[1]))
        if op == "from_element":
            f = self.cls[args[0]].from_gs1_element_string
            if self.turn(2, args[1:]):
                return self.handle(f(args[1], company_prefix_length=args[2]))
            return self.handle(f(args[1], args[2]))
        if op == "from_gtin":
            return self.handle(self.cls["SGTIN"].from_gtin_plus_serial(args[0], args[1], args[2]))
        if op in ("tag_uri", "binary", "hex", "base64"):
            raw = args[0].raw
            a, k = self.arguments(raw, op, args[1], args[2], args[3] if len(args) > 3 else "kw")
            return getattr(raw, op)(*a, **k)
        if op == "element":
            return args[0].raw.gs1_element_string()
        if op == "key":
            return args[0].raw.gs1_key()
        if op == "key_type":  # SGTIN / LGTIN only
            return self._gtin(args[0].raw.gs1_key, args[0].raw, args[1])
        if op == "gtin":
            return self._gtin(args[0].raw.gtin, args[0].raw, args[1])
        if op == "uri":
            return args[0].raw.epc_uri
        if op == "eq":
            return args[0].raw == self._value(args[1])
        if op == "ne":
            return args[0].raw != self._value(args[1])
        if op == "req":
            return self._value(args[1]) == args[0].raw
        if op == "copy":
            return self.handle(duplicate(args[0].raw, args[1]))
        if op == "copy_refusal":  # (scheme, text, how) -> the copy of the refusal says the same?
            try:
                self.cls[args[0]](args[1])
            except self.Conv as e:
                d = duplicate(e, args[2])
                return isinstance(d, self.Conv) and getattr(d, "message", None) == getattr(e, "message", None)
            return None
        if op == "sub":  # (kind, op, scheme, ...)
            cls = self.sub(args[2], args[0])
            if args[1] == "new":
                return self.handle(cls(args[3]))
            if args[1] == "from_element":
                return self.handle(cls.from_gs1_element_string(args[3], args[4]))
            if args[1] == "from_gtin":
                return self.handle(cls.from_gtin_plus_serial(args[3], args[4], args[5]))
            return self.handle(getattr(cls, args[1])(args[3]))
        if op == "break":  # (point, op, ...) -> where it was interrupted
            breaker = Breaker(args[0])
            try:
                with breaker:
                    v = self._do(args[1], args[2:])
            except Interruption:
                return "interrupted at " + breaker.where
            except self.Conv:
                v = "ConvertException"
            except Exception as e:
                v = type(e).__name__
            if breaker.where:
                return "swallowed at %s, giving %s" % (breaker.where, show(v))
            return "%d points" % breaker.points
        if op == "repeat":  # (n, op, ...) -> whether n calls gave the same
            first = self._brief(args[1], args[2:])
            for k in range(2, args[0] + 1):
                got = self._brief(args[1], args[2:])
                if got != first:
                    return "call %d gave %s, the first %s" % (k, got, first)
            return "%d times %s" % (args[0], first)
        if op == "churn":  # (scheme, uris, op, further arguments) -> outcomes on short-lived objects
            return [self._passing(args[0], u, args[2], tuple(args[3])) for u in args[1]]
        f = self.parsers[op]
        k = self.turn(2 * len(f), args)
        f = f[k // 2]
        if op == "g_from_element":
            return self.handle(f(args[0], company_prefix_length=args[1]) if k % 2 else f(args[0], args[1]))
        if op == "g_get_key":
            kw = {}
            if len(args) > 2 and args[2] is not None:
                kw["gtin_type"] = self.gtin_type[args[2][0]][args[2][1]]
            if len(args) > 1 and args[1] is not None:
                return f(args[0], company_prefix_length=args[1], **kw) if k % 2 else f(args[0], args[1], **kw)
            return f(args[0], **kw)
        if op == "g_key":
            kw = {}
            if len(args) > 1 and args[1] is not None:
                kw["gtin_type"] = self.gtin_type[args[1][0]][args[1][1]]
            return f(args[0], **kw)
        v = f(args[0])
        return v if op == "g_element_string" else self.handle(v)

    def _brief(self, op, args):
        """Outcome of one of many calls; objects it makes are not kept."""
        n = self._n
        try:
            v = self._do(op, args)
            if isinstance(v, Obj):
                del self._live[v.n]
                v = [v.scheme, v.uri]
            return ["ok", v]
        except self.Conv:
            return ["conv", ""]
        except (Hang, KeyboardInterrupt, SystemExit, Timeout):
            raise
        except BaseException as e:  # noqa: every escaping type is an observation
            return ["exc", type(e).__name__]
        finally:
            self._n = n
            self.clock += 2  # it is not one call that takes this long

    def _passing(self, scheme, u, op, further):
        try:
            o = Obj(self, self.cls[scheme](u), -1)
        except self.Conv:
            return None
        return self._brief(op, (o,) + further)

    @staticmethod
    def _value(v):
        if isinstance(v, Obj):
            return v.raw
        if isinstance(v, dict):
            return types.SimpleNamespace(**v)
        return v

    # ------------------------------------------------------------- replay --
    def dump(self, events=None):
        out = []
        for op, args, (k, v) in (self.events if events is None else events):
            out.append({"op": op, "args": [{"h": a.n} if isinstance(a, Obj) else a for a in args],
                        "outcome": [k, v.describe() if isinstance(v, Obj) else v]})
        return out

    def replay(self, events):
        """Re-execute dumped events; -> list of (event, new outcome, same?)."""
        self.begin()
        res = []
        for e in events:
            args = []
            for a in e["args"]:
                if isinstance(a, dict) and set(a) == {"h"}:
                    args.append(self._live.get(a["h"]))
                else:
                    args.append(tuple(a) if isinstance(a, list) else a)
            k, v = self.call(e["op"], *args)
            now = [k, v.describe() if isinstance(v, Obj) else v]
            if e["outcome"][0] == "ok" and isinstance(e["outcome"][1], dict) and k == "ok":
                # keep the numbering of the recording
                self._live[e["outcome"][1]["h"]] = v
                now[1]["h"] = e["outcome"][1]["h"]
                self._n = max(self._n, e["outcome"][1]["h"] + 1)
            res.append((e, now, now == e["outcome"]))
        return res


class Interruption(KeyboardInterrupt):
    pass


class Breaker:
    """Raises an Interruption at the n-th of the points, met in library code,
    where the interpreter really delivers one: when a function starts, when a
    call of built-in code has returned, when a loop goes round."""
    LIBRARY = os.path.join(os.path.realpath(REPO), "epcpy") + os.sep
    BACK = {dis.opmap[n] for n in dis.opmap if n.startswith("JUMP_BACKWARD") or n == "JUMP_ABSOLUTE"}

    def __init__(self, n):
        self.n = n
        self.points = 0
        self.where = None

    def __enter__(self):
        # settrace looks whether any frame ever asked for opcodes
        sys._getframe().f_trace_opcodes = True
        sys.settrace(self._trace)
        sys.setprofile(self._profile)
        return self

    def __exit__(self, *_):
        sys.setprofile(None)
        sys.settrace(None)

    def _ours(self, frame):
        """A function of the library (module and class bodies do not count)."""
        return frame is not None and frame.f_code.co_filename.startswith(self.LIBRARY) and frame.f_code.co_flags & inspect.CO_NEWLOCALS

    def _profile(self, frame, event, arg):
        if event == "call" and (self._ours(frame) or self._ours(frame.f_back)) or event == "c_return" and self._ours(frame):
            self._point(frame, "start" if event == "call" else "call")

    def _trace(self, frame, event, arg):
        if self._ours(frame):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self._local

    def _local(self, frame, event, arg):
        if event == "opcode" and frame.f_code.co_code[frame.f_lasti] in self.BACK:
            self._point(frame, "loop")
        return self._local

    def _point(self, frame, kind):
        self.points += 1
        if self.points == self.n:
            self.where = "%s of %s, line %s" % (kind, frame.f_code.co_name, frame.f_lineno)
            raise Interruption("injected")


class Timeout(BaseException):
    pass


class Hang(Timeout):
    """A call did not return for a long time."""


class Hangs:
    """Notices, by ticks of the real-time timer, that one and the same call has
    been in progress for a whole minute (sound calls take milliseconds) and
    breaks it off."""
    TICK, TICKS = 15.0, 4

    def __init__(self, lib):
        self.lib, self.last, self.same = lib, 0, 0

    def start(self):
        signal.signal(signal.SIGALRM, self._tick)
        signal.setitimer(signal.ITIMER_REAL, self.TICK, self.TICK)

    def _tick(self, *_):
        now = self.lib.clock
        self.same = self.same + 1 if now % 2 and now == self.last else 0
        self.last = now
        if self.same >= self.TICKS:
            self.same = 0
            raise Hang("no result within a minute")


# ------------------------------------------------------------- expectation ---

def want_identity(v):
    """("ok", ident) etc. -> expectation of a call that returns an object."""
    return v


def expect(op, args, ident=None):
    """What the reference model says about one recorded call.

    ``ident`` is the identity of the object for method calls.  Returns
    ("ok", value) with value a str or an Ident, ("bad", why), or ("any", x)."""
    if op in ("new", "from_epc_uri"):
        return spec.parse_uri(args[0], args[1])
    if op == "from_tag_uri":
        return _tag(spec.parse_tag_uri(args[1]), args[0])
    if op in ("from_binary", "from_hex", "from_base64"):
        bits = args[1] if op == "from_binary" else spec.unhex(args[1]) if op == "from_hex" else _unb64(args[1])
        return _bits(bits, args[0])
    if op == "from_element":
        return spec.parse_element(*args)
    if op in ("tag_uri", "binary", "hex", "base64"):
        cs, filt = args[1], args[2]
        if not spec.fits(ident, cs):
            return ("bad", "coding scheme cannot hold it")
        if op == "tag_uri":
            return ("ok", spec.tag_uri(ident, cs, filt))
        b = spec.encode(ident, cs, filt)
        return ("ok", b if op == "binary" else spec.hexform(b) if op == "hex" else spec.base64form(b))
    if op == "element":
        return ("ok", spec.element(ident))
    if op == "key":
        return ("ok", spec.key(ident))
    if op in ("gtin", "key_type"):
        return spec.gtin(ident, args[1])
    if op == "uri":
        return ("ok", spec.uri(ident))
    if op in ("g_scheme", "g_element", "g_element_string", "g_keyed", "g_key", "g_tagenc"):
        v = spec.parse_any_uri(args[0])
        if v[0] == "bad":
            return v
        s = v[1].scheme
        able = {"g_scheme": spec.SCHEMES, "g_element": spec.ELEMENT, "g_element_string": spec.ELEMENT,
                "g_keyed": spec.KEYED, "g_key": spec.KEYED, "g_tagenc": spec.TAGGED}[op]
        if s not in able:
            return ("bad", "capability")
        if op == "g_element_string":
            return (v[0], spec.element(v[1]))
        if op == "g_key":
            if len(args) > 1 and args[1] is not None:
                if s not in ("SGTIN", "LGTIN"):
                    return ("any", "gtin type of another scheme")
                g = spec.gtin(v[1], args[1][1])
                return g if v[0] == "ok" else ("any", None)
            return (v[0], spec.key(v[1]))
        return v
    if op == "g_from_element":
        return spec.parse_any_element(*args)
    if op == "g_tag_uri":
        return _tag(spec.parse_tag_uri(args[0]), None)
    if op in ("g_binary", "g_hex", "g_base64"):
        bits = args[0] if op == "g_binary" else spec.unhex(args[0]) if op == "g_hex" else _unb64(args[0])
        return _bits(bits, None)
    if op == "g_get_key":
        cpl = args[1] if len(args) > 1 else None
        v = spec.key_verdict(args[0], cpl)
        if v[0] != "ok":
            return v if v[0] == "bad" else ("any", None)
        if len(args) > 2 and args[2] is not None:
            if v[1].scheme not in ("SGTIN", "LGTIN"):
                return ("any", "gtin type of another scheme")
            return spec.gtin(v[1], args[2][1])
        return ("ok", spec.key(v[1]))
    raise AssertionError(op)


def _tag(v, scheme):
    if v[0] == "bad":
        return v
    ident = v[1][0] if v[0] == "ok" else v[1]
    if scheme and ident.scheme != scheme:
        return ("bad", "tag URI of another scheme")
    return (v[0], ident)


def _bits(bits, scheme):
    if bits is None:
        return ("bad", "not a bit string")
    if bits is _ANY:
        return ("any", "lenient base64")
    if any(c not in "01" for c in bits):
        return ("bad", "not a bit string")
    v = spec.decode(bits)
    if v[0] == "ok":
        if scheme and v[1][0].scheme != scheme:
            return ("bad", "another scheme")
        return ("ok", v[1][0])
    if v[0] == "any" and scheme and spec.CODING[spec.BY_HEADER[int(bits[:8], 2)]][0] != scheme:
        return ("bad", "another scheme")
    return v


_ANY = object()
_B64 = {c: i for i, c in enumerate(spec.UPPER + spec.LOWER + spec.DIGITS + "+/")}


def _unb64(text):
    """Bits of canonical base64 text with or without padding; what happens to
    other text is not specified (decoders may skip foreign characters)."""
    body = text.rstrip("=")
    pad = len(text) - len(body)
    if not body or any(c not in _B64 for c in body) or len(body) % 4 == 1 or pad not in (0, -len(body) % 4):
        return _ANY
    bits = "".join(format(_B64[c], "06b") for c in body)
    n = len(bits) // 8 * 8
    return bits[:n] if "1" not in bits[n:] else _ANY


def mismatch(out, want):
    """None, or (kind, message).  Kinds: refused, accepted, wrong, escape,
    invalid."""
    kind, v = out
    if kind == "exc":
        return ("escape", "raised %s" % v)
    if kind == "ok" and isinstance(v, Obj):
        s, u = v.scheme, getattr(v.raw, "epc_uri", None)
        if s is None or not isinstance(u, str):
            return ("invalid", "returned %r, which is no scheme object" % (v.raw,))
        if spec.parse_uri(s, u)[0] == "bad":
            return ("invalid", "returned a %s object with invalid URI %r" % (s, u))
    if want[0] == "ok":
        w = want[1]
        if kind == "conv":
            return ("refused", "raised ConvertException, expected %r" % (show(w),))
        if isinstance(w, spec.Ident):
            if not isinstance(v, Obj) or v.scheme != w.scheme or v.uri != spec.uri(w):
                return ("wrong", "returned %r, expected %r" % (show(v), show(w)))
        elif v != w or type(v) is not type(w):
            return ("wrong", "returned %r, expected %r" % (show(v), w))
    elif want[0] == "bad":
        if kind == "ok":
            return ("accepted", "returned %r, expected ConvertException (%s)" % (show(v), want[1]))
    elif kind == "ok" and isinstance(want[1], spec.Ident) and isinstance(v, Obj):
        if v.scheme != want[1].scheme:
            return ("wrong", "returned %r, expected scheme %s" % (show(v), want[1].scheme))
        got = spec.parse_uri(v.scheme, v.uri)[1]
        if got != want[1]:
            return ("wrong", "returned %r, which denotes %r instead of %r" % (v.uri, got, want[1]))
    return None


def show(v):
    if isinstance(v, Obj):
        return "%s %s" % (v.scheme, getattr(v.raw, "epc_uri", None))
    if isinstance(v, spec.Ident):
        return spec.uri(v)
    return v
