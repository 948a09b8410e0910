"""Objects as values of a client's program: C25 (copies are interchangeable
with the original), C26 (reading through a client's subclass)."""

import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from . import api, plans, spec
from .checks import check, size
from .history import model
from .spec import CODINGS_OF
from .surroundings import HERE, everything


def own_calls(c, ident, n):
    """n conversions of the one object at hand."""
    calls = [k for k in everything(ident, c.rng) if k[1] and k[1][0] == ("o", 0) and k[0] not in ("eq", "ne")]
    return c.rng.sample(calls, min(n, len(calls)))


def judge(c, objs, ident, calls, what):
    """Calls on an object that denotes this identity."""
    for call in calls:
        out = plans.perform(c.lib, objs, call)
        want = model(call, [ident])
        c.observe(call[0], (what,) + call[1][1:], ident, want, out)
        m = api.mismatch(out, want)
        if m:
            c.report("%s of %s of %s: %s %s" % (call[0], what, spec.uri(ident), call[1][1:], m[1]))


# ------------------------------------------------------------------- C25 ---

def same(c, out, ident, original, what):
    """Is the outcome an object that can stand for the original?"""
    c.evaluations += 1
    m = api.mismatch(out, ("ok", ident))
    if m:
        c.report("%s of %s: %s" % (what, spec.uri(ident), m[1]))
        return None
    twin = out[1]
    if type(twin.raw) is not type(original.raw):
        c.report("%s of %s is a %s" % (what, spec.uri(ident), type(twin.raw).__name__))
    for op, a, b, w in (("eq", original, twin, True), ("eq", twin, original, True), ("ne", twin, original, False)):
        c.do(op, a, b, ident=ident, want=("ok", w))
    return twin


@check("C25", must=("copies", "copies of used objects", "copies of copies", "refusals copied", "enumeration members copied", "objects sent to another process"),
       rule="distinct (way of copying, conversion, identity) combinations executed; each copy is compared with its original and its conversions with the reference model")
def c25(c):
    r = c.rng
    c.cov.start()
    # what travels with an object: coding schemes, filter values, GTIN types
    members = list(c.lib.coding.items()) + [((s, f), m) for s, d in c.lib.filter.items() for f, m in d.items()]
    members += [((s, n), m) for s, d in c.lib.gtin_type.items() for n, m in d.items()]
    for name, m in members[c.worker::8]:
        for how in api.COPIES:
            c.evaluations += 1
            c.decisive.add(hash((str(name), how)))
            try:
                d = api.duplicate(m, how)
            except Exception as e:
                d = "%s: %s" % (type(e).__name__, e)
            if d is not m:
                c.report("%s of the enumeration member %s gives %r" % (how, name, d), [])
            c.note("enumeration members copied")
    parcels = []
    for k, ident in enumerate(c.idents(spec.SCHEMES, size(c, 5000), sweep=8)):
        o = c.obj(ident)
        if o is None:
            continue
        used = r.random() < 0.5
        if used:
            judge(c, [o], ident, own_calls(c, ident, r.randint(1, 5)), "the original")
            c.note("copies of used objects")
        how = api.COPIES[(k + c.worker) % len(api.COPIES)]
        twin = same(c, c.lib.call("copy", o, how), ident, o, how)
        if twin is None:
            continue
        c.note("copies")
        if r.random() < 0.2:
            how += ", then " + r.choice(api.COPIES)
            twin = same(c, c.lib.call("copy", twin, how.split(", then ")[1]), ident, o, how)
            c.note("copies of copies")
            if twin is None:
                continue
        first = [(twin, how), (o, "the original after its " + how)]
        r.shuffle(first)
        for x, what in first:
            judge(c, [x], ident, own_calls(c, ident, r.randint(2, 5)), what)
            c.do("uri", x, ident=ident)
        if k % 12 == 0:
            bad = c.gen.near_miss_uri(ident)
            if spec.parse_uri(ident.scheme, bad)[0] == "bad":
                c.do("copy_refusal", ident.scheme, bad, how.split(", then ")[0], want=("ok", True))
                c.note("refusals copied")
        if len(parcels) < size(c, 400, 3000) and k % 3 == 0:
            try:
                parcels.append((pickle.dumps(o.raw, r.randint(2, 5)), own_calls(c, ident, 4) + [("uri", (("o", 0),))], ident))
            except Exception as e:
                c.report("pickling %s raised %s: %s" % (spec.uri(ident), type(e).__name__, e))
    send(c, parcels)


def send(c, parcels):
    """Unpickle in an interpreter that has not imported the library."""
    scratch = tempfile.mkdtemp(prefix="epcmon-")
    try:
        js, source, result = (os.path.join(scratch, n) for n in ("spec", "plan", "result"))
        with open(js, "w") as f:
            json.dump({}, f)
        with open(source, "wb") as f:
            pickle.dump([p[:2] for p in parcels], f)
        run = subprocess.run([sys.executable, "-B", "-W", "ignore", os.path.join(HERE, "child.py"), "objects", js, source, result],
                             stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=300)
        if run.returncode or not os.path.exists(result):
            raise RuntimeError("child interpreter failed: %s" % run.stderr[-2000:])
        with open(result, "rb") as f:
            _, outs = pickle.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for (_, calls, ident), res in zip(parcels, outs):
        c.note("objects sent to another process")
        if isinstance(res, str):
            c.report("unpickling %s in another process raised %s" % (spec.uri(ident), res), [])
            continue
        for call, out in zip(calls, res):
            c.evaluations += 1
            want = model(call, [ident])
            m = api.mismatch(out, want)
            if m:
                c.report("%s%s of %s after unpickling in another process %s" % (call[0], call[1][1:], spec.uri(ident), m[1]), [])


# ------------------------------------------------------------------- C26 ---

def readings(c, ident):
    """(op, arguments after the scheme) that read this identity."""
    r = c.rng
    u = spec.uri(ident)
    out = [("new", (u,)), ("from_epc_uri", (u,))]
    for cs in CODINGS_OF.get(ident.scheme, ()):
        if spec.fits(ident, cs):
            f = r.choice(list(spec.filters(cs)))
            b = spec.encode(ident, cs, f)
            out += [("from_binary", (b,)), ("from_hex", (spec.hexform(b),)), ("from_base64", (spec.base64form(b),)),
                    ("from_tag_uri", (spec.tag_uri(ident, cs, f),))]
    if ident.scheme in spec.ELEMENT:
        out.append(("from_element", (spec.element(ident), len(ident.parts[0]))))
    if ident.scheme == "SGTIN" and not set(ident.parts[2]) & set(spec.ESC_S):
        out.append(("from_gtin", (spec.key(ident), ident.parts[2], len(ident.parts[0]))))
    return out


@check("C26", must=("objects of subclasses", "refused through a subclass", "compared with the original class"),
       rule="distinct (kind of subclass, reading or conversion, arguments) combinations executed; each is judged against the reference model, and the class of every object read is compared with the class that was asked")
def c26(c):
    r = c.rng
    c.cov.start()
    for k, ident in enumerate(c.idents(spec.SCHEMES, size(c, 6000), sweep=8)):
        s = ident.scheme
        kind = api.SUBCLASSES[(k // len(spec.SCHEMES) + c.worker) % len(api.SUBCLASSES)]
        cls = c.lib.sub(s, kind)
        todo = readings(c, ident)
        for op, args in r.sample(todo, min(4, len(todo))):
            out = c.do("sub", kind, op, s, *args, want=("ok", ident))
            if out[0] != "ok" or not isinstance(out[1], api.Obj):
                continue
            o = out[1]
            if type(o.raw) is not cls:
                c.report("%s of a subclass (%s) of %s returned a %s.%s" % (op, kind, s, type(o.raw).__module__, type(o.raw).__name__))
                continue
            c.note("objects of subclasses")
            if r.random() < 0.5:
                judge(c, [o], ident, own_calls(c, ident, 2), "an object of a subclass (%s)" % kind)
            if r.random() < 0.3:
                base = c.obj(ident)
                if base:
                    for op2, a, b, w in (("eq", o, base, True), ("eq", base, o, True), ("ne", o, base, False)):
                        c.do(op2, a, b, ident=ident, want=("ok", w))
                    for n in c.gen.neighbours(ident, 2):
                        x = c.obj(n)
                        if x and n != ident:
                            c.do("eq", o, x, ident=ident, want=("ok", False))
                    c.note("compared with the original class")
        # what the class refuses, its subclass refuses
        op, args = r.choice(todo)
        bad = c.gen.mutate(args[0], r.randint(1, 2))
        if op == "from_gtin":
            continue
        out = c.lib.call("sub", kind, op, s, bad, *args[1:])
        want = api.expect(op, (s, bad) + args[1:])
        c.observe("sub", (kind, op, s, bad), None, want, out)
        m = api.mismatch(out, want)
        if m:
            c.report("%s of a subclass (%s) of %s on %r: %s" % (op, kind, s, bad, m[1]))
        elif out[0] == "conv":
            c.note("refused through a subclass")
