"""Execution of call plans: (op, args) where ("o", i) stands for the i-th of
some objects.  Shared by the history monitors and by child processes."""

from . import api, spec


def outcome(out):
    """Comparable form of an outcome."""
    k, v = out
    return (k, (v.scheme, v.uri)) if isinstance(v, api.Obj) else (k, v if k == "ok" else None)


def perform(lib, objs, call):
    op, args = call
    return lib.call(op, *[objs[a[1]] if isinstance(a, tuple) and a and a[0] == "o" else a for a in args])


def make(lib, idents, only=None):
    """The objects of some identities; those not in only are left out."""
    objs = []
    for n, i in enumerate(idents):
        if only is not None and n not in only:
            objs.append(None)
            continue
        out = lib.call("new", i.scheme, spec.uri(i))
        objs.append(out[1] if out[0] == "ok" else None)
    return objs


def usable(call, objs):
    return all(objs[a[1]] is not None for a in call[1] if isinstance(a, tuple) and a and a[0] == "o")


def execute(lib, idents, calls):
    """Outcomes of a plan (None for calls whose object could not be made).
    Of unexpected exceptions only the type counts."""
    lib.begin()
    objs = make(lib, idents)
    res = []
    for call in calls:
        if not usable(call, objs):
            res.append(None)
            continue
        out = perform(lib, objs, call)
        res.append(("exc", out[1].partition(":")[0]) if out[0] == "exc" else outcome(out))
    return res
