"""One workload + monitor per property.  Every function receives a Ctx and
drives the library through recorded calls only; verdicts come from the
reference model (spec.py) or from comparing recorded calls with each other."""

from . import api, spec
from .gen import SIX_BIT_SNIPPETS
from .plans import outcome
from .spec import CODING, CODINGS_OF

RUN, RULE, ASSUMPTIONS, MUST_SEE = {}, {}, {}, {}
RULE_DEFAULT = ("distinct (operation, arguments, identity) combinations actually executed for which the reference "
                "model gave a definite verdict")
ASSUMPTIONS_DEFAULT = ["the reference model in epcmon/spec.py states the standard correctly",
                       "only the executions produced by this run are judged"]


def check(pid, rule=None, must=(), assumptions=None):
    def deco(f):
        RUN[pid] = f
        MUST_SEE[pid] = must
        if rule:
            RULE[pid] = rule
        if assumptions:
            ASSUMPTIONS[pid] = ASSUMPTIONS_DEFAULT + assumptions
        return f
    return deco


def size(c, quick, thorough=None):
    return 2 * quick if c.tier == "quick" else max(thorough or 0, quick * 10)


ENCODERS = ("binary", "hex", "base64", "tag_uri")


def same_identity(c, out, ident, what):
    """A decoder's outcome must be exactly this identity."""
    c.evaluations += 1
    m = api.mismatch(out, ("ok", ident))
    if m:
        c.report("%s of %s: %s" % (what, spec.uri(ident), m[1]))
        return False
    return True


# ------------------------------------------------------------------- C01 ---

@check("C01", must=("from_binary", "from_hex", "from_base64", "from_tag_uri", "g_binary", "g_hex", "g_base64", "g_tag_uri"))
def c01(c):
    c.cov.start()

    def there_and_back(ident, o, cs, f):
        for enc in ENCODERS:
            out = c.lib.call(enc, o, cs, f, c.style())
            c.observe(enc, (cs, f), ident, ("ok", None), out)
            if out[0] != "ok":
                c.report("%s(%s, %s) of %s, which fits: %s %s" % ((enc, cs, f, spec.uri(ident)) + out))
                continue
            for dec in ("from_" + enc, "g_" + enc):
                a = (ident.scheme, out[1]) if dec[0] == "f" else (out[1],)
                back = c.lib.call(dec, *a)
                same_identity(c, back, ident, "%s of the library's own %s(%s, %s)" % (dec, enc, cs, f))

    for ident in c.idents(spec.TAGGED, size(c, 10000)):
        o = c.obj(ident)
        if o is None:
            continue
        for cs in CODINGS_OF[ident.scheme]:
            if spec.fits(ident, cs):
                for f in c.filters(cs, 1 if c.rng.random() < 0.95 else 8):
                    there_and_back(ident, o, cs, f)
    for ident, cs, f in c.tag_grid(times=size(c, 1, 5)):
        o = c.obj(ident)
        if o is not None:
            there_and_back(ident, o, cs, f)


# ------------------------------------------------------------------- C02 ---

@check("C02", must=("binary",))
def c02(c):
    c.cov.start()
    for ident, cs, f in c.tag_grid(times=size(c, 3, 15)):
        o = c.obj(ident)
        if o is not None:
            c.do("binary", o, cs, f, c.style(), ident=ident)
    for ident in c.idents(spec.TAGGED, size(c, 30000)):
        o = c.obj(ident)
        if o is None:
            continue
        for cs in CODINGS_OF[ident.scheme]:
            if spec.fits(ident, cs):
                for f in c.filters(cs, 2 if c.rng.random() < 0.95 else 64):
                    c.do("binary", o, cs, f, c.style(), ident=ident)
                c.note("layout " + cs)


# ------------------------------------------------------------------- C03 ---

def tighten(c, ident):
    """Move a numeric field onto the edge of what a coding scheme holds."""
    r = c.rng
    s, p = ident
    p = list(p)
    if s in ("SGTIN", "GRAI", "ITIP", "SGLN", "GDTI"):
        w = 41 if s in ("SGLN", "GDTI") else 38
        v = str((1 << w) + r.choice([-2, -1, 0, 1, 2, 1 << 5, 1 << 36]))
        p[-1] = r.choice([v, "0" + v, "0", "00", "0" * r.randint(1, 5) + str(r.randint(0, 99)), v + "A", "A" + v,
                          str(r.randrange(1 << w)), str(r.randrange(10 ** 12)), "1" + "0" * r.randint(9, 15),
                          "-1", "+1", "1.0", "1_0", "1e3", str(r.randrange(1 << (w - 2), 1 << (w + 1)))])
    elif s == "GIAI":
        w = 82 - spec.M[len(p[0])]
        v = str((1 << w) + r.choice([-2, -1, 0, 1, 2]))
        p[1] = r.choice([v, "0" + v, "0", "00", "0" + str(r.randint(0, 99)), "9" * (25 - len(p[0])),
                         "9" * (24 - len(p[0])), "1" + "0" * (25 - len(p[0])), "A1", "-1", "1_0",
                         str(r.randrange(1 << w)), str(r.randrange(1 << (w - 1), 1 << (w + 1)))])[:30 - len(p[0])]
    elif s == "CPI":
        k = 15 - len(p[0])
        p[1] = r.choice(["9" * k, "1" + "0" * k, "9" * (k + 1), "0", "00", "0" + "9" * (k - 1), "1" * k, "A" * k, "1-",
                         "#1", "1/", str(r.randrange(10 ** k)), str(r.randrange(10 ** (k + 1)))])
        p[2] = str(r.choice([0, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 10 ** 9, 10 ** 10 - 1, 10 ** 12 - 1,
                             r.randrange(1 << 32), r.randrange(10 ** 12)]))
    cand = spec.Ident(s, tuple(p))
    try:
        return spec.check(cand)
    except spec.Bad:
        return ident


@check("C03", must=("tag_uri", "binary", "hex", "base64", "refusals agreed"))
def c03(c):
    c.cov.start()
    for ident, cs, f in c.tag_grid(times=size(c, 1, 5)):
        o = c.obj(ident)
        if o is not None:
            for enc in ENCODERS:
                c.do(enc, o, cs, f, c.style(), ident=ident)
    for ident in c.idents(spec.TAGGED, size(c, 24000)):
        if c.rng.random() < 0.4:
            ident = tighten(c, ident)
        o = c.obj(ident)
        if o is None:
            continue
        for cs in CODINGS_OF[ident.scheme]:
            f = c.filters(cs)[0]
            outs = {}
            for enc in ENCODERS:
                outs[enc] = c.do(enc, o, cs, f, c.style(), ident=ident)
            kinds = {v[0] for v in outs.values()}
            if len(kinds) != 1:
                c.report("conversions of %s under %s disagree: %s" % (
                    spec.uri(ident), cs, {k: v[0] for k, v in outs.items()}))
            b = outs["binary"]
            nominal = CODING[cs][2]
            if b[0] == "ok" and nominal and len(b[1]) != nominal:
                c.report("binary of %s under %s has %d bits" % (spec.uri(ident), cs, len(b[1])))
            c.note("refusals agreed" if kinds == {"conv"} else "acceptances agreed")


# ------------------------------------------------------------------- C04 ---

@check("C04", must=("tag_uri", "binary", "filter pairs compared", "omitted arguments"))
def c04(c):
    c.cov.start()
    for ident, cs, f in c.tag_grid(times=size(c, 2, 10)):
        o = c.obj(ident)
        if o is not None:
            c.do("tag_uri", o, cs, f, c.style(), ident=ident)
            c.do("binary", o, cs, f, c.style(), ident=ident)
    for ident in c.idents(spec.TAGGED, size(c, 10000), sweep=2):
        o = c.obj(ident)
        if o is None:
            continue
        for cs in CODINGS_OF[ident.scheme]:
            if not spec.fits(ident, cs):
                continue
            scheme, header, _, fw = CODING[cs]
            rest = set()
            fs = c.filters(cs, 64 if c.rng.random() < 0.3 else 6)
            for f in fs:
                c.do("tag_uri", o, cs, f, c.style(), ident=ident)
                out = c.lib.call("binary", o, cs, f, c.style())
                c.observe("binary", (cs, f), ident, ("ok", None), out)
                if out[0] != "ok" or not isinstance(out[1], str):
                    c.report("binary(%s, %s) of %s: %s %s" % ((cs, f, spec.uri(ident)) + out))
                    continue
                b = out[1]
                if b[:8] != format(header, "08b"):
                    c.report("binary(%s, %s) of %s has header %s" % (cs, f, spec.uri(ident), b[:8]))
                if fw and b[8:8 + fw] != format(f, "0%db" % fw):
                    c.report("binary(%s, %s) of %s has filter bits %s" % (cs, f, spec.uri(ident), b[8:8 + fw]))
                rest.add(b[:8] + b[8 + fw:])
            if len(rest) > 1:
                c.report("filter value changes other bits of %s under %s: %s" % (spec.uri(ident), cs, sorted(rest)))
            c.note("filter pairs compared", len(fs) - 1)
            # what is read back does not depend on the filter either
            f = c.rng.choice(fs)
            for enc in ("binary", "tag_uri"):
                out = c.lib.call(enc, o, cs, f)
                if out[0] == "ok":
                    same_identity(c, c.lib.call("from_" + enc, ident.scheme, out[1]), ident,
                                  "from_%s after %s(%s, %s)" % (enc, enc, cs, f))
            # every filter value read from foreign tags denotes the same identity
            f = c.rng.choice(list(spec.filters(cs)))
            c.do("from_binary", ident.scheme, spec.encode(ident, cs, f))
            c.do("from_tag_uri", ident.scheme, spec.tag_uri(ident, cs, f))
        # omitted arguments: the only coding scheme, and filter value 0 for GSRNs
        for cs in CODINGS_OF[ident.scheme][:2 - len(CODINGS_OF[ident.scheme])]:
            if not spec.fits(ident, cs):
                continue
            for op in ENCODERS:
                f = c.filters(cs)[0]
                c.do(op, o, None, f, "kw", ident=ident, want=api.expect(op, (None, cs, f), ident))
                if ident.scheme in ("GSRN", "GSRNP"):
                    c.do(op, o, cs, None, "kw", ident=ident, want=api.expect(op, (None, cs, 0), ident))
                    c.do(op, o, None, None, "kw", ident=ident, want=api.expect(op, (None, cs, 0), ident))
            c.note("omitted arguments")


# ------------------------------------------------------------------- C05 ---

@check("C05", must=("hex", "base64", "from_hex", "from_base64", "equal refusals", "equal identities"))
def c05(c):
    c.cov.start()
    r = c.rng
    for ident in c.idents(spec.TAGGED, size(c, 8000)):
        o = c.obj(ident)
        if o is None:
            continue
        for cs in CODINGS_OF[ident.scheme]:
            if not spec.fits(ident, cs):
                continue
            f = c.filters(cs)[0]
            out = c.lib.call("binary", o, cs, f)
            if out[0] != "ok":
                c.report("binary(%s, %s) of %s: %s %s" % ((cs, f, spec.uri(ident)) + out))
                continue
            b = out[1]
            for style in ("kw", "pos", "mix"):
                c.do("hex", o, cs, f, style, ident=ident, want=("ok", spec.hexform(b)))
                c.do("base64", o, cs, f, style, ident=ident, want=("ok", spec.base64form(b)))
                c.do("binary", o, cs, f, style, ident=ident, want=("ok", b))
            decode_alike(c, ident.scheme, spec.unhex(spec.hexform(b)))
    for _ in c.each(range(size(c, 10000))):
        c.lib.begin()
        bits = c.gen.tag_memory()
        bits = bits[:len(bits) // 4 * 4] if r.random() < 0.5 else bits + "0" * (-len(bits) % 8)
        if bits:
            s = spec.CODING[spec.BY_HEADER[int(bits[:8], 2)]][0] if int(bits[:8], 2) in spec.BY_HEADER else "SGTIN"
            decode_alike(c, r.choice([s, s, s, r.choice(spec.TAGGED)]), bits)


def decode_alike(c, scheme, bits):
    h = "".join("%x" % int(bits[i:i + 4], 2) for i in range(0, len(bits), 4))
    forms = [("from_binary", bits), ("from_hex", h), ("from_hex", h.upper()),
             ("from_hex", "".join(x.upper() if c.rng.random() < 0.5 else x for x in h))]
    if len(bits) % 8 == 0:
        b64 = spec._b64.b64encode(bytes.fromhex(h)).decode()
        forms += [("from_base64", b64), ("from_base64", b64.rstrip("="))]
    first = {}
    for generic in (False, True):
        for op, text in forms:
            if generic:
                op = op.replace("from_", "g_")
                out = c.lib.call(op, text)
            else:
                out = c.lib.call(op, scheme, text)
            c.observe(op, (scheme, text), None, ("ok", None), out)
            if generic not in first:
                first[generic] = (op, text, outcome(out))
            elif outcome(out) != first[generic][2]:
                c.report("%s(%s) gives %s but %s(%s) gives %s" % ((op, text, outcome(out)) + first[generic]))
                return
    c.note("equal identities" if first[False][2][0] == "ok" else "equal refusals")


# ------------------------------------------------------------------- C06 ---

def soundness(c, bits):
    """Decode one memory content in every way and follow up on success."""
    v = spec.decode(bits)
    header = int(bits[:8], 2) if len(bits) >= 8 else -1
    own = CODING[spec.BY_HEADER[header]][0] if header in spec.BY_HEADER else None
    outs = [c.do("g_binary", bits)]
    outs.append(c.do("from_binary", own or c.rng.choice(spec.TAGGED), bits))
    if c.rng.random() < 0.3:
        c.do("from_binary", c.rng.choice(spec.TAGGED), bits)
    if len(bits) % 4 == 0 and bits:
        h = "".join("%X" % int(bits[i:i + 4], 2) for i in range(0, len(bits), 4))
        if c.rng.random() < 0.3:
            c.do("g_hex", h)
            c.do("from_hex", own or "SGTIN", h)
    if v[0] == "ok":
        c.note("sound identities")
        ident, cs, f = v[1]
        o = next((x[1] for x in outs if x[0] == "ok" and isinstance(x[1], api.Obj) and x[1].scheme == ident.scheme), None)
        if o is not None:
            out = c.lib.call("binary", o, cs, f)
            c.observe("binary", (cs, f), ident, v, out)
            if out[0] != "ok":
                c.report("%s decoded from %s does not encode under %s again: %s %s" % ((spec.uri(ident), bits, cs) + out))
            else:
                same_identity(c, c.lib.call("from_binary", ident.scheme, out[1]), ident, "decoding the re-encoded tag " + bits)
    elif v[0] == "bad":
        c.note("refusals: " + v[1])


@check("C06", must=("sound identities", "refusals: unknown header", "refusals: partition", "refusals: too few bits",
                    "refusals: company prefix too large", "refusals: reference too large", "refusals: alphabet",
                    "refusals: numeric string", "refusals: too many characters", "refusals: cage"))
def c06(c):
    c.cov.start()
    r = c.rng
    # every header with every partition value, and all-zero / all-one memories
    for i in range(256):
        if i % 8 != c.worker:
            continue
        for p in range(8):
            for n in (8, 11, 14, 40, 96, 110, 170, 174, 195, 198, 202, 212, 240):
                c.lib.begin()
                for body in ("0" * n, "1" * n, "01" * n):
                    soundness(c, (format(i, "08b") + "000" + format(p, "03b") + body)[:n])
    # every 7-bit code and every 6-bit code at every position of text fields
    jobs = []
    for cs in list(spec.TEXT_CHARS) + ["giai-202"]:
        jobs += [(cs, code, pos) for code in range(128) for pos in range(3)]
    for cs in ("cpi-var", "adi-var"):
        jobs += [(cs, code, pos) for code in range(64) for pos in range(12)]
    for cs in ("usdod-96",):
        jobs += [(cs, code, pos) for code in range(256) for pos in range(6)]
    for cs, code, pos in c.each(jobs[c.worker::8]):
        c.lib.begin()
        ident = c.gen.fitting(cs)
        bits = spec.encode(ident, cs, r.choice(list(spec.filters(cs))))
        if cs == "usdod-96":
            at, w = 12 + 8 * pos, 8
        elif cs == "adi-var":
            at, w = 14 + 6 * pos, 6
        else:
            w = 7 if cs in spec.TEXT_CHARS or cs == "giai-202" else 6
            if cs in spec.TEXT_CHARS:
                start = len(bits) - 7 * spec.TEXT_CHARS[cs]
            else:
                start = 14 + spec.M[len(ident.parts[0])]
            n = len(ident.parts[-1 if cs in spec.TEXT_CHARS else 1])
            at = start + w * ({0: 0, 1: n // 2, 2: max(n - 1, 0)}[pos] if w == 7 else pos)
        if at + w <= len(bits):
            soundness(c, bits[:at] + format(code, "0%db" % w) + bits[at + w:])
    # text that means something in a URI, in six-bit fields
    jobs = [(cs, i, t, at) for cs, i in (("cpi-var", 1), ("adi-var", 1), ("adi-var", 2)) for t in SIX_BIT_SNIPPETS for at in range(4)]
    for cs, i, t, at in c.each(jobs[c.worker::8]):
        c.lib.begin()
        ident = c.gen.fitting(cs)
        p = list(ident.parts)
        mark = "Q" * len(t)
        p[i] = {0: mark, 1: mark + "A", 2: "A" + mark, 3: "A" + mark + "1"}[at]
        bits = spec.encode(spec.Ident(ident.scheme, tuple(p)), cs, c.filters(cs)[0])
        codes = ["".join(format(ord(x) & 63, "06b") for x in y) for y in (mark, t)]
        start = 14 + spec.M[len(p[0])] if cs == "cpi-var" else 50 + (6 * len(p[1]) + 6) * (i - 1)
        soundness(c, bits[:start] + bits[start:].replace(codes[0], codes[1], 1))
    for ident, cs, f in c.tag_grid(times=size(c, 1, 5)):
        soundness(c, spec.encode(ident, cs, f))
    for _ in c.each(range(size(c, 50000))):
        c.lib.begin()
        soundness(c, c.gen.tag_memory())


# ------------------------------------------------------------------- C07 ---

@check("C07", must=("surplus", "missing", "missing refused"))
def c07(c):
    c.cov.start()
    r = c.rng
    n = size(c, 14000)
    for k in c.each(range(n)):
        c.lib.begin()
        cs = r.choice(list(CODING))
        ident = c.gen.fitting(cs)
        scheme, _, nominal, _ = CODING[cs]
        o = c.obj(ident)
        if o is None:
            continue
        f = c.filters(cs)[0]
        out = c.lib.call("binary", o, cs, f)
        if out[0] != "ok" or not isinstance(out[1], str):
            c.report("binary(%s, %s) of %s: %s %s" % ((cs, f, spec.uri(ident)) + out))
            continue
        b = out[1]
        if not same_identity(c, c.lib.call("from_binary", scheme, b), ident, "decoding the complete encoding"):
            continue
        # surplus
        m = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 14, 16, 31, 32, 33, 64, 96, 102, 128, 160, 256, 400, 2000])
        tails = ["0" * m]
        if nominal:
            tails += ["1" * m, c.gen._bits(m), c.gen._bits(r.randint(1, 300)), b, c.gen.memory()]
        for t in tails:
            for op in ("from_binary", "g_binary"):
                x = c.lib.call(op, *((scheme, b + t) if op[0] == "f" else (b + t,)))
                c.observe(op, (b, t), ident, ("ok", None), x)
                same_identity(c, x, ident, "%s with surplus %s" % (op, t))
            total = b + t
            total += "0" * (-len(total) % 16)
            x = c.lib.call("g_hex", spec.hexform(total))
            same_identity(c, x, ident, "g_hex with surplus %s" % t)
            if r.random() < 0.3:
                x = c.lib.call("from_base64", scheme, spec.base64form(total))
                same_identity(c, x, ident, "from_base64 with surplus %s" % t)
            c.note("surplus")
        # missing
        cuts = range(len(b)) if k % 97 == 0 else {r.randrange(len(b)), len(b) - 1, len(b) - r.randint(1, 16),
                                                 len(b) - r.choice([6, 7, 8, 12, 14, 40]), r.randrange(len(b))}
        for cut in cuts:
            for op in ("from_binary", "g_binary"):
                x = c.lib.call(op, *((scheme, b[:cut]) if op[0] == "f" else (b[:cut],)))
                c.observe(op, (b, cut), ident, ("ok", None), x)
                if x[0] == "ok":
                    same_identity(c, x, ident, "%s of the first %d of %d bits" % (op, cut, len(b)))
                    if nominal:
                        c.report("%s accepts the first %d of %d bits of %s" % (op, cut, len(b), cs))
                    c.note("missing accepted")
                elif x[0] == "exc":
                    c.report("%s of the first %d bits raised %s" % (op, cut, x[1]))
                else:
                    c.note("missing refused")
            c.note("missing")


# ------------------------------------------------------------------- C08 ---

@check("C08", must=("element", "g_element_string"))
def c08(c):
    c.cov.start()
    r = c.rng
    for ident, _ in c.text_grid(spec.ELEMENT, size(c, 2, 10)):
        o = c.obj(ident)
        if o is not None:
            c.do("element", o, ident=ident)
    for ident in c.idents(spec.ELEMENT, size(c, 70000)):
        o = c.obj(ident)
        if o is None:
            continue
        c.do("element", o, ident=ident)
        c.do("g_element_string", spec.uri(ident))
        if r.random() < 0.2 and ident.scheme in spec.TEXT_LAST:
            # the same identity written with unneeded or lower-case escapes
            t = "".join("%%%02x" % ord(x) if x in spec.ESCAPED82 or r.random() < 0.2 else x for x in ident.parts[-1])
            u = spec.PREFIX_OF[ident.scheme] + ".".join(ident.parts[:-1] + (t,))
            out = c.lib.call("new", ident.scheme, u)
            if out[0] == "ok":
                c.do("element", out[1], ident=ident)
                c.note("non-canonical escapes")


# ------------------------------------------------------------------- C09 ---

def gtin_want(gtin, serial, cpl):
    if not spec.is_digits(gtin) or not 6 <= cpl <= 12 or len(gtin) > 14:
        return ("bad", "digits or prefix length")
    if len(gtin) not in (8, 12, 13, 14):
        return ("any", None)
    g = gtin.rjust(14, "0")
    if any(ch in spec.ESC_S for ch in serial):
        return ("any", None)
    try:
        ident = spec.check(spec.Ident("SGTIN", (g[1:1 + cpl], g[0] + g[1 + cpl:13], serial)))
    except spec.Bad as e:
        return ("bad", str(e))
    return ("ok" if spec.check_digit(g[:13]) == g[13] else "any", ident)


@check("C09", must=("from_element", "g_from_element", "from_gtin", "malformed refused"))
def c09(c):
    c.cov.start()
    r = c.rng
    for ident, cpl in c.text_grid(spec.ELEMENT, size(c, 3, 15)):
        es = spec.element(ident)
        for n in {cpl, len(ident.parts[0])}:
            c.do("from_element", ident.scheme, es, n)
            c.do("g_from_element", es, n)
    for ident in c.idents(spec.ELEMENT, size(c, 30000)):
        s = ident.scheme
        own = len(ident.parts[0])
        o = c.obj(ident)
        if o is None:
            continue
        out = c.lib.call("element", o)
        if out[0] == "ok" and isinstance(out[1], str):
            back = c.lib.call("from_element", s, out[1], own)
            c.observe("from_element", (s, out[1], own), ident, ("ok", None), back)
            same_identity(c, back, ident, "reading its own element string")
        else:
            c.report("element string of %s: %s %s" % ((spec.uri(ident),) + out))
        es = spec.element(ident)
        c.do("from_element", s, es, own)
        c.do("g_from_element", es, own)
        for cpl in (range(6, 13) if r.random() < 0.1 else [r.randint(6, 12)]):
            c.do("from_element", s, es, cpl)
            c.do("g_from_element", es, cpl)
        if r.random() < 0.1:
            for cpl in (0, 1, 5, 13, 14, 20):
                c.do("from_element", s, es, cpl)
        # malformed strings
        if r.random() < 0.5:
            bad = bad_element(c, ident, es)
            cpl = own if r.random() < 0.7 else r.randint(0, 15)
            x = c.do("from_element", s, bad, cpl)
            c.do("g_from_element", bad, cpl)
            other = r.choice(spec.ELEMENT)
            c.do("from_element", other, es, own)
            if x[0] == "conv":
                c.note("malformed refused")
        if s == "SGTIN":
            g = spec.key(ident)
            kind = r.choice([8, 12, 13, 14])
            if g[:14 - kind] == "0" * (14 - kind):
                g = g[14 - kind:]
            serial = "".join(ch for ch in ident.parts[2] if ch not in spec.ESC_S) or "7"
            c.do("from_gtin", g, serial, own, want=gtin_want(g, serial, own))
            cpl = r.randint(0, 14)
            c.do("from_gtin", g, serial, cpl, want=gtin_want(g, serial, cpl))
            if r.random() < 0.3:
                bg, bs = c.gen.mutate(g), c.gen.mutate(serial) if r.random() < 0.5 else serial
                c.do("from_gtin", bg, bs, own, want=gtin_want(bg, bs, own))


def bad_element(c, ident, es):
    r = c.rng
    k = r.random()
    if k < 0.35:
        return c.gen.mutate(es, r.choice([1, 1, 2]))
    if k < 0.45:  # wrong check digit or changed digit
        i = r.randrange(len(es))
        return es[:i] + r.choice("0123456789") + es[i + 1:]
    if k < 0.55:
        return es.replace("(%s)" % spec.AI[ident.scheme][0], "(%s)" % r.choice(["01", "00", "414", "8003", "8004", "253", "255",
                          "401", "402", "417", "8006", "8010", "8017", "8018", "02", "1", "001", ""]), 1)
    if k < 0.65 and len(spec.AI[ident.scheme]) > 1:
        return es.replace("(%s)" % spec.AI[ident.scheme][1], "(%s)" % r.choice(["21", "10", "235", "254", "8011", "22", ""]), 1)
    if k < 0.75:
        return es + r.choice(["0", "A", "(21)1", "(10)A", "\n", " ", "*" * 30, "(", ")"])
    if k < 0.85:
        return es[:-r.randint(1, min(8, len(es)))]
    if k < 0.92:
        return es.replace("(", "").replace(")", "") if r.random() < 0.5 else es[1:]
    return r.choice(["", " ", "\n"]) + es + r.choice(["", "\n", " "])


# ------------------------------------------------------------------- C10 ---

@check("C10", must=("key", "gtin", "key_type", "g_key", "gtin refused", "gtin given"))
def c10(c):
    c.cov.start()
    for ident, _ in c.text_grid(spec.KEYED, size(c, 2, 10)):
        o = c.obj(ident)
        if o is not None:
            c.do("key", o, ident=ident)
            c.do("g_key", spec.uri(ident))
    for ident in c.idents(spec.KEYED, size(c, 60000)):
        o = c.obj(ident)
        if o is None:
            continue
        c.do("key", o, ident=ident)
        c.do("g_key", spec.uri(ident))
        if ident.scheme in ("SGTIN", "LGTIN"):
            for kind in (8, 12, 13, 14):
                x = c.do("gtin", o, kind, ident=ident)
                c.do("key_type", o, kind, ident=ident)
                c.do("g_key", spec.uri(ident), (ident.scheme, kind))
                if kind != 14:
                    c.note("gtin given" if x[0] == "ok" else "gtin refused")


# ------------------------------------------------------------------- C11 ---

@check("C11", must=("new", "from_epc_uri", "g_scheme"))
def c11(c):
    c.cov.start()
    for ident in c.idents(spec.SCHEMES, size(c, 90000)):
        u = spec.uri(ident)
        c.do("new", ident.scheme, u)
        c.do("from_epc_uri", ident.scheme, u)
        c.do("g_scheme", u)


# ------------------------------------------------------------------- C12 ---

GENERIC_URI = ("g_scheme", "g_element", "g_element_string", "g_keyed", "g_key", "g_tagenc")


def reject_uri(c, s, t):
    kinds = ("accepted", "escape", "invalid")
    x = c.do("new", s, t, kinds=kinds)
    if c.rng.random() < 0.3:
        c.do("from_epc_uri", s, t, kinds=kinds)
    c.do("g_scheme", t, kinds=kinds)
    if c.rng.random() < 0.2:
        c.do(c.rng.choice(GENERIC_URI), t, kinds=kinds)
    if x[0] == "conv":
        c.note("rejected")


@check("C12", must=("new", "g_scheme", "rejected"))
def c12(c):
    c.cov.start()
    r = c.rng
    k = 0
    odd = ["\n", "\r\n", " ", "\t", "\x00", "\x0b", "\x85", " ", "﻿", "a", "0", ".", ".0", ":", "/", "?x", "#",
           "%", "%2", "%2F", "%zz", "*", "-", "١", "１", "²", "é"]
    # appended, prepended and inserted garbage for every scheme
    for s in spec.SCHEMES:
        for length in range(6, 13):
            k += 1
            if k % 8 != c.worker:
                continue
            for _ in range(3):
                ident = c.gen.ident(s, length)
                u = spec.uri(ident)
                c.lib.begin()
                for g in odd:
                    reject_uri(c, s, u + g)
                    reject_uri(c, s, g + u)
                    for i in (len(spec.PREFIX_OF[s]), len(spec.PREFIX_OF[s]) + 1, len(u) - 1):
                        reject_uri(c, s, u[:i] + g + u[i:])
                        reject_uri(c, s, u[:i] + g + u[i + 1:])
                for i in range(len(u)):
                    reject_uri(c, s, u[:i] + u[i + 1:])
                    for d in ("١", "１", "²", "\n", "`"):
                        reject_uri(c, s, u[:i] + d + u[i + 1:])
                # every prefix length and total digit count
                if s in spec.PREFIXED:
                    for a in range(0, 15):
                        for b in range(0, 15):
                            parts = (c.gen.digits(a), c.gen.digits(b)) + ident.parts[2:]
                            reject_uri(c, s, spec.PREFIX_OF[s] + spec.body(spec.Ident(s, parts)))
                for other in spec.SCHEMES:
                    reject_uri(c, other, u)
                    reject_uri(c, s, spec.PREFIX_OF[other] + spec.body(ident))
    # every code point below 256 in every text component
    for s in spec.SCHEMES:
        for code in range(256):
            k += 1
            if k % 8 != c.worker:
                continue
            ident = c.gen.ident(s)
            c.lib.begin()
            parts = spec.body(ident).split(".", spec.NPARTS[s] - 1)
            for i in range(len(parts)):
                j = r.randint(0, len(parts[i]))
                p = list(parts)
                p[i] = parts[i][:j] + chr(code) + parts[i][j + 1:]
                reject_uri(c, s, spec.PREFIX_OF[s] + ".".join(p))
                p[i] = parts[i][:j] + "%%%02X" % code + parts[i][j + 1:]
                reject_uri(c, s, spec.PREFIX_OF[s] + ".".join(p))
    for n in c.each(range(size(c, 100000))):
        c.lib.begin()
        ident = c.gen.ident(spec.SCHEMES[(n + c.worker) % len(spec.SCHEMES)])
        before = c.cov.total
        t = c.gen.near_miss_uri(ident)
        reject_uri(c, ident.scheme, t)
        if c.cov.total != before:
            for _ in range(40):
                reject_uri(c, ident.scheme, c.gen.mutate(t))


# ------------------------------------------------------------------- C13 ---

def any_text(c):
    """Any kind of source text, valid or nearly so -> (text, prefix length)."""
    r, g = c.rng, c.gen
    ident = g.any_ident(spec.SCHEMES)
    cpl = len(ident.parts[0]) if ident.scheme in spec.PREFIXED else 7
    k = r.random()
    if k < 0.25:
        t = spec.uri(ident)
    elif k < 0.40:
        t = g.near_miss_uri(ident)
    elif k < 0.60:
        ident = g.any_ident(spec.ELEMENT)
        cpl = len(ident.parts[0])
        t = spec.element(ident)
        if r.random() < 0.3:
            t = bad_element(c, ident, t)
    elif k < 0.75:
        cs = r.choice(list(CODING))
        ident = g.ident(CODING[cs][0])
        f = r.choice(list(spec.filters(cs)))
        t = spec.tag_uri(ident, cs, f)
        if r.random() < 0.3:
            t = g.mutate(t)
    elif k < 0.80:
        t = spec.uri(ident).replace("urn:epc:id:", "urn:epc:idpat:")
    else:
        b = g.tag_memory()
        q = r.random()
        if q < 0.4:
            t = b
        elif q < 0.75:
            t = spec.hexform(b) if r.random() < 0.5 else spec.hexform(b).lower()
        else:
            t = spec.base64form(b)
        if r.random() < 0.15:
            t = g.mutate(t)
    return t, cpl


AROUND = ["\n", "\r\n", "\r", "\t", " ", "  ", "\0", "\x0b", "\x1c", "\x85", "\xa0", "\u2003", "\u200b", "\ufeff", "\x1d", "'", '"', "0x",
          "0X", "0b", "b'", "#", "+", "-", "_", "=", "==", "h", ";", ",", "?", "/", "\\", "{", "(", "<", "epc:", "URN:", "http://"]


def wrapped(text):
    for a in AROUND:
        yield a + text
        yield text + a
        yield a + text + a
        yield text[:2] + a + text[2:]
        yield text[:-1] + a + text[-1]
    yield " ".join(text[i:i + 4] for i in range(0, len(text), 4))
    yield "\n".join(text[i:i + 76] for i in range(0, len(text), 76)) + "\n"
    yield text[::-1]
    yield text.upper()
    yield text.lower()
    yield text.swapcase()
    yield text + text
    yield text + " " + text


@check("C13", must=("generic agrees", "generic refuses", "wrapped texts") + tuple(x for x in api.GENERIC if x != "g_get_key"))
def c13(c):
    c.cov.start()
    r = c.rng

    def agree(op, gargs, cargs_of, able):
        """Generic parser against every capable class of its own."""
        out = c.lib.call(op, *gargs)
        own = []
        for s in able:
            x = c.lib.call(*cargs_of(s))
            if x[0] == "ok":
                own.append((s, outcome(x)))
            elif x[0] == "exc":
                c.report("%s raised %s" % (cargs_of(s), x[1]))
        c.observe(op, gargs, None, ("ok", None), out)
        if out[0] == "exc":
            c.report("%s%s raised %s" % (op, gargs, out[1]))
        elif len(own) > 1:
            c.report("%s is accepted by several classes: %s" % (gargs, own))
        elif own and outcome(out) != own[0][1]:
            c.report("%s%s gives %s but %s gives %s" % (op, gargs, outcome(out), own[0][0], own[0][1]))
        elif not own and out[0] != "conv":
            c.report("%s%s gives %s but no class accepts it" % (op, gargs, outcome(out)))
        else:
            c.note("generic agrees" if own else "generic refuses")
        return out

    # capability of every scheme
    for ident in c.idents(spec.SCHEMES, size(c, 3000), sweep=3):
        u = spec.uri(ident)
        s = ident.scheme
        agree("g_scheme", (u,), lambda x: ("new", x, u), spec.SCHEMES)
        c.do("g_scheme", u)
        c.do("g_element", u)
        c.do("g_keyed", u)
        c.do("g_tagenc", u)
        c.do("g_element_string", u)
        c.do("g_key", u)
        if s in spec.ELEMENT:
            es = spec.element(ident)
            n = len(ident.parts[0])
            agree("g_from_element", (es, n), lambda x: ("from_element", x, es, n), spec.ELEMENT)
            c.do("g_from_element", es, n)
        for cs in CODINGS_OF.get(s, ()):
            if spec.fits(ident, cs):
                f = c.filters(cs)[0]
                t = spec.tag_uri(ident, cs, f)
                c.do("g_tag_uri", t)
                agree("g_tag_uri", (t,), lambda x: ("from_tag_uri", x, t), spec.TAGGED)
                b = spec.encode(ident, cs, f)
                for op, text in (("binary", b), ("hex", spec.hexform(b)), ("base64", spec.base64form(b))):
                    c.do("g_" + op, text)
                    agree("g_" + op, (text,), lambda x: ("from_" + op, x, text), spec.TAGGED)
    # every kind of text with something in front, behind or in between that
    # lenient readers skip
    for cs in c.each([x for x in CODING for _ in range(size(c, 1, 6))]):
        ident = c.gen.fitting(cs)
        b = spec.encode(ident, cs, c.filters(cs)[0])
        u, t = spec.uri(ident), spec.tag_uri(ident, cs, c.filters(cs)[0])
        texts = [("g_scheme", "new", u), ("g_tagenc", "new", u), ("g_tag_uri", "from_tag_uri", t), ("g_binary", "from_binary", b),
                 ("g_hex", "from_hex", spec.hexform(b)), ("g_base64", "from_base64", spec.base64form(b))]
        for op, own, text in texts:
            for x in wrapped(text):
                c.lib.begin()
                agree(op, (x,), lambda s: (own, s, x), spec.SCHEMES if op == "g_scheme" else spec.TAGGED)
                c.do(op, x)
                c.note("wrapped texts")
        if ident.scheme in spec.ELEMENT:
            n = len(ident.parts[0])
            for x in wrapped(spec.element(ident)):
                c.lib.begin()
                agree("g_from_element", (x, n), lambda s: ("from_element", s, x, n), spec.ELEMENT)
    for _ in c.each(range(size(c, 5000))):
        c.lib.begin()
        t, cpl = any_text(c)
        agree("g_scheme", (t,), lambda x: ("new", x, t), spec.SCHEMES)
        agree("g_element", (t,), lambda x: ("new", x, t), spec.ELEMENT)
        agree("g_keyed", (t,), lambda x: ("new", x, t), spec.KEYED)
        agree("g_tagenc", (t,), lambda x: ("new", x, t), spec.TAGGED)
        agree("g_from_element", (t, cpl), lambda x: ("from_element", x, t, cpl), spec.ELEMENT)
        agree("g_tag_uri", (t,), lambda x: ("from_tag_uri", x, t), spec.TAGGED)
        agree("g_binary", (t,), lambda x: ("from_binary", x, t), spec.TAGGED)
        agree("g_hex", (t,), lambda x: ("from_hex", x, t), spec.TAGGED)
        agree("g_base64", (t,), lambda x: ("from_base64", x, t), spec.TAGGED)
        # the string-valued parsers go with the object-valued ones
        for obj_op, str_op, method in (("g_element", "g_element_string", "element"), ("g_keyed", "g_key", "key")):
            a, b = c.lib.call(obj_op, t), c.lib.call(str_op, t)
            if a[0] == "ok":
                a = c.lib.call(method, a[1])
            if outcome(a) != outcome(b):
                c.report("%s(%r) gives %s but its object gives %s" % (str_op, t, outcome(b), outcome(a)))


# ------------------------------------------------------------------- C14 ---

@check("C14", must=("g_get_key", "open pattern", "closed pattern", "too open refused", "no key refused"))
def c14(c):
    c.cov.start()
    r = c.rng
    for ident in c.idents(spec.SCHEMES, size(c, 16000)):
        s = ident.scheme
        u = spec.uri(ident)
        sources = [(u, None)]
        o = c.obj(ident)
        if o is None:
            continue
        es = spec.element(ident)
        n = len(ident.parts[0]) if s in spec.PREFIXED else None
        if es:
            out = c.lib.call("element", o)
            sources.append((out[1] if out[0] == "ok" else es, n))
        for cs in CODINGS_OF.get(s, ()):
            if spec.fits(ident, cs):
                f = c.filters(cs)[0]
                for enc in ("tag_uri", "binary", "hex"):
                    out = c.lib.call(enc, o, cs, f)
                    if out[0] != "ok":
                        c.report("%s(%s, %s) of %s: %s %s" % ((enc, cs, f, u) + out))
                        continue
                    sources.append((out[1], None))
                    if enc == "hex":
                        sources.append((out[1].lower(), None))
        if s != "LGTIN":
            sources.append((u.replace("urn:epc:id:", "urn:epc:idpat:", 1), None))
            if s in spec.KEYED:
                c.note("closed pattern")
        if s in spec.KEYED:
            own = c.do("key", o, ident=ident)
            types = [None]
            if s in ("SGTIN", "LGTIN"):
                types += [(s, k) for k in (8, 12, 13, 14)]
            for t in types:
                w = own if t is None else c.do("key_type", o, t[1], ident=ident)
                for src, cpl in sources:
                    if r.random() < 0.1 and cpl is None:
                        cpl = r.randint(6, 12)  # harmless where it is not needed
                    x = c.lib.call("g_get_key", src, cpl, t)
                    c.observe("g_get_key", (src, cpl, t), ident, ("ok", None), x)
                    if outcome(x) != outcome(w):
                        c.report("get_gs1_key(%r, %s, %s) gives %s but the identity's own key is %s" % (
                            src, cpl, t, outcome(x), outcome(w)))
        else:
            for src, cpl in sources:
                x = c.do("g_get_key", src, cpl, None, want=("bad", "no GS1 key"))
                if x[0] == "conv":
                    c.note("no key refused")
        # patterns
        if s in spec.KEYED and s != "LGTIN":
            p = list(ident.parts)
            pre = "urn:epc:idpat:%s:" % s.lower()
            esc = [x for x in spec.body(ident).split(".", spec.NPARTS[s] - 1)]
            if s in ("SGTIN", "SGLN"):
                c.do("g_get_key", pre + ".".join(esc[:2]) + ".*", want=("ok", spec.key(ident)))
                c.note("open pattern")
            elif s in ("GRAI", "GDTI"):
                k = spec.key(ident)
                c.do("g_get_key", pre + ".".join(esc[:2]) + ".*", want=("ok", k[:len(k) - len(p[2])] + "*"))
                c.note("open pattern")
            elif s in ("GIAI", "GINC"):
                c.do("g_get_key", pre + esc[0] + ".*", want=("ok", p[0] + "*"))
                c.note("open pattern")
            else:
                x = c.do("g_get_key", pre + ".".join(esc[:-1]) + ".*", want=("bad", "pattern leaves too much open"))
                if x[0] == "conv":
                    c.note("too open refused")
            wide = ["*"] * len(esc)
            x = c.do("g_get_key", pre + ".".join(wide), want=("bad", "pattern leaves too much open"))
            if len(esc) == 3:
                c.do("g_get_key", pre + esc[0] + ".*.*", want=("bad", "pattern leaves too much open"))
                c.do("g_get_key", pre + esc[0] + ".*." + esc[2], want=("bad", "pattern leaves too much open"))
            c.do("g_get_key", pre + "*." + ".".join(esc[1:]), want=("bad", "pattern leaves too much open"))
            if x[0] == "conv":
                c.note("too open refused")
        # other sources
        if r.random() < 0.5:
            t, cpl = any_text(c)
            c.do("g_get_key", t, r.choice([None, cpl]))


# ------------------------------------------------------------------- C15 ---

HOSTILE = ["", " ", "\n", "\x00", ":", "::::", ":::::::", "urn", "urn:", "urn:epc", "urn:epc:id:", "urn:epc:id:sgtin",
           "urn:epc:id:sgtin:", "urn:epc:id:sgtin:.", "urn:epc:id:sgtin:..", "urn:epc:tag:", "urn:epc:tag:sgtin-96:",
           "urn:epc:tag:sgtin-96", "urn:epc:tag::", "urn:epc:tag:sgtin", "urn:epc:tag:sgtin-:1", "urn:epc:tag:-96:1.2.3",
           "urn:epc:idpat:", "urn:epc:idpat:sgtin", "urn:epc:idpat:sgtin:*.*.*", "urn:epc:idpat:x:*", "urn:epc:class:lgtin:",
           "()", "(01)", "(01)(21)", "(21)1", "(8010)(8011)", "(", ")", "0", "1", "01", "00110000", "30", "3", "3g", "g",
           "=", "==", "====", "A", "AA", "AAA", "A===", "MA", "MA==", "%", "%%", "%2", "0x30", "0b0011", "-1", "+30",
           "3_0", "30 ", " 30", "3 0", "٣٠", "３０", "é", "\ud800", "\U0001f600", "00110000" + "2" * 88,
           "0011000٠", "0_0110000", "-0110000", "0b110000" + "0" * 88]

SOURCES_CLASS = ("new", "from_epc_uri", "from_tag_uri", "from_binary", "from_hex", "from_base64")
SOURCES_GENERIC = GENERIC_URI + ("g_tag_uri", "g_binary", "g_hex", "g_base64")


@check("C15", must=("objects converted", "refused cleanly", "long strings"),
       rule="distinct (operation, arguments) combinations executed; each is judged by which exception, if any, escaped")
def c15(c):
    c.cov.start()
    r, g = c.rng, c.gen
    kinds = ("escape", "invalid")

    def do(op, *args):
        out = c.do(op, *args, kinds=kinds, want=("ok", None) if False else ("judge", None))
        if out[0] == "conv":
            c.note("refused cleanly")
        return out

    def everything(o):
        """Every conversion of an object, however it was made."""
        s = o.scheme
        if s in spec.TAGGED:
            for cs in CODINGS_OF[s]:
                f = c.filters(cs)[0]
                for enc in ENCODERS:
                    do(enc, o, cs, f, c.style())
        if s in spec.ELEMENT:
            do("element", o)
        if s in spec.KEYED:
            do("key", o)
        if s in ("SGTIN", "LGTIN"):
            for k in (8, 12, 13, 14):
                do("gtin", o, k)
                do("key_type", o, k)
        c.note("objects converted")

    def feed(t, cpl, n_class=2, n_generic=3):
        ops = [(op, r.choice(spec.SCHEMES)) for op in ("new", "from_epc_uri")]
        ops += [(op, r.choice(spec.TAGGED)) for op in SOURCES_CLASS[2:]]
        r.shuffle(ops)
        v = spec.parse_any_uri(t)
        outs = [do(op, s, t) for op, s in ops[:n_class]]
        outs += [do(op, t) for op in r.sample(SOURCES_GENERIC, n_generic)]
        outs.append(do("from_element", r.choice(spec.ELEMENT), t, cpl))
        outs.append(do("g_from_element", t, cpl))
        outs.append(do("g_get_key", t, r.choice([None, cpl, 0])))
        for x in outs:
            if x[0] == "ok" and isinstance(x[1], api.Obj) and x[1].scheme:
                everything(x[1])

    # the fixed hostile strings go everywhere
    for i, t in enumerate(HOSTILE):
        for j, s in enumerate(spec.SCHEMES):
            if (i + j) % 8 != c.worker:
                continue
            c.lib.begin()
            for op in SOURCES_CLASS[:2] + (SOURCES_CLASS[2:] if s in spec.TAGGED else ()):
                do(op, s, t)
            if s in spec.ELEMENT:
                for cpl in (0, 6, 7, 12, 13, 100):
                    do("from_element", s, t, cpl)
            for op in SOURCES_GENERIC:
                do(op, t)
            for cpl in (None, 0, 7, 12, 40):
                do("g_get_key", t, cpl)
                if cpl is not None:
                    do("g_from_element", t, cpl)
                    do("from_gtin", t, t, cpl)
    # long strings: deeper than the stack, wider than the interpreter's number conversions
    for n in (300, 1500, 6000) + ((40000,) if c.tier != "quick" else ()):
        jobs = history.hostile(r, n)
        r.shuffle(jobs)
        for op, args in c.each(jobs[:size(c, 900)]):
            c.lib.begin()
            do(op, *args)
            c.note("long strings")
    # valid representations handed to the wrong place, and near misses
    for k in c.each(range(size(c, 20000))):
        c.lib.begin()
        before = c.cov.total
        t, cpl = any_text(c)
        if r.random() < 0.3:
            t = g.mutate(t, r.randint(1, 3))
        if r.random() < 0.1:
            cpl = r.randint(0, 30)
        feed(t, cpl)
        v = spec.parse_any_uri(t)
        if v[0] != "ok":
            for s in spec.SCHEMES:
                if t.startswith(spec.PREFIX_OF[s]):
                    do("new", s, t)
        if t.startswith("urn:epc:tag:"):
            s = t[12:].split("-")[0].upper()
            if s in spec.TAGGED:
                do("from_tag_uri", s, t)
        if r.random() < 0.1:
            do("from_gtin", g.mutate(g.digits(14)), t if r.random() < 0.5 else g.text(1, 25), cpl)
        if c.cov.total != before:
            for _ in range(30):
                feed(g.mutate(t), cpl)
    # bits straight to the class they are addressed to
    for k in c.each(range(size(c, 20000))):
        c.lib.begin()
        b = g.tag_memory()
        if r.random() < 0.1:
            b = g.mutate(b)
        h = int(b[:8], 2) if len(b) >= 8 and set(b[:8]) <= set("01") else -1
        s = CODING[spec.BY_HEADER[h]][0] if h in spec.BY_HEADER else r.choice(spec.TAGGED)
        x = do("from_binary", s, b)
        if x[0] == "ok" and isinstance(x[1], api.Obj) and x[1].scheme:
            everything(x[1])
        do("g_binary", b)
        do("g_get_key", b, None)
    # every valid identity, every conversion
    for ident in c.idents(spec.SCHEMES, size(c, 8000), sweep=2):
        x = do("new", ident.scheme, spec.uri(ident))
        if x[0] == "ok" and isinstance(x[1], api.Obj) and x[1].scheme:
            everything(x[1])


# ------------------------------------------------------------------- C18 ---

@check("C18", must=("pairs compared", "forms registered", "foreign objects"),
       rule="distinct identities whose representations were entered into the collision tables, plus distinct pairs of "
            "objects compared for equality")
def c18(c):
    c.cov.start()
    r = c.rng
    tables = {}

    def enter(kind, text, ident):
        t = tables.setdefault(kind, {})
        if text in t and t[text] != ident:
            c.report("%s and %s have the same %s %r" % (spec.uri(t[text]), spec.uri(ident), kind, text))
        t[text] = ident
        c.note("forms registered")

    def register(ident, o):
        f = None
        for cs in CODINGS_OF.get(ident.scheme, ()):
            if not spec.fits(ident, cs):
                # still asked: a wrong answer here may collide with a right one
                for enc in ("binary", "tag_uri"):
                    out = c.lib.call(enc, o, cs, c.filters(cs)[0])
                    if out[0] == "ok":
                        enter(enc + " " + cs, (out[1]) if enc == "binary" else out[1], ident)
                continue
            f = r.choice(c.filters(cs, 2))
            f0 = min(spec.filters(cs)) if f is not None else None
            for ff in {f, f0}:
                for enc in ("binary", "tag_uri", "hex"):
                    out = c.lib.call(enc, o, cs, ff)
                    c.observe(enc, (cs, ff), ident, ("ok", None), out)
                    if out[0] == "ok":
                        enter("tag " + enc, out[1], ident)
                    else:
                        c.report("%s(%s, %s) of %s: %s %s" % ((enc, cs, ff, spec.uri(ident)) + out))
        if ident.scheme in spec.ELEMENT:
            out = c.lib.call("element", o)
            c.observe("element", (), ident, ("ok", None), out)
            if out[0] == "ok":
                enter("element string", (out[1], len(ident.parts[0])), ident)
            else:
                c.report("element string of %s: %s %s" % ((spec.uri(ident),) + out))

    def remake(ident, o):
        """The same identity, obtained another way."""
        ways = [("new", ident.scheme, spec.uri(ident)), ("from_epc_uri", ident.scheme, spec.uri(ident)),
                ("g_scheme", spec.uri(ident))]
        if ident.scheme in spec.ELEMENT:
            ways.append(("from_element", ident.scheme, spec.element(ident), len(ident.parts[0])))
        for cs in CODINGS_OF.get(ident.scheme, ()):
            if spec.fits(ident, cs):
                f = c.filters(cs)[0]
                ways.append(("from_tag_uri", ident.scheme, spec.tag_uri(ident, cs, f)))
                ways.append(("from_binary", ident.scheme, spec.encode(ident, cs, f)))
                ways.append(("g_hex", spec.hexform(spec.encode(ident, cs, f))))
        out = c.lib.call(*r.choice(ways))
        if out[0] != "ok" or not isinstance(out[1], api.Obj):
            c.report("another way to make %s: %s %s" % ((spec.uri(ident),) + out))
            return o
        return out[1]

    def compare(a, ia, b, ib):
        want = ia == ib
        for op, w in (("eq", want), ("ne", not want), ("req", want)):
            out = c.lib.call(op, a, b)
            c.evaluations += 1
            if out != ("ok", w):
                c.report("%s of %s and %s is %s" % (op, spec.uri(ia), spec.uri(ib), out))
        c.decisive.add(hash(("pair", ia, ib)))
        c.note("pairs compared")

    for ident in c.idents(spec.SCHEMES, size(c, 2400), sweep=10):
        o = c.obj(ident)
        if o is None:
            continue
        cluster = [(ident, o)]
        for nb in c.gen.neighbours(ident, 14):
            x = c.obj(nb)
            if x is not None:
                cluster.append((nb, x))
        for i, x in cluster:
            if r.random() < 0.3:  # use before comparing
                register(i, x)
                y = remake(i, x)
                compare(x, i, y, i)
            else:
                y = remake(i, x)
                compare(x, i, y, i)
                register(i, x)
            register(i, y)
        for n, (ia, a) in enumerate(cluster):
            for ib, b in cluster[n:]:
                compare(a, ia, b, ib)
        u = spec.uri(ident)
        for foreign in (u, None, 0, True, {"epc_uri": u}, [u], u.encode().decode(), ident.parts[-1], ""):
            for op, w in (("eq", False), ("req", False), ("ne", True)):
                out = c.lib.call(op, o, foreign)
                c.evaluations += 1
                if out != ("ok", w):
                    c.report("%s of %s and %r is %s" % (op, u, foreign, out))
            c.note("foreign objects")
    # a large population of unrelated and of consecutive identities
    for ident in c.idents(spec.SCHEMES, size(c, 12000), sweep=0):
        o = c.obj(ident)
        if o is not None:
            register(ident, o)


# ------------------------------------------------------------------- C19 ---

def character_journey(c, ident):
    o = c.obj(ident)
    if o is None:
        return
    s = ident.scheme
    if s in spec.ELEMENT:
        c.do("element", o, ident=ident)
        c.do("from_element", s, spec.element(ident), len(ident.parts[0]))
        c.do("g_from_element", spec.element(ident), len(ident.parts[0]))
    if s in spec.KEYED:
        c.do("key", o, ident=ident)
    for cs in CODINGS_OF.get(s, ()):
        f = c.filters(cs)[0]
        if not spec.fits(ident, cs):
            continue
        c.do("tag_uri", o, cs, f, ident=ident)
        c.do("binary", o, cs, f, ident=ident)
        c.do("from_tag_uri", s, spec.tag_uri(ident, cs, f))
        c.do("from_binary", s, spec.encode(ident, cs, f))
    c.do("uri", o, ident=ident)


@check("C19", must=("every character alone", "every adjacent pair", "lookalikes"))
def c19(c):
    c.cov.start()
    r = c.rng
    from .gen import SNIPPETS, de_bruijn_windows
    fields = [(s, -1, spec.SET82, None) for s in sorted(spec.TEXT_LAST)]
    fields += [("CPI", 1, spec.CPI_CHARS, None), ("ADI", 1, spec.ADI_CHARS, 32), ("ADI", 2, spec.ADI_CHARS, 30)]

    def put(s, i, text):
        for _ in range(20):
            ident = c.gen.ident(s)
            p = list(ident.parts)
            p[i] = text
            if s in spec.PREFIXED and i in (-1, 1) and s in ("GIAI", "GINC", "CPI"):
                p[i] = text[:30 - len(p[0])]
            try:
                return spec.check(spec.Ident(s, tuple(p)))
            except spec.Bad:
                continue
        return None

    jobs = []
    for s, i, alphabet, top in fields:
        top = top or spec.TEXT_MAX.get(s, 24)
        for ch in alphabet:
            jobs.append((s, i, ch, "every character alone"))
            for n in (2, 3, top // 2, top - 1, top):
                for pos in {0, n // 2, n - 1}:
                    t = [r.choice(alphabet) for _ in range(n)]
                    t[pos] = ch
                    jobs.append((s, i, "".join(t), "every position"))
            jobs.append((s, i, ch * top, "every character alone"))
        for w in de_bruijn_windows(alphabet, min(top, 18)):
            jobs.append((s, i, w, "every adjacent pair"))
        for t in SNIPPETS + c.gen.strs:
            t = "".join(x for x in t if x in alphabet)[:top]
            if t:
                for q in (t, t + "1", "1" + t, t + t, t + r.choice(alphabet), r.choice(alphabet) + t,
                          r.choice(alphabet) + t + r.choice(alphabet)):
                    jobs.append((s, i, q[:top], "lookalikes"))
    for s, i, t, what in c.each(jobs[c.worker::8]):
        c.lib.begin()
        ident = put(s, i, t)
        if ident is not None:
            c.note(what)
            character_journey(c, ident)
    for _ in c.each(range(size(c, 25000))):
        c.lib.begin()
        s, i, alphabet, top = r.choice(fields)
        top = top or spec.TEXT_MAX.get(s, 24)
        ident = put(s, i, c.gen.text(1, top, alphabet))
        if ident is not None:
            character_journey(c, ident)


# ------------------------------------------------------------------- C21 ---

def near_miss_tag_uri(c, cs):
    """A tag URI of a coding scheme with something wrong or unusual in it."""
    r = c.rng
    scheme, _, _, fw = CODING[cs]
    ident = c.gen.fitting(cs) if r.random() < 0.6 else c.gen.ident(scheme)
    filt = str(r.choice(list(spec.filters(cs)))) + "." if fw else ""
    head = "urn:epc:tag:%s:" % cs
    body = spec.body(ident)
    k = r.random()
    if k < 0.30:
        return c.gen.mutate(head + filt + body, r.choice([1, 1, 1, 2]))
    if k < 0.55:  # a component is wrong
        t = c.gen.bad_parts(ident)
        pre = spec.PREFIX_OF[scheme]
        return head + filt + (t[len(pre):] if t.startswith(pre) else t)
    if k < 0.75:  # the filter is wrong, missing or doubled
        filt = r.choice(["", ".", "0.0.", "3.3.", "-1.", "+1.", " 1.", "1 .", "01.", "00.", "a.", "*.", "1_0.", "%31.", "8.", "7.",
                         "16.", "64.", "\u0663.", "\uff13.", "1..", ".1.", "1:", "9" * 30 + ".", "0x3.", "\n1.", "None."])
    elif k < 0.92:  # the head is wrong
        other = r.choice(list(CODING))
        head = r.choice(["urn:epc:tag:%s:" % other, "urn:epc:tag:%s:" % scheme.lower(), "urn:epc:tag:%s-97:" % scheme.lower(),
                         "urn:epc:tag:%s:" % cs.upper(), "urn:epc:id:%s:" % cs, "urn:epc:tag:%s" % cs, "urn:epc:tag:%s::" % cs,
                         "urn:epc:tag:%s-96-96:" % scheme.lower(), "urn:epc:tag:%s.:" % cs, "urn:epc:tag::%s:" % cs,
                         "urn:epc:tag:%s :" % cs, " urn:epc:tag:%s:" % cs, "URN:EPC:TAG:%s:" % cs, "urn:epc:pat:%s:" % cs,
                         "urn:epc:raw:%s:" % cs, "urn:epc:tag:%s96:" % scheme.lower(), "urn:epc:tag:%s-:" % scheme.lower(),
                         "urn:epc:tag:%s-%s:" % (r.choice(spec.SCHEMES).lower(), cs.split("-")[1]),
                         "xurn:epc:tag:%s:" % cs, "epc:tag:%s:" % cs, "tag:%s:" % cs, ":::%s:" % cs])
    tail = r.choice(["", "", "", ":", ":x", ":1", ".", ".1", "\n", " ", "?", "#", ":" + filt + body, "*", "%", "\x00"])
    return head + filt + body + tail


@check("C21", must=("from_tag_uri", "g_tag_uri", "read", "refused"))
def c21(c):
    c.cov.start()
    r = c.rng

    def feed(t, scheme=None):
        if scheme is None:
            scheme = t[12:].partition("-")[0].upper()
            if scheme not in spec.TAGGED or r.random() < 0.1:
                scheme = r.choice(spec.TAGGED)
        x = c.do("from_tag_uri", scheme, t)
        c.do("g_tag_uri", t)
        c.note("read" if x[0] == "ok" else "refused")
        return x

    # every coding scheme with every kind of tail, head and filter
    k = 0
    for cs in CODING:
        scheme, _, _, fw = CODING[cs]
        for tail in ("", ":", ":x", "::", ":0", ".", "..", ".0", "\n", "\r", " ", "\t", "?", "#", "*", "%", "%2", "%2F", "\x00", "-", "/", "\u0661", "A", "0"):
            for _ in range(3):
                k += 1
                if k % 8 != c.worker:
                    continue
                c.lib.begin()
                ident = c.gen.fitting(cs)
                t = spec.tag_uri(ident, cs, c.filters(cs)[0])
                feed(t + tail)
                feed(tail + t)
                i = len("urn:epc:tag:%s:" % cs)
                feed(t[:i] + tail + t[i:])
                feed(t[:i - 1] + tail + t[i - 1:])
                for j in range(len(t)):
                    feed(t[:j] + t[j + 1:], scheme)
        for n in list(range(0, 260)) + [512, 1000, "var", "VAR", "va", "vars", "var-96", "96-var", "96v", "", "-96", "96-", "any", "x"]:
            k += 1
            if k % 8 != c.worker:
                continue
            c.lib.begin()
            t = "urn:epc:tag:%s-%s:%s" % (scheme.lower(), n, spec.tag_uri(c.gen.fitting(cs), cs, c.filters(cs)[0]).split(":", 4)[4])
            feed(t, scheme)
        for other in CODING:  # the body of one scheme under the name of another
            k += 1
            if k % 8 != c.worker:
                continue
            c.lib.begin()
            for _ in range(4):
                t = "urn:epc:tag:%s:%s" % (other, spec.tag_uri(c.gen.fitting(cs), cs, c.filters(cs)[0]).split(":", 4)[4])
                feed(t)
                feed(t, scheme)
        for code in range(128):  # every character as filter value, and inside the head
            k += 1
            if k % 8 != c.worker:
                continue
            c.lib.begin()
            t = spec.tag_uri(c.gen.fitting(cs), cs, c.filters(cs)[0])
            i = len("urn:epc:tag:%s:" % cs)
            feed(t[:i] + chr(code) + t[i + 1:], scheme)
            j = r.randrange(i)
            feed(t[:j] + chr(code) + t[j + 1:], scheme)
    for ident, cs, f in c.tag_grid(times=size(c, 1, 5), part=2):
        feed(spec.tag_uri(ident, cs, f))
    names = list(CODING)
    for n in c.each(range(size(c, 40000))):
        c.lib.begin()
        before = c.cov.total
        t = near_miss_tag_uri(c, names[(n + c.worker) % len(names)])
        x = feed(t)
        if x[0] == "ok" and isinstance(x[1], api.Obj) and x[1].scheme in spec.TAGGED and r.random() < 0.1:
            # what was read is a full object of its scheme
            v = spec.parse_uri(x[1].scheme, x[1].uri)
            if v[0] == "ok":
                cs = r.choice(CODINGS_OF[x[1].scheme])
                c.do("tag_uri", x[1], cs, c.filters(cs)[0], ident=v[1])
        if c.cov.total != before:
            for _ in range(40):
                feed(c.gen.mutate(t))


from . import history, surroundings, values, interrupt  # noqa: E402  (register C16, C17, C20 and C22 to C27)
