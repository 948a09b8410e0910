"""Seeded generators.  Everything random comes from the ``random.Random`` that
is passed in; nothing here looks at the code under test except that a list of
constants mined from it may be offered as extra interesting values."""

import random

from . import spec
from .spec import Ident, SET82, ESCAPED82, DIGITS, UPPER, LOWER, M

SNIPPETS = ["%", "%2", "%2F", "%2f", "%25", "%252F", "%22", "%3C", "%41", "(", ")", "()", "(21)", "(10)", "(01)",
            "(235)", "(254)", "(414)", "(8003)", "(8011)", "(00)", ".", "..", ".0", ":", "::", "urn:epc:id:", "*",
            "**", "-", "_", "0", "00", "000", "1", "/", "//", "?", "&", "&amp;", '"', "<", ">", "<>", "+", ";",
            "=", "'", ",", "!", "a", "A", "z", "Z", "aA", "e", "E", "1e5", "-1", "+1", "1_0", "0x1", "sgtin-96", "I", "O"]


# representations of short identities, as content of other identities
NESTED = ["(01)80614141123458(21)a", "(01)80614141123458(10)1", "(01)80614141123458(235)", "(21)1(21)2", "(10)a(21)b",
          "(00)106141412345678908", "(414)0614141123452(254)", "(254)1(254)2", "(417)0614141123452", "(8003)0061414112345",
          "(8004)0614141123", "(8010)061414A(8011)1", "(8011)1(8011)2", "(253)0614141123452a", "(255)06141411234521",
          "(401)06141411", "(402)06141411234567890", "(8017)06141411234567890", "(8018)06141411234567890",
          "(8006)80614141123458", "(235)1(235)2", "urn:epc:id:gid:1.2.3", "urn:epc:tag:gid-96:1.2.3",
          "0614141.812345.1", "0614141.812345.*", "sgtin-96:3.0614141", "3034257BF7194E4000001A85", "0011000001110100",
          "MDQle/cZTkAAABqF", "0.0.0", "%2F%2F", "%25252F"]


# all of these have six-bit codes
SIX_BIT_SNIPPETS = ["%2F", "%23", "%25", "%41", "%2D", "%30", "%", "%2", "%%", "/", "#", "//", "##", ".", "..", ":", "*", "(", ")",
                    "_", "\\", "[", "]", "^", " ", "+", "&", "?", "<", ">", '"', "!", "'", ";", "=", ",", "$", "-1", "0"]


class Gen:
    def __init__(self, rng, consts=((), ())):
        self.r = rng
        self.ints = list(consts[0]) or [0]
        self.strs = list(consts[1])

    # ------------------------------------------------------------ digits --
    def digits(self, n):
        r = self.r
        if n <= 0:
            return ""
        k = r.random()
        if k < 0.40:
            return "".join(r.choice(DIGITS) for _ in range(n))
        if k < 0.50:
            z = r.randint(0, n)
            return "0" * z + "".join(r.choice(DIGITS) for _ in range(n - z))
        if k < 0.56:
            return r.choice(DIGITS) * n
        if k < 0.64:
            v = (1 << r.randint(0, int(n * 3.33))) + r.randint(-1, 1)
        elif k < 0.72:
            v = 10 ** r.randint(0, n) + r.randint(-1, 1)
        elif k < 0.80:
            v = abs(r.choice(self.ints)) + r.randint(-1, 1)
        elif k < 0.88:
            v = r.randint(0, 120)
        elif k < 0.94:
            v = 10 ** n - 1 - r.randint(0, 12)
        else:
            p = "".join(r.choice(DIGITS) for _ in range(r.randint(1, 3)))
            return (p * n)[:n]
        return str(max(v, 0) % 10 ** n).rjust(n, "0")

    def number(self, bits, maxdigits=20):
        """Canonical decimal number around the capacity of a field."""
        r = self.r
        k = r.random()
        if k < 0.35:
            v = r.getrandbits(r.randint(1, bits))
        elif k < 0.50:
            v = (1 << bits) + r.choice([-2, -1, -1, 0, 0, 1, 2])
        elif k < 0.60:
            v = (1 << r.randint(0, bits)) + r.randint(-1, 1)
        elif k < 0.72:
            v = 10 ** r.randint(0, min(maxdigits, 20) - 1) + r.randint(-1, 1)
        elif k < 0.82:
            v = abs(r.choice(self.ints)) + r.randint(-1, 1)
        elif k < 0.92:
            v = r.randint(0, 130)
        else:
            v = int("".join(r.choice(DIGITS) for _ in range(r.randint(1, maxdigits))))
        s = str(max(v, 0))
        return s[:maxdigits] if s[0] != "0" else "0"

    # -------------------------------------------------------------- text --
    def length(self, lo, hi):
        r = self.r
        k = r.random()
        if k < 0.15:
            return lo
        if k < 0.30:
            return hi
        if k < 0.36:
            return max(lo, hi - 1)
        if k < 0.42:
            return min(hi, lo + 1)
        if k < 0.46:
            return min(hi, max(lo, abs(r.choice(self.ints)) % (hi + 1)))
        return r.randint(lo, hi)

    def text(self, lo, hi, alphabet=SET82, numeric_bits=38):
        r = self.r
        n = self.length(lo, hi)
        k = r.random()
        if k < 0.24:
            s = "".join(r.choice(alphabet) for _ in range(n))
        elif k < 0.34:
            esc = [c for c in alphabet if c in ESCAPED82 or c in "/#-"] or list(alphabet)
            s = "".join(r.choice(esc) for _ in range(n))
        elif k < 0.44:
            esc = [c for c in alphabet if not c.isalnum()] or list(alphabet)
            s = "".join(r.choice(esc) if r.random() < 0.5 else r.choice(alphabet) for _ in range(n))
        elif k < 0.54:
            s = self.number(numeric_bits, hi)
        elif k < 0.60:
            s = self.digits(n)
        elif k < 0.66:
            s = "0" * r.randint(1, 3) + self.number(numeric_bits, hi)
        elif k < 0.71:
            s = r.choice(alphabet) * n
        elif k < 0.78:
            al = [c for c in alphabet if c.isalpha()] or list(alphabet)
            s = "".join(r.choice(al) for _ in range(n))
        elif k < 0.84:
            al = [c for c in alphabet if c.isalnum()] or list(alphabet)
            s = "".join(r.choice(al) for _ in range(n))
        elif k < 0.88:
            # text that looks like a representation of another identity
            s = r.choice(NESTED)
            if r.random() < 0.5:
                s = r.choice(["a", "0", "(", "."]) + s
            if len(s) > hi and r.random() < 0.5:
                s = s[-hi:]
        else:
            pool = SNIPPETS + self.strs if r.random() < 0.7 else (self.strs or SNIPPETS)
            s = ""
            while len(s) < n:
                s += r.choice(pool) if r.random() < 0.6 else r.choice(alphabet)
        s = "".join(c for c in s if c in alphabet)[:hi]
        while len(s) < lo:
            s += r.choice(alphabet)
        return s

    # -------------------------------------------------------- identities --
    def ident(self, scheme, length=None):
        r = self.r
        if scheme in spec.TOTAL:
            n = length or r.randint(6, 12)
            p = [self.digits(n), self.digits(spec.TOTAL[scheme] - n)]
            if scheme in ("SGTIN", "LGTIN") and r.random() < 0.25:
                p = self._short_gtin(n)
            if scheme == "ITIP":
                p += [self.digits(2), self.digits(2)]
            if scheme == "SGCN":
                p.append(self.digits(self.length(1, 12)))
            elif scheme in spec.TEXT_MAX:
                bits = 41 if scheme in ("SGLN", "GDTI") else 38
                p.append(self.text(1, spec.TEXT_MAX[scheme], SET82, bits))
        elif scheme in ("GIAI", "GINC"):
            n = length or r.randint(6, 12)
            p = [self.digits(n), self.text(1, 30 - n, SET82, 82 - M[n])]
        elif scheme == "CPI":
            n = length or r.randint(6, 12)
            k = r.random()
            if k < 0.5:
                ref = self.text(1, 30 - n, spec.CPI_CHARS, 51 - M[n])
            elif k < 0.8:
                ref = self.number(51 - M[n], 15 - n)
            else:
                ref = self.digits(self.length(1, min(16 - n, 30 - n)))
            p = [self.digits(n), ref, self.number(r.choice([31, 40]), 12)]
        elif scheme == "GID":
            p = [self._below(28), self._below(24), self._below(36)]
        elif scheme == "USDOD":
            p = [self.cage(), self._below(36)]
        elif scheme == "ADI":
            part = "" if r.random() < 0.12 else self.text(1, 32, spec.ADI_CHARS)
            ser = self.text(1, 30, spec.ADI_CHARS)
            if r.random() < 0.3:
                ser = "#" + ser[:29]
            p = [self.cage(), part, ser]
        elif scheme == "BIC":
            p = ["".join(r.choice(spec.BIC_CHARS) for _ in range(3)) + r.choice("JUZ") + self.digits(7)]
        elif scheme == "IMOVN":
            p = [self.digits(7)]
        return Ident(scheme, tuple(p))

    def _short_gtin(self, n):
        """Prefix and reference whose GTIN starts with zeros."""
        zeros = self.r.choice([0, 1, 1, 2, 2, 3, 5, 6, 6, 7, 8, 13])
        d = "0" * zeros + self.digits(13 - zeros)
        return [d[1:1 + n], d[0] + d[1 + n:]]

    def _below(self, bits):
        s = self.number(bits, 12)
        return s if int(s) < 1 << bits else str(int(s) % (1 << bits))

    def cage(self):
        r = self.r
        n = r.choice([5, 6])
        k = r.random()
        if k < 0.7:
            return "".join(r.choice(spec.CAGE_CHARS) for _ in range(n))
        if k < 0.85:
            return "".join(r.choice(DIGITS) for _ in range(n))
        return r.choice(spec.CAGE_CHARS) * n

    def any_ident(self, schemes):
        return self.ident(self.r.choice(schemes))

    # -------------------------------------------------------- neighbours --
    def neighbours(self, ident, limit=12):
        """Valid identities that are easily confused with ``ident``."""
        r = self.r
        s, p = ident
        out = []

        def add(scheme, parts):
            c = Ident(scheme, tuple(parts))
            try:
                spec.check(c)
            except spec.Bad:
                return
            if c != ident and c not in out:
                out.append(c)

        p = list(p)
        if s in spec.PREFIXED:
            joined = p[0] + p[1] if s not in ("GIAI", "GINC", "CPI") else p[0] + p[1]
            for n in range(6, 13):
                if n < len(joined) or s in spec.TOTAL:
                    add(s, [joined[:n], joined[n:]] + p[2:])
            for i in (0, 1):
                if p[i]:
                    j = r.randrange(len(p[i]))
                    if p[i][j] in DIGITS:
                        q = list(p)
                        q[i] = p[i][:j] + str((int(p[i][j]) + 1) % 10) + p[i][j + 1:]
                        add(s, q)
        t = p[-1]
        variants = [t.swapcase(), t.lower(), t.upper(), "0" + t, t.lstrip("0") or "0", t + "0", t[:-1], t[::-1],
                    t.replace("/", "%2F"), t.replace("%", "%25"), t.replace("%2F", "/"), t + " ", t.replace("0", "O"),
                    t + t[-1:], "#" + t, t.lstrip("#"), t.replace("-", "_"), t.replace(".", ":")]
        if spec.is_digits(t) and t:
            variants += [str(int(t) + 1), str(max(int(t) - 1, 0)), str(int(t) ^ (1 << r.randint(0, 37)))]
        if t:
            j = r.randrange(len(t))
            variants.append(t[:j] + r.choice(SET82) + t[j + 1:])
        for v in variants:
            add(s, p[:-1] + [v])
        if s == "CPI" or s == "ADI":
            for v in (p[1] + "-", p[1] + "0", p[1][::-1], p[1][:-1], "0" + p[1]):
                add(s, [p[0], v, p[2]])
        if s in ("ADI", "USDOD"):
            add(s, [p[0][:5]] + p[1:])
            add(s, [(p[0] + "0")[:6]] + p[1:])
            add(s, [("0" + p[0])[:6]] + p[1:])
        for group in (("SGTIN", "LGTIN", "UPUI"), ("SGLN", "GRAI", "GDTI", "SGCN"), ("GSRN", "GSRNP", "SSCC"),
                      ("GIAI", "GINC")):
            if s in group:
                for g in group:
                    add(g, p)
        r.shuffle(out)
        return out[:limit]

    # -------------------------------------------------------- near misses --
    ODD_CHARS = [" ", "\n", "\t", "\r", "\x00", "\x0b", "\x1c", "\x85", "\xa0", "²", "٠", "١", "１",
                 "१", " ", "é", "\U0001d7ce", "`", "$", "@", "^", "~", "|", "[", "]", "{", "}", "\\", "#",
                 "%", "%2", "%%", "%g0", "%4", "%2g", "%00", "%20", "%7F", "%80", "%FF", "%2F", "%23", "%5B", "%3A",
                 ".", ":", "*", "-", "_", "/", "0", "9", "a", "A", "I", "O", "?", "<", ">", "&", '"', "+", "#"]

    def mutate(self, text, times=1):
        """Arbitrary small edit."""
        r = self.r
        for _ in range(times):
            k = r.random()
            i = r.randint(0, len(text))
            odd = r.choice(self.ODD_CHARS) if r.random() < 0.7 else chr(r.randint(0, 127))
            if k < 0.30:
                text = text[:i] + odd + text[i:]
            elif k < 0.55:
                text = text[:i] + odd + text[i + 1:]
            elif k < 0.72:
                text = text[:i] + text[i + 1:]
            elif k < 0.80:
                j = min(len(text), i + r.randint(1, 6))
                text = text[:i] + text[j:]
            elif k < 0.86:
                j = min(len(text), i + r.randint(1, 6))
                text = text[:j] + text[i:j] + text[j:]
            elif k < 0.90:
                text = text + odd
            elif k < 0.94:
                text = odd + text
            elif k < 0.96:
                text = text.upper()
            elif k < 0.98:
                text = text[:i].upper() + text[i:]
            else:
                j = r.randint(0, len(text))
                i, j = min(i, j), max(i, j)
                text = text[:i] + text[i:j].swapcase() + text[j:]
        return text

    def bad_parts(self, ident):
        """Component-level edits: lengths that compensate, missing, swapped or
        overlong components, wrong scheme names.  Returns URI text."""
        r = self.r
        s = ident.scheme
        pre = spec.PREFIX_OF[s]
        body = spec.body(ident)
        n = spec.NPARTS[s]
        parts = body.split(".", n - 1)
        k = r.random()
        i = r.randrange(len(parts))
        if k < 0.28:  # resize a component
            d = r.choice([-3, -2, -1, -1, 1, 1, 2, 3, 7])
            p = parts[i]
            parts[i] = p[:max(0, len(p) + d)] if d < 0 else p + "".join(r.choice("0123456789") for _ in range(d))
        elif k < 0.45 and n > 1:  # move characters between components
            j = (i + 1) % len(parts)
            d = r.randint(1, 4)
            parts[i], parts[j] = parts[i][:-d], parts[i][-d:] + parts[j]
        elif k < 0.55 and s in spec.PREFIXED:  # prefix length out of range
            joined = parts[0] + parts[1]
            m = r.choice([0, 1, 4, 5, 5, 13, 13, 14])
            parts[0], parts[1] = joined[:m], joined[m:]
        elif k < 0.62:
            parts[i] = ""
        elif k < 0.68:
            del parts[i]
        elif k < 0.74:
            parts.insert(i, self.digits(r.randint(0, 4)))
        elif k < 0.80:
            parts[i] = r.choice(["*", "-1", "+1", " 1", "1 ", "0x1", "1e3", "1_0", "١", "１２", "0", "00", "01"])
        elif k < 0.86:
            parts.reverse()
        elif k < 0.93:
            lim = {"SGTIN": 20, "LGTIN": 20, "UPUI": 28, "ITIP": 20, "SGLN": 20, "GRAI": 16, "GDTI": 17, "SGCN": 12,
                   "CPI": 12, "ADI": 30}.get(s, 30)
            t = self.text(lim + 1, lim + r.choice([1, 1, 2, 5]), SET82 if s in spec.TEXT_LAST else spec.ADI_CHARS)
            if s in ("SGCN", "CPI", "GID", "USDOD"):
                t = "1" + self.digits(lim)
            parts[-1] = spec.escape82(t) if s in spec.TEXT_LAST else spec.escape_min(t)
        else:
            pre = r.choice(["urn:epc:id:%s:" % r.choice(spec.SCHEMES).lower(), "urn:epc:class:%s:" % s.lower(),
                            "urn:epc:tag:%s:" % s.lower(), "urn:epc:idpat:%s:" % s.lower(), "urn:epc:id:", "urn:epc:id",
                            "urn:EPC:id:%s:" % s.lower(), "URN:epc:id:%s:" % s.lower(), "urn:epc:id:%s:" % s,
                            "urn:epc:id:%s" % s.lower(), ":::%s:" % s.lower(), "urn:epc:raw:%s:" % s.lower(),
                            "urn:epc:id:%s-96:" % s.lower(), "", " " + pre, "urn:epcglobal:id:%s:" % s.lower()])
        return pre + ".".join(parts)

    def near_miss_uri(self, ident):
        k = self.r.random()
        if k < 0.5:
            return self.bad_parts(ident)
        return self.mutate(spec.uri(ident), 1 if k < 0.9 else 2)

    # ------------------------------------------------------------- memory --
    def memory(self, cs=None):
        """Tag memory for a coding scheme with fields chosen freely."""
        r = self.r
        cs = cs or r.choice(list(spec.CODING))
        scheme, header, nominal, fw = spec.CODING[cs]
        out = format(header, "08b")
        if fw:
            out += format(r.getrandbits(fw), "0%db" % fw)
        if cs in spec.PAIR or cs == "cpi-var":
            pv = 7 if r.random() < 0.04 else r.randint(0, 6)
            out += format(pv, "03b")
            length = 12 - min(pv, 6)
            m = M[length]
            out += self._field(m, 10 ** length)
            if cs == "cpi-var":
                out += self._six(30 - length, spec.CPI_CHARS)
                out += self._field(40, 10 ** 12)
            elif cs == "giai-202":
                out += self._seven(188 - m)
            else:
                w = spec.PAIR[cs] - m
                k = spec.TOTAL[scheme] - length if scheme in spec.TOTAL else (15 - length if cs == "cpi-96" else 25 - length)
                out += self._field(w, 10 ** k)
            if scheme == "ITIP":
                out += self._field(7, 100) + self._field(7, 100)
            if cs in spec.SERIAL_BITS:
                out += self._field(spec.SERIAL_BITS[cs], None)
            elif cs in spec.TEXT_CHARS:
                out += self._seven(7 * spec.TEXT_CHARS[cs])
            elif cs == "sgcn-96":
                if r.random() < 0.6:
                    out += format(int("1" + self.digits(self.length(1, 12))), "041b")
                else:
                    out += self._field(41, 10 ** r.randint(0, 12))
            elif nominal and len(out) < nominal:
                out += "0" * (nominal - len(out)) if r.random() < 0.9 else self._bits(nominal - len(out))
        elif cs == "gid-96":
            out += self._field(28, None) + self._field(24, None) + self._field(36, None)
        elif cs == "usdod-96":
            for i in range(6):
                k = r.random()
                if k < 0.9:
                    c = r.choice(spec.CAGE_CHARS)
                elif i == 0 or k < 0.92:
                    c = " "
                else:
                    c = r.choice("IOio-/ \x00\x7f.:#a")
                out += format(ord(c), "08b")
            out += self._field(36, None)
        else:  # adi-var
            for i in range(6):
                k = r.random()
                v = 0x20 if i == 0 and k < 0.4 else (ord(r.choice(spec.CAGE_CHARS)) & 63 if k < 0.98 else r.getrandbits(6))
                out += format(v, "06b")
            out += self._six(32, spec.ADI_CHARS) + self._six(30, spec.ADI_CHARS, "#")
        return out

    def _bits(self, n):
        return format(self.r.getrandbits(n), "0%db" % n) if n > 0 else ""

    def _field(self, w, limit):
        r = self.r
        k = r.random()
        top = 1 << w
        if limit is None or limit > top:
            limit = top
        if k < 0.62:
            v = r.randrange(limit)
        elif k < 0.74:
            v = limit - 1
        elif k < 0.80:
            v = limit
        elif k < 0.84:
            v = top - 1
        elif k < 0.88:
            v = r.randint(0, 3)
        elif k < 0.92:
            v = r.randrange(top)
        else:
            v = abs(r.choice(self.ints)) + r.randint(-1, 1)
        return format(min(max(v, 0), top - 1), "0%db" % w)

    def _six(self, most, alphabet, first=""):
        r = self.r
        n = self.length(0, most) if r.random() < 0.93 else most + r.randint(1, 3)
        s = "".join(r.choice(alphabet) for _ in range(n))
        if first and r.random() < 0.25 and s:
            s = first + s[1:]
        if r.random() < 0.08:  # text that means something in a URI
            i = r.randint(0, len(s))
            s = s[:i] + r.choice(SIX_BIT_SNIPPETS) + s[i:]
        codes = [ord(c) & 63 for c in s]
        if codes and r.random() < 0.10:
            codes[r.randrange(len(codes))] = r.randint(1, 63)
        out = "".join(format(v, "06b") for v in codes)
        if r.random() < 0.96:
            out += "000000"
        return out

    def _seven(self, width):
        r = self.r
        n = self.length(0, width // 7)
        codes = [ord(r.choice(SET82)) for _ in range(n)]
        if r.random() < 0.35 and n:
            codes = [ord(c) for c in self.text(1, width // 7)][:width // 7]
        if codes and r.random() < 0.15:
            codes[r.randrange(len(codes))] = r.choice([0, 1, 10, 31, 32, 35, 36, 64, 91, 92, 93, 94, 96, 123, 126, 127])
        out = "".join(format(v, "07b") for v in codes)
        return out + "0" * (width - len(out))

    def tag_memory(self):
        """Any tag memory: structured, perturbed, cut, extended or random."""
        r = self.r
        k = r.random()
        if k < 0.62:
            return self.memory()
        if k < 0.80:
            cs = r.choice(list(spec.CODING))
            ident = self.fitting(cs)
            bits = spec.encode(ident, cs, r.choice(list(spec.filters(cs))))
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                i = r.randrange(len(bits))
                bits = bits[:i] + ("1" if bits[i] == "0" else "0") + bits[i + 1:]
            return bits
        if k < 0.88:
            b = self.memory()
            return b[:r.randint(0, len(b))]
        if k < 0.93:
            return self.memory() + self._bits(r.randint(1, 160))
        if k < 0.97:
            return format(r.choice(list(spec.BY_HEADER)), "08b") + self._bits(r.choice([0, 1, 5, 40, 88, 88, 102, 162, 190, 204, 230, 400]))
        return self._bits(r.choice([0, 1, 7, 8, 9, 96, 96, 198]))

    def fitting(self, cs):
        """A random identity the coding scheme can hold."""
        r = self.r
        scheme = spec.CODING[cs][0]
        for _ in range(60):
            ident = self.ident(scheme)
            if spec.fits(ident, cs):
                return ident
            p = list(ident.parts)
            if cs in spec.SERIAL_BITS:
                bits = spec.SERIAL_BITS[cs]
                if cs == "cpi-96":
                    p[1] = str(r.randrange(10 ** (15 - len(p[0]))))
                p[-1] = str(int(self.number(bits)) % (1 << bits))
            elif cs == "giai-96":
                p[1] = str(int(self.number(82 - M[len(p[0])])) % (1 << (82 - M[len(p[0])])))
            ident = Ident(scheme, tuple(p))
            if spec.fits(ident, cs):
                return spec.check(ident)
        raise AssertionError(cs)

    # --------------------------------------------------------------- grids --
    @staticmethod
    def tag_grid(cs):
        """Every (prefix length, filter, size of the serial or reference) of a
        coding scheme; the size is in characters or, for numbers, in bits."""
        scheme = spec.CODING[cs][0]
        out = []
        for n in range(6, 13) if scheme in spec.PREFIXED else (None,):
            if cs in spec.TEXT_CHARS:
                sizes = range(1, spec.TEXT_CHARS[cs] + 1)
            elif cs in spec.SERIAL_BITS:
                sizes = range(spec.SERIAL_BITS[cs] + 1)
            elif cs in ("giai-202", "cpi-var"):
                sizes = range(1, 31 - n)
            elif cs == "giai-96":
                sizes = range(83 - M[n])
            elif cs == "sgcn-96":
                sizes = range(1, 13)
            elif cs in ("gid-96", "usdod-96"):
                sizes = range(37)
            elif cs == "adi-var":
                sizes = range(33)
            else:
                sizes = range(12)
            out += [(cs, n, f, z) for f in spec.filters(cs) for z in sizes]
        return out

    def at(self, point):
        """A random identity at a point of the tag grid."""
        r = self.r
        cs, n, f, z = point
        scheme = spec.CODING[cs][0]
        for _ in range(200):
            p = list(self.ident(scheme, n).parts)
            bits = str(r.getrandbits(z - 1) | 1 << (z - 1)) if z else "0"
            if cs in spec.TEXT_CHARS:
                p[-1] = self.text(z, z)
            elif cs == "cpi-96":
                p[1] = str(r.randrange(10 ** r.randint(1, 15 - n)))
                p[2] = bits
            elif cs in spec.SERIAL_BITS or cs in ("giai-96", "gid-96", "usdod-96"):
                p[-1] = bits
            elif cs == "giai-202":
                p[1] = self.text(z, z)
            elif cs == "cpi-var":
                p[1] = self.text(z, z, spec.CPI_CHARS)
            elif cs == "sgcn-96":
                p[2] = self.digits(z)
            elif cs == "adi-var":
                p[1] = self.text(z, z, spec.ADI_CHARS) if z else ""
            ident = Ident(scheme, tuple(p))
            try:
                if spec.fits(spec.check(ident), cs):
                    return ident
            except spec.Bad:
                pass
        return None

    @staticmethod
    def text_grid(s):
        """Every (prefix length, size of the last text, prefix length asked
        for) of a scheme with element strings."""
        out = []
        for n in range(6, 13):
            top = spec.TEXT_MAX.get(s) or (30 - n if s in ("GIAI", "GINC", "CPI") else 12)
            out += [(s, n, z, m) for z in range(1, top + 1) for m in range(6, 13)]
        return out

    def at_text(self, point):
        s, n, z, m = point
        for _ in range(200):
            p = list(self.ident(s, n).parts)
            if s == "CPI":
                p[1] = self.text(z, z, spec.CPI_CHARS)
            elif s == "SGCN":
                p[2] = self.digits(z)
            elif s in spec.TEXT_LAST:
                p[-1] = self.text(z, z)
            try:
                return spec.check(Ident(s, tuple(p)))
            except spec.Bad:
                pass
        return None


# ------------------------------------------------------ systematic sweeps ---

def de_bruijn_windows(alphabet, n):
    """Strings of length n that together contain every adjacent pair."""
    k = len(alphabet)
    seq = []
    # order-2 de Bruijn sequence: cycle through pairs (a, b)
    for a in range(k):
        seq.append(a)
        for b in range(a + 1, k):
            seq.append(a)
            seq.append(b)
    seq.append(0)
    s = "".join(alphabet[i] for i in seq)
    out = []
    i = 0
    while i < len(s) - 1:
        out.append(s[i:i + n])
        i += n - 1
    return out


def sweep_idents():
    """Deterministic list of identities that visits, per scheme: every prefix
    length with extreme digits, every text length, every character alone,
    first, in the middle and last, every adjacent character pair, and the
    capacity boundaries of every numeric field."""
    out = []

    def add(s, *p):
        out.append(Ident(s, tuple(p)))

    def split(s, n, style):
        t = spec.TOTAL[s] - n
        return {0: ("0" * n, "0" * t), 1: ("9" * n, "9" * t), 2: (("1234567890" * 2)[:n], ("9876543210" * 2)[:t]),
                3: ("0" * (n - 1) + "1", ("0" * t + "1")[-t:] if t else ""), 4: ("1" + "0" * (n - 1), ("1" + "0" * t)[:t]),
                5: ("0" * n, "9" * t), 6: ("9" * n, "0" * t)}[style]

    def numbers(bits):
        v = {0, 1, 2, 9, 10, 99, 100, (1 << bits) - 2, (1 << bits) - 1, 1 << bits, (1 << bits) + 1, 1 << (bits - 1)}
        for i in range(0, bits + 2, 3):
            v |= {1 << i, (1 << i) - 1}
        for i in range(1, 20):
            v |= {10 ** i - 1, 10 ** i}
        return [str(x) for x in sorted(v)]

    def texts(alphabet, hi, bits):
        res = list(numbers(bits)) + ["00", "01", "000", "0" * hi, "0" + "9" * (hi - 1), "9" * hi, "1" * hi]
        res += [alphabet[i % len(alphabet)] * n for i, n in enumerate(range(1, hi + 1))]
        for i, c in enumerate(alphabet):
            o = alphabet[(i * 7 + 3) % len(alphabet)]
            res += [c, c + o, o + c, o + c + o, c * hi, "A" * (hi - 1) + c, c + "Z" * (hi - 1), "0" + c, c + "0"]
        res += de_bruijn_windows(alphabet, hi)
        res += [t for t in SNIPPETS if all(c in alphabet for c in t)]
        res += [t for t in NESTED if all(c in alphabet for c in t)] + [t[-hi:] for t in NESTED if all(c in alphabet for c in t)]
        return [t[:hi] for t in res if 1 <= len(t)]

    for s in spec.TOTAL:
        i = 0
        for n in range(6, 13):
            for st in range(7):
                p, q = split(s, n, st)
                if s == "SGCN":
                    for m in range(1, 13):
                        for ser in ("0" * m, "9" * m, "1" + "0" * (m - 1), ("0" * m + "1")[-m:]):
                            add(s, p, q, ser)
                elif s in spec.TEXT_MAX:
                    for ser in ("0", "1", "1" * 11, "a", "00", "%/", "9" * spec.TEXT_MAX[s]):
                        extra = (("01", "02"), ("99", "99"), ("00", "00"), ("10", "98"))[i % 4] if s == "ITIP" else ()
                        add(s, p, q, *extra, ser)
                        i += 1
                else:
                    add(s, p, q)
            # single digits
            for pos in range(spec.TOTAL[s]):
                for d in "1379":
                    both = "0" * pos + d + "0" * (spec.TOTAL[s] - pos - 1)
                    extra = ("01", "99") if s == "ITIP" else ()
                    extra += ("7",) if s in spec.TEXT_MAX or s == "SGCN" else ()
                    add(s, both[:n], both[n:], *extra)
        if s in spec.TEXT_MAX:
            bits = 41 if s in ("SGLN", "GDTI") else 38
            for j, t in enumerate(texts(SET82, spec.TEXT_MAX[s], bits)):
                n = 6 + j % 7
                p, q = split(s, n, (j // 7) % 7)
                extra = ("%02d" % (j % 100), "%02d" % ((j * 7) % 100)) if s == "ITIP" else ()
                add(s, p, q, *extra, t)
    for j in range(100):
        add("ITIP", "4012345", "012345", "%02d" % j, "%02d" % (99 - j), str(j))
    for s in ("GIAI", "GINC"):
        for n in range(6, 13):
            for j, t in enumerate(texts(SET82, 30 - n, 82 - M[n])):
                if j % 7 == n - 6 or t.isdigit():
                    add(s, ("0" * n, "9" * n, ("1234567890" * 2)[:n])[j % 3], t)
    for n in range(6, 13):
        for j, t in enumerate(texts(spec.CPI_CHARS, 30 - n, 51 - M[n])):
            nums = numbers(31) + ["999999999999"]
            ser = nums[(j + n) % len(nums)]
            if j % 4 == n % 4 or t.isdigit():
                add("CPI", ("0" * n, "9" * n, ("1234567890" * 2)[:n])[j % 3], t, ser if len(ser) <= 12 else "1")
    for bits, i in ((28, 0), (24, 1), (36, 2)):
        for v in numbers(bits):
            if int(v) < 1 << bits:
                p = ["1", "2", "3"]
                p[i] = v
                add("GID", *p)
    for j, c in enumerate(spec.CAGE_CHARS):
        for cage in (c + "1234", "1234" + c, c * 5, c + "12345", "12345" + c, c * 6, "12" + c + "34"):
            add("USDOD", cage, str(j))
            add("ADI", cage, "P" + str(j), "S" + c)
    for v in numbers(36):
        if int(v) < 1 << 36:
            add("USDOD", "CAGEA"[:5], v)
    for j, t in enumerate(texts(spec.ADI_CHARS, 32, 38)):
        add("ADI", "1A2B3"[:5] + "C" * (j % 2), t, "X%d" % j)
        add("ADI", "1A2B3"[:5] + "C" * (j % 2), "" if j % 3 else "PN1", t[:30])
        add("ADI", "1A2B3"[:5] + "C" * (j % 2), t if j % 2 else "", "#" + t[:29])
    for j, c in enumerate(spec.BIC_CHARS):
        for u in "JUZ":
            add("BIC", c * 3 + u + "%07d" % (j * 123457 % 10 ** 7))
    for j in range(60):
        add("IMOVN", "%07d" % (j * 181081 % 10 ** 7))
    seen, res = set(), []
    for c in out:
        try:
            spec.check(c)
        except spec.Bad:
            continue
        if c not in seen:
            seen.add(c)
            res.append(c)
    return res
