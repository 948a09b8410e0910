"""Reference model of the GS1 EPC Tag Data Standard, as far as the monitored
properties need it.

Written from the standard, independently of the code under test: fields are
packed into integers, text is scanned character by character, and nothing is
imported from /repo.  An identity is ``Ident(scheme, parts)`` where ``parts``
holds the plain (unescaped) text of each component.

Verdicts on inputs are tuples:

* ``("ok", value)``      the input is valid and denotes ``value``
* ``("bad", reason)``    the input is invalid and must be refused
* ``("any", reason)``    the properties make no claim (see DESIGN.md)
"""

from collections import namedtuple
import base64 as _b64

Ident = namedtuple("Ident", "scheme parts")

DIGITS = "0123456789"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER = "abcdefghijklmnopqrstuvwxyz"
ESCAPED82 = '"%&/<>?'
PLAIN82 = "!'()*+,-.:;=_" + DIGITS + UPPER + LOWER
SET82 = PLAIN82 + ESCAPED82
SET82_S = frozenset(SET82)
PLAIN82_S = frozenset(PLAIN82)
ESC_S = frozenset(ESCAPED82)
DIGIT_S = frozenset(DIGITS)
HEX_S = frozenset("0123456789abcdefABCDEF")
CPI_CHARS = DIGITS + UPPER + "-/#"
CPI_S = frozenset(CPI_CHARS)
ADI_CHARS = DIGITS + UPPER + "-/"
ADI_S = frozenset(ADI_CHARS)
CAGE_CHARS = DIGITS + "ABCDEFGHJKLMNPQRSTUVWXYZ"
CAGE_S = frozenset(CAGE_CHARS)
BIC_CHARS = "ABCDEFGHJKLMNPQRSTUVWXYZ"

SCHEMES = [
    "ADI", "BIC", "CPI", "GDTI", "GIAI", "GID", "GINC", "GRAI", "GSIN", "GSRN", "GSRNP",
    "IMOVN", "ITIP", "LGTIN", "PGLN", "SGCN", "SGLN", "SGTIN", "SSCC", "UPUI", "USDOD",
]
TAGGED = ["ADI", "CPI", "GDTI", "GIAI", "GID", "GRAI", "GSRN", "GSRNP", "ITIP", "SGCN",
          "SGLN", "SGTIN", "SSCC", "USDOD"]
ELEMENT = ["CPI", "GDTI", "GIAI", "GINC", "GRAI", "GSIN", "GSRN", "GSRNP", "ITIP", "LGTIN",
           "PGLN", "SGCN", "SGLN", "SGTIN", "SSCC", "UPUI"]
KEYED = [s for s in ELEMENT if s not in ("CPI", "ITIP", "UPUI")]
PREFIXED = [s for s in SCHEMES if s not in ("ADI", "BIC", "GID", "IMOVN", "USDOD")]

# digits of company prefix + reference together
TOTAL = {"SGTIN": 13, "LGTIN": 13, "UPUI": 13, "ITIP": 13, "SSCC": 17, "GSRN": 17, "GSRNP": 17,
         "SGLN": 12, "GRAI": 12, "GDTI": 12, "SGCN": 12, "PGLN": 12, "GSIN": 16}
# maximum characters of the alphanumeric serial / extension / lot
TEXT_MAX = {"SGTIN": 20, "LGTIN": 20, "UPUI": 28, "ITIP": 20, "SGLN": 20, "GRAI": 16, "GDTI": 17}

PREFIX_OF = {s: ("urn:epc:class:lgtin:" if s == "LGTIN" else "urn:epc:id:%s:" % s.lower()) for s in SCHEMES}


class Bad(Exception):
    pass


class Unspecified(Exception):
    pass


# ----------------------------------------------------------------- text ---

def escape82(text):
    return "".join("%%%02X" % ord(c) if c in ESC_S else c for c in text)


def escape_min(text):
    """Escapes of the component/part and aircraft-part alphabets."""
    return "".join("%%%02X" % ord(c) if c in "/#" else c for c in text)


def scan82(raw):
    """-> (plain text, canonical?); raises Bad."""
    out, canonical, i = [], True, 0
    while i < len(raw):
        c = raw[i]
        if c == "%":
            h = raw[i + 1:i + 3]
            if len(h) != 2 or h[0] not in HEX_S or h[1] not in HEX_S:
                raise Bad("incomplete escape")
            ch = chr(int(h, 16))
            if ch not in SET82_S:
                raise Bad("escape of a character outside the alphabet")
            if ch not in ESC_S or h != h.upper():
                canonical = False
            out.append(ch)
            i += 3
        else:
            if c not in PLAIN82_S:
                raise Bad("character outside the alphabet")
            out.append(c)
            i += 1
    return "".join(out), canonical


def scan_min(raw, alphabet):
    out, canonical, i = [], True, 0
    while i < len(raw):
        c = raw[i]
        if c == "%":
            h = raw[i + 1:i + 3]
            if len(h) != 2 or h[0] not in HEX_S or h[1] not in HEX_S:
                raise Bad("incomplete escape")
            ch = chr(int(h, 16))
            if ch not in alphabet and ch != "#":
                raise Bad("escape of a character outside the alphabet")
            if ch not in "/#" or h != h.upper():
                canonical = False
            out.append(ch)
            i += 3
        else:
            if c not in alphabet or c in "/#":
                raise Bad("character outside the alphabet")
            out.append(c)
            i += 1
    return "".join(out), canonical


def is_digits(s):
    return all(c in DIGIT_S for c in s)


def need(cond, reason):
    if not cond:
        raise Bad(reason)


def numeric(s):
    need(len(s) > 0 and is_digits(s), "not numeric")
    need(s == "0" or s[0] != "0", "leading zero")
    return s


# ------------------------------------------------------ identity checks ---

def check(ident):
    """Raise Bad unless ident is a valid identity."""
    s, p = ident
    if s in TOTAL:
        need(p[0] != "" and is_digits(p[0]) and is_digits(p[1]), "digits")
        need(6 <= len(p[0]) <= 12, "company prefix length")
        need(len(p[0]) + len(p[1]) == TOTAL[s], "digit count")
        if s in TEXT_MAX:
            t = p[-1]
            need(1 <= len(t) <= TEXT_MAX[s], "text length")
            need(all(c in SET82_S for c in t), "alphabet")
        if s == "SGCN":
            need(1 <= len(p[2]) <= 12 and is_digits(p[2]), "serial")
        if s == "ITIP":
            need(len(p[2]) == 2 and is_digits(p[2]), "piece")
            need(len(p[3]) == 2 and is_digits(p[3]), "total")
    elif s in ("GIAI", "GINC"):
        need(p[0] != "" and is_digits(p[0]) and 6 <= len(p[0]) <= 12, "company prefix")
        need(len(p[1]) >= 1 and len(p[0]) + len(p[1]) <= 30, "length")
        need(all(c in SET82_S for c in p[1]), "alphabet")
    elif s == "CPI":
        need(p[0] != "" and is_digits(p[0]) and 6 <= len(p[0]) <= 12, "company prefix")
        need(len(p[1]) >= 1 and len(p[0]) + len(p[1]) <= 30, "length")
        need(all(c in CPI_S for c in p[1]), "alphabet")
        numeric(p[2])
        need(len(p[2]) <= 12, "serial length")
    elif s == "GID":
        for v, bits in zip(p, (28, 24, 36)):
            numeric(v)
            need(len(v) < 20 and int(v) < 1 << bits, "range")
    elif s == "USDOD":
        need(len(p[0]) in (5, 6) and all(c in CAGE_S for c in p[0]), "cage")
        numeric(p[1])
        need(len(p[1]) < 20 and int(p[1]) < 1 << 36, "range")
    elif s == "ADI":
        need(len(p[0]) in (5, 6) and all(c in CAGE_S for c in p[0]), "cage")
        need(len(p[1]) <= 32 and all(c in ADI_S for c in p[1]), "part number")
        t = p[2][1:] if p[2][:1] == "#" else p[2]
        need(len(t) >= 1 and len(p[2]) <= 30 and all(c in ADI_S for c in t), "serial")
    elif s == "BIC":
        need(len(p[0]) == 11, "length")
        need(all(c in BIC_CHARS for c in p[0][:3]) and p[0][3] in "JUZ" and is_digits(p[0][4:]), "alphabet")
    elif s == "IMOVN":
        need(len(p[0]) == 7 and is_digits(p[0]), "digits")
    else:
        raise AssertionError(s)
    return ident


NPARTS = {"SGTIN": 3, "LGTIN": 3, "UPUI": 3, "ITIP": 5, "SSCC": 2, "GSRN": 2, "GSRNP": 2, "SGLN": 3,
          "GRAI": 3, "GDTI": 3, "SGCN": 3, "PGLN": 2, "GSIN": 2, "GIAI": 2, "GINC": 2, "CPI": 3,
          "GID": 3, "USDOD": 2, "ADI": 3, "BIC": 1, "IMOVN": 1}
TEXT_LAST = {"SGTIN", "LGTIN", "UPUI", "ITIP", "SGLN", "GRAI", "GDTI", "GIAI", "GINC"}


def body(ident):
    s, p = ident
    if s in TEXT_LAST:
        return ".".join(p[:-1] + (escape82(p[-1]),))
    if s == "CPI":
        return "%s.%s.%s" % (p[0], escape_min(p[1]), p[2])
    if s == "ADI":
        return "%s.%s.%s" % (p[0], escape_min(p[1]), escape_min(p[2]))
    return ".".join(p)


def uri(ident):
    return PREFIX_OF[ident.scheme] + body(ident)


def parse_body(scheme, text):
    """-> (Ident, canonical?); raises Bad."""
    n = NPARTS[scheme]
    canonical = True
    if scheme in TEXT_LAST:
        parts = text.split(".", n - 1)
        need(len(parts) == n, "components")
        parts[-1], canonical = scan82(parts[-1])
    else:
        parts = text.split(".")
        need(len(parts) == n, "components")
        if scheme == "CPI":
            parts[1], canonical = scan_min(parts[1], CPI_S)
        elif scheme == "ADI":
            parts[1], c1 = scan_min(parts[1], ADI_S)
            parts[2], c2 = scan_min(parts[2], ADI_S)
            canonical = c1 and c2
    return check(Ident(scheme, tuple(parts))), canonical


def parse_uri(scheme, text):
    """Verdict of ``text`` as a pure identity URI of ``scheme``; an identity
    written with non-canonical escapes is unspecified."""
    pre = PREFIX_OF[scheme]
    if not text.startswith(pre):
        return ("bad", "prefix")
    try:
        ident, canonical = parse_body(scheme, text[len(pre):])
    except Bad as e:
        return ("bad", str(e))
    if not canonical:
        return ("any", ident)
    return ("ok", ident)


def parse_any_uri(text):
    for s in SCHEMES:
        if text.startswith(PREFIX_OF[s]):
            return parse_uri(s, text)
    return ("bad", "unknown scheme")


# ------------------------------------------------------------ GS1 forms ---

def check_digit(digits):
    total, weight = 0, 3
    for c in reversed(digits):
        total += weight * int(c)
        weight = 4 - weight
    return str(-total % 10)


def gs1_digits(ident):
    """Prefix and reference in GS1 order, without check digit."""
    s, p = ident
    if s in ("SGTIN", "LGTIN", "UPUI", "ITIP", "SSCC"):
        return p[1][0] + p[0] + p[1][1:]
    return p[0] + p[1]


def key(ident):
    s, p = ident
    if s not in KEYED:
        return None
    if s in ("GIAI", "GINC"):
        return p[0] + p[1]
    d = gs1_digits(ident)
    d += check_digit(d)
    if s in ("GRAI", "GDTI", "SGCN"):
        d += p[2]
    return d


def gtin(ident, kind):
    """-> ("ok", gtin) or ("bad", ..) for kind in 8, 12, 13, 14."""
    g = key(ident)
    cut = 14 - kind
    if g[:cut] != "0" * cut:
        return ("bad", "digits would be lost")
    return ("ok", g[cut:])


AI = {"SGTIN": ("01", "21"), "LGTIN": ("01", "10"), "UPUI": ("01", "235"), "SSCC": ("00",),
      "SGLN": ("414", "254"), "GRAI": ("8003",), "GIAI": ("8004",), "GSRN": ("8018",),
      "GSRNP": ("8017",), "GDTI": ("253",), "CPI": ("8010", "8011"), "SGCN": ("255",),
      "GINC": ("401",), "GSIN": ("402",), "ITIP": ("8006", "21"), "PGLN": ("417",)}


def element(ident):
    s, p = ident
    if s not in AI:
        return None
    first = "(%s)" % AI[s][0]
    if s == "CPI":
        return "%s%s%s(%s)%s" % (first, p[0], p[1], AI[s][1], p[2])
    if s in ("GIAI", "GINC"):
        return first + p[0] + p[1]
    d = gs1_digits(ident)
    d += check_digit(d)
    if s == "GRAI":
        return first + "0" + d + p[2]
    if s in ("GDTI", "SGCN"):
        return first + d + p[2]
    if s == "ITIP":
        return "%s%s%s%s(21)%s" % (first, d, p[2], p[3], p[4])
    if len(AI[s]) == 2:
        return "%s%s(%s)%s" % (first, d, AI[s][1], p[2])
    return first + d


def _split_digits(scheme, digits, cpl):
    if scheme in ("SGTIN", "LGTIN", "UPUI", "ITIP", "SSCC"):
        return digits[1:1 + cpl], digits[0] + digits[1 + cpl:]
    return digits[:cpl], digits[cpl:]


def parse_element(scheme, text, cpl):
    """Verdict of an element string of ``scheme`` read with a company prefix
    length.  A wrong check digit makes the string malformed but the properties
    do not say whether it is refused: ("any", identity from the digits)."""
    try:
        need(scheme in AI, "no element string")
        first = "(%s)" % AI[scheme][0]
        need(text.startswith(first), "application identifier")
        rest = text[len(first):]
        if scheme == "CPI":
            ref, sep, serial = rest.partition("(8011)")
            need(sep, "application identifier")
            need(6 <= cpl <= 12, "prefix length")
            return ("ok", check(Ident(scheme, (ref[:cpl], ref[cpl:], serial))))
        if scheme in ("GIAI", "GINC"):
            need(6 <= cpl <= 12, "prefix length")
            return ("ok", check(Ident(scheme, (rest[:cpl], rest[cpl:]))))
        if scheme == "GRAI":
            need(rest[:1] == "0", "padding digit")
            rest = rest[1:]
        n = TOTAL[scheme]
        digits, cd, rest = rest[:n], rest[n:n + 1], rest[n + 1:]
        need(len(digits) == n and is_digits(digits), "digits")
        need(len(cd) == 1 and is_digits(cd), "check digit")
        need(6 <= cpl <= 12, "prefix length")
        parts = _split_digits(scheme, digits, cpl)
        if scheme == "ITIP":
            parts += (rest[:2], rest[2:4])
            rest = rest[4:]
        if len(AI[scheme]) == 2:
            second = "(%s)" % AI[scheme][1]
            need(rest.startswith(second), "application identifier")
            parts += (rest[len(second):],)
        elif scheme in ("GRAI", "GDTI", "SGCN"):
            parts += (rest,)
        else:
            need(rest == "", "surplus characters")
        ident = check(Ident(scheme, parts))
        if cd != check_digit(digits):
            return ("any", ident)
        return ("ok", ident)
    except Bad as e:
        return ("bad", str(e))


def parse_any_element(text, cpl):
    """Element strings are told apart by their application identifiers."""
    for s in ELEMENT:
        v = parse_element(s, text, cpl)
        if v[0] != "bad":
            return v
    return ("bad", "no scheme")


# ----------------------------------------------------------- tag coding ---

M = {12: 40, 11: 37, 10: 34, 9: 30, 8: 27, 7: 24, 6: 20}

# coding scheme -> (scheme, header, nominal bits, filter width)
CODING = {
    "sgtin-96": ("SGTIN", 0x30, 96, 3), "sgtin-198": ("SGTIN", 0x36, 198, 3),
    "sscc-96": ("SSCC", 0x31, 96, 3),
    "sgln-96": ("SGLN", 0x32, 96, 3), "sgln-195": ("SGLN", 0x39, 195, 3),
    "grai-96": ("GRAI", 0x33, 96, 3), "grai-170": ("GRAI", 0x37, 170, 3),
    "giai-96": ("GIAI", 0x34, 96, 3), "giai-202": ("GIAI", 0x38, 202, 3),
    "gsrn-96": ("GSRN", 0x2D, 96, 3), "gsrnp-96": ("GSRNP", 0x2E, 96, 3),
    "gdti-96": ("GDTI", 0x2C, 96, 3), "gdti-174": ("GDTI", 0x3E, 174, 3),
    "cpi-96": ("CPI", 0x3C, 96, 3), "cpi-var": ("CPI", 0x3D, None, 3),
    "sgcn-96": ("SGCN", 0x3F, 96, 3),
    "itip-110": ("ITIP", 0x40, 110, 3), "itip-212": ("ITIP", 0x41, 212, 3),
    "gid-96": ("GID", 0x35, 96, 0), "usdod-96": ("USDOD", 0x2F, 96, 4),
    "adi-var": ("ADI", 0x3B, None, 6),
}
BY_HEADER = {h: cs for cs, (_, h, _, _) in CODING.items()}
CODINGS_OF = {s: [cs for cs in CODING if CODING[cs][0] == s] for s in TAGGED}

# bits of company prefix + reference together (partition value excluded)
PAIR = {"sgtin-96": 44, "sgtin-198": 44, "itip-110": 44, "itip-212": 44, "sscc-96": 58, "gsrn-96": 58,
        "gsrnp-96": 58, "sgln-96": 41, "sgln-195": 41, "gdti-96": 41, "gdti-174": 41, "sgcn-96": 41,
        "grai-96": 44, "grai-170": 44, "giai-96": 82, "giai-202": 188, "cpi-96": 51}
SERIAL_BITS = {"sgtin-96": 38, "sgln-96": 41, "grai-96": 38, "gdti-96": 41, "itip-110": 38, "cpi-96": 31}
TEXT_CHARS = {"sgtin-198": 20, "sgln-195": 20, "grai-170": 16, "gdti-174": 17, "itip-212": 20}


# what the named filter values mean; every other value n is called RESERVED_n
FILTER_NAMES = {
    "SGTIN": {"ALL_OTHERS": 0, "POS_ITEM": 1, "FULL_CASE": 2, "INNER_PACK": 4, "UNIT_LOAD": 6, "COMPONENT": 7},
    "SSCC": {"ALL_OTHERS": 0, "FULL_CASE": 2, "UNIT_LOAD": 6},
    "GIAI": {"ALL_OTHERS": 0, "RAIL_VEHICLE": 1},
    "GDTI": {"ALL_OTHERS": 0, "TRAVEL_DOCUMENT": 1},
    "USDOD": {"PALLET": 0, "CASE": 1, "UNIT_PACK": 2},
    "ADI": {"ALL_OTHERS": 0, "ITEM_OTHER": 1, "CARTON": 2, "PALLET": 6, "SEAT_CUSHIONS": 8, "SEAT_COVERS": 9,
            "SEAT_BELTS": 10, "GALLEY": 11, "UNIT_LOAD_DEVICES": 12, "AIRCRAFT_SECURITY_ITEMS": 13, "LIFE_VESTS": 14,
            "OXYGEN_GENERATOR": 15, "ENGINE_COMPONENTS": 16, "AVIONICS": 17, "EXPERIMENTAL_EQUIPMENT": 18,
            "OTHER_EMERGENCY_EQUIPMENT": 19, "OTHER_ROTABLES": 20, "OTHER_REPAIRABLE": 21, "OTHER_CABIN_INTERIOR": 22,
            "OTHER_REPAIR": 23, "PASSENGER_SEATS": 24, "IFE_SYSTEMS": 25, "LOCATION_IDENTIFIER": 56, "DOCUMENTATION": 57,
            "TOOLS": 58, "GROUND_SUPPORT_EQUIPMENT": 59, "OTHER_NON_FLYABLE_EQUIPMENT": 60},
}


def filter_name(scheme, value):
    """The name a client uses for a filter value."""
    for name, v in FILTER_NAMES.get(scheme, {"ALL_OTHERS": 0}).items():
        if v == value:
            return name
    return "RESERVED_%d" % value


def filters(cs):
    return range(1 << CODING[cs][3]) if CODING[cs][3] else [None]


class _Bits:
    """Most significant field first."""

    def __init__(self):
        self.v, self.n = 0, 0

    def put(self, value, width):
        assert 0 <= value < (1 << width), (value, width)
        self.v = (self.v << width) | value
        self.n += width

    def text(self, s, width, pad_to):
        for c in s:
            self.put(ord(c), width)
        left = pad_to - width * len(s)
        assert left >= 0
        self.put(0, left)

    def str(self):
        return bin((1 << self.n) | self.v)[3:]


def _six(b, s):
    for c in s:
        b.put(ord(c) & 0x3F, 6)
    b.put(0, 6)


def small_number(s, limit):
    return is_digits(s) and (s == "0" or s[0] != "0") and int(s) < limit


def fits(ident, cs):
    """Can the coding scheme represent this valid identity?"""
    s, p = ident
    if cs in SERIAL_BITS and cs != "cpi-96":
        return small_number(p[-1], 1 << SERIAL_BITS[cs])
    if cs == "giai-96":
        k = 25 - len(p[0])
        return len(p[1]) <= k and small_number(p[1], 1 << (82 - M[len(p[0])]))
    if cs == "cpi-96":
        return (len(p[1]) <= 15 - len(p[0]) and is_digits(p[1]) and (p[1] == "0" or p[1][0] != "0")
                and int(p[2]) < 1 << 31)
    return True


def encode(ident, cs, filt):
    """Bits of a representable identity, as text."""
    s, p = ident
    scheme, header, nominal, fw = CODING[cs]
    assert scheme == s and fits(ident, cs)
    b = _Bits()
    b.put(header, 8)
    if fw:
        b.put(filt, fw)
    if cs == "gid-96":
        for v, w in zip(p, (28, 24, 36)):
            b.put(int(v), w)
    elif cs == "usdod-96":
        for c in p[0].rjust(6):
            b.put(ord(c), 8)
        b.put(int(p[1]), 36)
    elif cs == "adi-var":
        for c in p[0].rjust(6):
            b.put(ord(c) & 0x3F, 6)
        _six(b, p[1])
        _six(b, p[2])
    else:
        length = len(p[0])
        b.put(12 - length, 3)
        b.put(int(p[0]), M[length])
        if cs == "cpi-var":
            _six(b, p[1])
            b.put(int(p[2]), 40)
        elif cs == "giai-202":
            b.text(p[1], 7, 188 - M[length])
        else:
            b.put(int(p[1]) if p[1] else 0, PAIR[cs] - M[length])
        if s == "ITIP":
            b.put(int(p[2]), 7)
            b.put(int(p[3]), 7)
        if cs in SERIAL_BITS:
            b.put(int(p[-1]), SERIAL_BITS[cs])
        elif cs in TEXT_CHARS:
            b.text(p[-1], 7, 7 * TEXT_CHARS[cs])
        elif cs == "sgcn-96":
            b.put(int("1" + p[2]), 41)
        elif cs in ("sscc-96", "gsrn-96", "gsrnp-96"):
            b.put(0, 24)
    assert nominal is None or b.n == nominal, (cs, b.n)
    return b.str()


class _Reader:
    def __init__(self, bits):
        self.bits, self.i = bits, 0

    def take(self, n):
        if self.i + n > len(self.bits):
            raise Bad("too few bits")
        v = int(self.bits[self.i:self.i + n], 2) if n else 0
        self.i += n
        return v

    def text7(self, n):
        """n bits of seven-bit characters, zero padded."""
        end = self.i + n
        chars = [self.take(7) for _ in range(n // 7)]
        self.take(end - self.i)
        while chars and chars[-1] == 0:
            chars.pop()
        need(0 not in chars, "character after a zero character")
        return "".join(map(chr, chars))

    def text6(self, most):
        out = []
        while True:
            v = self.take(6)
            if v == 0:
                break
            out.append(chr(v if v & 0x20 else v + 64))
        need(len(out) <= most, "too many characters")
        return "".join(out)


def decode(bits):
    """Verdict of tag memory: ("ok", (ident, coding scheme, filter)) ..."""
    try:
        r = _Reader(bits)
        header = r.take(8)
        need(header in BY_HEADER, "unknown header")
        cs = BY_HEADER[header]
        scheme, _, nominal, fw = CODING[cs]
        if nominal:
            need(len(bits) >= nominal, "too few bits")
        filt = r.take(fw) if fw else None
        odd = None
        if cs == "gid-96":
            parts = tuple(str(r.take(w)) for w in (28, 24, 36))
        elif cs == "usdod-96":
            cage = "".join(chr(r.take(8)) for _ in range(6))
            if cage[0] == " ":
                cage = cage[1:]
            parts = (cage, str(r.take(36)))
        elif cs == "adi-var":
            codes = [r.take(6) for _ in range(6)]
            if codes[0] == 0x20:
                codes = codes[1:]
            need(0 not in codes, "zero character inside the cage code")
            cage = "".join(chr(v if v & 0x20 else v + 64) for v in codes)
            parts = (cage, r.text6(32), r.text6(30))
        else:
            pv = r.take(3)
            need(pv <= 6, "partition")
            length = 12 - pv
            prefix = r.take(M[length])
            need(prefix < 10 ** length, "company prefix too large")
            parts = (str(prefix).rjust(length, "0"),)
            if cs == "cpi-var":
                parts += (r.text6(30 - length), str(r.take(40)))
            elif cs == "giai-202":
                parts += (r.text7(188 - M[length]),)
            else:
                v = r.take(PAIR[cs] - M[length])
                if cs == "giai-96":
                    parts += (str(v),)
                elif cs == "cpi-96":
                    need(v < 10 ** (15 - length), "reference too large")
                    parts += (str(v),)
                else:
                    k = TOTAL[scheme] - length
                    if k == 0:
                        if v:
                            odd = "bits set in an empty reference"
                        parts += ("",)
                    else:
                        need(v < 10 ** k, "reference too large")
                        parts += (str(v).rjust(k, "0"),)
            if scheme == "ITIP":
                for _ in range(2):
                    v = r.take(7)
                    need(v < 100, "piece or total too large")
                    parts += (str(v).rjust(2, "0"),)
            if cs in SERIAL_BITS:
                parts += (str(r.take(SERIAL_BITS[cs])),)
            elif cs in TEXT_CHARS:
                parts += (r.text7(7 * TEXT_CHARS[cs]),)
            elif cs == "sgcn-96":
                v = str(r.take(41))
                need(len(v) > 1 and v[0] == "1", "numeric string")
                parts += (v[1:],)
            elif cs in ("sscc-96", "gsrn-96", "gsrnp-96"):
                if r.take(24):
                    odd = "reserved bits set"
        ident = check(Ident(scheme, parts))
        if odd:
            return ("any", odd)
        return ("ok", (ident, cs, filt))
    except Bad as e:
        return ("bad", str(e))
    except Unspecified as e:
        return ("any", str(e))


def tag_uri(ident, cs, filt):
    return "urn:epc:tag:%s:%s%s" % (cs, "" if filt is None else "%d." % filt, body(ident))


def parse_tag_uri(text):
    """Verdict of a tag URI: ("ok", (ident, coding scheme, filter)); a filter
    out of range or an identity the coding scheme cannot hold is unspecified."""
    pre = "urn:epc:tag:"
    try:
        need(text.startswith(pre), "prefix")
        cs, sep, rest = text[len(pre):].partition(":")
        need(sep and cs in CODING, "coding scheme")
        scheme, _, _, fw = CODING[cs]
        filt = None
        if fw:
            filt, sep, rest = rest.partition(".")
            need(sep, "components")
            numeric(filt)
        ident, canonical = parse_body(scheme, rest)
    except Bad as e:
        return ("bad", str(e))
    if not canonical:
        return ("any", ident)
    if filt is not None:
        if len(filt) > 3 or int(filt) >= 1 << fw:
            return ("any", ident)
        filt = int(filt)
    if not fits(ident, cs):
        return ("any", ident)
    return ("ok", (ident, cs, filt))


def hexform(bits):
    bits += "0" * (-len(bits) % 16)
    return "".join("0123456789ABCDEF"[int(bits[i:i + 4], 2)] for i in range(0, len(bits), 4))


def base64form(bits):
    return _b64.b64encode(bytes.fromhex(hexform(bits))).decode()


def unhex(text):
    """Bits of a hexadecimal string or None."""
    if text == "" or any(c not in HEX_S for c in text):
        return None
    return "".join(bin(16 + int(c, 16))[3:] for c in text)


# -------------------------------------------------- GS1 key of a source ---

def idpat_key_verdict(text):
    pre = "urn:epc:idpat:"
    if not text.startswith(pre):
        return ("bad", "prefix")
    as_uri = "urn:epc:id:" + text[len(pre):]
    v = parse_any_uri(as_uri)
    if v[0] == "ok" and v[1].scheme in KEYED:
        return ("ok", v[1])
    if v[0] == "any":
        return v
    return ("bad", "pattern leaves too much open")


def key_verdict(text, cpl):
    """Verdict of a GS1 key source: ("ok", ident) ..."""
    v = parse_any_uri(text)
    if v[0] == "bad" and cpl:
        v = parse_any_element(text, cpl)
    if v[0] == "bad":
        t = parse_tag_uri(text)
        if t[0] != "bad":
            v = ("ok", t[1][0]) if t[0] == "ok" else t
    if v[0] == "bad" and text.startswith("urn:epc:idpat:"):
        v = idpat_key_verdict(text)
    if v[0] == "bad":
        bits = text if text and all(c in "01" for c in text) else None
        if bits is None or bits[:2] not in ("00", "01"):
            bits = unhex(text)
        if bits is not None:
            d = decode(bits)
            if d[0] != "bad":
                v = ("ok", d[1][0]) if d[0] == "ok" else d
    if v[0] == "ok" and v[1].scheme not in KEYED:
        return ("bad", "no GS1 key")
    return v
