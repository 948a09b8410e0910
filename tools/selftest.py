"""Checks the reference model against worked examples published with the GS1
EPC Tag Data Standard and against itself.  Does not touch the library."""
import os, random, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from epcmon import gen, spec

TAGS = [
    ("urn:epc:tag:sgtin-96:3.0614141.812345.6789", "3074257BF7194E4000001A85"),
    ("urn:epc:tag:sgtin-198:3.0614141.712345.32a%2Fb", "3674257BF6B7A659B2C2BF100000000000000000000000000000"),
    ("urn:epc:tag:sscc-96:3.0614141.1234567890", "3174257BF4499602D2000000"),
    ("urn:epc:tag:sgln-96:3.0614141.12345.400", "3274257BF460720000000190"),
    ("urn:epc:tag:sgln-195:3.0614141.12345.32a%2Fb", "3974257BF46072CD9615F8800000000000000000000000000000"[:52]),
    ("urn:epc:tag:grai-96:3.0614141.12345.400", "3374257BF40C0E4000000190"),
    ("urn:epc:tag:giai-96:3.0614141.5678", "3474257BF40000000000162E"),
    ("urn:epc:tag:gsrn-96:3.0614141.1234567890", "2D74257BF4499602D2000000"),
    ("urn:epc:tag:gsrnp-96:3.0614141.1234567890", "2E74257BF4499602D2000000"),
    ("urn:epc:tag:gdti-96:3.0614141.12345.400", "2C74257BF460720000000190"),
    ("urn:epc:tag:cpi-96:3.0614141.98765.12345", "3C74257BF400C0E680003039"),
    ("urn:epc:tag:cpi-var:3.0614141.5PQ7%2FZ43.12345", "3D74257BF75411DEF6B4CC00000003039000"),
    ("urn:epc:tag:sgcn-96:3.4012345.67890.04711", "3F74F4E4E612640000019907"),
    ("urn:epc:tag:gid-96:31415.271828.1414", "350007AB70425D4000000586"),
    ("urn:epc:tag:usdod-96:3.CAGEY.5678", "2F320434147455900000162E"),
    ("urn:epc:tag:adi-var:3.35962.PQ7VZ4.M37GXB92", "3B0E0CF5E76C9047759AD00373DC7602E72000000"[:40]),
]
ELEMENTS = [
    ("urn:epc:id:sgtin:0614141.712345.32a%2Fb", "(01)70614141123451(21)32a/b"),
    ("urn:epc:id:sscc:0614141.1234567890", "(00)106141412345678908"),
    ("urn:epc:id:sgln:0614141.12345.32a%2Fb", "(414)0614141123452(254)32a/b"),
    ("urn:epc:id:grai:0614141.12345.32a%2Fb", "(8003)0061414112345232a/b"),
    ("urn:epc:id:giai:0614141.32a%2Fb", "(8004)061414132a/b"),
    ("urn:epc:id:gsrn:0614141.1234567890", "(8018)061414112345678902"),
    ("urn:epc:id:gdti:0614141.12345.006847", "(253)0614141123452006847"),
    ("urn:epc:id:cpi:0614141.5PQ7%2FZ43.12345", "(8010)06141415PQ7/Z43(8011)12345"),
    ("urn:epc:id:sgcn:4012345.67890.04711", "(255)401234567890104711"),
    ("urn:epc:id:ginc:0614141.xyz47%2F11", "(401)0614141xyz47/11"),
    ("urn:epc:id:gsin:0614141.123456789", "(402)06141411234567890"),
    ("urn:epc:id:itip:4012345.012345.01.02.987", "(8006)040123451234560102(21)987"),
    ("urn:epc:id:upui:1234567.089456.51qIgY)%3C%26Jp3*j7'SDB", "(01)01234567894560(235)51qIgY)<&Jp3*j7'SDB"),
    ("urn:epc:id:pgln:1234567.89012", "(417)1234567890128"),
    ("urn:epc:class:lgtin:4012345.012345.998877", "(01)04012345123456(10)998877"),
]
bad = 0
for t, h in TAGS:
    v = spec.parse_tag_uri(t)
    assert v[0] == "ok", (t, v)
    b = spec.encode(*v[1])
    if spec.hexform(b) != h:
        bad += 1
        print("MODEL", t, spec.hexform(b), h)
    assert spec.decode(b) == v
for u, e in ELEMENTS:
    v = spec.parse_any_uri(u)
    assert v[0] == "ok", (u, v)
    if spec.element(v[1]) != e:
        bad += 1
        print("MODEL", u, spec.element(v[1]), e)
    assert spec.parse_any_element(e, len(v[1].parts[0])) == v
assert not bad
g = gen.Gen(random.Random(int(os.environ.get("VERIF_SEED", "1"))))
n = 0
for s in spec.SCHEMES:
    for _ in range(300):
        x = spec.check(g.ident(s))
        assert spec.parse_any_uri(spec.uri(x)) == ("ok", x)
        if s in spec.ELEMENT:
            assert spec.parse_element(s, spec.element(x), len(x.parts[0])) == ("ok", x)
        for cs in spec.CODINGS_OF.get(s, ()):
            if spec.fits(x, cs):
                f = g.r.choice(list(spec.filters(cs)))
                assert spec.decode(spec.encode(x, cs, f)) == ("ok", (x, cs, f))
                assert spec.parse_tag_uri(spec.tag_uri(x, cs, f)) == ("ok", (x, cs, f))
                n += 1
print("model agrees with %d published examples and with itself on %d encodings" % (len(TAGS) + len(ELEMENTS), n))
