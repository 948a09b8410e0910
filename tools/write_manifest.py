"""Regenerates MANIFEST.json from the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from epcmon import checks

NOTES = {
 "C01": "round trips of the library's own encodings through every decoder, over swept and seeded identities, all codings, sampled filters",
 "C02": "bit-for-bit comparison of recorded binary() results with an independent bit packer",
 "C03": "all four conversions of every identity under every coding scheme, judged against the model's capacity rules; identities pushed onto field limits",
 "C04": "filter sweeps per identity and coding: header and filter field inspected, remaining bits compared across filters",
 "C05": "hex/base64 compared with the recorded binary(); the same memory decoded through every textual form",
 "C06": "structured, perturbed and random tag memories against an independent decoder, followed by re-encoding",
 "C07": "own encodings extended and truncated, identity compared",
 "C08": "element strings compared with the model",
 "C09": "element strings read with own and foreign prefix lengths, malformed variants, GTIN plus serial, against an independent parser",
 "C10": "keys and GTIN types compared with the model",
 "C11": "valid URIs from the model's grammar through constructors and generic parser",
 "C12": "near-miss URIs against the model's grammar",
 "C13": "generic parsers compared call by call with every class's own parser, plus capability model",
 "C14": "get_gs1_key over all representations compared with the identity's own key; id patterns against the model",
 "C15": "exception monitor over hostile, misdirected and mutated input and over all conversions of every object obtained",
 "C16": "call histories replayed in other orders, compared with earlier outcomes and with a process that made no other call",
 "C17": "line- and opcode-level controlled preemption of concurrent calls plus free-running threads, outcomes compared with sequential ones",
 "C18": "collision tables over recorded representations of neighbouring identities; equality matrix",
 "C19": "every character, position and adjacent pair through every representation, against the model",
 "C21": "valid and damaged tag URIs through every class and the generic parser, against the model's grammar",
 "C22": "seeded call plans executed in child interpreters with other options, environment, clock, locale, thread, hash seed; outcomes compared",
 "C23": "audit-event, output and process-state monitor around blocks of calls and around the import",
 "C24": "allocated-memory monitor over repeated call plans",
 "C25": "copies and pickles of objects, here and in another interpreter, compared with the original and judged by the model",
 "C26": "readings through dynamically made subclasses of every scheme class, judged by the model",
 "C27": "interruptions injected at every point where the interpreter delivers them, in fresh and used processes; later calls compared with undisturbed ones",
 "C20": "CPU time of single calls on long hostile strings, ceiling and growth curve",
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
cmd = "/opt/venv/bin/python -B -W ignore /verif/run.py %s"
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B /verif/tools/selftest.py",
     "checks": [], "not_applicable": [],
     "notes": "Runtime monitoring at the public API; no hooks in /repo. VERIF_TIER selects the amount of work, VERIF_SEED every random choice."}
for p in props:
    assert p in checks.RUN, p
    m["checks"].append({"property": p, "quick_cmd": cmd % p, "thorough_cmd": cmd % p, "evidence_file": "/verif/evidence/%s.json" % p,
                        "technique": "runtime monitoring: recorded calls judged by a reference-model / history monitor",
                        "level": "exploration", "level_note": "held on the executions of the run: " + NOTES[p]})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
