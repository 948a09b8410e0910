"""Regenerates /verif/properties.jsonl (run by hand, not by any check)."""
import json, os

S = "epcpy/epc_schemes/"
TAGGED = ["adi", "cpi", "gdti", "giai", "gid", "grai", "gsrn", "gsrnp", "itip", "sgcn", "sgln", "sgtin", "sscc", "usdod"]
ELEM = ["cpi", "gdti", "giai", "ginc", "grai", "gsin", "gsrn", "gsrnp", "itip", "lgtin", "pgln", "sgcn", "sgln", "sgtin", "sscc", "upui"]
KEYED = [e for e in ELEM if e not in ("cpi", "itip", "upui")]
COMMON, PARS, RX, BASE = "epcpy/utils/common.py", "epcpy/utils/parsers.py", "epcpy/utils/regex.py", S + "base_scheme.py"
f = lambda names: [S + n + ".py" for n in names]
allf = f(sorted(set(TAGGED + ELEM + ["bic", "imovn"])))

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Tag encodings decode back to the same identity",
 "For every valid EPC pure identity, every coding scheme of its scheme that can hold it and every filter value, decoding the binary string, hexadecimal string, base64 string or tag URI that the library produced yields an object of the same scheme with exactly the original pure identity URI. This holds whether the scheme's own class or a generic parser does the decoding.",
 ["inputs", "configurations"], "all 14 tag-encodable schemes x all valid identities x all coding schemes that fit x all filter values x {binary, hex, base64, tag URI} x {scheme class, generic parser}",
 "The tests decode about 70 hand-picked vectors; most never leave one prefix length per scheme, and never end an ADI part number in a character whose code ends in a zero bit, start a serial with an escaped character, etc.",
 f(TAGGED) + [COMMON, BASE, PARS],
 [("binary / from_binary pairs", S + "*.py"), ("string, six-bit, partition-table and integer codecs", COMMON), ("hex/base64 wrappers", BASE)],
 ["return value of from_binary / from_hex / from_base64 / from_tag_uri and the *_to_tag_encodable parsers"])

prop("C02", "Tag bits follow the GS1 Tag Data Standard layout",
 "For every valid identity, fitting coding scheme and filter value, the binary string is bit for bit the one the GS1 EPC Tag Data Standard prescribes: 8-bit header, filter, partition value, company prefix and reference widths for the prefix length, then the serial in the encoding of that coding scheme, then the prescribed padding. Tags written with the library are therefore readable by any other conforming reader.",
 ["inputs", "configurations"], "all tag-encodable schemes x prefix lengths 6-12 x coding schemes x filter values x all field contents",
 "A self-consistent encoder/decoder pair passes any round-trip test while producing non-standard bits; tests pin only a few vectors and leave most partition rows of most schemes unsampled.",
 f(TAGGED) + [COMMON],
 [("partition tables", S + "*.py"), ("encode_partition_table, encode_string, encode_string_six_bits, encode_numeric_string, encode_fixed_width_integer", COMMON), ("BinaryHeader values", S + "*.py")],
 ["return value of binary()"])

prop("C03", "Identities a coding scheme cannot hold are refused, never altered",
 "For every valid identity and every coding scheme of its scheme, the tag URI, binary, hexadecimal and base64 conversions either all succeed or all raise ConvertException, and they fail exactly when the standard says that coding scheme cannot represent the identity (non-numeric, zero-padded or too large serials and references). A fixed-length coding scheme's binary string always has exactly its nominal number of bits, so nothing is ever truncated, overflowed or renumbered silently.",
 ["inputs", "configurations"], "all tag-encodable schemes x valid identities, in particular those at and just beyond each field's capacity x coding schemes",
 "Tests only ask tag_uri about a handful of unrepresentable serials and never ask the binary, hex or base64 conversions at all.",
 f(TAGGED) + [COMMON, BASE],
 [("representability conditions in tag_uri", S + "*.py"), ("the same check ahead of binary()", S + "*.py"), ("capacity checks in the numeric codecs", COMMON)],
 ["outcome and length of tag_uri(), binary(), hex(), base64()"])

prop("C04", "Coding scheme and filter value are carried faithfully in their own field",
 "For every identity, the tag URI is 'urn:epc:tag:' followed by the requested coding scheme, the requested filter value (where the scheme has one) and the identity's own components unchanged, and the binary form carries that same coding scheme header and that same filter value. Choosing a different filter value changes nothing but the filter field, and never the identity that is read back.",
 ["inputs", "configurations"], "all tag-encodable schemes x coding schemes x every filter value (8, 16 or 64 of them) x identities",
 "Tests touch one or two filter values per scheme and never vary the filter while holding the identity fixed.",
 f(TAGGED) + [BASE],
 [("tag_uri formatting", S + "*.py"), ("filter bits in binary()", S + "*.py"), ("from_tag_uri", BASE)],
 ["return values of tag_uri() and binary()"])

prop("C05", "Hex and base64 forms are the same bits as the binary form",
 "For every encodable identity the hexadecimal string is the upper-case rendering of the binary string zero-extended on the right to a multiple of 16 bits with no digit lost, and the base64 string is the standard encoding of those same bytes, whether the coding scheme and filter are passed by name or by position. Decoding a bit string, its hexadecimal form in either letter case, or its base64 form with or without padding always has the same outcome.",
 ["inputs"], "all tag-encodable identities and arbitrary tag memory contents x textual renderings",
 "Tests compare hex for fixed vectors, derive the base64 input with the library's own helper and never call base64(), lower case or unpadded variants.",
 [BASE, COMMON, PARS],
 [("hex, base64, from_hex, from_base64", BASE), ("hex_to_binary, base64_to_hex, hex_to_base64", COMMON)],
 ["return values of hex(), base64(), from_hex, from_base64, hex/base64_to_tag_encodable"])

prop("C06", "Decoding arbitrary tag memory is sound",
 "Whatever bits a tag holds, decoding either raises ConvertException or returns exactly the identity those bits denote under the standard, which is itself a valid identity and encodes under the tag's own coding scheme and filter value back to bits that decode to it again. Unknown headers, undefined partition values, company prefixes or references too large for their digit count, malformed numeric serials, characters outside the scheme's alphabet and over-long fields are always refused.",
 ["inputs"], "all bit strings: for every header, all partition values, field values in and out of range, bit-flipped valid tags and random memory",
 "Tests decode only tags that the test author encoded correctly plus one unknown header; hostile or corrupted tag memory is never sampled.",
 f(TAGGED) + [COMMON, PARS],
 [("decode_partition_table range checks, decode_string*, decode_numeric_string, decode_fixed_width_integer, parse_header_and_truncate_binary", COMMON), ("URI validation of the decoded text by the class constructor", S + "*.py")],
 ["outcome of from_binary and binary_to_tag_encodable"])

prop("C07", "Surplus tag memory is ignored and missing tag memory is refused",
 "Appending any bits after a complete fixed-length tag encoding, or zero bits after a complete variable-length one, never changes the identity that is decoded. Removing bits from the end of an encoding never makes it decode to a different identity: it either still decodes to the same one (only padding was lost) or raises ConvertException.",
 ["inputs", "fault_sequences"], "all encodings x all truncation points x surplus lengths and contents",
 "Tests only feed complete hex strings padded by the library itself; no truncated read is ever tried on a variable-length scheme.",
 f(["adi", "cpi"]) + [COMMON, BASE],
 [("size check and truncation in parse_header_and_truncate_binary", COMMON), ("terminator handling of the variable-length schemes", S + "adi.py, cpi.py")],
 ["outcome of from_binary / from_hex on cut or extended memory"])

prop("C08", "GS1 element strings carry the right AIs, digits and check digit",
 "For every valid identity of a scheme with a GS1 element string, the element string consists of the scheme's application identifiers in parentheses, the company prefix and reference digits in GS1 order (indicator or extension digit first where the scheme has one), the correct modulo-10 check digit where the standard defines one, and the serial with every URI escape replaced by the plain character.",
 ["inputs"], "all 16 element-string schemes x valid identities (prefix lengths, digits, every allowed serial character)",
 "Tests compare about 60 fixed strings; a check digit or an unescape that is wrong for particular digits, lengths or characters passes them.",
 f(ELEM) + [COMMON],
 [("gs1_element_string", S + "*.py"), ("calculate_checksum, replace_uri_escapes", COMMON), ("GSIN's own checksum", S + "gsin.py")],
 ["return value of gs1_element_string() and epc_pure_identity_to_gs1_element_string"])

prop("C09", "GS1 element strings convert back to the identity they denote",
 "For every valid identity, reading its GS1 element string with its own company prefix length (6 to 12) restores exactly that identity, and every well-formed element string with a correct check digit read with any admissible prefix length yields the identity whose element string it is, whatever characters its serial contains. Malformed element strings and prefix lengths for which no such identity exists raise ConvertException; building an SGTIN from a GTIN plus serial follows the same digits.",
 ["inputs"], "all element-string schemes x identities x prefix lengths (0 upward, admissible ones 6-12) x well-formed and malformed element strings",
 "Tests read back only their own few strings with the one matching prefix length; serials that look like another application identifier, e.g. '(10)', are never tried, nor are malformed strings.",
 f(ELEM) + [COMMON, RX, PARS],
 [("from_gs1_element_string, from_gtin_plus_serial", S + "*.py"), ("revert_uri_escapes", COMMON), ("element string patterns", RX)],
 ["outcome of from_gs1_element_string, from_gtin_plus_serial and element strings passed to get_gs1_key"])

prop("C10", "GS1 keys carry the right digits and check digit",
 "For every valid identity of a GS1-keyed scheme, the GS1 key is the standard's key for it: the digits in GS1 order with the correct check digit (and, for GDTI, GRAI and SGCN, the serial; for GIAI and GINC, the plain reference). A GTIN-8, -12 or -13 is returned exactly when the 14-digit GTIN starts with the corresponding zeros, is then its trailing digits, and otherwise ConvertException is raised.",
 ["inputs"], "all 13 keyed schemes x valid identities; all GTIN types for SGTIN and LGTIN",
 "Tests compare fixed keys; check digits are only exercised on a few dozen digit strings and GTIN shortening on five identities.",
 f(KEYED) + [COMMON],
 [("gs1_key, gtin", S + "*.py"), ("calculate_checksum", COMMON)],
 ["return value of gs1_key(), gtin(), epc_pure_identity_to_gs1_key"])

prop("C11", "Every valid pure identity URI is accepted and kept verbatim",
 "Every pure identity URI that the standard's grammar and length limits allow for one of the 21 schemes is accepted by that scheme's class and by the generic pure-identity parser, and the resulting object reports exactly that URI. Length limits count characters after escape sequences are resolved.",
 ["inputs"], "all valid URIs of the 21 schemes: all prefix/reference splits, all admissible serial lengths, every allowed character and escape in every position",
 "Tests accept some 90 URIs; valid ones at maximum length with escapes, or with an escape or colon in an unusual position, are not among them.",
 allf + [RX, COMMON, PARS],
 [("URI patterns", RX), ("length checks in the constructors", S + "*.py"), ("verify_gs3a3_component", COMMON)],
 ["outcome of the constructors, from_epc_uri and epc_pure_identity_to_scheme; attribute epc_uri"])

prop("C12", "Malformed pure identity URIs are rejected",
 "A string that is not a valid pure identity URI of a scheme is never accepted by that scheme's class nor by the generic pure-identity parsers: wrong scheme or prefix, wrong number or length of components, company prefixes outside 6 to 12 digits, wrong total digit count, non-ASCII digits, characters outside the alphabet, incomplete escapes, out-of-range numbers, or leading or trailing garbage all raise ConvertException.",
 ["inputs"], "all strings, in particular one-edit neighbours of valid URIs, for each of the 21 classes and the generic parsers",
 "Tests reject roughly 80 hand-written strings; each length or alphabet check has boundaries and combinations (e.g. components whose lengths compensate) that none of them samples.",
 allf + [RX, COMMON, PARS],
 [("fullmatch against URI patterns", RX), ("length and range checks in the constructors", S + "*.py"), ("verify_gs3a3_component", COMMON)],
 ["outcome of the constructors, from_epc_uri and epc_pure_identity_to_scheme"])

prop("C13", "Generic parsers choose the right scheme and agree with its class",
 "For every input string each generic parser returns an object of the one scheme the input belongs to, identical in class and pure identity to what that scheme's own constructor or decoder returns, and raises ConvertException when the scheme's own code does. The parsers that ask for a GS1 element, a GS1 key or a tag-encodable scheme return an object only for schemes with that capability and raise ConvertException for the others.",
 ["inputs"], "all generic parsers x valid and invalid representations of all 21 schemes",
 "Tests run each parser over one vector per scheme and compare with equality on the URI only, so a wrong class or wrong capability for other inputs goes unseen.",
 [PARS, S + "__init__.py", BASE],
 [("header, identifier and element-string dispatch tables", PARS), ("isinstance capability checks", PARS)],
 ["outcome, class and epc_uri of each parser result versus the scheme class"],
 [{"name": "dispatch tables", "meaning": "header / identifier / element-string pattern to scheme class", "where": PARS}])

prop("C14", "The GS1 key does not depend on the representation it is asked from",
 "For every GS1-keyed identity, asking for the GS1 key of its pure identity URI, any of its tag URIs, its element string (with the company prefix length), its fully specified id pattern, its binary strings or its hexadecimal strings gives the same key as the identity's own key method, including requested GTIN lengths. An id pattern that leaves only the serial or individual reference of an SGTIN, SGLN, GRAI, GDTI, GIAI or GINC open gives the key with that part left open, patterns that leave more open raise ConvertException, and so do sources without a GS1 key.",
 ["inputs"], "all 13 keyed schemes x identities x six source representations x coding schemes and filters; all id-pattern shapes",
 "Tests query one vector per scheme and representation.",
 [PARS, RX] + f(KEYED),
 [("get_gs1_key source detection", PARS), ("id pattern handling", PARS), ("idpat patterns", RX)],
 ["outcome of get_gs1_key"])

prop("C15", "Invalid input only ever raises ConvertException",
 "Whatever string is handed to a constructor, a from-representation class method or a generic parser, the call either returns a valid scheme object (or key, or element string) or raises ConvertException; no other exception type escapes. The same holds for every conversion requested on an object that was successfully created, for any coding scheme and filter value of its scheme.",
 ["inputs"], "all strings (grammar-near, truncated, wrong alphabet, empty, very long, non-ASCII) x all entry points; all objects x all conversions",
 "Tests assert ConvertException for selected invalid URIs only; decoders and generic parsers are tried on about ten invalid inputs in all.",
 allf + [COMMON, PARS, BASE, RX],
 [("ConvertException raised at each validation", COMMON), ("input checks in parsers", PARS)],
 ["exception type at every public entry point"])

prop("C16", "Conversions are pure: results do not depend on earlier calls",
 "The result of every conversion, decoding or parse depends only on its arguments and on the identity of the object it is called on: repeating it, interleaving it with any other calls on the same or other objects, including calls that fail, and asking for other coding schemes, filter values or GTIN types in between never changes it. No call changes an object's pure identity.",
 ["histories"], "all sequences of public calls over shared objects, thousands of calls long, with failing calls interleaved",
 "Each test builds a fresh object and makes one call on it, so state carried from one call to the next is never observed.",
 [BASE, COMMON, PARS] + f(TAGGED),
 [("objects hold only components parsed from the URI", S + "*.py"), ("module-level tables are never written after import", PARS)],
 ["every public call in a recorded history versus a fresh evaluation and the reference model"],
 [{"name": "instance attributes", "meaning": "components parsed at construction; slots for cached representations", "where": BASE}])

prop("C17", "Concurrent use gives the results of sequential use",
 "When several threads use the library at the same time, on separate objects or on the same object, every call returns or raises what it would have if it had run alone.",
 ["schedules"], "all interleavings of two to four threads running public calls over shared and unshared objects",
 "The test suite is single-threaded.",
 [BASE, COMMON, PARS] + f(TAGGED),
 [("no shared mutable state is used during a conversion", COMMON)],
 ["per-thread call results under seeded line-level schedules versus the sequential results"])

prop("C18", "Distinct identities never collide and equality is identity equality",
 "Two objects compare equal exactly when they have the same pure identity URI, however each was created, and an object never equals something that is not an EPC object. Distinct identities never produce the same tag URI, nor the same bits under any coding scheme and filter, nor the same element string at the same company prefix length.",
 ["inputs", "histories"], "all pairs of identities observed across all schemes, close neighbours in particular",
 "Tests compare an object only with its expected self; pairs of different identities are never compared.",
 [BASE, COMMON] + f(TAGGED),
 [("__eq__", BASE), ("injective codecs", COMMON)],
 ["== / != between observed objects; collision tables over all emitted representations"])

prop("C19", "Every permitted character survives every representation",
 "Each of the 82 characters allowed in GS1 alphanumeric fields (and each character of the component/part and aircraft-part alphabets) can stand at any position and next to any other character in a serial, lot, extension or reference, and it appears escaped exactly where the URI syntax demands it, plain in element strings and keys, with its own code in the tag bits, and unchanged after converting there and back. Text that merely looks like an escape sequence, an application identifier or a URI separator is treated as plain content.",
 ["inputs"], "all alphanumeric fields x all characters x positions x adjacent pairs x field lengths",
 "Tests contain only a few of the 82 characters, at fixed positions; '?' , '<', '>' and '\"' barely occur.",
 [COMMON, RX] + f(["sgtin", "sgln", "grai", "giai", "gdti", "cpi", "ginc", "itip", "upui", "lgtin", "adi"]),
 [("replace_uri_escapes, revert_uri_escapes, encode_string, decode_string, six-bit codecs, verify_gs3a3_component", COMMON), ("GS3A3 patterns", RX)],
 ["URIs, element strings, keys and bits for each character placement"])

prop("C20", "Parsing and converting hostile text takes bounded time",
 "No input string makes a constructor, decoder or generic parser take more than time roughly quadratic in its length: a few thousand hostile characters are accepted or refused within seconds, never minutes.",
 ["inputs"], "long repetitive and near-miss strings (nested escapes, digit runs, separators, wildcard patterns, bit strings) x all entry points",
 "Tests use short strings only; catastrophic pattern backtracking shows only on long near-misses.",
 [RX, COMMON, PARS],
 [("non-ambiguous patterns", RX)],
 ["CPU time per call against a generous ceiling in a separate process"])

prop("C21", "Tag URIs are read soundly",
 "Reading a tag URI (from_tag_uri of a class, or tag_uri_to_tag_encodable) yields exactly the identity written after the filter value, in the scheme named by its coding scheme, and refuses with a ConvertException every string that is not a tag URI: a wrong prefix or unknown coding scheme, a tag URI of another scheme given to a class, a missing or non-numeric filter (GID has none), components that are missing, surplus, of wrong length or with characters their scheme does not permit, and any text before or after. Whether the filter value is in range and whether the named coding scheme could hold the identity may or may not be checked.",
 ["inputs"], "all coding schemes x valid tag URIs and near misses: every deletion, every ASCII character at the filter and in the head, tails, heads and bodies of other schemes, damaged components",
 "Tests read a few valid tag URIs per scheme and one or two malformed ones, never text behind a valid URI or another scheme's body.",
 [BASE, PARS, RX] + f(TAGGED),
 [("from_tag_uri anchors the pattern at both ends", BASE), ("TAG_URI patterns", RX), ("class of a tag URI chosen from its coding scheme", PARS)],
 ["objects returned or exceptions raised by from_tag_uri and tag_uri_to_tag_encodable for each string"])

prop("C22", "Outcomes do not depend on the process they happen in",
 "What a call returns or raises depends on its arguments alone: it is the same in every process and thread, whatever the string hash seed, interpreter options (-O, -OO, -I, development mode), locale, text encoding mode, time zone, clock, random seed, working directory, command line, environment variables, limits on integer digits, standard streams, garbage-collector, decimal and logging settings, trace functions, depth of the call stack, user and other modules loaded.",
 ["configurations", "inputs"], "seeded call plans over all schemes and operations x some forty ways to run the process",
 "The test suite runs in one process configuration; dependence on hash order, stripped assertions or the environment cannot show there.",
 ["epcpy/__init__.py", BASE, COMMON, PARS, RX] + allf,
 [("validation raises instead of asserting", COMMON), ("lookup tables are ordered lists and dicts, never sets", PARS)],
 ["outcomes of the same call plan in a plain process and in each changed process"])

prop("C23", "Calls do nothing but return",
 "Importing the library and calling any public operation has no effect besides the returned object or raised exception: nothing is written to standard output or error, no file is opened for writing or removed, no process, thread or connection is started, and no process-wide setting changes (environment, working directory, locale, recursion and integer limits, decimal context, random state, warning filters, module search path, signal handlers, garbage collector, trace hooks, standard modules).",
 ["inputs", "histories"], "every public operation, on valid and invalid input, on first and later use, and the import itself",
 "Tests look at return values only; a stray print, a global setting or a leaked file handle goes unnoticed.",
 ["epcpy/__init__.py", BASE, COMMON, PARS] + allf,
 [("pure functions of their arguments", COMMON)],
 ["interpreter audit events, output and process-wide state before and after blocks of calls"])

prop("C24", "Repeating calls does not accumulate memory",
 "Making the same calls over and over, successful or failing, on new objects or old ones, does not make the process hold more and more memory: after a warm-up the memory held is the same however many times the calls are repeated.",
 ["histories"], "call plans over all schemes and operations, repeated tens to thousands of times",
 "Tests make each call once; growth per call is invisible there.",
 ["epcpy/__init__.py", BASE, COMMON, PARS] + allf,
 [("no module-level container is written by a conversion", COMMON)],
 ["bytes held by Python objects before and after rounds of repeated calls"])

prop("C25", "Copies of an object are interchangeable with it",
 "Copying or deep-copying an object, or pickling it (protocol 2 or later) and unpickling it in the same or another process, before or after it was used, yields an object of the same class with the same pure identity URI that compares equal to the original and gives the same result for every conversion, and leaves the original unchanged. Coding schemes, filter values and GTIN types come back as the same members, and a refusal comes back as a ConvertException with the same message.",
 ["inputs", "histories"], "identities of all schemes x ways of copying x use before and after, also copies of copies and objects unpickled by a process that has not imported the library",
 "Tests never copy or pickle an object.",
 [BASE, COMMON] + allf,
 [("objects hold nothing but strings", BASE), ("ConvertException keeps its message", COMMON)],
 ["the copy's class, URI, comparison with the original and conversions"])

prop("C26", "Reading through a user's subclass gives objects of that subclass",
 "When a program derives its own class from a scheme class, the constructor and every from-representation class method called on the derived class accept and refuse exactly what the scheme class does and return an object of the derived class with the identity that was read. Such objects convert like, and compare equal to, objects of the scheme class with the same pure identity URI.",
 ["inputs"], "all schemes x kinds of subclass (plain, own constructor, second level, mixin, slots, equal names, abstract) x all readings, valid and damaged",
 "Tests use the scheme classes themselves only.",
 [BASE] + allf,
 [("class methods build cls, not a fixed class", BASE)],
 ["class, identity, conversions and comparisons of objects read through subclasses"])

prop("C27", "Interrupted calls pass the interruption on and leave nothing behind",
 "When a call is interrupted (Ctrl-C, or a timeout raised by a signal handler) at any point, also during the first use of a class or function in a process, the interruption reaches the caller as it is. Afterwards every call, including the same one again on the same object, gives the result it gives in a process where nothing was interrupted, and no object's identity has changed.",
 ["fault_sequences", "histories"], "every point of a call at which the interpreter delivers interruptions x first and later uses x all conversions of all schemes",
 "Tests never interrupt a call.",
 [BASE, COMMON, PARS] + allf,
 [("no shared state is changed in steps", BASE), ("only specific exceptions are caught", COMMON)],
 ["outcome of interrupted calls and of the calls after them"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(p) + "\n")
