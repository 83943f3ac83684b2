#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand after changing the tables below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
MODEL = "assumes the reference model (harness/src/model.rs) states the documented rules; input sizes are bounded by the generators"
T = {
 "C01": ("model-based random testing of both matchers against a reference matcher (soundness)", MODEL),
 "C02": ("model-based random testing of extracted values against the reference matcher", MODEL),
 "C03": ("model-based random testing of both matchers against a reference matcher (completeness)", MODEL),
 "C04": ("model-based random testing of the winning pattern against a reference precedence order", MODEL),
 "C05": ("differential random testing of trie against suffix array", "no model is needed; both sides could be wrong alike, which C01-C04 decide"),
 "C06": ("stateful random testing of add/parse/clone/drop histories against freshly filled matchers", "metamorphic oracle; histories of up to 30 operations on up to 4 matchers"),
 "C07": ("random testing of SET and INT with setter histories against a reference scanner", MODEL),
 "C08": ("random testing of GREEDY against a naive first-occurrence search", MODEL),
 "C09": ("round trip: generated token sequences are written in pattern syntax, compiled and compared", MODEL + "; parser attributes are compared through names, identity hashes and behaviour on probe texts"),
 "C10": ("grammar-mutation fuzzing judged by an independent recogniser", MODEL + "; spellings on which README, grammar and tests disagree are not judged"),
 "C11": ("crash fuzzing with structured and mutated inputs, in a child process", "the oracle is normal return; panics, aborts, stack overflows (8 MiB stack) and hangs count; sizes are bounded"),
 "C12": ("round trip: generated documents are written as JSON, loaded and compared", "assumes the document writer of the harness"),
 "C13": ("differential testing of JSON against YAML renderings of one generated document", "the YAML subset is block and flow collections with plain, single- and double-quoted scalars"),
 "C14": ("schema-fault injection into generated documents", "one fault per document out of the listed classes"),
 "C15": ("fault injection into paths, files and contents", "the I/O faults are those producible in a scratch directory"),
 "C16": ("model-based random testing of strict building against a reference build", MODEL),
 "C17": ("random testing of the expectation check against a reference predicate", MODEL),
 "C18": ("model-based random testing of lenient building with log capture", MODEL + "; the log is observed through the log crate facade"),
 "C19": ("random testing of error values and texts against the data they were made from", "a datum counts as shown verbatim or in quoted form"),
 "C20": ("random testing of identity hashes over pairs of parsers against structural equality", "accidental 64-bit hash collisions are assumed not to occur"),
 "C21": ("random testing of metadata of matches against what was added", "metadata of bounded size"),
 "C22": ("stateful random testing of the sorted vector against a plain vector", "histories of bounded length"),
 "C23": ("random testing of common prefixes against a character-wise definition", "strings of bounded length"),
 "C25": ("random testing of the converter script on generated PatternDB files against a reference conversion", "XML::Twig, Getopt::Long::Descriptive, JSON::MaybeXS and Data::UUID are not installed, so small stand-ins (perl/) take their place; the check assumes that they behave like the originals for what the script uses"),
 "C28": ("stateful random testing of trie nodes against a set of strings", "histories of up to 300 operations on up to 4 nodes"),
 "C29": ("stateful random testing of pattern, test message and match result objects against the parts they are made of", "objects of bounded size"),
 "C30": ("fault injection into the pattern texts of generated documents with log capture", "the log is observed through the log crate facade; a datum counts as shown verbatim or in quoted form"),
 "C31": ("random testing of the number of calls of counting parsers against a linear bound", "the bound is four calls per parser of the added patterns; work other than asking parsers is not counted"),
 "C32": ("grammar-mutation fuzzing; the listed expectations are judged by inserting every terminal with every completion and asking an independent recogniser", MODEL + "; places where a number is too large are not judged"),
 "C33": ("differential random testing of tries filled node by node against tries filled with patterns", "no model is needed; what both ways share is decided by C01-C05"),
 "C34": ("random testing of the nearest literal against a search over all literals", "pattern sets of bounded size; entries are told apart by their addresses"),
 "C35": ("differential random testing of concurrent scripts against the same scripts alone", "schedules are those the operating system produces on eight cores; a race that needs a rarer one can be missed"),
 "C36": ("random testing of unescaping and flattening against independent definitions and a round trip", "texts of bounded length"),
 "C26": ("differential and model-based random testing of compilation with a recording parser factory", MODEL),
 "C27": ("model-based random testing of both matchers with caller-defined parsers", MODEL + "; five kinds of caller-defined parsers"),
 "C24": ("end-to-end random testing of large pattern files against the reference matcher", MODEL),
}
checks = []
for k in sorted(T):
    t, note = T[k]
    checks.append({"property": k, "quick_cmd": "bash check.sh " + k,
                   "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + k,
                   "evidence_file": "evidence/%s.json" % k,
                   "technique": "property-based testing: " + t, "level": "exploration",
                   "level_note": "Every generated case is compared with the oracle, failures are shrunk; no exhaustive claim. " + note[0].upper() + note[1:] + "."})
NA = []
m = {"version": 1, "setup_cmd": "bash check.sh", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo are needed: everything is observed through the public API. Replay a failure with harness/target/release/adbcheck replay <file>."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
