#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md, between the two marker comments, from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.abspath(__file__))
# bugs that the checks of the time missed, and what was changed so that they are caught
MISSED = {
    'same-start': 'pieces of one text',
    'short-random': '400000 random UUIDs at a time',
    'sixteen-mebibytes': 'files of up to 37 MB',
    'mebibyte-run': 'texts of more than a mebibyte',
    'mebibyte-search': 'texts of more than a mebibyte',
    'mebibyte-message': 'texts of more than a mebibyte',
    'mebibyte-prefix': 'texts of more than a mebibyte',
    'mebibyte-expectation': 'a value of more than a mebibyte expected with another end',
    'mebibyte-value': 'texts of more than a mebibyte',
    'one-hole': 'wide character sets with holes',
    'long-set-cut': 'wide character sets',
    'kmp-border': 'end strings of two letters',
    "json-rest-ignored": "documents of a single pattern, with the fault of a file or something before or behind them",
    "clone-sorts": "matchers that are replaced by a clone while they are filled",
    "pattern-trimmed": "patterns compiled as part of a JSON document",
    "dropped-clone-tags": "empty literals among the tokens of a pattern",
    "lenient-stops-tests": "a single failing test message among up to 150",
    "address-memo": "matchers that follow one another in the same place, messages in one reused buffer",
    "bom-everywhere": "every character from the blank on written as it is inside quoted YAML scalars",
    "debug-build-trim": "match results given several values for one name, cut from one message",
    'steps-up': 'relative and otherwise unusual paths',
    'name-at-end': 'the place reported is compared with the furthest one by the recogniser',
    "comment-keys": "unknown keys made from typical spellings (`_comment`, `x-...`)",
    "yaml-tabs": "raw tabs in quoted YAML texts",
    "log-once": "repeated identical failures in one build",
    "limits-checked": "the log is captured for limits that exclude each other",
    "case-merge": "patterns that differ in the case of a letter only",
    "deep-clone-depth": "chains of more than a thousand nodes",
    "same-uuid-kept": "the same pattern object added again, under the same uuid",
    "yaml-comments": "quoted texts over several lines, `#` in texts",
    "any-case-json": "extensions in other case",
    "crowded-result": "matches with many named values",
    "yaml-front-matter": "comments, directives and blank lines before `---`, document ends",
    "unique-uuids": "files whose patterns share a uuid",
    "low-half-hash": "identities of caller-defined parsers that differ in a few bits only",
    "forty-expectations": "test messages with up to 130 expected values and tags",
    "hot-path": "bursts of up to a thousand messages between the operations of a history",
    "tab-comma": "characters that a lax reader takes for the right ones",
    "first-limit-wins": "limits written repeatedly on one parser",
    "clone-shares-name": "empty literals given to a builder",
    "own-name-cached": "caller-defined parsers that all look alike in debug output",
    "trimmed-message": "the message in the text of the error for a match by another pattern",
}
MISSED.update(json.load(open(os.path.join(root, "seed_notes.json"))) if os.path.exists(os.path.join(root, "seed_notes.json")) else {})
rows = []
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", s, "meta.json")))
    rows.append((m["property"], s, m["needs"], MISSED.get(s)))
rows.sort()
out = ["| caught by | planted bug | needs | at first |", "|---|---|---|---|"]
for p, s, n, x in rows:
    out.append("| %s | %s | %s | %s |" % (p, s, n.replace("|", "\\|"), "missed; added: " + x if x else "caught"))
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(<!-- seeds -->\n).*?(<!-- end of seeds -->)", lambda m: m.group(1) + "\n".join(out) + "\n" + m.group(2), t, flags=re.S)
open(p, "w").write(t)
print(len(rows), "planted bugs")
