#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and from properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("generated corpora and queries, differential against a reference matcher", "bounded by the generators (terms up to 300 nodes, depth 180, arity 300)"),
 "C02": ("generated corpora; pages compared with slices of the full answer (metamorphic)", "sizes and offsets up to 2^31-1"),
 "C03": ("generated queries; reported bindings checked against a reference matcher", "as C01"),
 "C04": ("generated number corpora and ranges, differential against a reference matcher", "plain decimal notations"),
 "C05": ("generated corpora, memory vs disk index differential; rewritten long-link index files; sparse files with far nodes", "links of all widths by rewriting and by sparse files"),
 "C06": ("corrupted index files: every byte, every length, random; oracle: clean refusal or answers of the intact index", "the checksum is 32 bits; files of a few hundred bytes are mutated exhaustively"),
 "C07": ("fault injection at every write/open/rename of an index build, plus kills; oracle: refusal or the complete index", "system-call level faults; no power-loss reordering"),
 "C08": ("generated harvests; returned url and data compared with the source by canonical XML", "comments and processing instructions not compared"),
 "C09": ("mutated and malformed harvests against a daemon under AddressSanitizer, plus the expressions parsed before the error as oracle", "sampling"),
 "C10": ("generated hostile request bodies against daemons under AddressSanitizer, probe answers as oracle", "sampling"),
 "C11": ("generated queries asked in all output formats, answers compared with each other", "sampling"),
 "C12": ("generated corpora with renaming switched on; alpha-equivalence oracle and renaming metamorphic relation", "variable-free queries for the alpha-equivalence part"),
 "C13": ("generated formula lists, differential against a reference schematizer", "sampling"),
 "C14": ("generated formula lists; schemata checked as patterns against the members", "sampling"),
 "C15": ("stateful model-based testing of the four stores against maps", "sampling"),
 "C16": ("stateful model-based testing of the dictionary against a map", "sampling"),
 "C17": ("concurrent generated clients against a ThreadSanitizer build and a sequential oracle", "schedules are sampled by the OS scheduler"),
 "C18": ("generated raw HTTP sequences against a protocol model", "sampling"),
 "C19": ("generated documents, harvest and search compared with a reference extraction", "sampling"),
 "C20": ("generated harvests, JSON compared with a reference and with an mws-ids search", "sampling"),
 "C21": ("generated distributions of documents over directories (metamorphic)", "sampling"),
 "C22": ("generated web sites served locally, requests compared with a reference crawl", "sampling"),
 "C23": ("generated pages, stored harvests compared with a reference extraction", "sampling"),
 "C24": ("generated corpora and queries, experimental vs standard engine differential", "sampling"),
 "C25": ("generated corpora, reported figures compared with a reference count", "sampling"),
 "C26": ("generated command lines and signals sent at generated moments (also between the main program's own signal calls), behaviour compared with a model of the options", "the moment of a signal is sampled, plus every signal-related call of the main program"),
 "C27": ("generated mixes of requests repeated hundreds of times, invariant over the history: allocated bytes, descriptors and threads stop growing", "hundreds to some thousands of requests per mix; growth below 8 bytes per round is not seen"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)) and i not in NA:
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 %s quick" % f,
                       "thorough_cmd": "python3 %s thorough" % f, "technique": t,
                       "level": "fault_enumeration" if i in ("C06", "C07") else "exploration",
                       "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
