#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
STANDIN = ("Exploration: no violation in the executions made (numbers in the evidence). The real code of /repo runs, "
           "linked with stand-ins for the git dependencies that are not available offline (entity parsers, tagger, ontology, tokeniser); ")
C = {
 "C01": ("runtime monitor on the answers of random engines under random filters", "the oracle reads only the filters and the answers."),
 "C02": ("runtime monitor of slot ranges and raw values", "the oracle is the input text itself."),
 "C03": ("panic, overflow and allocation monitors with fault injection, probe queries afterwards", "debug assertions and overflow checks are on; texts whose lookup would be exponential are left out (known findings)."),
 "C04": ("runtime monitor: engine ranking against the rankings of its parsers", "each parser of the same model is loaded alone for the comparison."),
 "C05": ("runtime monitor of scores against intervals computed in double precision", "the features are asked from the classifier itself (C12 judges them); sums beyond single precision are left out."),
 "C06": ("runtime monitor with a reference matcher of patterns", "the reference works on sequences of tokens, not with regular expressions."),
 "C07": ("runtime monitor with a reference matcher of utterances", "32-bit hash collisions between utterances are left out."),
 "C08": ("online checker of the event log of parser calls, with fault injection", "each parser of the same model is loaded alone for the comparison."),
 "C09": ("runtime monitor with a reference resolution of values", "the entities found in a text are asked from the stand-in parsers directly."),
 "C10": ("runtime monitor of decoded slots with a scripted tagger and an independent decoder", "the tags are marks of the filler's own scheme; a run whose tags name several slots may take any of them."),
 "C11": ("runtime monitor of the features computed and received by the tagger, against a reference", "the shape of a word and what counts as an entity come from the stand-ins."),
 "C12": ("runtime monitor of feature vectors against a reference", "the entities found in a text are asked from the stand-in parsers directly."),
 "C13": ("history monitor: answers along random histories against fresh engines, with failing components", "fresh engines are loaded from the same directory."),
 "C14": ("concurrent stress with injected delays and failures, each answer compared with the sequential one, under ThreadSanitizer in half of the workers", "interleavings are those the scheduler and the injected delays produce."),
 "C15": ("runtime monitor of loads of damaged and sound models, directories and archives", "damages are drawn from a list of kinds (missing, cut, malformed, unknown names, versions); sound models are compared with their archive."),
 "C16": ("inotify and file-system snapshots around loads of hostile archives and from slow and failing sources, under ThreadSanitizer in half of the workers", "the zip reader is a stand-in with the entry names and contents as given; the whole of the scratch tree and its surroundings are watched."),
 "C17": ("history monitor: random injections, then recognition by freshly loaded engines against a reference of the values known", "the gazetteer parser is a stand-in; values without any token are left out."),
 "C18": ("file-system comparison around injections that must be refused, with damaged models, failing parsers and no room for the new files", "a crash of the process during an injection is not explored."),
 "C19": ("AddressSanitizer, ThreadSanitizer (half of the workers each), allocation counts and contract monitors over random sequences of calls from C", "the conversion of results into C structures is a stand-in; calls that breach the header's contract are left out."),
 "C20": ("runtime comparison of C structures walked in C, JSON text and the engine's answers, under AddressSanitizer", "the conversion of results into C structures and JSON is a stand-in; which conversion gets which arguments is the repository's."),
 "C21": ("runtime monitor of histories of calls of the Python wrapper, compared with the engine, with failing components and memory measures", "the wrapper's sources and the extension library are the repository's; texts with NUL and numbers of alternatives beyond an int are left out."),
 "C22": ("runtime monitor: listed slots against the parsers' and the restricted parse", "each parser of the same model is loaded alone for the comparison."),
 "C23": ("runtime monitor with a reference extraction", "the entities found in a text are asked from the stand-in parsers directly."),
 "C24": ("runtime monitor: alternatives against ranking, slot listing and plain parse", "ties of confidence may come in any order."),
 "C25": ("runtime monitor of lookups in loaded resources, with malformed files", "the csv reader is a stand-in; 32-bit hash collisions are left out."),
 "C26": ("metamorphic runtime monitor: texts with stop words added and removed, and reference matchers", "stop words are single ASCII tokens."),
 "C27": ("history and concurrency monitor of probabilities against an own instance of the tagger, under ThreadSanitizer in half of the workers", "the tagger is a stand-in with its own forward algorithm."),
 "C30": ("history and concurrency monitor of the entities found, against a reference of the mapping to the text, with failing parsers, under ThreadSanitizer in half of the workers", "the underlying parsers are stand-ins; the reference asks its own instance of them."),
 "C31": ("runtime monitor of the parser against its classifier and slot fillers loaded apart, with failing components", "the ranking and the slots themselves are judged by C05 and C10."),
 "C32": ("monitor of allocator counters, open files and threads over repeated lives of engines and long lives", "the memory of the real native dependencies is not seen, as they are stand-ins."),
 "C29": ("panic and overflow monitor over models with values changed within their types", "debug assertions and overflow checks are on; texts whose lookup would be exponential are left out (known findings)."),
}
NA = [{"property": "C28", "reason": "no Kotlin compiler, JNA, or Swift toolchain in the sandbox, so the bindings cannot be executed and there is nothing for a monitor to observe"}]
props = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines() if l.strip()]
for p in props:
    if p not in C and all(n["property"] != p for n in NA):
        NA.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": p, "quick_cmd": f"/verif/run.sh {p}", "thorough_cmd": f"/verif/run.sh {p} --thorough",
                 "technique": t, "level": "exploration", "level_note": STANDIN + n} for p, (t, n) in sorted(C.items())],
     "not_applicable": NA}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
