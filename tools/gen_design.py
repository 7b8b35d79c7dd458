#!/usr/bin/env python3
"""DESIGN.md from the texts below, the bounds in evidence/ (run the checks first), seeded/ and known_findings.txt."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # property: (oracle / what is compared, what it reaches that tests cannot)
"C01": ("The bytes and values written are kept in a plain byte string; every read, position, length and end-of-file error is compared with it.", "All combinations of buffer fill level, value width, seek and clone position; tests use one sequence."),
"C02": ("A `std::map` from name to bytes plus the set of open inputs; all observers are evaluated after every step and both stores are compared with the same map.", "Interference of operations (rename over an existing file, remove while open, two handles of one directory)."),
"C03": ("The original files; every read of a sub-stream is compared with the slice of the original, reads across its end must fail.", "Reads and seeks of neighbours and clones interleaved around the buffer size."),
"C04": ("A list of documents with commit points (`index_model.hpp`); a new reader is compared completely: stored fields, terms, frequencies, positions, norms, counts.", "Histories x configurations: merges triggered at any point of a history with deletions in any segment."),
"C05": ("The index content is computed from the document and the field options (tokens by an independent whitespace/letter tokenizer, norm by the formula); compared before and after merging.", "The product of options and document shapes, including long, empty, repeated and reordered fields."),
"C06": ("Concatenation of the model's live documents; sources are compared again afterwards.", "All combinations of source shapes, field number maps and deletions."),
"C07": ("Every open reader has its own model snapshot; all open readers are compared after every step, version checks with the commit counter.", "Interleavings of two readers and a writer over shared files."),
"C08": ("`crash_world.hpp`: all file-system calls of a history are recorded (link-time interposition), and the directory is rebuilt as of every prefix of the trace, with every torn length of the last write for the files that decide a commit; it must open and equal the model before or after the commit in progress, also after a crash during recovery, and take further commits.", "Hundreds of crash points per operation, which no test visits."),
"C09": ("Each file-system call in turn fails (at once, after half of a write, with a short count, when a close loses the tail, or for ever: disk full). An operation that reports success must have its effect, an error must leave the committed content, and afterwards a fresh writer must work.", "Every call site of every operation, not only those a test can provoke."),
"C10": ("A model of lock holders; an attempt succeeds exactly when the model allows it, the lock files and all observers are compared after each step.", "All interleavings of five actors through two handles."),
"C11": ("The file names that the current commit and the open readers need are computed through an independent reader of the segments file; the directory listing is compared after every step.", "Leaks and premature removals depend on the history, tests look at final listings of one."),
"C12": ("A sorted set of terms with document frequencies.", "Every start, seek target and order of seeks for every term set, index interval and segmentation."),
"C13": ("A sorted list of (document, frequency, positions) minus deletions.", "Every mixture of next/read/skip/seek, skip interval, segmentation and deletion set."),
"C14": ("Evaluation of the query tree on the set of words of every document (`query_model.hpp`).", "All small query trees; scorers are chosen by clause numbers and kinds, so combinations matter."),
"C15": ("Brute-force search for placements of words/spans in the text (`span_model.hpp`).", "All short texts against all small phrase and span queries."),
"C16": ("Textbook definitions (recursive wildcard match, full edit-distance matrix, byte comparison, `strtod`).", "All patterns and bounds over a small alphabet."),
"C17": ("The similarity formula evaluated in double precision on the model; explanations are compared value by value.", "Every way to advance a scorer, every query tree of the model; all 256 norm bytes."),
"C18": ("A stable sort of the model's hits; slices of it.", "All value assignments, sort specifications, offsets, limits, filters."),
"C19": ("One index holding the concatenation, run through the same operations.", "All splits of all small collections."),
"C20": ("A recursive-descent reader of the query language written from the documentation, giving a model query whose hits are compared; totality and repeatability on all byte strings up to a length.", "All short strings over the operator alphabet and all syntax trees up to a size."),
"C21": ("Reference tokenizers written from the definitions; for the standard tokenizer a longest-match matcher of its grammar.", "All strings over character classes, including invalid bytes and buffer boundaries."),
"C22": ("Standard containers (map, list, vector<bool>, sorted vector, intervals, a search for matches).", "All operation sequences with colliding keys and sizes around growth steps."),
"C23": ("Outcomes of all sequential orders of the same calls, run on the same code. The harness is a controlled scheduler (`lib/sched.hpp`): ferret is compiled with the compiler's thread instrumentation, but the hooks are ours. Threads are real, one runs at a time; mutex, atomic and file operations are scheduling points. Vector clocks find data races; every program point that takes part in a race becomes a scheduling point in a second exploration, so a race is reported only if it leads to a wrong result, a crash, a use of freed memory or a deadlock. Schedules that differ from an explored one only by swapping steps without common data are skipped; without this reduction (C23_NOSKIP=1) the same outcomes are found.", "All interleavings within the preemption bound; a stress test meets them by chance."),
"C24": ("Matches computed by brute force on the words of the text, the marked text built from them; excerpts are checked against their definition (pieces, order, best window, maximal extent).", "All short texts, queries and excerpt settings."),
"C25": ("A list of documents with key semantics in Ruby (`lib/mc.rb` explorer, the extension rebuilt from the working tree).", "All operation sequences over three kinds of key, flushing modes and two objects."),
"C26": ("An interpreter of try/catch/finally programs with the specified semantics; the real macros run in generated nestings through `c26_interp.c`.", "All nestings; the control flow is setjmp/longjmp, where one wrong level shows only in particular nestings."),
"C27": ("A list of documents with key semantics.", "All operation sequences, both stores, keys and flushing modes."),
"C28": ("Ruby's own integer, Date and Time comparison.", "All integers of a range and all pairs of boundary values, all days."),
}
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
checks = json.load(open(V + "/harness/checks.json"))
o = [open(V + "/tools/design_intro.md").read()]
o.append("## Properties\n")
for i, p in props.items():
    o.append("### %s %s\n" % (i, p["title"]))
    or_, why = T[i]
    o.append("*Oracle.* %s  \n*Reach.* %s\n" % (or_, why))
    f = V + "/evidence/%s.json" % i
    if os.path.exists(f):
        d = json.load(open(f))
        sc = {s["name"]: s["bounds"] for s in d["coverage"]["scenarios"]}
        for h in glob.glob(V + "/harness/%s_*.cpp" % i.lower()):
            for n, b in re.findall(r'^        \{"([a-z_-]+)", "((?:[^"\\\\]|\\\\.)*)", ', open(h).read().split("return run(")[-1], re.M): sc[n] = b
        for n, b in sc.items(): o.append("- `%s`: %s" % (n, b))
    o.append("")
o.append(open(V + "/tools/design_end.md").read())
o.append("### Seeded changes\n\nEvery change compiles, passes the repository's tests and has a demonstration; all were run with `tools/tryseed.sh`.\n\n| change | property | caught by | needs |\n|---|---|---|---|")
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d.get("caught_by", d["property"]), d["needs"]))
o.append("")
open(V + "/DESIGN.md", "w").write("\n".join(o))
