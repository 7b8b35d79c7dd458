#!/usr/bin/env python3
"""Regenerates known_findings.txt: `fixed:` lines from the fix: commits of /repo, plus the `known:` lines below."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
def p(pr, *subs):
    for s in subs: PROP[s] = pr
p("C01", "ramo_write_to", "raise EOF_ERROR")
p("C02", "RAM store's remove", "RAM store's touch", "touching an existing file", "overwriting a file with a shorter")
p("C04", "max_buffer_memory is smaller", "raising max_buffered_docs")
p("C05", "MAX_WORD_SIZE", "max_field_length", "larger than one zip buffer", "compressed lazy field", "uncreated thread key")
p("C06", "add_readers dropped")
p("C07", "ir_index_exists", "reuse the version")
p("C10", "closing a file-system lock", "closing a file-system store", "could not get the write lock", "refused the write lock", "through a MultiReader modified")
p("C19", "through a MultiReader cleared")
p("C08", "crash during the first commit", "took themselves for stale", "cut short before its field infos", "deleted the last good", "deleted its own segments")
p("C09", "failing to create a segments file", "left a corrupt one", "left the store locked")
p("C12", "from the empty term", "merging long terms")
exec(open(os.path.join(V, "tools", "known_extra.py")).read())
out = ["# known: property=<id> scenario=<name> match=<substring>[ && <note substring>] :: <what fails>   (suppresses exactly the matching failures)",
       "# fixed: property=<id> <commit> <what failed>   (suppresses nothing)"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    m = [v for k, v in PROP.items() if k in s]
    assert len(m) == 1, (s, m)
    out.append("fixed: property=%s %s %s" % (m[0], h, s[4:].strip()))
out += KNOWN
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
