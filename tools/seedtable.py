#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set("""C04-many-inputs C14-carry C14-prefix C26-same-output C29-index-byte C02-prefix-buffer C03-spare C11-key-cache C12-asm-cache
C13-shared C15-seen C17-shared-output C18-previous-cache C19-shared-branches C21-scratch C23-last-input""".split())
rows = ["| id | needs | what it breaks | caught by |", "|----|-------|----------------|-----------|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s%s |" % (i, m["needs"], m["what_it_breaks"], m["property"], " (at first missed)" if i in missed else ""))
p = V + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- seeds -->.*<!-- end of seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end of seeds -->", t, flags=re.S)
open(p, "w").write(t)
