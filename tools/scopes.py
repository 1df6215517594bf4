#!/usr/bin/env python3
"""Lists the scopes of every check (SCOPES.md), from the sources of mc/."""
import re, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
IDS = {}
for m in re.finditer(r'id: "(P\d+)".*?run: (\w+)::(\w+)', open('mc/src/props/mod.rs').read(), re.S):
    IDS.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
out = ["# Scopes", "",
       "Written by `tools/scopes.py` from the sources: what each scope enumerates",
       "exhaustively (numbers are those of the quick tier unless told otherwise).", ""]
for mod in sorted(IDS, key=lambda k: IDS[k][0][0]):
    s = open('mc/src/props/%s.rs' % mod).read()
    out += ["## %s (`%s.rs`)" % (', '.join(i for i, _ in IDS[mod]), mod), ""]
    for m in re.finditer(r'\.explore\(\s*((?:&?(?:format!|name)\()?)"([^"]*)"\)?[^"]*?"((?:[^"\\]|\\.)*)"', s):
        out.append("* **%s**: %s" % (m.group(2).replace('{prefix}', ''), re.sub(r'\s+', ' ', m.group(3)).replace('\\', '')))
    for m in re.finditer(r'sequences\(ctx, "([^"]*)"', s):
        out.append("* **%s**: all sequences of builder calls up to a depth, from all starting points" % m.group(1))
    out.append("")
open('SCOPES.md', 'w').write('\n'.join(out))
