#!/usr/bin/env python3
"""wire.py RustModule TlaModule Ops [Session Step Expect]: add a layer to main.rs and Trace.tla (development helper)"""
import sys, re
rs, tla, prev = sys.argv[1], sys.argv[2], None
p = '/verif/harness/src/main.rs'; s = open(p).read()
if f"mod {rs};" not in s:
    s = s.replace("mod util;", f"mod {rs};\nmod util;").replace("        .unwrap_or_else(|| panic!", f"        .or_else(|| {rs}::run(op, e))\n        .unwrap_or_else(|| panic!")
    open(p, 'w').write(s)
p = '/verif/spec/Trace.tla'; s = open(p).read()
s = re.sub(r"EXTENDS T_\w+, Json", f"EXTENDS {tla}, Json", s)
for a in sys.argv[3:]:
    ops, call = a.split("=")
    line = f"                [] e.op \\in {ops} -> {call}\n"
    if line not in s:
        s = s.replace("                [] e.op \\in StreamOps", line + "                [] e.op \\in StreamOps")
open(p, 'w').write(s)
