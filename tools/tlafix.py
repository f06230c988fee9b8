#!/usr/bin/env python3
"""Put the first conjunct of a definition on its own line when the following
conjuncts are indented less (otherwise IF/ELSE swallow them)."""
import re, sys
for f in sys.argv[1:]:
    L = open(f).read().split("\n")
    for i, l in enumerate(L[:-1]):
        m = re.match(r"^(\w[^=]*==) (/\\ .*)$", l)
        if m:
            n = re.match(r"^(\s+)/\\ ", L[i + 1])
            if n and len(n.group(1)) != len(m.group(1)) + 1:
                L[i] = m.group(1) + "\n" + n.group(1) + m.group(2)
    open(f, "w").write("\n".join(L))
