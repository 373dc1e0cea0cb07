#!/usr/bin/env python3
"""reg.py pNN entry... : registers a harness module and its entries in harness/src/main.rs"""
import os, sys
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness/src/main.rs"
s = open(p).read()
f, es = sys.argv[1], sys.argv[2:]
if "mod %s;" % f not in s:
    s = s.replace("\n/// Exported entry", '#[cfg(feature = "%s")]\nmod %s;\n\n/// Exported entry' % (f, f), 1)
i = s.index("exports! {")
j = s.index("\n}\n", i)
s = s[:j] + "".join('\n    "%s": %s => %s::%s,' % (f, e, f, e) for e in es if "=> %s::%s," % (f, e) not in s) + s[j:]
open(p, "w").write(s)
