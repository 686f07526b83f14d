#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
from props import CAMPAIGNS
from exh import FAMS
from design import LAWS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("TLC executes the specification (MKHE.tla) to generate programs and to re-execute every recorded run of the real code; "
        "within the generated programs every observation is checked. %sAssumes the specification, lattigo's ring/encoder and the observer. "
        "Bounded to small ring degrees, up to eight parties, chains of up to 34 primes of up to 61 bits and the listed parameter shapes.")
EXH = "A bounded space (every relation of operands, amount, choice of keys, pair of calls or short history, see Exh.tla) is enumerated completely. "
LAW = "The algorithm itself is checked symbolically, for all ring elements, secrets, references and digits (MKAlg.tla). "
TECH = "TLA+ specification; TLC-generated programs run on the real code; recorded traces checked against the specification with TLC"
SPECIAL = {}
try:
    from special import NOTES as SPECIAL
except ImportError:
    pass
NA = {
    "C23": "Computational secrecy against arbitrary adversaries is not a property of the system's behaviours and cannot be stated over a state machine.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CAMPAIGNS or i in SPECIAL:
        t, n, l = SPECIAL.get(i, (TECH, NOTE % ((LAW if i in LAWS else "") + (EXH if i in FAMS else "")), "model_checking"))
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
                           technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "its machinery is still being built")))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes="All checks: python3 tools/check.py ID [quick|thorough]; replay of a reported violation: python3 tools/check.py replay FILE")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
