#!/usr/bin/env python3
"""gen.py <property> <tier>: writes gen/all.rs, the capacities explored."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
thorough = sys.argv[2:] == ["thorough"]
caps = set(range(0, 1101 if thorough else 161))
for c in [192, 255, 256, 257, 320, 511, 512, 513, 1015, 1016, 1017, 1023, 1024, 1025, 1031, 1032, 1033, 2047, 2048, 2049, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 2**20]:
    caps.add(c)
# Only for lists: far more than memory.
huge = [2**32 - 1, 2**32, 2**40, 2**63, 2**64 - 8, 2**64 - 1]


def uint(n):
    s = "typenum::UTerm"
    for b in bin(n)[2:] if n else "":
        s = f"typenum::UInt<{s}, typenum::B{b}>"
    return s


o = "pub fn all() -> Vec<(usize, Gen, Gen)> {\n    vec![\n"
for n in sorted(caps):
    o += f"        ({n}, list::<{uint(n)}> as Gen, vector::<{uint(n)}> as Gen),\n"
o += "    ]\n}\npub fn huge() -> Vec<(usize, Gen)> {\n    vec![\n"
for n in huge:
    o += f"        ({n}, list::<{uint(n)}> as Gen),\n"
o += "    ]\n}\n"
d = os.path.join(HERE, "gen")
os.makedirs(d, exist_ok=True)
p = os.path.join(d, "all.rs")
if not os.path.exists(p) or open(p).read() != o:
    open(p, "w").write(o)
