#!/usr/bin/env python3
"""gen.py <property> <tier>: writes gen/caps.rs, the capacities explored."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
QUICK = list(range(0, 19)) + [23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 72, 127, 128, 129, 255, 256, 257, 1015, 1016, 1017, 1023, 1024, 1025, 1032, 2048, 2049, 4096]
MORE = list(range(0, 81)) + [96, 136, 258, 504, 511, 512, 513, 520, 1000, 1007, 1008, 1009, 1031, 1033, 1040, 2047, 8192]


def uint(n):
    s = "typenum::UTerm"
    for b in bin(n)[2:] if n else "":
        s = f"typenum::UInt<{s}, typenum::B{b}>"
    return s


BIG = [65528, 65535, 65536, 65537, 131079, (1 << 20) + 1]
if sys.argv[2:] == ["thorough"]:
    BIG += [32767, 32768, 65544, 196608, (1 << 24) + 9]

caps = sorted(set(QUICK + (MORE if sys.argv[2:] == ["thorough"] else [])))
o = "//! Capacities as typenum types. `caps!(m, ARGS)` calls `m!(N, type, ARGS)` for each capacity.\n\n"
for n in caps + BIG:
    o += f"pub type N{n} = {uint(n)};\n"
o += "\npub type NBIG = " + uint(2**40) + ";\n"
o += "\n#[macro_export]\nmacro_rules! caps {\n    ($m:ident $(, $a:tt)*) => {\n"
for n in caps:
    o += f"        $m!({n}, N{n} $(, $a)*);\n"
o += "    };\n}\n"
o += "\n/// The same for capacities beyond 2^16.\n#[macro_export]\nmacro_rules! caps_big {\n    ($m:ident $(, $a:tt)*) => {\n"
for n in BIG:
    o += f"        $m!({n}, N{n} $(, $a)*);\n"
o += "    };\n}\n"
d = os.path.join(HERE, "gen")
os.makedirs(d, exist_ok=True)
p = os.path.join(d, "caps.rs")
if not os.path.exists(p) or open(p).read() != o:
    open(p, "w").write(o)
