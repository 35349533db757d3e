#!/usr/bin/env python3
"""Generates gen/zoo.rs: the registry of types for the codec checks. Deterministic."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


class T:
    def __init__(self, name, ord=True):
        self.name = name
        self.ord = ord

    def __repr__(self):
        return self.name


def ap(ctor, *args, ord=None):
    return T(f"{ctor}<{', '.join(a.name for a in args)}>", all(a.ord for a in args) if ord is None else ord)


def tup(*args):
    return T(f"({', '.join(a.name for a in args)})", all(a.ord for a in args))


def sv(t, n):
    return T(f"SV<{t.name}, {n}>", t.ord)


CAPS = set()


def cap(n):
    CAPS.add(n)
    return f"N{n}"


def uint(n):
    return f"typenum::UInt<{uint(n >> 1)}, typenum::B{n & 1}>" if n else "typenum::UTerm"


def build(wide):
    out = []
    seen = set()

    def add(*ts):
        for t in ts:
            if t.name not in seen:
                seen.add(t.name)
                out.append(t)

    ints = [T(n) for n in "u8 u16 u32 u64 u128 usize".split()]
    u8, u16, u32, u64, u128, usize = ints
    boo = T("bool")
    nz = T("NonZeroUsize")
    U128, U256, addr, bloom, byt = T("U128"), T("U256"), T("Address"), T("Bloom"), T("Bytes")
    arr = lambda n: T(f"[u8; {n}]")
    fb = lambda n: T(f"FixedBytes<{n}>")
    bl = lambda n: T(f"BL<{cap(n)}>", False)
    bv = lambda n: T(f"BV<{cap(n)}>", False)
    bvd = T("BitVectorDynamic", False)
    tags = [T("Tag1"), T("Tag3"), T("Tag17"), T("TagX", False)]
    legs = "U8 U16 U64 Bool E A4 B32 U256 Bytes V8 V16 VV Opt T2 TV C2 Arc Un Tag Bl Bv Nest".split()

    caps = [0, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 256, 512, 1023, 1024, 1025, 2048]
    if wide:
        caps = sorted(set(caps + [5, 6, 10, 11, 13, 14, 24, 127, 128, 129, 1015, 1016, 1017, 1032, 4096, 8192]))
    leaves = ints + [boo, nz, U128, U256, addr, bloom, byt] + tags
    leaves += [arr(n) for n in (0, 1, 2, 3, 4, 5, 8, 20, 31, 32, 33, 48, 64, 96)]
    leaves += [fb(n) for n in (0, 1, 2, 4, 8, 20, 32, 48, 64, 96, 256)]
    leaves += [bv(n) for n in caps] + [bl(n) for n in caps] + [bvd]
    add(*leaves)
    add(T("C0"))
    for l in legs:
        add(T(f"Lg{l}", False), T(f"Lg1{l}", False), T(f"LgM{l}", False))

    unary = {
        "Vec": lambda t: ap("Vec", t),
        "SV1": lambda t: sv(t, 1),
        "SV4": lambda t: sv(t, 4),
        "Option": lambda t: ap("Option", t),
        "Arc": lambda t: ap("Arc", t),
        "Set": lambda t: ap("Set", t),
        "C1": lambda t: ap("C1", t),
        "W1": lambda t: ap("W1", t),
        "WT": lambda t: ap("WT", t),
        "WS": lambda t: ap("WS", t),
        "WU": lambda t: ap("WU", t),
        "Un1": lambda t: ap("Un1", t),
    }

    def apply(u, t):
        if u == "Set" and not t.ord:
            return None
        return unary[u](t)

    reps = [u8, u16, u64, boo, nz, U256, arr(0), arr(4), fb(32), byt, bv(9), bl(9), bvd, tags[1], T("C0"), T("LgU16", False), T("Lg1U16", False)]
    # depth 1
    for l in leaves:
        add(ap("Vec", l))
        if wide:
            for u in unary:
                t = apply(u, l)
                if t:
                    add(t)
        elif not l.name.startswith(("BL<", "BV<")):
            # the item length decides paths in these three: every leaf
            for u in ("Option", "Set", "SV4"):
                t = apply(u, l)
                if t:
                    add(t)
    for u in unary:
        for l in reps:
            t = apply(u, l)
            if t:
                add(t)
    # depth 2 and 3
    us2 = list(unary) if wide else ["Vec", "SV4", "Option", "Arc", "Set", "C1", "WS", "Un1"]
    base2 = [u8, u16, boo, byt, arr(0), bl(9)] if wide else [u16, byt]
    for a in us2:
        for b in us2:
            for l in base2:
                t = apply(b, l)
                t = t and apply(a, t)
                if t:
                    add(t)
    us3 = ["Vec", "SV1", "Option", "C1", "Set", "Un1", "Arc"] if wide else ["Vec", "Option", "C1"]
    for a in us3:
        for b in us3:
            for c in us3:
                for l in [u8, u16]:
                    t = apply(c, l)
                    t = t and apply(b, t)
                    t = t and apply(a, t)
                    if t:
                        add(t)
    V = lambda t: ap("Vec", t)
    if wide:
        for a in ["Vec", "Option", "C1"]:
            for b in ["Vec", "Option", "C1"]:
                for c in ["Vec", "Option", "C1"]:
                    for d in ["Vec", "Option", "C1"]:
                        add(apply(a, apply(b, apply(c, apply(d, u8)))))
    add(V(V(V(V(u8)))), V(V(V(V(V(u16))))))

    # binary
    r2 = [u8, u16, boo, arr(0), V(u8), byt, ap("Option", u8)]
    if wide:
        r2 += [u64, V(u16), V(V(u8)), bl(9), bv(9), ap("Set", u8), fb(32)]
    for a in r2:
        for b in r2:
            add(tup(a, b))
    rc = [u8, u32, V(u8), ap("Option", u16)] if not wide else r2
    for a in rc:
        for b in rc:
            add(ap("C2", a, b), ap("Un2", a, b), ap("Sk", a, b))
    keys = [u8, u16, u64, boo, U256, fb(4), byt, V(u8), tup(u8, u8), ap("Option", u8), ap("Arc", u16), tags[1], tup(u8, V(u8)), arr(0)]
    vals = [u8, u64, boo, V(u8), byt, ap("Option", u8), arr(0), tup(u8, V(u8)), bl(9)]
    if wide:
        keys += [u32, u128, usize, nz, U128, addr, fb(32), V(u16), V(V(u8)), ap("C2", u8, V(u8)), ap("Un2", u8, V(u8)), ap("Set", u8)]
        vals += [u16, u128, bv(9), bvd, V(V(u8)), ap("Map", u8, u8), ap("Set", u8), ap("C2", u8, V(u8)), T("LgU16", False)]
    for k in keys:
        for v in vals if (wide or k.name in ("u8", "u16", "Vec<u8>", "Bytes", "(u8, u8)")) else [u8, V(u8), arr(0)]:
            add(ap("Map", k, v))
    add(ap("Map", u8, ap("Map", u8, u8)), ap("Map", u8, ap("Map", u8, V(u8))), ap("Map", V(u8), ap("Set", u16)))
    add(ap("Set", tup(u8, u8)), ap("Set", tup(u8, V(u8))), ap("Set", V(V(u8))), ap("Set", ap("Set", u8)))
    add(ap("Set", fb(32)), ap("Set", addr), ap("Set", ap("C2", u8, u16)), ap("Set", ap("Un2", u8, V(u8))))
    add(ap("Set", ap("Map", u8, u8)), ap("Set", arr(2)), ap("Set", ap("Arc", V(u8))))

    # containers of three fields, every fixed/variable pattern
    f3 = [u8, u16, u32]
    v3 = [V(u8), byt, V(u16)]
    for m in range(8):
        fs = [v3[i] if m >> i & 1 else f3[i] for i in range(3)]
        add(tup(*fs), ap("C3", *fs))
    f4 = [u8, u16, boo, arr(3)]
    v4 = [V(u8), ap("Option", u8), V(u16), V(V(u8))]
    for m in range(16):
        fs = [v4[i] if m >> i & 1 else f4[i] for i in range(4)]
        add(tup(*fs))
        if wide:
            add(ap("Un4", *fs))
    add(ap("Un4", u8, V(u8), u64, ap("Option", u8)))
    # longer tuples: all fixed, all variable, alternating, one variable item at each place (and,
    # wide, one fixed item at each place)
    fixed = [u8, u16, boo, u32, arr(3), u64, tags[1]]
    var = [V(u8), byt, V(u16), ap("Option", u8), V(V(u8))]
    for n in range(5, 13):
        F = [fixed[i % 7] for i in range(n)]
        W = [var[i % 5] for i in range(n)]
        add(tup(*F), tup(*W))
        add(tup(*[F[i] if i % 2 else W[i] for i in range(n)]))
        for p in range(n):
            if wide or n in (5, 12) or p in (0, n // 2, n - 1):
                add(tup(*[W[i] if i == p else F[i] for i in range(n)]))
            if wide:
                add(tup(*[F[i] if i == p else W[i] for i in range(n)]))
        # two variable items at each pair of places
        if wide and n <= 8:
            for p in range(n):
                for q in range(p):
                    add(tup(*[W[i] if i in (p, q) else F[i] for i in range(n)]))
    # all items of the same type: swapped items show only in the values
    for n in range(2, 13):
        add(tup(*[u8] * n), tup(*[V(u8)] * n))

    # nested composites
    comp = [
        tup(u8, V(u8)),
        tup(u8, u16),
        tup(V(u8), V(u8)),
        ap("C2", u16, V(u8)),
        ap("C2", u8, u16),
        ap("Un2", u8, V(u8)),
        ap("Map", u8, u8),
        ap("Map", u8, V(u8)),
        ap("Sk", u8, V(u8)),
        tup(boo, arr(0)),
        ap("Te2", V(u16), V(u8)),
        T("LgMU16", False),
    ]
    for u in ["Vec", "SV1", "SV4", "Option", "Arc", "Set", "C1", "WS", "Un1"]:
        for c in comp:
            if u in ("SV1", "WS", "Un1") and not wide:
                continue
            t = apply(u, c)
            if t:
                add(t)
                if wide or u in ("Option", "C1"):
                    add(V(t))
    for c in comp:
        add(tup(u8, c), tup(c, u8), tup(c, c))
        add(ap("C2", c, V(u8)), ap("Map", u8, c))
    add(V(tup(V(u8), ap("Option", tup(u8, V(V(u16)))))))
    add(ap("C3", ap("C2", V(u8), u8), V(ap("C2", u8, V(u8))), ap("Option", ap("C2", u8, u8))))
    add(ap("Un2", ap("Un2", u8, V(u8)), ap("Option", V(u16))))
    add(ap("C2", bv(9), bl(9)), ap("C2", bl(9), bvd), V(ap("C2", bl(17), bv(4))), tup(bv(8), bv(9), bl(8), bvd))
    add(ap("Arc", ap("Arc", u8)), ap("Arc", ap("Arc", V(u8))), ap("Option", ap("Option", ap("Option", u8))))

    # transparent enums: of variable-size variants (encodable), and others (decode only)
    for a in [V(u16), byt, ap("Option", u8), V(V(u8)), bl(9)]:
        for b in [V(u8), V(u16), ap("Option", u8), tup(u8, V(u8)), V(V(u8))]:
            if wide or a.name != b.name:
                add(ap("Te2", a, b))
    add(ap("Te3", V(u64), V(u16), V(u8)), ap("Te3", ap("Option", u8), V(V(u8)), bl(8)))
    add(ap("Te2", u16, u8), ap("Te2", u8, V(u8)), ap("Te2", V(u8), u16), ap("Te3", boo, u8, V(u16)))
    add(ap("Te2", ap("Te2", V(u64), V(u32)), V(u8)), ap("C1", ap("Te2", V(u16), V(u8))))

    # lists of zero-length items, where an error is the documented outcome
    z = [arr(0), T("C0"), fb(0), ap("C1", arr(0)), tup(arr(0), arr(0)), ap("W1", arr(0)), ap("Arc", arr(0)), tup(arr(0), T("C0"), fb(0))]
    for t in z:
        add(t, V(t), sv(t, 1), ap("Set", t), ap("Map", t, t), V(V(t)), ap("Option", V(t)), tup(u8, V(t)))
    add(ap("Map", u8, arr(0)), ap("Map", arr(0), u8), V(tup(u8, arr(0))), ap("Option", arr(0)), V(ap("Option", arr(0))))
    # SmallVec inline sizes
    for n in (0, 1, 2, 4, 8, 32):
        for t in [u8, u16, V(u8), byt]:
            if n or wide:
                add(sv(t, n))
    for n in (3, 5, 16, 64):
        add(sv(u8, n), sv(V(u8), n))
    # Byte arrays of every kind of length
    for n in (6, 7, 9, 16, 24, 63, 65, 127, 128, 129, 255, 256, 257, 512, 1024):
        add(arr(n), V(arr(n)), tup(u8, arr(n), V(u8)))
    for n in (3, 5, 16, 24, 33, 65, 128, 255, 257, 512):
        add(fb(n), V(fb(n)), tup(u8, fb(n), V(u8)))
    # Fixed parts of more than 2^8 and 2^16 bytes
    k, m = arr(300), arr(66_000)
    add(k, m, V(k), V(m), ap("Option", m), ap("Arc", m), tup(k, V(u8)), tup(V(u8), k, V(u8)))
    add(ap("C2", m, V(u8)), ap("C2", V(u8), m), tup(m, V(u8), k, V(V(u8))), ap("C3", k, m, byt), V(ap("C2", m, byt)), ap("Un2", m, V(m)))
    add(ap("Map", u8, m), ap("Map", u8, ap("C2", k, V(u8))))
    return out


SHARDS = 16

TOML = """[package]
name = "zoo%02d"
version = "0.1.0"
edition = "2021"

[dependencies]
mc = { path = "../../../mc" }
mctypes = { path = "../../types" }
ethereum_ssz = { path = "/repo/ssz" }
"""


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path + ".tmp", "w") as f:
        f.write(text)
    os.replace(path + ".tmp", path)


def main():
    prop, tier = (sys.argv + ["C01", "quick"])[1:3] if len(sys.argv) > 2 else ("C01", "quick")
    ts = build(tier == "thorough")
    # Only the operations that the property needs are compiled.
    mask = {"C01": "RT", "C02": "DEC_ENC", "C03": "ENC", "C04": "DEC", "C05": "RAW", "C06": "RAW", "C07": "LEN | META | DEC", "C10": "ENTRIES"}.get(prop, "ALL")
    # Checks about some types only need those.
    if prop == "C17":
        ts = [t for t in ts if "Lg" in t.name]
    elif prop == "C19":
        ts = [t for t in ts if "Map<" in t.name or "Set<" in t.name]
    gen = os.path.join(HERE, "gen")
    put(os.path.join(gen, "caps.rs"), "".join(f"pub type N{n} = {uint(n)};\n" for n in sorted(CAPS | {8, 9})))
    for k in range(SHARDS):
        mine = ts[k::SHARDS]
        rs = "use mc::ops::*;\nuse mctypes::*;\n\npub static ZOO: &[(usize, Ops)] = &[\n"
        for i, t in enumerate(mine):
            rs += f"    ({k + i * SHARDS}, ops::<{t.name}>(\"{t.name}\", {mask})),\n"
        rs += "];\n"
        put(os.path.join(gen, f"s{k:02d}", "src", "lib.rs"), rs)
        put(os.path.join(gen, f"s{k:02d}", "Cargo.toml"), TOML % k)
    put(
        os.path.join(gen, "all.rs"),
        "static SHARDS: &[&[(usize, Ops)]] = &[" + ", ".join(f"zoo{k:02d}::ZOO" for k in range(SHARDS)) + "];\n",
    )
    print(len(ts), "types")


main()
