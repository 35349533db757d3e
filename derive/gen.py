#!/usr/bin/env python3
"""Definitions for the derive checks. `gen.py C08|C15 quick|thorough` writes gen/s*/ (registries of
definitions with their schemas). Also compiles, one by one, definitions that must be accepted or
rejected (`compile_verdicts`) and finds the definitions behind a failed build (`blame`)."""
import glob
import itertools
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SHARDS = 16
BOTH = "#[ssz(skip_serializing, skip_deserializing)]"

# kind: (attribute, type, representation, encoder live, decoder live)
KINDS = {
    "h": ("", "u16", "Own", 1, 1),
    "b": ("", "u8", "Own", 1, 1),
    "o": ("", "bool", "Own", 1, 1),
    "v": ("", "Vec<u8>", "Own", 1, 1),
    "w": ("", "Vec<u16>", "Own", 1, 1),
    "p": ("", "Option<u8>", "Own", 1, 1),
    "n": ("", "InV", "Own", 1, 1),
    "f": ("", "InF", "Own", 1, 1),
    "z": ("", "[u8; 0]", "Own", 1, 1),
    "k": ('#[ssz(with = "wide")]', "u64", "Wide", 1, 1),
    "e": ('#[ssz(with = "firm")]', "Elastic", "Firm", 1, 1),
    "r": ('#[ssz(with = "slack")]', "Rigid", "Slack", 1, 1),
    "g": ('#[ssz(with = "foreign")]', "Foreign", "ForeignV", 1, 1),
    "a": ('#[ssz(with = "alien")]', "ForeignFixed", "AlienV", 1, 1),
    "l": ('#[ssz(with = "four")]', "Option<u16>", "FourV", 1, 1),
    "s": (BOTH, "u32", None, 0, 0),
    "t": ("#[ssz(skip_deserializing, skip_serializing)]", "Vec<u16>", None, 0, 0),
    "u": (BOTH, "NoCodec", None, 0, 0),
    "W": ('#[ssz(skip_serializing, skip_deserializing, with = "wide")]', "u64", None, 0, 0),
    "X": ('#[ssz(with = "slack", skip_deserializing, skip_serializing)]', "Rigid", None, 0, 0),
    "S": ("#[ssz(skip_serializing)]", "u32", "Own", 0, 1),
    "T": ("#[ssz(skip_serializing)]", "Vec<u16>", "Own", 0, 1),
    "D": ("#[ssz(skip_deserializing)]", "u32", "Own", 1, 0),
    "E": ("#[ssz(skip_deserializing)]", "Vec<u16>", "Own", 1, 0),
    "K": ('#[ssz(with = "wide", skip_serializing)]', "u64", "Wide", 0, 1),
    "L": ('#[ssz(skip_deserializing, with = "wide")]', "u64", "Wide", 1, 0),
    "R": ('#[ssz(with = "slack", skip_serializing)]', "Rigid", "Slack", 0, 1),
    "Q": ('#[ssz(skip_deserializing, with = "slack")]', "Rigid", "Slack", 1, 0),
}
DERIVE = "#[derive(Encode, Decode, Clone, Debug)]\n"


class Def:
    def __init__(self, name, src, text, entries):
        # src: the item with its derive; text: the bindings; entries: (ops expression, side)
        self.name, self.src, self.text, self.entries = name, src, text, entries


def mc_impl(ty, schema, to_val, from_val, generics=""):
    return f"""impl{generics} Mc for {ty} {{
    fn schema() -> Schema {{ {schema} }}
    #[allow(unused_variables, unused_mut, unreachable_patterns)]
    fn to_val(&self) -> Val {{ {to_val} }}
    #[allow(unused_variables, unused_mut, unreachable_patterns)]
    fn from_val(v: &Val) -> Option<Self> {{ {from_val} }}
}}
"""


COUNT = itertools.count()


def struct(seq, transparent=False, tuple_=False):
    i = next(COUNT)
    ident = f"D{i}"
    fs = [KINDS[k] for k in seq]
    names = [str(j) if tuple_ else f"f{j}" for j in range(len(seq))]
    attr = '#[ssz(struct_behaviour = "transparent")]\n' if transparent else ""
    if tuple_:
        body = "(" + ", ".join(f"{f[0]} pub {f[1]}" for f in fs) + ");"
    else:
        body = "{ " + ", ".join(f"{f[0]} pub {n}: {f[1]}" for n, f in zip(names, fs)) + " }"
    src = f"{DERIVE}{attr}pub struct {ident} {body}\n"
    name = re.sub(r"\s+", " ", f"{attr.strip()} struct{' ' if not tuple_ else ''}{body}").strip().replace(" pub ", " ").replace("( ", "(")

    def side(e):
        """Expressions for the encoder's (e) or the decoder's view."""
        live = [f[3] if e else f[4] for f in fs]
        rep = [f"{f[2]}, {f[1]}" for f in fs]
        x = "self"
        sch = [f"sch::<{rep[j]}>()" for j in range(len(fs)) if live[j]]
        tv = [f"tv::<{rep[j]}>(&{x}.{names[j]})" for j in range(len(fs)) if live[j]]
        chk = "".join(f"dflt(&{x}.{names[j]}); " for j in range(len(fs)) if not live[j])
        if transparent:
            schema, to = sch[0], chk + tv[0]
            it = "let l = [v.clone()]; let mut f = l.iter();"
        else:
            schema = f"Schema::Cont(vec![{', '.join(sch)}])"
            to = chk + f"Val::C(vec![{', '.join(tv)}])"
            it = "let mut f = items(v).iter();"
        make = ", ".join(
            f"{names[j]}: " + (f"fv::<{rep[j]}>(&mut f)?" if live[j] else "Junk::junk()") for j in range(len(fs))
        )
        return schema, to, f"{it} Some({ident} {{ {make} }})"

    if all(f[3] == f[4] for f in fs):
        sc, to, fr = side(True)
        return Def(name, src, mc_impl(ident, sc, to, fr), [(f"codec_ops::<{ident}>", 0)])
    text = f"sides!({ident}E, {ident}D, {ident});\n"
    sc, to, fr = side(True)
    text += mc_impl(f"{ident}E", sc, "unimplemented!()", f"let x: Option<{ident}> = (|| {{ {fr} }})(); x.map({ident}E)")
    sc, to, fr = side(False)
    text += mc_impl(f"{ident}D", sc, to.replace("self.", "self.0."), "unimplemented!()")
    return Def(name, src, text, [(f"codec_ops::<{ident}E>", 1), (f"codec_ops::<{ident}D>", 2)])


def tag(n, explicit=False):
    ident = f"D{next(COUNT)}"
    vs = [f"V{j}" + (f" = {(j * 37 + 11) % 251}" if explicit else "") for j in range(n)]
    src = f'{DERIVE}#[ssz(enum_behaviour = "tag")]\npub enum {ident} {{ {", ".join(vs)} }}\n'
    to = "match self { " + " ".join(f"{ident}::V{j} => Val::U({j}, None)," for j in range(n)) + " }"
    fr = "match v { " + " ".join(f"Val::U({j}, None) => Some({ident}::V{j})," for j in range(n)) + ' _ => panic!("{v:?}") }'
    name = f"tag enum of {n} variants" + (" with explicit discriminants" if explicit else "")
    return Def(name, src, mc_impl(ident, f"Schema::Tag({n})", to, fr), [(f"codec_ops::<{ident}>", 0)])


def union(types, kind="union"):
    """Variants of the given types; a type written "with k" is the field kind k, custom codec and all."""
    ident = f"D{next(COUNT)}"
    n = len(types)
    fs = [KINDS[t[5:]] if t.startswith("with ") else ("", t, "Own", 1, 1) for t in types]
    shown = [f"{f[0]} {f[1]}".strip() for f in fs]
    vs = ", ".join(f"V{j}({t})" for j, t in enumerate(shown))
    src = f'{DERIVE}#[ssz(enum_behaviour = "{kind}")]\npub enum {ident} {{ {vs} }}\n'
    wrap = (lambda s: f"Some({s})") if kind == "union" else (lambda s: s)
    rep = [f"{f[2]}, {f[1]}" for f in fs]
    schema = f"Schema::{'Union' if kind == 'union' else 'TEnum'}(vec![" + ", ".join(wrap(f"sch::<{r}>()") for r in rep) + "])"
    to = "match self { " + " ".join(f"{ident}::V{j}(x) => Val::U({j}, Some(Box::new(tv::<{r}>(x))))," for j, r in enumerate(rep)) + " }"
    fr = "match v { " + " ".join(f"Val::U({j}, Some(x)) => Some({ident}::V{j}(fv::<{r}>(&mut std::slice::from_ref(&**x).iter())?))," for j, r in enumerate(rep)) + ' _ => panic!("{v:?}") }'
    name = f"{kind} enum {{ {vs} }}" if n <= 6 else f"{kind} enum of {n} variants ({', '.join(shown[:6])}..)"
    return Def(name, src, mc_impl(ident, schema, to, fr), [(f"codec_ops::<{ident}>", 0)])


def raw(name, src, text, insts):
    return Def(name, src, text, [(f"codec_ops::<{t}>", 0) for t in insts])


def generic(name, header, decl, bounds, fields, insts, behaviour=""):
    """A generic container: fields are (name, type)."""
    ident = f"D{next(COUNT)}"
    src = f"{DERIVE}{behaviour}pub struct {ident}{header} {decl}\n"
    names = ", ".join(f"{n}: <{t} as Mc>::from_val(f.next().unwrap())?" for n, t in fields)
    args = "<" + ", ".join(re.sub(r"(const )?(\w+).*", r"\2", g.strip()) for g in header[1:-1].split(",")) + ">"
    text = mc_impl(
        f"{ident}{args}",
        "Schema::Cont(vec![" + ", ".join(f"<{t} as Mc>::schema()" for _, t in fields) + "])",
        "Val::C(vec![" + ", ".join(f"self.{n}.to_val()" for n, _ in fields) + "])",
        f"let mut f = items(v).iter(); Some({ident} {{ {names} }})",
        bounds,
    )
    return raw(name, src, text, [f"{ident}<{i}>" for i in insts])


# Identifiers of the generated code, of the traits, and keywords.
NAMES = ["bytes", "slice", "decoder", "builder", "buf", "encoder", "len", "offset", "inner", "item", "ssz", "selector", "body", "byte", "result", "r#type", "r#fn", "_x", "from_ssz_bytes", "u8", "ok"]


def plain(name, fields, attr="", ident=None):
    """A struct with the given (attribute, name, type) fields; skipped fields have the attribute BOTH."""
    ident = ident or f"D{next(COUNT)}"
    src = f"{DERIVE}{attr}pub struct {ident} {{ " + ", ".join(f"{a} pub {n}: {t}" for a, n, t in fields) + " }\n"
    live = [(n, t) for a, n, t in fields if "skip_serializing" not in a]
    skip = [n for a, n, t in fields if "skip_serializing" in a]
    chk = "".join(f"dflt(&self.{n}); " for n in skip)
    if "transparent" in attr:
        schema, to, it = f"<{live[0][1]} as Mc>::schema()", chk + f"self.{live[0][0]}.to_val()", "let l = [v.clone()]; let mut f = l.iter();"
    else:
        schema = "Schema::Cont(vec![" + ", ".join(f"<{t} as Mc>::schema()" for _, t in live) + "])"
        to = chk + "Val::C(vec![" + ", ".join(f"self.{n}.to_val()" for n, _ in live) + "])"
        it = "let mut f = items(v).iter();"
    make = ", ".join(f"{n}: <{t} as Mc>::from_val(f.next().unwrap())?" if n not in skip else f"{n}: Junk::junk()" for _, n, t in fields)
    return raw(name + ": struct { " + re.sub(r"\s+", " ", ", ".join(f"{a} {n}: {t}".strip() for a, n, t in fields[:6])) + (" .. }" if len(fields) > 6 else " }"), src, mc_impl(ident, schema, to, f"{it} Some({ident} {{ {make} }})"), [ident])


WIDE = False


def specials():
    G = generic
    T = "T: Encode + Decode"
    TM = "<T: Encode + Decode + Mc>"
    out = [
        G("generic struct { a: T, b: Vec<T> }", f"<{T}>", "{ a: T, b: Vec<T> }", TM, [("a", "T"), ("b", "Vec<T>")],
          ["u8", "u16", "Vec<u8>", "InV", "Option<u8>", "[u8; 4]"]),
        G("generic struct { a: Option<T>, b: T }", f"<{T}>", "{ a: Option<T>, b: T }", TM, [("a", "Option<T>"), ("b", "T")],
          ["u8", "u32", "Vec<u16>", "InF"]),
        G("generic struct with two parameters", "<A: Encode + Decode, B: Encode + Decode>", "{ a: A, b: B, c: A }",
          "<A: Encode + Decode + Mc, B: Encode + Decode + Mc>", [("a", "A"), ("b", "B"), ("c", "A")],
          ["u8, u16", "u8, Vec<u8>", "Vec<u8>, u8", "Vec<u8>, Vec<u16>", "InV, InF", "[u8; 0], Vec<u8>"]),
        G("const-generic struct", "<const N: usize>", "{ a: [u8; N], b: Vec<[u8; N]>, c: u8 }", "<const N: usize>",
          [("a", "[u8; N]"), ("b", "Vec<[u8; N]>"), ("c", "u8")], ["1", "2", "4"]),
        G("const-generic fixed struct", "<const N: usize>", "{ a: [u8; N], c: u16 }", "<const N: usize>",
          [("a", "[u8; N]"), ("c", "u16")], ["0", "1", "3", "32"]),
        G("struct with a where clause", "<T>", "where T: Encode + Decode { a: u8, b: T }", TM, [("a", "u8"), ("b", "T")],
          ["u8", "Vec<u8>"]),
        G("container behaviour stated", f"<{T}>", "{ r#type: T, b: u8 }", TM, [("r#type", "T"), ("b", "u8")],
          ["u8", "Vec<u8>"], '#[ssz(struct_behaviour = "container")]\n'),
    ]
    i = f"D{next(COUNT)}"
    out.append(raw("struct with PhantomData and explicit false attributes",
        f"{DERIVE}pub struct {i}<T> {{ #[ssz(skip_serializing, skip_deserializing)] p: std::marker::PhantomData<T>, "
        "#[ssz(skip_serializing = false)] a: u8, #[ssz(skip_deserializing = false, skip_serializing = false)] b: Vec<u8> }\n",
        mc_impl(f"{i}<T>", "Schema::Cont(vec![u8::schema(), Vec::<u8>::schema()])", "Val::C(vec![self.a.to_val(), self.b.to_val()])",
                f"let f = items(v); Some({i} {{ p: Default::default(), a: u8::from_val(&f[0])?, b: Vec::from_val(&f[1])? }})", "<T: 'static>"),
        [f"{i}<u8>", f"{i}<NoCodec>"]))
    i = f"D{next(COUNT)}"
    out.append(raw("generic transparent struct",
        f"{DERIVE}#[ssz(struct_behaviour = \"transparent\")]\npub struct {i}<T: Encode + Decode> {{ {BOTH} s: u32, a: T }}\n",
        mc_impl(f"{i}<T>", "T::schema()", "dflt(&self.s); self.a.to_val()", f"Some({i} {{ s: 9, a: T::from_val(v)? }})", "<T: Encode + Decode + Mc>"),
        [f"{i}<u8>", f"{i}<Vec<u16>>", f"{i}<InV>", f"Vec<{i}<u16>>", f"Vec<{i}<Vec<u8>>>", f"(u8, {i}<u16>, {i}<Vec<u8>>)"]))
    i = f"D{next(COUNT)}"
    out.append(raw("generic union",
        f"{DERIVE}#[ssz(enum_behaviour = \"union\")]\npub enum {i}<T: Encode + Decode, U: Encode + Decode> {{ A(T), B(U), C(Vec<T>) }}\n",
        mc_impl(f"{i}<T, U>", "Schema::Union(vec![Some(T::schema()), Some(U::schema()), Some(Vec::<T>::schema())])",
            f"match self {{ {i}::A(x) => Val::U(0, Some(Box::new(x.to_val()))), {i}::B(x) => Val::U(1, Some(Box::new(x.to_val()))), {i}::C(x) => Val::U(2, Some(Box::new(x.to_val()))) }}",
            f"match v {{ Val::U(0, p) => Some({i}::A(T::from_val(payload(p))?)), Val::U(1, p) => Some({i}::B(U::from_val(payload(p))?)), Val::U(2, p) => Some({i}::C(Vec::from_val(payload(p))?)), _ => panic!() }}",
            "<T: Encode + Decode + Mc, U: Encode + Decode + Mc>"),
        [f"{i}<u8, u16>", f"{i}<Vec<u8>, u8>", f"Vec<{i}<u8, Vec<u8>>>", f"(u8, {i}<u8, u8>)", f"{i}<u8, {i}<u8, u16>>"]))
    # Field names which also occur in the generated code, in every position of a fixed and of a variable
    # container, and next to skipped fields and custom codecs.
    for n in NAMES:
        for ts in (["[u8; 4]", "u16", "u32"], ["Vec<u8>", "u16", "Vec<u16>"]):
            for p in range(3 if WIDE or "u32" in ts else 1):
                out.append(plain(f"field named {n}", [("", n if j == p else f"f{j}", t) for j, t in enumerate(ts)]))
    out.append(plain("fields with the names of the generated code, fixed", [("", n, ["[u8; 8]", "u16", "u8"][j % 3]) for j, n in enumerate(NAMES)]))
    out.append(plain("fields with the names of the generated code, variable", [("", n, ["Vec<u8>", "u16", "Vec<u16>"][j % 3]) for j, n in enumerate(NAMES)]))
    for n in NAMES[:6]:
        out.append(plain(f"skipped field named {n}", [("", "a", "u16"), (BOTH, n, "u32"), ("", "b", "[u8; 2]")]))
        out.append(plain(f"skipped field named {n}", [("", "a", "u16"), (BOTH, n, "Vec<u16>"), ("", "b", "Vec<u8>")]))
        out.append(plain(f"transparent struct, field named {n}", [(BOTH, "a", "u32"), ("", n, "Vec<u8>")], '#[ssz(struct_behaviour = "transparent")]\n'))
    # Other attributes, comments, spelled-out flags, visibility.
    out.append(plain("fields with other attributes", [("/// Comment.\n", "a", "u8"), ("#[allow(unused)]", "b", "Vec<u8>"), ('#[doc = "x"] #[ssz(skip_serializing = true, skip_deserializing = true)] #[allow(unused)]', "s", "u32"), ("#[cfg(any())] gone: NoSuchType,", "c", "u16"), ("#[ssz()]", "d", "Vec<u16>")]))
    # Definitions written by macro_rules: types arrive as invisible groups.
    for ts in (["u8", "[u8; 4]"], ["Vec<u8>", "u16"], ["Vec<Vec<u8>>", "Option<u8>"]):
        i = f"D{next(COUNT)}"
        d = plain(f"struct from macro_rules ({ts[0]}, {ts[1]})", [("", "bytes", ts[0]), ("", "b", ts[1]), ("", "c", ts[0])], ident=i)
        d.src = f"macro_rules! m{i} {{ ($n:ident, $t:ty, $u:ty, $f:ident) => {{ {DERIVE} pub struct $n {{ pub bytes: $t, pub $f: $u, pub c: $t }} }} }}\nm{i}!({i}, {ts[0]}, {ts[1]}, b);\n"
        out.append(d)
    for kind in ("union", "transparent"):
        d = union(["Vec<u8>", "Vec<u16>"] if kind == "transparent" else ["u8", "Vec<u8>"], kind)
        i = d.entries[0][0][12:-1]
        d.src = f"macro_rules! m{i} {{ ($n:ident, $($v:ident $t:ty),*) => {{ {DERIVE} #[ssz(enum_behaviour = \"{kind}\")] pub enum $n {{ $($v($t)),* }} }} }}\nm{i}!({i}, V0 {'Vec<u8>' if kind == 'transparent' else 'u8'}, V1 {'Vec<u16>' if kind == 'transparent' else 'Vec<u8>'});\n"
        d.name += " from macro_rules"
        out.append(d)
    # Variants named like the prelude.
    for kind in ("union", "transparent"):
        d = union(["Vec<u16>", "Vec<u8>", "Vec<u64>", "Vec<u32>"], kind)
        for j, n in enumerate(("Err", "Ok", "None", "Some")):
            d.src, d.text = d.src.replace(f"V{j}(", f"{n}("), d.text.replace(f"::V{j}(", f"::{n}(")
        d.name += ", variants named Err, Ok, None, Some"
        out.append(d)
    # Many fields: thousands of bytes of fixed part, hundreds of offsets.
    for n in (65, 130) + ((260, 520) if WIDE else ()):
        out.append(struct("".join("hvbs"[j % 4] for j in range(n))))
    out.append(struct("h" * 129 + "b"))
    out.append(struct("v" + "h" * 69))
    out.append(struct("h" * 140 + "v"))
    # Derived types inside the library's collections.
    # Derived types inside the library's collections.
    for seq in ("hb", "hv", "vsk", "", "zs", "krs"):
        d = struct(seq)
        i = d.entries[0][0][12:-1]
        d.name += ", in collections"
        d.entries += [(f"codec_ops::<{t}>", 0) for t in (f"(u8, {i})", f"({i}, {i})", f"Option<{i}>", f"Vec<{i}>", f"(Vec<{i}>, u8)")]
        if seq in ("", "zs"):
            d.entries = d.entries[:4]
        out.append(d)
    for d in (tag(3), tag(128), union(["u8", "Vec<u8>"])):
        i = d.entries[0][0][12:-1]
        d.name += ", in collections"
        d.entries += [(f"codec_ops::<{t}>", 0) for t in (f"(u8, {i})", f"({i}, {i})", f"Option<{i}>", f"Vec<{i}>", f"(Vec<{i}>, u8)")]
        out.append(d)
    return out


UT = ["u8", "Vec<u8>", "u16", "InV", "Option<u8>", "[u8; 0]", "Vec<u16>"]


def cyc(n, step=1, types=UT):
    return [types[(j * step) % len(types)] for j in range(n)]


def seqs(alphabet, *lengths):
    for n in lengths:
        for s in itertools.product(alphabet, repeat=n):
            yield "".join(s)


def build_c08(thorough):
    global COUNT, WIDE
    COUNT = itertools.count()
    WIDE = thorough
    out, seen = [], set()
    allk = "hbovwpnfzkergalstuWXSTDEKLRQ"

    def add(s, **kw):
        key = (s, tuple(sorted(kw.items())))
        if key not in seen:
            seen.add(key)
            out.append(struct(s, **kw))

    # containers
    for s in seqs(allk, 0, 1):
        add(s)
    for s in seqs(allk if thorough else "hbvnzkerglstWXSDLR", 2):
        add(s)
    for s in seqs("hvnzkrlsuWSDE" if thorough else "hvkrsSD", 3):
        add(s)
    for s in seqs("hvkrsS" if thorough else "hv", 4):
        add(s)
    if thorough:
        for s in seqs("hvs", 5):
            add(s)
    for n in (5, 6, 8, 12) + ((7, 16, 20, 26) if thorough else ()):
        add("".join("hbokf"[j % 5] for j in range(n)))
        add("".join("vwprn"[j % 5] for j in range(n)))
        add("".join("hvkrsbwel"[j % 9] for j in range(n)))
        add("".join("vshtrukDSE"[j % 10] for j in range(n)))
        for p in range(n):
            if thorough or p in (0, n // 2, n - 1):
                add("".join("v" if j == p else "hbok"[j % 4] for j in range(n)))
                add("".join("h" if j == p else "vwpr"[j % 4] for j in range(n)))
                add("".join("s" if j == p else "hv"[j % 2] for j in range(n)))
    # transparent structs
    live = "hvnzkrglpebf" if thorough else "hvnkrl"
    for n in (1, 2, 3):
        for s in seqs("L" + ("stuWX" if thorough else "stWX" if n < 3 else "st"), n):
            if s.count("L") != 1:
                continue
            for k in live if (thorough or n < 3) else "vk":
                for t in (False, True):
                    add(s.replace("L", k), transparent=True, tuple_=t)
    for n in (2, 3):
        for s in seqs("DESTsKLRQ" if thorough else "DESsLR", n):
            if sum(KINDS[k][3] for k in s) == 1 and sum(KINDS[k][4] for k in s) == 1:
                for t in (False, True):
                    add(s, transparent=True, tuple_=t)
    # enums
    for n in range(1, 129):
        if thorough or n < 20 or n % 8 in (0, 7) or n > 120:
            out.append(tag(n))
    out += [tag(n, True) for n in (1, 2, 5, 128)]
    for kind in ("union", "transparent"):
        for n in (1, 2) if not thorough else (1, 2, 3):
            for ts in itertools.product(UT, repeat=n):
                out.append(union(list(ts), kind))
        if not thorough:
            for ts in itertools.product(["u8", "Vec<u8>", "Vec<u16>"], repeat=3):
                out.append(union(list(ts), kind))
        else:
            for ts in itertools.product(["u8", "Vec<u8>", "Vec<u16>", "Option<u8>"], repeat=4):
                out.append(union(list(ts), kind))
    # Custom codecs on the fields of variants.
    wt = [f"with {k}" for k in "kergal"]
    for kind in ("union", "transparent"):
        for t in wt:
            out.append(union([t], kind))
        for ts in itertools.product((wt if thorough else wt[:4]) + ["u8", "Vec<u8>"], repeat=2):
            if any(t in wt for t in ts):
                out.append(union(list(ts), kind))
        for ts in itertools.product(["with k", "with r", "Vec<u16>"] + (["with g", "u8"] if thorough else []), repeat=3):
            if any(t in wt for t in ts):
                out.append(union(list(ts), kind))
    for n in (7, 12, 64, 127, 128):
        out.append(union(cyc(n)))
        out.append(union(cyc(n, 1, wt + ["u8"])))
    for n in (7, 20):
        out.append(union(cyc(n, 1, ["Vec<u64>", "Vec<u32>", "Vec<Vec<u8>>", "Option<u8>", "Vec<u16>", "InV", "Vec<u8>"]), "transparent"))
    return out + specials()


def build_c15(thorough):
    global COUNT
    COUNT = itertools.count()
    out = [union(cyc(n)) for n in range(1, 129)]
    # Neighbouring variants of one type: only the selector tells them apart.
    for n in (2, 3, 5, 9, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128) if not thorough else range(2, 129):
        out.append(union(cyc(n, 1, ["u8"] if n % 2 else ["Vec<u8>"])))
    if thorough:
        for n in range(2, 129):
            out.append(union(cyc(n, 3)))
            out.append(union(cyc(n, 1, ["Vec<u8>", "Option<Vec<u8>>", "u64", "(u8, Vec<u8>)", "bool"])))
    else:
        for n in (2, 6, 50, 128):
            out.append(union(cyc(n, 3)))
            out.append(union(cyc(n, 1, ["Vec<u8>", "Option<Vec<u8>>", "u64", "(u8, Vec<u8>)", "bool"])))
    opts = ["u8", "u16", "u64", "bool", "Vec<u8>", "Vec<u16>", "Vec<Vec<u8>>", "[u8; 0]", "[u8; 4]", "InV", "InF", "(u8, Vec<u8>)", "Option<u8>", "Option<Option<u16>>", "std::sync::Arc<u16>"]
    for o in opts:
        out.append(raw(f"Option<{o}>", "", "", [f"Option<{o}>"]))
    return out


TOML = """[package]
name = "defs%02d"
version = "0.1.0"
edition = "2021"
publish = false

[dependencies]
mc = { path = "../../../mc" }
dtypes = { path = "../../types" }
ethereum_ssz = { path = "/repo/ssz" }
ethereum_ssz_derive = { path = "/repo/ssz_derive" }
"""


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path + ".tmp", "w") as f:
        f.write(text)
    os.replace(path + ".tmp", path)


def definitions(pid, tier):
    return (build_c15 if pid == "C15" else build_c08)(tier == "thorough")


def main():
    pid, tier = sys.argv[1:3]
    defs = definitions(pid, tier)
    gen = os.path.join(HERE, "gen")
    total = 0
    for k in range(SHARDS):
        rs = "#![allow(dead_code)]\nuse dtypes::*;\n\n"
        reg = ""
        for i in range(k, len(defs), SHARDS):
            d = defs[i]
            rs += d.src + d.text + "\n"
            for j, (ops, side) in enumerate(d.entries):
                total += 1
                label = d.name + ["", " | encoder", " | decoder"][side]
                if side == 0 and len(d.entries) > 1:
                    label += " | as " + re.sub(r"D\d+", "Self", ops[12:-1])
                reg += f"    ({i * 100 + j}, {side}, {ops}({rust_str(label)})),\n"
        rs += "pub static DEFS: &[(usize, u8, Ops)] = &[\n" + reg + "];\n"
        put(os.path.join(gen, f"s{k:02d}", "src", "lib.rs"), rs)
        put(os.path.join(gen, f"s{k:02d}", "Cargo.toml"), TOML % k)
    put(os.path.join(gen, "all.rs"), "static SHARDS: &[&[(usize, u8, Ops)]] = &[" + ", ".join(f"defs{k:02d}::DEFS" for k in range(SHARDS)) + "];\n")
    print(len(defs), "definitions,", total, "entries")


def rust_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


# ------------------------------------------------------------------------------------------------
# Single definitions and rustc
# ------------------------------------------------------------------------------------------------

PRELUDE = "#![allow(dead_code, unused_imports)]\nuse ssz::{Decode, Encode, DecodeError};\nuse ssz_derive::{Decode, Encode};\n"


def newest(pattern):
    fs = glob.glob(pattern)
    return max(fs, key=os.path.getmtime) if fs else None


def compiler(env, target, profile):
    deps = os.path.join(target, profile, "deps")
    lib, der = newest(os.path.join(deps, "libssz-*.rlib")), newest(os.path.join(deps, "libssz_derive-*.so"))
    dty = newest(os.path.join(deps, "libdtypes-*.rlib"))
    if not (lib and der):
        return None
    tmp = os.path.join(target, f"rustc-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)

    def run(job):
        i, text, with_dtypes = job
        f = os.path.join(tmp, f"d{i}.rs")
        with open(f, "w") as h:
            h.write(text)
        cmd = ["rustc", "--edition=2021", "--crate-type=lib", "--emit=metadata", "--crate-name", f"d{i}", "--out-dir", tmp, "-L", f"dependency={deps}", "--extern", f"ssz={lib}", "--extern", f"ssz_derive={der}"]
        if with_dtypes and dty:
            cmd += ["--extern", f"dtypes={dty}"]
        p = subprocess.run(cmd + [f], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout

    return run, tmp


def clean(tmp):
    for f in glob.glob(os.path.join(tmp, "*")):
        os.remove(f)
    os.rmdir(tmp)


def unit_variants(n):
    return ", ".join(f"V{j}" for j in range(n))


def body_variants(n):
    return ", ".join(f"V{j}(u8)" for j in range(n))


def verdict_list(thorough):
    """(what, item, Encode accepted?, Decode accepted?); None: not claimed."""
    un = '#[ssz(enum_behaviour = "union")] '
    tg = '#[ssz(enum_behaviour = "tag")] '
    te = '#[ssz(enum_behaviour = "transparent")] '
    tr = '#[ssz(struct_behaviour = "transparent")] '
    se, de = "#[ssz(skip_serializing)] ", "#[ssz(skip_deserializing)] "
    bo = BOTH + " "
    L = []
    yes, no = (True, True), (False, False)
    counts = [1, 2, 64, 126, 127, 128, 129, 130, 131, 160, 192, 200, 254, 255, 256, 257, 258, 300, 384, 511, 512, 513]
    if thorough:
        counts = sorted(set(counts + list(range(1, 260)) + [640, 769, 1024, 1025]))
    for n in counts:
        L.append((f"union of {n} variants", un + f"pub enum A {{ {body_variants(n)} }}", *(yes if n <= 128 else no)))
        if n <= 128 or n > 256:
            L.append((f"tag enum of {n} variants", tg + f"pub enum A {{ {unit_variants(n)} }}", *(yes if n <= 128 else no)))
    L.append(("union of 0 variants", un + "pub enum A {}", *no))
    L.append(("tag enum of 0 variants", tg + "pub enum A {}", *no))
    # Every small transparent struct: the number of live fields of each side must be one.
    kinds = [("", 1, 1), (se, 0, 1), (de, 1, 0), (bo, 0, 0)]
    for n in range(0, 5 if thorough else 4):
        for ks in itertools.product(kinds, repeat=n):
            e, d = sum(k[1] for k in ks) == 1, sum(k[2] for k in ks) == 1
            attrs = "".join("_sdb"[kinds.index(k)] for k in ks)
            L.append((f"transparent named struct, fields {attrs or 'none'}", tr + "pub struct A { " + ", ".join(f"{k[0]}f{j}: u{8 << j % 4}" for j, k in enumerate(ks)) + " }", e, d))
            L.append((f"transparent tuple struct, fields {attrs or 'none'}", tr + "pub struct A(" + ", ".join(f"{k[0]}u{8 << j % 4}" for j, k in enumerate(ks)) + ");", e, d))
    L.append(("transparent unit struct", tr + "pub struct A;", *no))
    # Skipped fields need no codec, and a custom codec does not make a field skipped.
    L.append(("transparent struct, both fields with custom codecs", "mod m { pub use crate::w::*; } " + W + tr + 'pub struct A { #[ssz(with = "w")] a: X, #[ssz(with = "w")] b: X }', *no))
    L.append(("transparent struct, one field with a custom codec", W + tr + 'pub struct A { #[ssz(with = "w")] a: X }', *yes))
    # Enums without a behaviour, and behaviours in the wrong place.
    for v, w in (("A0(u8), A1(u8)", "union-like"), ("A0, A1", "tag-like"), ("A0(Vec<u8>)", "one variant"), ("", "empty")):
        L.append((f"enum without attribute ({w})", f"pub enum A {{ {v} }}", *no))
        L.append((f"enum with an empty attribute ({w})", f"#[ssz()] pub enum A {{ {v} }}", *no))
        L.append((f"enum with an unknown behaviour ({w})", f'#[ssz(enum_behaviour = "container")] pub enum A {{ {v} }}', *no))
        L.append((f"enum with a struct behaviour ({w})", f'#[ssz(struct_behaviour = "transparent")] pub enum A {{ {v} }}', *no))
        L.append((f"enum with a struct behaviour, container ({w})", f'#[ssz(struct_behaviour = "container")] pub enum A {{ {v} }}', *no))
    for b in ("tag", "union", "transparent"):
        L.append((f"struct with enum behaviour {b}", f'#[ssz(enum_behaviour = "{b}")] pub struct A {{ a: u8 }}', *no))
    L.append(("struct with an unknown behaviour", '#[ssz(struct_behaviour = "union")] pub struct A { a: u8 }', *no))
    L.append(("Rust union", "#[derive(Clone, Copy)] pub union A { a: u8, b: u16 }", *no))
    # Variants of the wrong shape.
    for b, a in (("union", un), ("transparent", te)):
        L.append((f"{b} variant without field", a + "pub enum A { A0(Vec<u8>), A1 }", *no))
        L.append((f"{b} variant with empty parentheses", a + "pub enum A { A0(), A1(Vec<u8>) }", *no))
        L.append((f"{b} variant with two fields", a + "pub enum A { A0(Vec<u8>), A1(Vec<u8>, Vec<u8>) }", *no))
        L.append((f"{b} variants of one field", a + "pub enum A { A0(Vec<u8>), A1(Vec<u16>) }", *yes))
    L.append(("tag variant with a field", tg + "pub enum A { A0, A1(u8) }", *no))
    # One-sided and plain definitions.
    L.append(("container", "pub struct A { a: u8, b: Vec<u8> }", *yes))
    L.append(("empty container", "pub struct A {}", *yes))
    L.append(("container of skipped fields without codec", "#[derive(Default)] pub struct N; pub struct A { " + bo + "n: N }".replace("pub struct", "pub struct"), *yes))
    L.append(("explicit container", '#[ssz(struct_behaviour = "container")] pub struct A { a: u8 }', *yes))
    return L


W = (
    "pub struct X(pub u8); pub mod w { pub mod encode { use crate::X; pub fn is_ssz_fixed_len() -> bool { true } pub fn ssz_fixed_len() -> usize { 1 } "
    "pub fn ssz_bytes_len(_: &X) -> usize { 1 } pub fn ssz_append(x: &X, b: &mut Vec<u8>) { b.push(x.0) } } "
    "pub mod decode { use crate::X; pub fn is_ssz_fixed_len() -> bool { true } pub fn ssz_fixed_len() -> usize { 1 } "
    "pub fn from_ssz_bytes(b: &[u8]) -> Result<X, ssz::DecodeError> { b.first().map(|x| X(*x)).ok_or(ssz::DecodeError::OutOfBoundsByte { i: 0 }) } } } "
)


def verdict_text(item, trait):
    # The derive goes onto the item named A: before its own attributes.
    m = re.search(r"((#\[(ssz|derive)\((?:[^\[\]])*\)\]\s*)*)pub (enum|struct|union) A\b", item)
    return PRELUDE + item[: m.start()] + f"#[derive({trait})]\n" + item[m.start() :]


def compile_verdicts(tier, env, target, profile):
    r = compiler(env, target, profile)
    if not r:
        raise SystemExit("ERROR: no built ssz library to compile against")
    run, tmp = r
    jobs, want = [], []
    for what, item, e, d in verdict_list(tier == "thorough"):
        for trait, ok in (("Encode", e), ("Decode", d)):
            jobs.append((len(jobs), verdict_text(item, trait), False))
            want.append((what, trait, ok))
    # Non-trivial control: the harness itself compiles.
    try:
        with ThreadPoolExecutor(8) as pool:
            got = list(pool.map(run, jobs))
    finally:
        clean(tmp)
    out = []
    for (what, trait, ok), (rc, msg), job in zip(want, got, jobs):
        if (rc == 0) == ok:
            continue
        if ok:
            w = "has an SSZ meaning, but does not compile: " + msg.strip()[:400]
        else:
            w = "has no SSZ meaning, but compiles"
        out.append({"unit": f"derive({trait}) on {what}", "data": re.sub(r"V5\b.*V(\d+)", r"V5 .. V\1", job[1][len(PRELUDE):])[:600], "what": w})
    return len(jobs), out[:12]


def blame(pid, tier, err, env, target, profile):
    """The build of the registry failed. Is it because the derive macros fail on some definition?"""
    r = compiler(env, target, profile)
    if not r:
        return None
    run, tmp = r
    defs = definitions(pid, tier)
    jobs = []
    for d in defs:
        if d.src:
            jobs.append((len(jobs), "#![allow(dead_code, unused_imports)]\nuse dtypes::*;\n" + d.src, True))
    try:
        rc, _ = run((len(jobs), "#![allow(unused_imports)]\nuse dtypes::*;\n", True))
        if rc:
            return None
        with ThreadPoolExecutor(8) as pool:
            got = list(pool.map(run, jobs))
    finally:
        clean(tmp)
    named = [d for d in defs if d.src]
    for d, (rc, msg) in zip(named, got):
        if rc:
            return {"unit": d.name, "data": d.src[:2000], "what": "has an SSZ meaning, but the derived code does not compile: " + msg.strip()[:800]}
    return None


if __name__ == "__main__":
    main()
