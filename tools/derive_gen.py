"""Random type definitions for the CommitEncode derive (C13), and programs the compiler must refuse."""
import random

PLAIN = ["u8", "u16", "u32", "u64", "u128", "i8", "i32", "i64", "bool", "[u8; 32]", "[u8; 4]", "Option<u16>", "Option<u64>",
         "L8<u16>", "L8<Rec>", "L16<u8>", "S8<u32>", "M8<u8, u16>", "Rec", "amplify::Bytes32", "L8<Option<u8>>", "Option<L8<u8>>"]
# the engine commits to named types only
NAMED = ["u8", "u16", "u32", "u64", "u128", "i8", "i32", "i64", "bool", "Rec"]
ARGS = ["u8", "u32", "Rec", "Option<u16>", "L8<u8>", "bool", "u128"]
IDS = [("IdA", 6), ("IdB", 3), ("IdC", 3), ("MerkleHash", 2), ("StrictHash", 2), ("vderive::IdA", 2), ("vderive::ids::First", 2),
       ("vderive::ids::deep::Alias", 2), ("crate::LocalId", 2)]
STRATS = [("strict", 4), ("conceal", 3), ("transparent", 3), ("merklize", 3)]
RUST = dict(strict="Strict", conceal="Conceal", transparent="Transparent", merklize="Merklize")
NAMES = ["a", "b", "value", "engine", "r#type", "r#match", "self_", "inner", "commitment_id", "x1", "_y", "e", "long_field_name_of_no_meaning"]


def pick(r, weighted):
    return r.choices([x for x, _ in weighted], [w for _, w in weighted])[0]


def attrs(r, strat, ident, crate):
    a = [f"strategy = {strat}", f"id = {ident}"]
    if crate:
        a.append(f"crate = {crate}")
    r.shuffle(a)
    k = r.randrange(4)
    if k == 0 and len(a) > 1:
        return f"#[commit_encode({a[0]})]\n    #[commit_encode({', '.join(a[1:])})]"
    if k == 1:
        return f"#[commit_encode({', '.join(a)},)]"
    return f"#[commit_encode({', '.join(a)})]"


class Params:
    """Generic parameters of a definition."""

    def __init__(self, r, lifetimes=True):
        self.types, self.consts, self.lifes = [], [], []
        for i in range(pick(r, [(0, 5), (1, 4), (2, 2), (3, 1)])):
            self.types.append(["A", "B", "T"][i])
        for i in range(pick(r, [(0, 4), (1, 2), (2, 1)])):
            self.consts.append(["N", "M"][i])
        if lifetimes and r.random() < 0.3:
            self.lifes.append("'a")
        if lifetimes and self.lifes and r.random() < 0.2:
            self.lifes.append("'b")
        self.inline, self.where = {}, []
        for t in self.types:
            base = "F + StrictEncode + Clone"
            if r.random() < 0.5:
                self.inline[t] = base + r.choice(["", " + StrictDumb", " + Sized", " + core::fmt::Debug", " + 'static"])
            else:
                self.inline[t] = ""
                self.where.append(f"{t}: {base}")
            if r.random() < 0.15:
                self.where.append(f"for<'z> &'z {t}: Sized")
            if r.random() < 0.15:
                self.where.append(f"Option<{t}>: Clone")
        if self.lifes and len(self.lifes) == 2 and r.random() < 0.5:
            self.where.append("'b: 'a")
        if r.random() < 0.1:
            self.where.append("Self: Sized")
        self.defaults = r.random() < 0.4
        self.concrete = {t: r.choice(ARGS) for t in self.types}
        self.cval = {c: r.choice([0, 1, 2, 5, 33]) for c in self.consts}

    def decl(self, defaults=False):
        p = list(self.lifes)
        for t in self.types:
            b = self.inline[t]
            s = t + (": " + b if b else "")
            p.append(s + (" = u16" if defaults and self.defaults else ""))
        for c in self.consts:
            p.append(f"const {c}: usize" + (" = 3" if defaults and self.defaults else ""))
        return f"<{', '.join(p)}>" if p else ""

    def use(self):
        p = self.lifes + self.types + self.consts
        return f"<{', '.join(p)}>" if p else ""

    def inst(self, r):
        """Concrete arguments as written by a user."""
        full = [self.concrete[t] for t in self.types] + [str(self.cval[c]) for c in self.consts]
        life = ["'static"] * len(self.lifes)
        p = life + full
        return f"<{', '.join(p)}>" if p else ""

    def wh(self):
        return (" where " + ", ".join(self.where)) if self.where else ""

    def fields(self, r, lo, hi):
        """Types of fields, every parameter used."""
        out = []
        for t in self.types:
            out.append(r.choice([t, t, f"Option<{t}>", f"core::marker::PhantomData<{t}>", f"[{t}; 2]"]))
        for c in self.consts:
            out.append(f"[{r.choice(['u8', 'u16'])}; {c}]")
        for l in self.lifes:
            out.append(f"&{l} {r.choice(['u16', 'Rec'] + ([self.types[0]] if self.types else []))}")
        while len(out) < r.randint(lo, hi) or (lo and len(out) < lo):
            out.append(r.choice(PLAIN))
        r.shuffle(out)
        return out


def make_expr(t):
    if t.startswith("&"):
        return f"&*Box::leak(Box::new(<{t.split(' ', 1)[1]} as F>::make(r)))"
    if "PhantomData" in t:
        return "core::marker::PhantomData"
    return f"<{t} as F>::make(r)"


def model_expr(e, t):
    """Statement adding the encoding of place expression e (a reference)."""
    if "PhantomData" in t:
        return ""
    if t.startswith("&"):
        return f"v.extend(F::model(*{e})); "
    return f"v.extend(F::model({e})); "


def fix_life(t, lifes):
    return t


def definition(i, seed, control):
    r = random.Random(f"{seed}/type/{i}")
    # 'T' is also a usual name of a type parameter
    name = r.choice(["Data", "Commitment", "TypeName2", "r#Union", "Engine", "Wrapper2", "S", "Значення", "Self_"]) if r.random() < 0.5 else f"Ty{i}"
    shown = name.replace("r#", "")
    if any(ord(ch) > 127 for ch in shown):
        shown = f"Ty{i}"
    strat = pick(r, STRATS)
    ident = pick(r, IDS)
    if strat == "strict" and ident in ("MerkleHash", "StrictHash") and False:
        ident = "IdA"
    kind = pick(r, [("named", 5), ("tuple", 4), ("unit", 1), ("enum", 5), ("derived_struct", 3), ("derived_enum", 3)])
    crate = pick(r, [("", 4), ("commit_verify", 1), ("super::cv", 2), ("crate::facade::commit", 2), ("super::shadow::cv", 2)])
    shadow = crate in ("super::cv", "super::shadow::cv", "crate::facade::commit") and r.random() < 0.7
    derive = r.choice(["commit_verify::CommitEncode", "CommitEncode"]) if not shadow else "::commit_verify::CommitEncode"
    encoded_by = kind.startswith("derived")
    if encoded_by and not name.isascii():
        name = shown
    p = Params(r) if not encoded_by and kind != "unit" else None
    vis = r.choice(["", "pub ", "pub(crate) ", "pub(super) "])
    docs = r.choice(["", "/// A documented type.\n    ", "#[allow(dead_code)]\n    ", "#[must_use]\n    "])
    decl, inst, use, wh = "", "", "", ""
    whole, make, inner_ty, inner_ref = "", "", None, None

    if p:
        decl, use, wh = p.decl(True), p.use(), p.wh()
        inst = p.inst(r)
    if kind == "named" or kind == "tuple" or kind == "derived_struct":
        named = kind == "named" or (kind == "derived_struct" and r.random() < 0.6)
        if p:
            fs = p.fields(r, 0 if named else 1, 7 if named else 6)
        else:
            # the strict encoding derive refuses some names and shapes; plain ones here
            fs = [r.choice(PLAIN) for _ in range(r.randint(1, 6))]
        fn = r.sample(NAMES, min(len(fs), len(NAMES))) if not encoded_by else [f"f{k}" for k in range(len(fs))]
        if len(fn) < len(fs):
            fn += [f"g{k}" for k in range(len(fs) - len(fn))]
        fv = [r.choice(["", "pub ", "pub "] if encoded_by else ["", "pub ", "pub(crate) ", "pub(super) ", "pub(self) "]) for _ in fs]
        if named:
            body = "{ " + ", ".join(f"{v}{n}: {t}" for v, n, t in zip(fv, fn, fs)) + " }"
            text = f"{vis}struct {name}{decl}{wh} {body}"
            make = f"{name} {{ " + ", ".join(f"{n}: {make_expr(t)}" for n, t in zip(fn, fs)) + " }"
            acc = [f"self.{n}" for n in fn]
        else:
            body = "(" + ", ".join(f"{v}{t}" for v, t in zip(fv, fs)) + ")"
            text = f"{vis}struct {name}{decl}{body}{wh};"
            make = f"{name}(" + ", ".join(make_expr(t) for t in fs) + ")"
            acc = [f"self.{k}" for k in range(len(fs))]
        whole = "".join(model_expr("&" + a, t) for a, t in zip(acc, fs))
        cand = [(a, t) for a, t in zip(acc, fs) if t in NAMED]
        if cand and r.random() < 0.9:
            a, t = r.choice(cand)
            inner_ty, inner_ref = t, "&" + a
    elif kind == "unit":
        text = f"{vis}struct {name};"
        make, whole = name, ""
    else:
        nv = r.randint(1, 5)
        variants, arms, models = [], [], []
        tags = r.sample(range(0, 250), nv) if not encoded_by or r.random() < 0.5 else list(range(nv))
        custom = tags != list(range(nv))
        pool = p.fields(r, 0, 5) if p else [r.choice(PLAIN) for _ in range(6)]
        spread = [[] for _ in range(nv)]
        for t in pool:
            spread[r.randrange(nv)].append(t)
        unitless = False
        for k, fs in enumerate(spread):
            vn = f"V{k}"
            pre = ""
            if encoded_by:
                a = (["dumb"] if k == 0 else []) + ([f"tag = {tags[k]}"] if custom else [])
                pre = f"#[strict_type({', '.join(a)})] " if a else ""
                if k == 0:
                    fs = []
                    spread[0] = []
            form = r.choice(["unit", "named", "tuple"]) if not fs else r.choice(["named", "tuple"])
            if encoded_by and not fs:
                form = "unit"
            tagm = f"v.push({tags[k]}u8); "
            if form == "unit":
                variants.append(pre + vn)
                arms.append(f"{name}::{vn}")
                models.append(f"{name}::{vn} => {{ {tagm} }}")
            elif form == "tuple":
                variants.append(pre + f"{vn}({', '.join(fs)})")
                arms.append(f"{name}::{vn}({', '.join(make_expr(t) for t in fs)})")
                b = [f"x{j}" for j in range(len(fs))]
                models.append(f"{name}::{vn}({', '.join(b)}) => {{ {tagm}" + "".join(model_expr(x, t) for x, t in zip(b, fs)) + "}")
            else:
                b = [f"x{j}" for j in range(len(fs))]
                variants.append(pre + f"{vn} {{ {', '.join(f'{x}: {t}' for x, t in zip(b, fs))} }}")
                arms.append(f"{name}::{vn} {{ {', '.join(f'{x}: {make_expr(t)}' for x, t in zip(b, fs))} }}")
                models.append(f"{name}::{vn} {{ {', '.join(b)} }} => {{ {tagm}" + "".join(model_expr(x, t) for x, t in zip(b, fs)) + "}")
        text = f"{vis}enum {name}{decl}{wh} {{ {', '.join(variants)} }}"
        make = "match r.below(%d) { " % nv + " ".join(f"{k} => {a}," for k, a in enumerate(arms)) + " _ => unreachable!() }"
        whole = "match self { " + " ".join(models) + " }"
        if encoded_by:
            # an enum all of whose variants are bare is encoded through u8 conversions
            if all(not fs for fs in spread):
                tg = "repr, into_u8, try_from_u8"
                text = f"#[repr(u8)] #[derive(Copy)] {vis}enum {name} {{ " + ", ".join(
                    f"{'#[strict_type(dumb)] ' if k == 0 else ''}V{k} = {tags[k]}" for k in range(nv)) + " }"
            else:
                tg = "custom" if custom else "order"
            text = f'#[strict_type(lib = LIB, tags = {tg})]\n    {text}'
    if kind == "derived_struct":
        text = f"#[strict_type(lib = LIB)]\n    {text}"
    if encoded_by:
        text = f"#[derive(Clone, PartialEq, Eq, Debug, StrictDumb, StrictType, StrictEncode, StrictDecode)]\n    {text}"

    impl_g = p.decl() if p else ""
    self_ty = f"{name}{use}"
    used = f"::commit_verify" if shadow else "commit_verify"
    c = crate or used
    if control:
        der = ""
        call = dict(
            strict="engine.commit_to_serialized(self);",
            conceal=f"use {used}::Conceal; engine.commit_to_concealed(&self.conceal());",
            transparent="use amplify::Wrapper; engine.commit_to_serialized(self.as_inner());",
            merklize="engine.commit_to_merkle(self);")[strat]
        by_hand = (f"impl{impl_g} {used}::CommitEncode for {self_ty}{wh} {{ type CommitmentId = {ident}; "
                   f"fn commit_encode(&self, engine: &mut {used}::CommitEngine) {{ {call} }} }}")
    else:
        der = f"#[derive({derive})]\n    {attrs(r, strat, ident, crate)}\n    "
        by_hand = ""

    inner_body = "choice_of(&self.whole())" if inner_ty is None else inner_ref
    inner_t = inner_ty or "u16"
    manual_encoding = "" if encoded_by else f"""
    impl{impl_g} StrictType for {self_ty}{wh} {{
        const STRICT_LIB_NAME: &'static str = LIB;
        fn strict_name() -> Option<TypeName> {{ Some(tn!("{shown}")) }}
    }}
    impl{impl_g} StrictDumb for {self_ty}{wh} {{ fn strict_dumb() -> Self {{ unimplemented!() }} }}
    impl{impl_g} StrictEncode for {self_ty}{wh} {{
        fn strict_encode<W: TypedWrite>(&self, w: W) -> std::io::Result<W> {{ put(w, &self.whole()) }}
    }}"""
    step = {"strict": shown, "conceal": "Veil", "merklize": "Item", "transparent": ""}[strat]
    names = ""
    if shadow:
        names = "mod commit_verify {}\n    struct CommitEngine; trait CommitEncode {}\n    "
    elif derive == "CommitEncode":
        names = "use commit_verify::CommitEncode;\n    "
    prologue = {"super::cv": "pub use ::commit_verify as cv;", "super::shadow::cv": "pub mod shadow { pub use ::commit_verify as cv; }"}.get(crate, "")
    item = f"{docs}{der}{text}"
    if kind == "tuple" and not decl and not wh and r.random() < 0.6:
        # made by a user's macro: the name and the types come from its arguments
        item = (f"macro_rules! mk {{ ($n:ident $(, $v:vis $t:ty)*) => {{ {docs}{der}{vis}struct $n($($v $t),*); }} }}\n    "
                f"mk!({name}, {', '.join(f'{v}{t}' for v, t in zip(fv, fs))});")
    out = f"""
pub mod t{i} {{
    {prologue}
    pub mod def {{
    use vderive::{{self, *}};
    {names}{item}
    {by_hand}{manual_encoding}
    impl{impl_g} Omni for {self_ty}{wh} {{
        fn whole(&self) -> Vec<u8> {{ let mut v: Vec<u8> = vec![]; {whole} v }}
        fn inner_bytes(&self) -> Vec<u8> {{ F::model({inner_body}) }}
    }}
    impl{impl_g} Wrapper for {self_ty}{wh} {{
        type Inner = {inner_t};
        fn from_inner(_: Self::Inner) -> Self {{ unimplemented!() }}
        fn as_inner(&self) -> &Self::Inner {{ {inner_body} }}
        fn into_inner(self) -> Self::Inner {{ unimplemented!() }}
    }}
    impl{impl_g} Conceal for {self_ty}{wh} {{
        type Concealed = Veil;
        fn conceal(&self) -> Veil {{ Veil::of(&self.whole()) }}
    }}
    impl{impl_g} MerkleLeaves for {self_ty}{wh} {{
        type Leaf = Item;
        fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Item> {{ leaves_of(&self.whole()).iter() }}
    }}
    fn made{impl_g}(r: &mut Rng) -> {self_ty}{wh.replace(", Self: Sized", "").replace("Self: Sized", f"{self_ty}: Sized")} {{ {make} }}
    pub fn check(c: &mut Case) -> R {{
        let v: {name}{inst} = made{('::' + inst_no_life(p)) if p and (p.types or p.consts) else ''}(&mut c.rng);
        verify(c, &v, Strat::{RUST[strat]}, "{step}")
    }}
    }}
}}
"""
    return out


def inst_no_life(p):
    full = [p.concrete[t] for t in p.types] + [str(p.cval[c]) for c in p.consts]
    return f"<{', '.join(full)}>"


SHAPES = {
    "tuple": ("pub struct Omni(u16, u8);", "Omni(1, 2)", "&self.0"),
    "named": ("pub struct Omni { a: u16, b: u8 }", "Omni { a: 1, b: 2 }", "&self.a"),
    "generic": ("pub struct Omni<T: Clone = u8> { a: u16, b: Option<T> }", "Omni { a: 1, b: Some(2u8) }", "&self.a"),
    "enum": ("pub enum Omni { A, B(u8), C { x: u16 } }", "Omni::A", "choice_of(&[])"),
    "unit": ("pub struct Omni;", "Omni", "choice_of(&[])"),
}


def program(attr_lines, shape):
    d, _, inner = SHAPES[shape]
    g, u = ("<T: Clone>", "<T>") if shape == "generic" else ("", "")
    return f"""#![allow(unused)]
#[macro_use] extern crate amplify;
#[macro_use] extern crate strict_encoding;
use vderive::*;
use commit_verify::CommitEncode;
pub mod facade {{ pub use ::commit_verify::*; }}

#[derive(CommitEncode)]
{attr_lines}
{d}

impl{g} StrictType for Omni{u} {{
    const STRICT_LIB_NAME: &'static str = LIB;
    fn strict_name() -> Option<TypeName> {{ Some(tn!("Omni")) }}
}}
impl{g} StrictDumb for Omni{u} {{ fn strict_dumb() -> Self {{ unimplemented!() }} }}
impl{g} StrictEncode for Omni{u} {{ fn strict_encode<W: TypedWrite>(&self, w: W) -> std::io::Result<W> {{ put(w, &[1, 2]) }} }}
impl{g} Wrapper for Omni{u} {{
    type Inner = u16;
    fn from_inner(_: u16) -> Self {{ unimplemented!() }}
    fn as_inner(&self) -> &u16 {{ {inner} }}
    fn into_inner(self) -> u16 {{ unimplemented!() }}
}}
impl{g} Conceal for Omni{u} {{ type Concealed = Veil; fn conceal(&self) -> Veil {{ Veil::of(&[]) }} }}
impl{g} MerkleLeaves for Omni{u} {{
    type Leaf = Item;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Item> {{ leaves_of(&[]).iter() }}
}}
"""


def programs(seed, n):
    """Triples (name, text): 'good_*' are to compile, 'bad_*' are to be refused."""
    r = random.Random(f"{seed}/programs")
    out = []
    near = ["Strict", "STRICT", "stricts", "strict_", "stric", "conceals", "concealed", "conceal_strict", "Conceal", "hash", "hashed", "merkle",
            "merklise", "merklized", "Merklize", "transparents", "transparent_", "inner", "none", "default", "serialize", "serialized", "list",
            "strict::strict", "crate::strict", "self::conceal", "strict::merklize", "merklize::strict", "r#strict", "IdA", "u8"]
    unknown = ["tag = IdA", "foo = bar", "ids = IdA", "Id = IdA", "strategy_ = strict", "crates = commit_verify", "krate = commit_verify",
               "conceal = IdA", "strict = IdA", "lib = IdA", "r#id = IdB", "skip = IdA", "merklize = IdA", "name = IdA", "type = IdA"]
    loose = ["skip", "strict", "conceal", "merklize", "transparent", "foo", "hash", "commit_verify", "IdA"]
    literal = ['"text"', "1", "true", "'c'", "1.5"]

    def base(strat):
        return [f"strategy = {strat}", "id = IdA"]

    def put(kind, args, shape):
        args = list(args)
        r.shuffle(args)
        out.append((f"{kind}_{len(out):03}", program(f"#[commit_encode({', '.join(args)})]", shape)))

    shapes = list(SHAPES)
    bads = []
    for s, _ in STRATS:
        bads.append(("id", lambda s=s: [f"strategy = {s}"]))
        bads.append(("idflag", lambda s=s: [f"strategy = {s}", "id"]))
        bads.append(("idlit", lambda s=s: [f"strategy = {s}", 'id = "IdA"']))
        bads.append(("idcrate", lambda s=s: [f"strategy = {s}", "crate = commit_verify"]))
        bads.append(("unk", lambda s=s: base(s) + [r.choice(unknown)]))
        bads.append(("unk2", lambda s=s: base(s) + ["crate = facade", r.choice(unknown)]))
        bads.append(("loose", lambda s=s: base(s) + [r.choice(loose)]))
        bads.append(("lit", lambda s=s: base(s) + [r.choice(literal)]))
        bads.append(("dup", lambda s=s: base(s) + [f"strategy = {r.choice([x for x, _ in STRATS if x != s])}"]))
        bads.append(("dupid", lambda s=s: base(s) + ["id = IdB"]))
        bads.append(("stratlit", lambda s=s: [f'strategy = "{s}"', "id = IdA"]))
    bads.append(("nostrat", lambda: ["id = IdA"]))
    bads.append(("nostratcrate", lambda: ["id = IdA", "crate = commit_verify"]))
    bads.append(("stratflag", lambda: ["id = IdA", "strategy"]))
    bads.append(("empty", lambda: []))
    for x in near:
        bads.append(("near", lambda x=x: [f"strategy = {x}", "id = IdA"]))
    r.shuffle(bads)
    # every kind of mistake first, then the rest
    seen, first, rest = set(), [], []
    for b in bads:
        (rest if b[0] in seen else first).append(b)
        seen.add(b[0])
    for name, f in (first + rest)[:n]:
        put("bad_" + name, f(), r.choice(shapes))
    for shape in shapes[: max(2, n // 8)]:
        s = pick(r, STRATS)
        put("good", base(s) + (["crate = facade"] if r.random() < 0.5 else []), shape)
    out.append((f"bad_noattr_{len(out):03}", program("", r.choice(shapes))))
    out.append((f"bad_bare_{len(out):03}", program("#[commit_encode]", r.choice(shapes))))
    out.append((f"bad_eq_{len(out):03}", program("#[commit_encode = \"strict\"]", r.choice(shapes))))
    return out


def source(seed, n, control=False, only=None):
    idx = range(n) if only is None else only
    head = "pub mod facade { pub mod commit { pub use ::commit_verify::*; } }\npub type LocalId = vderive::IdC;\n"
    body = "".join(definition(i, seed, control) for i in idx)
    table = ", ".join(f'("t{i}", t{i}::def::check as fn(&mut Case) -> R)' for i in idx)
    return head + body + f"\npub static TYPES: &[(&str, fn(&mut Case) -> R)] = &[{table}];\n"


if __name__ == "__main__":
    import sys
    print(source(int(sys.argv[1]), int(sys.argv[2]), control=len(sys.argv) > 3))
