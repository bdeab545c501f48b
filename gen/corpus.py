"""Random struct definitions with #[derive(Builder)], what their attributes mean, and the glue the simulator needs.

The meaning (the description each program carries) is computed here from the documentation of derive_builder,
independently of its code."""
import json
import random
import re

OWN, MUT, IMM = "own", "mut", "imm"
PATNAME = {OWN: "owned", MUT: "mutable", IMM: "immutable"}
ODD_NAMES = ["value", "item", "new", "converted", "clone", "default", "into", "try_into", "extend", "other", "error",
             "r#type", "r#match", "r#fn", "from", "result", "some", "ok", "f", "s", "formatter", "field",
             "_lead", "__default", "Upper", "größe", "a", "x1", "builder", "this", "option", "vec", "validate",
             "phantom", "core", "std", "string", "build", "create_empty", "e", "t", "v", "r#async", "long_name_of_a_field_with_many_words"]
PLAIN_NAMES = ["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda",
               "omega", "rho", "sigma", "tau", "phi", "chi", "psi", "xi", "nu", "mu", "pi_", "upsilon", "omicron",
               "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"]


def weighted(r, pairs):
    return r.choices([p[0] for p in pairs], [p[1] for p in pairs])[0]


def unraw(n):
    return n[2:] if n.startswith("r#") else n


# ---------------------------------------------------------------- generation

FOCUS = {
    # per property: how likely the features it speaks about are (percent), instead of the defaults in BASE
    "C01": {},
    "C02": {"try": 75, "strip": 30, "precise": 25},
    "C03": {"own": 8, "validate": 40, "try_default": 55},
    "C04": {"imm": 65, "own": 5, "uniform": 45},
    "C05": {"own": 40, "mixed_pat": 35, "each": 30},
    "C06": {"validate": 97, "def": 60, "precise": 20},
    "C07": {"def": 70, "sdef": 50, "own": 25},
    "C08": {"def": 35, "sdef": 25, "try_default": 70, "validate": 30, "customerr": 45, "cust": 25},
    "C09": {"into": 65, "try": 50, "each": 40, "own": 5},
    "C10": {"each": 80, "coll": 85, "strip": 45, "into": 30},
    "C12": {"precise": 55, "cust": 45},
    "C13": {"skip": 50, "structskip": 35, "sdef": 45, "def": 50},
    "C14": {"own": 8, "imm": 45},
    "C15": {"precise": 30, "ctor": 40},
    "C19": {"try": 45, "validate": 50, "each": 40, "precise": 20, "cust": 20},
}
BASE = {"own": 25, "imm": 30, "try": 40, "into": 40, "strip": 40, "each": 35, "def": 45, "sdef": 35, "validate": 45,
        "skip": 18, "structskip": 10, "precise": 14, "cust": 12, "customerr": 25, "try_default": 45, "mixed_pat": 25,
        "uniform": 30, "coll": 35, "ctor": 20}


class Cfg:
    pass


def gen_config(seed, focus, name, variant="std"):
    r = random.Random(seed)
    P = dict(BASE)
    P.update(FOCUS.get(focus, {}))
    how = r.random()
    if how < 0.15:
        # Two or three features and nothing else.
        on = r.sample(sorted(k for k in P if k not in ("own", "imm")), r.choice([1, 2, 2, 3]))
        for k in P:
            if k in on:
                P[k] = 90
            elif k not in FOCUS.get(focus, {}):
                P[k] = 0
        P["own"], P["imm"] = r.choice([(100, 0), (0, 100), (0, 0)])
    elif how < 0.55:
        # Swarm: some features not at all, some nearly everywhere, the rest as usual.
        for k in sorted(P):
            x = r.random()
            if x < 0.3 and k not in FOCUS.get(focus, {}):
                P[k] = 0
            elif x > 0.93:
                P[k] = max(P[k], 90)

    def pct(k):
        return r.random() * 100 < (P[k] if isinstance(k, str) else k)

    c = Cfg()
    c.name = name
    c.seed = seed
    c.pat = OWN if pct("own") else (IMM if r.random() * 100 < P["imm"] * 100 / max(1, 100 - P["own"]) else MUT)
    n = weighted(r, [(1, 6), (2, 16), (3, 22), (4, 20), (5, 14), (6, 10), (8, 7), (11, 3), (14, 1.2), (18, 1), (27, 0.7), (35, 0.4), (45, 0.2)])
    c.uniform = pct("uniform")
    c.generic = pct(20)
    c.generic2 = c.generic and pct(30)
    c.lifetime = pct(8)
    c.constgen = pct(7)
    c.own_clone = pct(25)
    c.struct_into = pct(20)
    c.struct_strip = pct(20)
    c.struct_try = pct(20)
    c.struct_skip = pct("structskip")
    c.struct_skip_false = (not c.struct_skip) and pct(5)
    c.prefix = r.choice(["with", "set", "r#in"]) if pct(14) else None
    if c.prefix == "r#in":
        c.prefix = "put"
    c.err = "gen"
    if pct("customerr"):
        c.err = "custom"
    elif pct(8):
        c.err = "noval"
    if variant == "core" and c.err == "gen":
        c.err = "noval"
    c.validate = c.err != "noval" and pct("validate")
    c.sdef = None
    if pct("sdef"):
        c.sdef = weighted(r, [("trait", 3), ("expr", 4), ("try", 3 if not pct(30) else 6)])
        if c.sdef == "try" and not pct("try_default"):
            c.sdef = "expr"
    c.struct = weighted(r, [("Foo", 70), ("F", 5), ("Größe", 5), ("lower_case", 5), ("Option_", 5), ("FooBuilder", 5), ("Build", 5)])
    c.builder_name = weighted(r, [(None, 80), ("Maker", 10), ("Foo_B", 10)])
    c.build_name = weighted(r, [("build", 80), ("make", 10), ("finish", 10)])
    c.create_empty = weighted(r, [(None, 80), ("empty", 10), ("fresh", 10)])
    c.custom_ctor = pct("ctor") and pct(60)
    c.extra_ctor = pct("ctor")
    c.derive_dbg = pct(20)
    c.no_std = pct(8)
    c.alias = pct(10)
    # Fields first get patterns, because what a builder must be able to clone decides which types fit.
    pats = []
    for _ in range(n):
        p = None
        if pct("mixed_pat"):
            p = r.choice([OWN, MUT, IMM, MUT, IMM])
        pats.append(p)
    requires_clone = c.pat != OWN or any(p not in (None, OWN) for p in pats)
    # An owned builder can be asked to derive Clone.
    c.own_clone = c.own_clone and not requires_clone
    requires_clone = c.clone = requires_clone or c.own_clone
    odd = pct(25)
    pool = PLAIN_NAMES[:]
    r.shuffle(pool)
    if n > 12:
        pool = [f"{r.choice(PLAIN_NAMES)}_{k}" for k in range(n)] + pool
    odd_pool = ODD_NAMES[:]
    r.shuffle(odd_pool)
    used = {c.build_name, c.create_empty or "create_empty", "check", "new_builder"}
    c.fields = []
    c.names = []
    value_names, copy_names = VALUE_NAMES[:], COPY_NAMES[:]
    r.shuffle(value_names)
    r.shuffle(copy_names)
    for i in range(n):
        f = Cfg()
        f.i = i
        f.F = 0 if c.uniform else i
        f.pat_attr = pats[i]
        f.pat = pats[i] or c.pat
        while True:
            f.name = odd_pool.pop() if (odd and odd_pool and pct(60)) else pool.pop()
            if unraw(f.name) not in used and f.name not in used:
                break
        # --- is there a setter, a builder field at all?
        f.skip_attr = None      # None, True, False
        f.setter_word = False
        f.custom_attr = None
        s = {}                  # spelled setter options
        if c.struct_skip:
            if pct(55):         # opted back in
                way = weighted(r, [("word", 4), ("false", 3), ("options", 3)])
                f.optin = way
            else:
                f.optin = None
        else:
            f.optin = "plain"
            if pct("skip"):
                f.skip_attr = True
        f.phantom = (c.struct_skip and f.optin is None) or f.skip_attr is True
        by_ref_own = c.pat != OWN and f.pat == OWN and not f.phantom
        # --- type
        must_clone = requires_clone and not f.phantom
        opt = weighted(r, [(0, 60), (1, 35), (2, 5)])
        if by_ref_own:
            base = "C"
        else:
            base = weighted(r, [("V", 50), ("C", 6), ("L", P["coll"] * 0.4), ("S", P["coll"] * 0.35),
                                ("N", 0 if must_clone else 14)])
        if pct("strip") and not opt and pct(40):
            opt = 1
        if opt == 2 and base != "V":
            opt = 1
        f.sh = "O" * opt + base
        f.tparam = "T" if c.generic and base in "VS" else "U" if c.generic2 and base == "C" else ""
        if f.tparam:
            f.F = 0
        f.optpath = weighted(r, [("Option", 80), ("std::option::Option", 8), ("core::option::Option", 6), ("::std::option::Option", 6),
                                 ("Opt", 5), ("alias::Option", 5)])
        f.alias = f.optpath in ("Opt", "alias::Option") and f.sh[0] == "O"
        f.proj = r.choice([x for x in (c.lifetime and LT_PROJ, c.constgen and CN_PROJ) if x] or [None]) if pct(60) else None
        if not f.proj and pct(18):
            f.proj = r.choice(SPELLED)
        named = {"V": value_names, "C": copy_names}.get(base)
        if not f.proj and not f.tparam and named and pct(18):
            f.proj = named.pop()
            c.names.append((f.proj, ty(base, f.F)))
        # --- custom builder type / build expression
        f.store = "phantom" if f.phantom else "opt"
        f.bsh = f.sh
        f.cust = None
        f.cust_all = False
        if not f.phantom:
            if pct("precise"):
                if pct(50) and (c.pat == OWN or base == "C") and f.pat in (c.pat, OWN):
                    # moved as it is
                    f.store = "precise"
                elif not by_ref_own or True:
                    f.store = "precise"
                    f.cust = "try" if pct("try_default") else "expr"
                    if by_ref_own:
                        f.bsh = r.choice(["C", "OC"])
                    else:
                        f.bsh = r.choice(["V", "OV", "S", "L", "C", "OL", f.sh] if must_clone or base != "N" else ["N", "ON", "V", f.sh])
                    if f.tparam == "T":
                        f.bsh = f.bsh if f.bsh[-1] in "VS" else "V"
                    elif f.tparam:
                        f.bsh = f.bsh if f.bsh[-1] == "C" else "C"
                if f.store == "precise" and f.cust is None and not (c.pat == OWN or base == "C"):
                    f.store = "opt"
            elif pct("cust"):
                f.cust = "try" if pct("try_default") else "expr"
            if f.cust:
                f.cust_all = c.pat != OWN and pct(40)
        f.bt = f.tparam
        # The builder's own type for the field is spelled the same way only where it is the same type.
        f.bproj = f.proj if f.bsh[-1] == f.sh[-1] or f.proj in (LT_PROJ, CN_PROJ) else None
        # --- default
        f.deflt = None
        if f.store != "precise" and not f.cust and pct("def" if not f.phantom else 55):
            f.deflt = weighted(r, [("trait", 3), ("expr", 4), ("try", 4)])
            if f.deflt == "try" and not pct("try_default"):
                f.deflt = "expr"
        # --- setter options
        f.into_attr = f.strip_attr = None
        f.try_attr = False
        f.each = 0
        f.setter_name = f.prefix_attr = None
        if not f.phantom:
            if pct("into") and not c.struct_into or (c.struct_into and pct(15)):
                f.into_attr = not c.struct_into if pct(90) else True
            if pct("strip") and not c.struct_strip or (c.struct_strip and pct(15)):
                f.strip_attr = not c.struct_strip if pct(90) else True
            f.try_attr = pct("try") and (not c.struct_try or pct(10))
            if pct(10):
                f.setter_name = None if not pool else "do_" + pool.pop()
                if pct(15):
                    f.setter_name = r.choice(["r#move", "r#use", "r#loop", "r#where", "Set", "größer"])
            if pct(8):
                f.prefix_attr = r.choice(["my", "use_"])
        f.into = (c.struct_into if f.into_attr is None else f.into_attr) and not f.phantom
        f.strip = (c.struct_strip if f.strip_attr is None else f.strip_attr) and not f.phantom
        # Only a type that is written as Option is known to be one.
        if f.alias and f.store == "opt":
            f.strip = False
        f.try_ = (c.struct_try or f.try_attr) and not f.phantom
        if not f.phantom:
            a = f.bsh[1:] if f.strip and f.bsh.startswith("O") else f.bsh
            if a in ("S", "D", "L") and f.store == "opt" and pct("each"):
                f.each = 2 if pct(45) else 1
                f.each_name = ("push_" if pct(50) else "add_") + (pool.pop() if pool else f"x{i}")
                f.each_long = f.each == 2 or pct(40)
            if c.struct_skip and f.optin == "options":
                if f.into_attr is None and f.strip_attr is None and not f.each and not f.setter_name and not f.prefix_attr:
                    f.optin = "word" if pct(50) else "false"
            if not c.struct_skip and pct(6):
                f.custom_attr = True
            elif not c.struct_skip and pct(3):
                f.custom_attr = False
            if c.struct_skip and f.optin == "word" and (f.into_attr is not None or f.strip_attr is not None or f.each or f.setter_name or f.prefix_attr):
                f.optin = "options"
            elif not c.struct_skip and pct(4):
                f.skip_attr = False
        f.setter = not f.phantom and f.custom_attr is not True
        # Types from the standard library around the simulator's own.
        if opt < 2 and pct(22) and not (f.proj and "{" not in f.proj):
            std = {"V": "BPA", "S": "D", "C": "R" if f.store == "opt" and f.deflt != "trait" and not f.tparam else ""}.get(base)
            if std:
                std = r.choice(std)
                if f.bsh[-1] == base:
                    f.bsh = f.bsh[:-1] + std
                f.sh = f.sh[:-1] + std
        if f.setter_name:
            f.method = f.setter_name
        elif f.prefix_attr or c.prefix:
            f.method = f"{f.prefix_attr or c.prefix}_{unraw(f.name)}"
        else:
            f.method = f.name
        if f.method in used or unraw(f.method) in used or "try_" + unraw(f.method) in used or f.method == f.name == "build" == c.build_name:
            f.method = f"go_{i}"
            f.setter_name = f.method
        used |= {f.name, unraw(f.name), f.method}
        if f.try_:
            used.add("try_" + unraw(f.method))
        c.fields.append(f)
    # A generic parameter needs a field that uses it.
    if c.generic and not any(f.tparam == "T" for f in c.fields):
        c.generic = c.generic2 = False
        for f in c.fields:
            f.tparam = f.bt = ""
    if c.generic2 and not any(f.tparam == "U" for f in c.fields):
        c.generic2 = False
    # Several fields with the very same expression: it is written for the first of them, and evaluated for each.
    for f in c.fields:
        f.dsite = f.csite = f.i
    if pct(25):
        for f in c.fields:
            like = [g for g in c.fields[:f.i] if (g.sh, g.F, g.tparam) == (f.sh, f.F, f.tparam)]
            for g in like:
                if g.dsite == g.i and f.deflt in ("expr", "try") and g.deflt in ("expr", "try") and pct(70):
                    f.deflt, f.dsite = g.deflt, g.i
                    break
            for g in like:
                if g.csite == g.i and f.cust and g.cust and not (f.cust_all or g.cust_all) and pct(70):
                    f.cust, f.csite = g.cust, g.i
                    break
    c.lifetime = any(f.proj == LT_PROJ for f in c.fields)
    c.constgen = any(f.proj == CN_PROJ for f in c.fields)

    def needs_default(t, base):
        return any(f.tparam == t and plain(f.sh) == base and (f.deflt == "trait" or (f.phantom and not f.deflt and not c.sdef))
                   or f.tparam == t and f.store == "precise" and plain(f.bsh) == base for f in c.fields)
    c.tdefault, c.udefault = needs_default("T", "V"), needs_default("U", "C")
    c.ucopy = c.generic2 and c.pat != OWN and any(f.tparam == "U" and (f.pat == OWN or f.store == "precise") for f in c.fields)
    c.style = r.random()
    c.around = None
    return c


# ---------------------------------------------------------------- text

# Type names the macro might take for something else: they are aliases of the simulator's types.
SPELLED = ["({})", "Rc<{}>", "Arc<{}>", "Cell<{}>", "Mutex<{}>", "PhantomData<{}>", "HashMap<{}>", "Cow<{}>", "Rc<Arc<{}>>", "self::Rc<{}>",
           "std_like::Vec<{}>", "std_like::Box<{}>"]
VALUE_NAMES = ["String", "PathBuf", "Duration", "OsString", "Uuid", "Error", "Value", "Item", "VALUE_", "Instant"]
COPY_NAMES = ["u64", "u8", "i32", "f64", "char", "usize", "u32", "i64", "u16", "isize", "bool", "f32", "i128"]


def plain(sh):
    """What a shape behaves like."""
    return sh.translate(str.maketrans("BPARD", "VVVCS"))


LT_PROJ = "<&'a () as Proj<{}>>::Out"
CN_PROJ = "<[(); N] as Proj<{}>>::Out"


def ty(sh, F, t="", opt="Option", proj=None):
    if sh[0] == "O":
        return f"{opt}<{ty(sh[1:], F, t, opt, proj)}>"
    if proj:
        return proj.format(ty(sh, F, t))
    v = "T" if t == "T" else f"V<{F}>"
    if t == "U" and sh == "C":
        return "U"
    return {"V": v, "S": f"Vec<{v}>", "D": f"std::collections::VecDeque<{v}>", "B": f"Box<{v}>", "P": f"({v},)", "A": f"[{v}; 1]",
            "R": f"&'static Cp<{F}>", "N": f"NC<{F}>", "C": f"Cp<{F}>", "L": f"Coll<{F}>"}[sh]


def lift(f, expr, sh=None):
    """A value of the type parameter's instantiation, as the type parameter."""
    sh = sh or f.sh
    if not f.tparam:
        return expr
    return f"any::<{ty(sh, f.F)}, {ty(sh, f.F, f.tparam)}>({expr})"


def err_map(c):
    return {"gen": "inj_s", "noval": "crate::inj_u", "custom": "crate::MyErr::Inj"}[c.err]


STRING = "::std::string::String"


def quote_str(s):
    return json.dumps(s, ensure_ascii=False)


def emit(c):
    r = c.rng = random.Random(c.seed ^ 0x5EED)
    B = c.builder_name or c.struct + "Builder"
    names = (["'a"] if c.lifetime else []) + (["T"] if c.generic else []) + (["U"] if c.generic2 else []) + (["N"] if c.constgen else [])
    inst = {"'a": "'static", "T": "V<0>", "U": "Cp<0>", "N": "3"}
    gd = f"<{', '.join(names)}>" if names else ""
    gi = f"<{', '.join(inst[x] for x in names)}>" if names else ""
    BT = f"{B}{gi}"
    out = []
    w = out.append
    w(f"pub mod {c.name} {{")
    w("#![allow(unused, non_camel_case_types, clippy::all)]")
    w("use crate::prelude::*;")
    for a, b in c.names:
        w(f"type {a} = {b};")
    # struct attributes
    at = []
    if c.pat != MUT or r.random() < 0.4:
        at.append(f'pattern = "{PATNAME[c.pat]}"')
    so = []
    if c.struct_into:
        so.append(r.choice(["into", "into = true"]))
    if c.struct_strip:
        so.append(r.choice(["strip_option", "strip_option = true"]))
    if c.struct_skip:
        so.append(r.choice(["skip", "skip = true"]))
    elif c.struct_skip_false:
        so.append("skip = false")
    if c.prefix:
        so.append(f'prefix = "{c.prefix}"')
    if so:
        at.append("setter(" + ", ".join(so) + ")")
    if c.struct_try:
        at.append("try_setter")
    bf = []
    if c.build_name != "build":
        bf.append(f'name = "{c.build_name}"')
    if c.validate:
        bf.append(r.choice(['validate = "check"', "validate = check", 'validate = "Self::check"']))
        c.validate_method = "Self" in bf[-1]
    if c.err == "custom":
        bf.append(r.choice(['error = "crate::MyErr"', 'error = "MyErr"', "error = crate::MyErr"]))
    elif c.err == "noval":
        bf.append("error(validation_error = false)")
    elif r.random() < 0.05:
        bf.append("error(validation_error = true)")
    if r.random() < 0.06:
        bf.append(r.choice(["public", "private", 'vis = "pub(crate)"', "skip = false"]))
    if bf:
        r.shuffle(bf)
        at.append("build_fn(" + ", ".join(bf) + ")")
    tail = None
    if c.sdef == "trait":
        at.append("default")
    elif c.sdef == "expr":
        at.append(r.choice(['default = "mk_default()"', "default = mk_default()", 'default = "let d = mk_default(); d"']))
    elif c.sdef == "try":
        at.append(r.choice([f'default = "mk_default_try().map_err({err_map(c)})?"', f"default = mk_default_try().map_err({err_map(c)})?",
                            f'default = "match mk_default_try() {{ Ok(d) => d, Err(t) => return Err(::core::convert::Into::into(({err_map(c)})(t))) }}"']))
    if c.builder_name:
        at.append(f'name = "{c.builder_name}"')
    if c.create_empty:
        at.append(f'create_empty = "{c.create_empty}"')
    if c.custom_ctor:
        at.append("custom_constructor")
    dv = []
    if c.derive_dbg:
        dv = r.choice([["Debug"], ["PartialEq"], ["Debug", "PartialEq"]])
    if c.own_clone:
        dv = r.choice([dv + ["Clone"], ["Clone"] + dv])
    if dv:
        at.append(f"derive({', '.join(dv)})")
    if c.no_std:
        at.append("no_std")
    if c.alias:
        at.append("crate = $crate::db" if c.around and c.around["far"] and c.around["wrap"] != "tt" else
                  'crate = "::db_renamed"' if c.around and c.around["direct"] else 'crate = "crate::db"')
    if r.random() < 0.1:
        at.append(r.choice(["public", "private", 'vis = "pub(crate)"']))
    if r.random() < 0.06:
        at.append(r.choice(["field(public)", 'field(vis = "pub(crate)")', "field(private)"]))
    r.shuffle(at)
    if r.random() < 0.05:
        w("/// A documented struct.")
    w("#[derive(Builder)]")
    if r.random() < 0.05:
        w(r.choice(["#[builder_struct_attr(allow(dead_code))]", "#[builder_impl_attr(allow(dead_code))]", "#[allow(non_snake_case)]"]))
    if r.random() < 0.5 and at:
        w(f"#[builder({', '.join(at)})]")
    else:
        for a in at:
            w(f"#[builder({a})]")
    traits = {"T": ["Default"] if c.tdefault else [], "U": ["Default"] if c.udefault else []}
    if c.ucopy:
        traits["U"].append("Copy")
    for k in ("T", "U"):
        if c.pat == OWN and c.clone and not c.own_clone:
            traits[k].append("Clone")
        if r.random() < 0.3:
            traits[k].append("'static")

    def params(extra=(), bounds=True, defaults=False):
        out = []
        for x in names:
            ts = [t for t in traits.get(x, []) if bounds] + [t for t in extra if t not in traits.get(x, [])]
            if x == "'a":
                out.append("'a")
            elif x == "N":
                out.append("const N: ::core::primitive::usize" + (" = 3" if defaults else ""))
            else:
                out.append(x + (": " + " + ".join(ts) if ts else "") + (" = " + inst[x] if defaults else ""))
        return f"<{', '.join(out)}>" if out else ""
    gb = params()
    bound, where = gb, ""
    if r.random() < 0.3 and names:
        preds = [f"{x}: " + (" + ".join(traits[x]) if traits[x] else "Sized") for x in names if x in traits]
        bound, where = params(bounds=False), (" where " + ", ".join(preds) if preds else "")
    elif r.random() < 0.3:
        bound = params(defaults=True)
    gcl = params(extra=["Clone"] if c.clone else [])
    w(f"pub struct {c.struct}{bound}{where} {{")
    dflt_methods = []
    texts = {}
    c.field_lines = []
    for f in c.fields:
        fa = []
        if f.pat_attr:
            fa.append(f'pattern = "{PATNAME[f.pat_attr]}"')
        so = []
        if f.skip_attr is True:
            so.append(r.choice(["skip", "skip = true"]))
        elif f.skip_attr is False:
            so.append("skip = false")
        if f.skip_attr is True and r.random() < 0.1:
            so.append(r.choice(["custom", "custom = true", "custom = false", "custom = false"]))
        if not f.phantom:
            if f.into_attr is not None:
                so.append(r.choice(["into", "into = true"]) if f.into_attr else "into = false")
            if f.strip_attr is not None:
                so.append(r.choice(["strip_option", "strip_option = true"]) if f.strip_attr else "strip_option = false")
            if f.setter_name:
                so.append(f'name = "{f.setter_name}"')
            if f.prefix_attr:
                so.append(f'prefix = "{f.prefix_attr}"')
            if f.each:
                if f.each_long:
                    so.append(f'each(name = "{f.each_name}"' + (r.choice([", into", ", into = true"]) if f.each == 2 else "") + ")")
                else:
                    so.append(f'each = "{f.each_name}"')
            if f.custom_attr is True:
                so.append(r.choice(["custom", "custom = true"]))
            elif f.custom_attr is False:
                so.append("custom = false")
            if c.struct_skip and f.optin == "false":
                so.append("skip = false")
        if f.skip_attr is True and r.random() < 0.2:
            # Whatever else is said about a setter that is skipped.
            so += r.sample(["into", "strip_option", f'name = "unused_{f.i}"', 'prefix = "no"', f'each = "unused_each_{f.i}"', "into = false"], r.choice([1, 1, 2]))
            so = [x for j, x in enumerate(so) if x.split(" ")[0] not in [y.split(" ")[0] for y in so[:j]]]
        r.shuffle(so)
        if so:
            fa.append("setter(" + ", ".join(so) + ")")
        elif c.struct_skip and f.optin == "word":
            fa.append("setter")
        if f.try_attr:
            fa.append("try_setter")
        T = ty(f.sh, f.F)
        if f.deflt == "trait":
            fa.append("default")
        elif f.dsite != f.i:
            fa.append(texts["default", f.dsite])
        elif f.deflt == "expr":
            e = lift(f, f"dflt::<{T}>({f.i})")
            fa.append(r.choice([f"default = {quote_str(e)}", f"default = {e}", f"default = {quote_str('let d = ' + e + '; d')}",
                                f"default = r#\"{{ /* {{ */ {e} }}\"#", f"default = if true {{ {e} }} else {{ ::core::unreachable!() }}",
                                f"default = (|| {e})()"]))
        elif f.deflt == "try":
            e1 = lift(f, f"dflt_try::<{T}>({f.i}).map_err({err_map(c)})?")
            e2 = f"match dflt_try::<{T}>({f.i}) {{ Ok(d) => {lift(f, 'd')}, Err(t) => return Err(::core::convert::Into::into(({err_map(c)})(t))) }}"
            ch = [f"default = {quote_str(e1)}", f"default = {e1}", f"default = {quote_str(e2)}"]
            if c.pat != OWN and not names:
                et = {"gen": STRING, "noval": "crate::db::UninitializedFieldError", "custom": "crate::MyErr"}[c.err]
                dflt_methods.append(f"fn mk_{f.i}_(&self) -> Result<{T}, {et}> {{ dflt_try::<{T}>({f.i}).map_err({err_map(c)}) }}")
                ch.append(f'default = "self.mk_{f.i}_()?"')
            fa.append(r.choice(ch))
        if f.deflt in ("expr", "try"):
            texts["default", f.i] = fa[-1]
        BTy = ty(f.bsh, f.F, f.bt, proj=f.bproj)
        fm = []
        if f.store == "precise":
            fm.append(f"ty = {quote_str(BTy)}")
        if f.csite != f.i:
            fm.append(texts["build", f.csite])
        elif f.cust:
            if f.cust_all:
                see = f"self" if not names else f"any_ref::<{B}{gd}, {BT}>(self)"
                call = f"custom_all{'_try' if f.cust == 'try' else ''}::<{T}>({f.i}, {see})"
            else:
                ref = f"&self.{f.name}"
                if f.bt:
                    a, b = ty(f.bsh, f.F, f.bt), ty(f.bsh, f.F)
                    if f.store == "opt":
                        a, b = f"Option<{a}>", f"Option<{b}>"
                    ref = f"any_ref::<{a}, {b}>({ref})"
                call = f"custom{'_try' if f.cust == 'try' else ''}::<{T}>({f.i}, {'ob_pre' if f.store == 'precise' else 'ob_opt'}({ref}))"
            if f.cust == "try":
                call += f".map_err({err_map(c)})?"
            e = lift(f, call)
            fm.append(r.choice([f"build = {quote_str(e)}", f"build = {e}"]))
            texts["build", f.i] = fm[-1]
        if r.random() < 0.05 and not f.phantom:
            fm.append(r.choice(["public", "private", 'vis = "pub(crate)"']))
        if fm:
            r.shuffle(fm)
            fa.append("field(" + ", ".join(fm) + ")")
        if r.random() < 0.06:
            fa.append(r.choice(["public", "private", 'vis = "pub(crate)"']))
        r.shuffle(fa)
        if r.random() < 0.08:
            w("    /// Documented.")
        if r.random() < 0.04:
            w(r.choice(["    #[cfg(all())]", "    #[allow(dead_code)]", "    #[cfg(any())]\n    gone: Missing,", "    #[cfg_attr(all(), allow(unused))]"]))
        if r.random() < 0.05:
            w("    #[builder_field_attr(allow(dead_code))]")
        if r.random() < 0.05:
            w('    #[builder_setter_attr(doc = "more")]')
        if fa:
            if r.random() < 0.6:
                w(f"    #[builder({', '.join(fa)})]")
            else:
                for a in fa:
                    w(f"    #[builder({a})]")
        vis, T_ = r.choice(["pub ", "", "pub(crate) "]), ty(f.sh, f.F, f.tparam, f.optpath, f.proj)
        c.field_lines.append((len(out), vis, f.name, T_))
        w(f"    {vis}{f.name}: {T_},")
    w("}")
    # target
    c.struct_end = len(out)
    c.struct_text = "\n".join(out[3 + len(c.names):])
    w(f"impl Tgt for {c.struct}{gi} {{ fn obs(&self) -> Vec<Val> {{ vec![{', '.join(f'self.{f.name}.val()' for f in c.fields)}] }} }}")
    if c.sdef:
        lits = ", ".join(f"{f.name}: {lift(f, f'sd::<{ty(f.sh, f.F)}>({f.i})')}" for f in c.fields)
        see = "t.obs()" if not names else f"any_ref::<{c.struct}{gd}, {c.struct}{gi}>(&t).obs()"
        w(f"fn mk_all{gb}() -> {c.struct}{gd} {{ let t = {c.struct} {{ {lits} }}; sd_done({see}); t }}")
        w(f"fn mk_default{gb}() -> {c.struct}{gd} {{ sdflt(); mk_all() }}")
        w(f"fn mk_default_try{gb}() -> Result<{c.struct}{gd}, ::core::primitive::u64> {{ sdflt_try()?; Ok(mk_all()) }}")
        if c.sdef == "trait":
            w(f"impl{gb} Default for {c.struct}{gd} {{ fn default() -> Self {{ mk_default() }} }}")
    c.vtext = False
    if c.validate:
        et, mp = {"gen": (STRING, "inj_s"), "custom": ("crate::MyErr", "crate::MyErr::Inj")}[c.err]
        if c.err == "custom" and r.random() < 0.4:
            et, mp = STRING, "inj_s"
            c.vtext = True
        see = "b" if not names else f"any_ref::<{B}{gd}, {BT}>(b)"
        fn_ = f"fn check{gb}(b: &{B}{gd}) -> Result<(), {et}> {{ on_validate({see}).map_err({mp}) }}"
        if c.validate_method:
            w(f"impl{gb} {B}{gd} {{ fn check(b: &{B}{gd}) -> Result<(), {et}> {{ on_validate({see}).map_err({mp}) }} }}")
        else:
            w(fn_)
    if dflt_methods:
        w(f"impl {B} {{ {' '.join(dflt_methods)} }}")
    # error
    if c.err == "custom":
        w("fn eo(e: crate::MyErr) -> ErrObs { e.obs() }")
    else:
        E = f"{B}Error"
        more = f"{E}::ValidationError(s) => ErrObs::Text(s, d)," if c.err == "gen" else ""
        w(f"fn eo(e: {E}) -> ErrObs {{ let d = e.to_string(); match e {{ {E}::UninitializedField(n) => ErrObs::Uninit(n.to_string(), d), {more} #[allow(unreachable_patterns)] _ => ErrObs::Other(d) }} }}")
    # glue
    w(f"type B = {BT};")
    w(f"impl Bld for {BT} {{")
    obs = []
    for f in c.fields:
        obs.append({"phantom": "FObs::Phantom", "opt": f"ob_opt(&self.{f.name})", "precise": f"ob_pre(&self.{f.name})"}[f.store])
    w(f"fn obs(&self) -> Vec<FObs> {{ vec![{', '.join(obs)}] }}")
    w("fn any(&self) -> &dyn ::core::any::Any { self }")
    cf = "match src.any().downcast_ref::<B>() { Some(s) => { Clone::clone_from(self, s); true } None => false }" if c.clone else "false"
    w(f"fn clone_from_b(&mut self, src: &dyn Bld) -> ::core::primitive::bool {{ {cf} }}")
    w(f"fn clone_b(&self) -> Option<Box<dyn Bld>> {{ {'Some(Box::new(Clone::clone(self)))' if c.clone else 'None'} }}")
    arms = {OWN: [], MUT: [], IMM: []}
    for f in c.fields:
        if not f.setter:
            continue
        a = f.bsh[1:] if f.strip and f.bsh.startswith("O") else f.bsh
        A = ty(a, f.F)
        calls = [("Plain", f"arg::<{A}>(c)", f.method, False)]
        if f.into:
            calls.append(("Into", f"raw::<{A}>(c)", f.method, False))
            if a.startswith("O"):
                calls.append(("Lift", f"lift::<{ty(a[1:], f.F)}>(c)", f.method, False))
        if f.try_:
            tm = f"try_{unraw(f.method)}"
            calls.append(("Try", f"rawtry::<{A}>(c)", tm, "e.0"))
            calls.append(("TryId", f"arg::<{A}>(c)", tm, "match e {}"))
        if f.each == 1:
            calls.append(("Each", f"arg::<V<{f.F}>>(c)", f.each_name, False))
        elif f.each == 2:
            calls.append(("EachInto", f"raw::<V<{f.F}>>(c)", f.each_name, False))
        for how, a_, m, fallible in calls:
            call = f"insim(|| B::{m}(me, a))"
            if f.pat == MUT:
                body = (f"let me = self; let p = me as *const Self; match {call} {{ Ok(r) => MutRet::Same(r as *const Self == p), Err(e) => MutRet::Err({fallible}) }}"
                        if fallible else f"let me = self; let p = me as *const Self; let r = {call}; MutRet::Same(r as *const Self == p)")
            else:
                me = "let me = self;" if f.pat == IMM else "let me = *self;"
                body = (f"{me} match {call} {{ Ok(n) => NewRet::New(Box::new(n)), Err(e) => NewRet::Err({fallible}) }}"
                        if fallible else f"{me} NewRet::New(Box::new({call}))")
            arms[f.pat].append(f"({f.i}, How::{how}) => {{ let a = {a_}; {body} }}")
    w("fn op_mut(&mut self, c: &mut Call) -> MutRet { match (c.f, c.how) { " + "\n".join(arms[MUT]) + " _ => MutRet::Na } }")
    w("fn op_ref(&self, c: &mut Call) -> NewRet { match (c.f, c.how) { " + "\n".join(arms[IMM]) + " _ => NewRet::Na } }")
    w("fn op_own(self: Box<Self>, c: &mut Call) -> NewRet { match (c.f, c.how) { " + "\n".join(arms[OWN]) + " _ => NewRet::Na } }")
    pk = []
    for f in c.fields:
        if f.store == "opt":
            pk.append(f"{f.i} => poke_opt(&mut self.{f.name}, c),")
        elif f.store == "precise":
            pk.append(f"{f.i} => poke_pre(&mut self.{f.name}, c),")
    w("fn poke(&mut self, c: &mut Call) { match c.f { " + " ".join(pk) + " _ => {} } }")
    conv = "match r { Ok(t) => Ok(Box::new(t) as Box<dyn Tgt>), Err(e) => Err(eo(e)) }"
    if c.pat == OWN:
        w("fn build_ref(&self) -> Option<Result<Box<dyn Tgt>, ErrObs>> { None }")
        w(f"fn build_own(self: Box<Self>) -> Option<Result<Box<dyn Tgt>, ErrObs>> {{ let me = *self; let r = insim(|| B::{c.build_name}(me)); Some({conv}) }}")
    else:
        w(f"fn build_ref(&self) -> Option<Result<Box<dyn Tgt>, ErrObs>> {{ let r = insim(|| B::{c.build_name}(self)); Some({conv}) }}")
        w("fn build_own(self: Box<Self>) -> Option<Result<Box<dyn Tgt>, ErrObs>> { None }")
    w("}")
    ce = c.create_empty or "create_empty"
    ctors = []
    if not c.custom_ctor:
        ctors.append("|| Box::new(<B as Default>::default())")
    else:
        w(f"impl{gcl} {B}{gd} {{ pub fn new_builder() -> Self {{ Self::{ce}() }} }}")
        ctors.append("|| Box::new(B::new_builder())")
    if c.custom_ctor or c.extra_ctor:
        ctors.append(f"|| Box::new(B::{ce}())")
    w(f"pub static CFG: Cfg = Cfg {{ desc: r##\"{json.dumps(describe(c, len(ctors)))}\"##, new: &[{', '.join(ctors)}] }};")
    if c.around:
        dress(c, out, f"{B}Error" if c.err != "custom" else None)
    w("}")
    return "\n".join(out)


def emit_struct(c):
    """The struct definition alone."""
    if not hasattr(c, "struct_text"):
        emit(c)
    return c.struct_text


def describe(c, nctors):
    return {
        "name": c.name, "pat": c.pat, "clone": c.clone, "validate": c.validate, "err": c.err, "vtext": c.vtext, "sdef": c.sdef,
        "ctors": nctors,
        "fields": [{
            "name": f.name, "f": f.F, "sh": plain(f.sh), "bsh": plain(f.bsh), "store": f.store, "pat": f.pat, "setter": f.setter,
            "into": bool(f.into), "strip": bool(f.strip), "try": bool(f.try_), "each": f.each, "def": f.deflt,
            "cust": f.cust, "dsite": f.dsite, "csite": f.csite} for f in c.fields],
    }


def features(c):
    """Which properties this definition has something to say about."""
    p = {"C01", "C05", "C08", "C15", "C14"}
    if any(f.try_ for f in c.fields):
        p.add("C02")
    if c.pat != OWN:
        p.add("C03")
    if c.clone:
        p.add("C04")
    if c.validate:
        p.add("C06")
    if c.sdef or any(f.deflt for f in c.fields):
        p.add("C07")
    if any(f.pat != OWN and (f.into or f.try_ or f.pat == IMM or f.each == 2) for f in c.fields):
        p.add("C09")
    if any(f.each for f in c.fields):
        p.add("C10")
    if any(f.store == "precise" or f.cust for f in c.fields):
        p.add("C12")
    if any(f.phantom for f in c.fields):
        p.add("C13")
    if c.around:
        p.add("C19")
    return p


MAIN_HEAD = r'''
#![allow(unused, clippy::all)]
pub use derive_builder as db;
pub mod prelude {
    pub use derive_builder::Builder;
    pub use dbsim::ctx::insim;
    pub use dbsim::exec::Cfg;
    pub use dbsim::probe::*;
    pub use dbsim::val::*;
    pub use crate::MyErr;
    /// The same option under names the macro cannot know.
    pub type Opt<T> = Option<T>;
    pub mod alias {
        pub type Option<T> = core::option::Option<T>;
    }
    /// Well-known names that mean the type they are given.
    pub type Rc<X> = X;
    pub type Arc<X> = X;
    pub type Cell<X> = X;
    pub type Mutex<X> = X;
    pub type PhantomData<X> = X;
    pub type HashMap<X> = X;
    pub type Cow<X> = X;
    pub mod std_like {
        pub type Vec<X> = X;
        pub type Box<X> = X;
    }
    /// Uses lifetimes and const parameters without changing the type.
    pub trait Proj<X> {
        type Out;
    }
    impl<X> Proj<X> for &() {
        type Out = X;
    }
    impl<X, const M: usize> Proj<X> for [(); M] {
        type Out = X;
    }
}
use dbsim::probe::{inj_s, ErrObs};
pub fn inj_u(t: u64) -> db::UninitializedFieldError {
    db::UninitializedFieldError::new(Box::leak(inj_s(t).into_boxed_str()))
}
/// A user-supplied error type.
pub enum MyErr {
    Uninit(db::UninitializedFieldError),
    Inj(u64),
    Text(String),
}
impl From<db::UninitializedFieldError> for MyErr {
    fn from(e: db::UninitializedFieldError) -> Self {
        dbsim::probe::err_conv(0);
        MyErr::Uninit(e)
    }
}
impl From<String> for MyErr {
    fn from(s: String) -> Self {
        dbsim::probe::err_conv(1);
        MyErr::Text(s)
    }
}
impl MyErr {
    pub fn obs(self) -> ErrObs {
        match self {
            MyErr::Uninit(e) => ErrObs::Uninit(e.field_name().to_string(), e.to_string()),
            MyErr::Inj(t) => ErrObs::Text(inj_s(t), inj_s(t)),
            MyErr::Text(s) => ErrObs::Text(s.clone(), s),
        }
    }
}
'''


def program(configs, place=None):
    mods = "\n".join(emit(c) for c in configs)
    refs = ", ".join(f"{c.name}::cfg()" if c.around and c.around["local"] else f"&{c.name}::CFG" for c in configs)
    head = MAIN_HEAD
    if place:
        head = placed_head(place)
    return head + mods + f"\nfn main() {{ dbsim::driver::main(&[{refs}]) }}\n"


def library(configs, place):
    """The crate next to a program, with the macros around its definitions. To be made after the program."""
    if place["edition"] == "2015":
        return ""
    dep = "db_renamed" if place["rename"] else "derive_builder"
    return "\n".join([f"pub use {dep} as db;"] + [c.far for c in configs if c.around and c.around["far"]]) + "\n"


# ---------------------------------------------------------------- surroundings (C19)
#
# The same definitions, expanded elsewhere: another edition, a crate without std, the dependency under another name,
# inside a function or a macro, among items that are named like those of the standard library.

PLAIN_PLACE = {"edition": "2021", "nostd": False, "rename": False}


def gen_place(seed):
    r = random.Random(seed ^ 0x91ACE)
    return {"edition": weighted(r, [("2018", 30), ("2021", 30), ("2024", 30), ("2015", 10)]),
            "nostd": r.random() < 0.4, "rename": r.random() < 0.45}


def surround(c, place, variant):
    """Decides what is around a definition (in a place that all definitions of the program share)."""
    r = random.Random(c.seed ^ 0xA20D)
    if place["nostd"] and c.err != "custom":
        c.no_std = True
    if place["rename"]:
        c.alias = True
    c.around = {"direct": place["rename"] and r.random() < 0.5, "local": r.random() < 0.25, "shadow": r.random() < 0.75,
                "wrap": weighted(r, [(None, 60), ("tt", 10), ("body", 10), ("args", 25)]),
                "far": place["edition"] != "2015" and r.random() < 0.5, "seed": c.seed ^ 0xA20E,
                "nostd": place["nostd"], "variant": variant}
    c.around["far"] = bool(c.around["far"] and c.around["wrap"])
    if c.around["far"] and r.random() < 0.5:
        c.alias = True
    return c


def around_words(c, place):
    """What is unusual around a definition, for the record."""
    a = c.around
    out = ["edition " + place["edition"]]
    out += [w for w, on in [("no_std crate", place["nostd"]), ("renamed dependency", place["rename"]), ("inside a function", a["local"]),
                            ("names taken", a["shadow"]), ("from a macro of another crate", a["far"]),
                            ("from a macro", a["wrap"] and not a["far"])] if on]
    return out


def strip_around(c):
    c.around = None
    return c


# Names the generated code has no business to use unqualified, and what the rest of the program calls them instead.
TAKEN_TYPES = ["Result", "Vec", "Box", "String", "Option", "Infallible", "Formatter", "UninitializedFieldError", "Error", "Builder"]
TAKEN_TRAITS = ["Default", "Clone", "Into", "From", "TryInto", "TryFrom", "Extend", "Iterator", "IntoIterator", "ToString", "ToOwned",
                "Copy", "Sized", "Send", "Drop", "AsRef", "Debug", "Display", "PartialEq", "Eq", "Fn", "FnOnce", "Error"]
TAKEN_MACROS = ["format", "matches", "panic", "assert", "assert_eq", "debug_assert", "unreachable", "todo", "unimplemented", "vec", "println",
                "concat", "stringify", "write", "writeln", "format_args"]
TAKEN_MODS = ["core", "std", "alloc", "derive_builder", "export", "option", "result", "fmt", "default", "convert", "string"]
OWN_WORDS = re.compile(r"(derive\([^)]*\))|(?<![\w:.'#])(?:(vec)!|(Vec|Box|Result|Option|Default|Clone|Sized|Copy)\b(?!\s*::\s*<)|(e|n)\.to_string\(\))")


def dress(c, out, error):
    a = c.around
    r = random.Random(a["seed"])
    struct = "\n".join(out[3:c.struct_end])
    keep_option = bool(re.search(r"(?<![\w:])Option<", struct))

    def word(m):
        if m[1]:
            return m[1]
        if m[2]:
            return "h_vec!"
        if m[4]:
            return f"h_text(&{m[4]})"
        if m[3] == "Option" and keep_option:
            return "Option"
        return "h_" + m[3]

    def line(l):
        l = re.sub(r"(?<!\w)(::)?std::collections::VecDeque\b", "h_VecDeque", l)
        l = l.replace("::std::string::String", "h_String")
        l = re.sub(r"(?<![\w:])(::)?(std|core)::option::Option\b", "::core::option::Option" if a["nostd"] else r"::\2::option::Option", l)
        return OWN_WORDS.sub(word, l.replace("dyn ::core::any::Any", "dyn h_Any"))
    # A macro around the definition.
    start = 3 + len(c.names)
    wrap = a["wrap"]
    call = "def! {}"
    if wrap == "args":
        given, made = [], []
        for at, vis, name, T in c.field_lines:
            f = next(f for f in c.fields if f.name == name)
            if r.random() < 0.5:
                n, v, t = name, vis, T
                if r.random() < 0.5:
                    n = f"$n{f.i}"
                    made.append(n + ":ident")
                    given.append(name)
                if r.random() < 0.6:
                    t = f"$t{f.i}"
                    made.append(t + ":ty")
                    given.append(T)
                if r.random() < 0.3:
                    v = f"$v{f.i} "
                    made.append(v.strip() + ":vis")
                    given.append(vis)
                out[at] = f"    {v}{n}: {t},"

        def lift_out(kind, rate, skip=None):
            def sub(m):
                if r.random() < rate and not (skip and skip in m[1]):
                    n = f"$x{len(made)}"
                    made.append(f"{n}:{kind}")
                    given.append(m[1])
                    return f"= {n}"
                return m[0]
            return sub
        for i in range(start, c.struct_end):
            if out[i].lstrip().startswith("#[builder("):
                # An identifier `self` from outside the macro would not be the method's.
                out[i] = re.sub(r'(?<!default )(?<!build )= ("(?:[^"\\\\]|\\\\.)*")', lift_out("literal", 0.25, "elf"), out[i])
                out[i] = re.sub(r"(?<=validate )= (check)\b", lift_out(r.choice(["ident", "path", "expr"]), 0.5), out[i])
                out[i] = re.sub(r"(?<=error )= (crate::MyErr)\b", lift_out("path", 0.5), out[i])
                if '"let' not in out[i]:
                    out[i] = re.sub(r'= (dflt::<[^()"]*>\(\d+\))(?=[,)])', lift_out("expr", 0.6), out[i])
                if "elf" not in out[i] and "$" not in out[i] and r.random() < 0.3:
                    # All of an attribute.
                    out[i] = re.sub(r"^(\s*)#\[(builder\(.*\))\]$", lambda m: f"{m[1]}#[$x{len(made)}]" + (made.append(f"$x{len(made)}:meta") or given.append(m[2]) or ""), out[i])
            elif out[i].startswith("pub struct ") and r.random() < 0.4:
                made.append("$s:ident")
                given.append(c.struct)
                out[i] = out[i].replace(c.struct, "$s", 1)
        call = "def! { " + "".join(x + " , " for x in given) + "end }"
        made = "".join(x + " , " for x in made) + "end"
    for i in range(1, len(out)):
        # The text of the description is data.
        data, sep, code = out[i].rpartition('"##, new: ')
        out[i] = data + sep + line(code)
    if wrap:
        body = out[start:c.struct_end]
        if wrap == "tt":
            made, call = "$($t:tt)*", "\n".join(["def! {"] + body + ["}"])
            body = ["$($t)*"]
        elif wrap == "body":
            made, call = "", "def! {}"
        else:
            call = line(call)
        body = ["macro_rules! def { (" + made + ") => {"] + body + ["} }"]
        if a["far"]:
            # The macro is another crate's.
            c.far = "\n".join(["#[macro_export]"] + body).replace("macro_rules! def ", f"macro_rules! def_{c.name} ")
            out[start:c.struct_end] = [call.replace("def!", f"crate::far::def_{c.name}!", 1)]
        else:
            out[start:c.struct_end] = body + [call]
    # Items of the same names.
    own = {n for n, _ in c.names} | {c.struct, c.builder_name or c.struct + "Builder", "T", "U", "N"}
    items = []
    if a["shadow"]:
        often = r.choice([0.2, 0.5, 0.9])
        ways = r.choice([["type"], ["trait"], ["glob"], ["type", "trait", "alias"]])
        eaches = any(f.each for f in c.fields)
        returns_uninit = not c.sdef and any(f.store == "opt" and not f.deflt and not f.cust for f in c.fields)
        globs = []
        for n in sorted(set(TAKEN_TYPES + TAKEN_TRAITS)):
            if r.random() >= often or n in own or n in ("Option",) and keep_option or n == "Builder":
                continue
            # Generated code calls these traits' functions by name.
            if n == "Extend" and eaches or n == "From" and returns_uninit:
                continue
            way = r.choice(ways)
            t = {"type": f"pub struct {n};", "trait": f"pub trait {n} {{}}", "alias": f"pub type {n} = ();", "glob": f"pub enum {n} {{}}"}[way]
            (globs if way == "glob" else items).append(t)
        if globs:
            items.append("mod same_names { " + " ".join(globs) + " }")
            items.append("use self::same_names::*;" if not a["local"] else "\n".join(globs))
        for n in TAKEN_MACROS:
            if r.random() >= often or n in ("write", "format_args") and error:
                continue
            items.append(f'macro_rules! {n} {{ ($($t:tt)*) => {{ compile_error!("the macro {n} of the definition\'s surroundings") }} }}')
        for n in TAKEN_MODS:
            # The error type implements std's trait where there is std.
            if r.random() >= often or n == "std" and error and not c.no_std:
                continue
            items.append(f"mod {n} {{}}")
    if error and not c.no_std:
        items.append(f"const _: () = {{ fn is_error<E: h_Error>() {{}} fn it() {{ is_error::<{error}>() }} }};")
    out[3:3] = items
    if a["local"]:
        out[3:3] = ["pub fn cfg() -> &'static Cfg {"]
        out[-1] += "\n&CFG }"


H_NAMES = """
    pub use ::core::option::Option as h_Option;
    pub use ::core::default::Default as h_Default;
    pub use ::core::clone::Clone as h_Clone;
    pub use ::core::marker::Sized as h_Sized;
    pub use ::core::marker::Copy as h_Copy;
    pub use STD::vec::Vec as h_Vec;
    pub use STD::boxed::Box as h_Box;
    pub use STD::string::String as h_String;
    pub use STD::collections::VecDeque as h_VecDeque;
    pub use STD::error::Error as h_Error;
    pub use ::core::any::Any as h_Any;
    pub use ::core::result::Result as h_Result;
    pub use STD::vec as h_vec;
    pub fn h_text<X: ::core::fmt::Display>(x: &X) -> h_String {
        STDPATH::string::ToString::to_string(x)
    }
"""


def placed_head(place):
    h = MAIN_HEAD
    std = "host" if place["nostd"] else "std"
    names = H_NAMES.replace("STDPATH", "crate::" + std if place["edition"] == "2015" else std).replace("STD", std)
    dep = "db_renamed" if place["rename"] else "derive_builder"
    h = h.replace("pub mod prelude {", "pub mod prelude {" + names, 1)
    h = h.replace("pub use derive_builder as db;", f"pub use {dep} as db;").replace("pub use derive_builder::Builder;", f"pub use {dep}::Builder;")
    root = ""
    if place["nostd"]:
        root += "#![no_std]\nextern crate std as host;\n"
    if place["edition"] == "2015":
        root += f"extern crate dbsim;\nextern crate {dep};\n" + ("extern crate core;\n" if not place["nostd"] else "")
    if place["nostd"]:
        root += "use host::prelude::v1::*;\n"
    # Inner attributes come first.
    lines = h.strip("\n").split("\n")
    attrs = [l for l in root.split("\n") if l.startswith("#![")]
    rest = [l for l in root.split("\n") if l and not l.startswith("#![")]
    if place["edition"] != "2015":
        rest.append("pub use FAR_DEFS as far;")
    return "\n".join(attrs + lines[:1] + rest + lines[1:]) + "\n"
