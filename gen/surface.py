"""Struct definitions together with what the documentation says their builder looks like from outside."""
import random
import re

import expgen

OPTIONS = [("Option<{}>", 1), ("std::option::Option<{}>", 1), ("core::option::Option<{}>", 1), ("::core::option::Option<{}>", 1), ("::std::option::Option<{}>", 1), ("my::Option<{}>", 0), ("Opt<{}>", 0), ("option::Option<{}>", 0)]
INNER = ["u8", "String", "Vec<u8>", "Box<dyn Fn(u8) -> u8>", "[u8; 4]", "(u8, String)", "&'static str", "std::collections::HashMap<String, u8>", "Option<u8>", "T", "Vec<T>", "&'a str", "[T; N]", "fn(&str) -> Option<u8>", "W<Option<T>>"]
NAMES = ["alpha", "beta", "gamma", "r#type", "r#fn", "_lead", "x1", "the_field_with_a_long_name", "value", "item", "items", "build_it", "größe", "Upper", "to_s", "try_it", "default", "new", "converted", "clone", "__", "error"]
VIS = ["", "", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate::a)"]
PATTERNS = ["owned", "mutable", "immutable"]
PREFIXES = ["with", "set", "r#in", "put_", "_x", "Do"]
TRAITS = ["Debug", "PartialEq", "Eq", "Hash", "std::fmt::Debug", "::core::cmp::PartialEq", "serde::Serialize", "PartialOrd", "Ord"]


def unraw(n):
    return n[2:] if n.startswith("r#") else n


STD = "Option|Result|PhantomData|Into|TryInto|Default|Display|Debug|From|Error|Clone|Extend|String|PartialEq"


def flat(s):
    """Without white space; the library's own names without their paths."""
    return re.sub(r"\s+", "", re.sub(r"(?<![\w:])(?:::)?(?:std|core)(?:::\w+)*::(%s)\b" % STD, r"\1", s))


def written(attr):
    """As an attribute or a doc comment."""
    return attr if attr.startswith("/") else f"#[{attr}]"


def meant(attr):
    """What it is in tokens."""
    return flat('doc = "%s"' % attr.strip("/* ") if attr.startswith("/") else attr)


class Marks:
    """Attributes that can be told apart."""

    def __init__(self, r):
        self.r, self.n = r, 0

    def new(self, form):
        self.n += 1
        return form.replace("@", f"mark{self.n}_")


def visibility(r):
    """(options, the visibility they mean)"""
    v = r.choice(VIS[1:])
    return r.choice([("public", "pub"), ("private", ""), ("private", ""), (f'vis = "{v}"', v)])


def spread(r, options):
    """Attributes with these options, in any order, in one or several attributes."""
    options = list(options)
    r.shuffle(options)
    out = []
    while options:
        k = r.choice([1, 1, 2, 3, 9])
        out.append("builder(%s%s)" % (", ".join(options[:k]), r.choice(["", "", "", ","])))
        options = options[k:]
    return out


def among(r, attrs, own):
    """Both lists, each in its order."""
    attrs, own, out = list(attrs), list(own), []
    while attrs or own:
        out.append((attrs if attrs and (not own or r.random() < .5) else own).pop(0))
    return out


FORWARD_FIELD = ["/// @", "/** @ */", 'doc = r#"@"#', 'doc = "@"', 'cfg(feature = "@")', "allow(@)", 'cfg(not(@))', 'doc = concat!("a", "@")']
FORWARD_STRUCT = ['cfg(feature = "@")', "allow(@)", "cfg(any(@, b))"]
STAY_FIELD = ['serde(rename = "@")', "must_use_@", "deny(@)", "warn(@)", "my::doc(@)", 'deprecated = "@"', 'cfg_attr(x, @)', "docs(@)", "doc_alias(@)"]
STAY_STRUCT = STAY_FIELD + ["/// @", 'doc = "@"', "derive(Clone, @)", "repr(@)"]
PASSED = ['serde(rename = "@")', "allow(@)", 'doc = "@"', "deprecated(note = \"@\")", "a::b::@", "cfg(@)", '@ = "x"', "cfg_attr(@, b)", "builder(@)"]


BOUNDS = ["Clone", "Into<u8>", "std::fmt::Debug", "'static", "?Sized", "Fn(u8) -> u8", "for<'x> Fn(&'x u8) -> &'x u8", "Iterator<Item = (u8, [u8; 2])>", "::core::clone::Clone", "my::Clone", "Default", "Extend<u8>", "'a"]
WHERE = ["Vec<T>: Clone", "for<'x> T: PartialEq<&'x u8>", "[u8; N]: Default", "String: From<T>", "T: Send", "T: 'a", "'a: 'static", "Option<T>: std::fmt::Debug + Send", "W<T, N>: Sized", "<T as my::Tr>::Item: Copy", "U: Into<T>", "u8: Copy"]


def parameters(r):
    """((declaration, arguments, where clause), what holds of the parameters)"""
    decl, names, holds, where = [], [], {}, []
    if r.random() < .3:
        return ("", "", ""), {"order": [], "bounds": {}, "where": [], "defaults": {}}
    some = [n for n, p in [("'a", .35), ("'b", .2), ("T", .6), ("U", .3), ("r#type", .05), ("N", .3)] if r.random() < p]
    late = False
    defaults = {}
    for n in some:
        if n[0] == "'":
            b = ["'a"] if n == "'b" and "'a" in some and r.random() < .5 else []
            text, d = n, None
        elif n == "N":
            b, text, d = ["const usize"], "const N", "3"
        else:
            b = [x for x in r.sample(BOUNDS, r.choice([0, 0, 0, 1, 2, 3])) if x != "'a" or "'a" in some]
            text, d = n, r.choice(["String", "Vec<u8>", "(u8, u8)"])
        text += ": usize" if n == "N" else ": " + " + ".join(b) if b else ""
        if n[0] != "'" and (late or r.random() < .3):
            late = True
            text += " = " + d
            defaults[n] = d
        decl.append(text)
        holds[n] = {flat(x) for x in b}
    for w in r.sample(WHERE, r.choice([0, 0, 0, 1, 2, 4])):
        if all(x in some for x in re.findall(r"'[ab]\b|\b[TUN]\b", w)):
            where.append(w)
    rest = []
    for w in where:
        k = re.match(r"('a|T|U): (.*)$", w)
        if k:
            holds[k[1]] |= {flat(x) for x in k[2].split(" + ")}
        else:
            rest.append(flat(w))
    if not some:
        where = rest = []
    return ("<%s%s>" % (", ".join(decl), r.choice(["", ","])) if some else "", "<%s>" % ", ".join(some) if some else "", "where " + ", ".join(where) + r.choice(["", ","]) if where else ""), \
        {"order": some, "bounds": holds, "where": rest, "defaults": defaults}


def limited(limits, of, clone, defaults):
    """The facts about the parameters of one item."""
    out = [f"{of} order " + ",".join(limits["order"])]
    for n, b in limits["bounds"].items():
        b = b | ({"Clone"} if clone and n[0] != "'" and n != "N" else set())
        out.append(f"{of} {n}: " + "+".join(sorted(b)))
    out += [f"{of} where {w}" for w in limits["where"]]
    return out + [f"{of} {n}={d}" for n, d in limits["defaults"].items() if defaults]


def definition(seed):
    """(text, what is there to see (C16), where attributes are (C17), what holds of type parameters (C18))"""
    r = random.Random(seed)
    m = Marks(r)
    see, attrs = [], {}

    # Each option is there or not; a third of the definitions use few of them.
    rate = r.choice([.15, .3, .5, .7])

    def want(p=1.0):
        return r.random() < rate * p

    name = r.choice(["Foo", "Foo", "r#Box", "F", "lower", "FooBuilder"])
    generics, limits = parameters(r)
    svis = r.choice(VIS)
    so = []
    builder = unraw(name) + "Builder"
    if want(.5):
        builder = r.choice(["Maker", "Foo_B", "r#Builder2", "make", "Builder"])
        so.append(f'name = "{builder}"')
    svisopt = None
    if want():
        o, svisopt = visibility(r)
        so.append(o)
    bvis = svis if svisopt is None else svisopt
    pattern = "mutable"
    if want():
        pattern = r.choice(PATTERNS)
        so.append(f'pattern = "{pattern}"')
    sfvis = None
    if want(.7):
        o, sfvis = visibility(r)
        so.append(f"field({o})")
    setter, prefix, into, strip, skip = [], None, False, False, None
    if want(.7):
        prefix = r.choice(PREFIXES)
        setter.append(f'prefix = "{prefix}"')
    if want(.5):
        into = r.random() < .8
        setter.append(r.choice(["into = true", "into"]) if into else "into = false")
    if want(.5):
        strip = r.random() < .8
        setter.append(r.choice(["strip_option = true", "strip_option"]) if strip else "strip_option = false")
    if want(.4):
        skip = r.random() < .8
        setter.append(r.choice(["skip = true", "skip"]) if skip else "skip = false")
    if setter:
        r.shuffle(setter)
        so.append("setter(%s)" % ", ".join(setter))
    try_all = want(.5)
    if try_all:
        so.append("try_setter")
    bf, bname, bmvis, bskip, error, errvar = [], "build", bvis, False, None, True
    if want(.5):
        bname = r.choice(["make", "finish", "r#try"])
        bf.append(f'name = "{bname}"')
    if want():
        o, bmvis = visibility(r)
        bf.append(o)
    if want(.3):
        bskip = r.random() < .7
        bf.append(r.choice(["skip", "skip = true"]) if bskip else "skip = false")
    k = r.random()
    if want(.5):
        if k < .5:
            error = r.choice(["MyErr", "a::Error", "Box<dyn std::error::Error>", "::std::string::String"][:2] + ["::a::E"])
            bf.append(f'error = "{error}"')
        else:
            errvar = r.random() < .4
            bf.append(f"error(validation_error = {str(errvar).lower()})")
    if want(.4) and errvar:
        bf.append(r.choice(['validate = "check"', "validate = Self::check"]))
    if bf:
        r.shuffle(bf)
        so.append("build_fn(%s)" % ", ".join(bf))
    empty = "create_empty"
    if want(.4):
        empty = r.choice(["empty", "fresh"])
        so.append(f'create_empty = "{empty}"')
    ctor = want(.4)
    if ctor:
        so.append("custom_constructor")
    no_std = want(.3)
    if no_std:
        so.append("no_std")
    crate = "::derive_builder"
    if want(.2):
        crate = r.choice(["crate::reexport", "::other_name", "db"])
        so.append(f'crate = "{crate}"')
    sdef = want(.3)
    if sdef:
        so.append(r.choice(["default", 'default = "Self::new()"', "default = make()"]))
    derive = []
    if want(.7):
        derive = list({t.split("::")[-1]: t for t in r.sample(TRAITS, r.choice([1, 2, 3]))}.values())
        so.append("derive(%s)" % ", ".join(derive))

    def decorate(p, *kinds):
        """Attributes with their places: [(text, places)]"""
        out = []
        while r.random() < p and len(out) < 7:
            if out and r.random() < .1:
                # Two alike are two.
                out.append(r.choice(out))
                continue
            forms, wrap, where = r.choice(kinds)
            x = m.new(r.choice(forms))
            out.append((wrap.format(x) if wrap else x, where, x))
        return out

    deco = r.choice([0, .3, .6, .8])
    sa = decorate(deco, (FORWARD_STRUCT, "", ["struct", "impl"]), (STAY_STRUCT, "", []), (PASSED, "builder_struct_attr({})", ["struct"]), (PASSED, "builder_impl_attr({})", ["impl"]))
    body, need_clone = [], pattern != "owned"
    names = r.sample(NAMES, r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7]))
    taken = {bname, empty}
    fns = {}
    fields = []
    for n in names:
        fo = []
        inner = r.choice([t for t in INNER if ("T" not in re.findall(r"\w+", t) or "T" in generics[1]) and ("'a" not in t or "'a" in generics[1]) and ("N" not in re.findall(r"\w+", t) or "N" in generics[1])])
        shape, is_option = r.choice(OPTIONS) if r.random() < .4 else ("{}", 0)
        ty = shape.format(inner)
        if ty == "Option<u8>":
            is_option, inner = 1, "u8"
        svisf, pat = None, pattern
        if want(.7):
            o, svisf = visibility(r)
            fo.append(o)
        if want(.5):
            pat = r.choice(PATTERNS)
            fo.append(f'pattern = "{pat}"')
        fs, fprefix, fname, finto, fstrip, fskip, custom, each = [], prefix, None, into, strip, None, False, None
        if want(.4):
            fprefix = r.choice(PREFIXES)
            fs.append(f'prefix = "{fprefix}"')
        if want(.4):
            fname = r.choice(["renamed", "r#loop", "fill", unraw(n) + "_2"])
            fs.append(f'name = "{fname}"')
        if want(.5):
            finto = r.random() < .7
            fs.append(r.choice(["into = true", "into"]) if finto else "into = false")
        if want(.5):
            fstrip = r.random() < .7
            fs.append(r.choice(["strip_option = true", "strip_option"]) if fstrip else "strip_option = false")
        if want(.4):
            en = r.choice(["push", "add_one", "r#yield"])
            einto = r.random() < .4
            each = (en, einto)
            fs.append(r.choice([f'each(name = "{en}", into)', f'each(name = "{en}", into = true)']) if einto else r.choice([f'each = "{en}"', f'each(name = "{en}")', f'each(into = false, name = "{en}")']))
        enabled = True if fs else skip is not True
        if want(.4):
            fskip = r.random() < .7
            fs.append(r.choice(["skip", "skip = true"]) if fskip else "skip = false")
            enabled = not fskip
        if want(.3):
            custom = r.random() < .7
            fs.append(r.choice(["custom", "custom = true"]) if custom else "custom = false")
        if fs:
            r.shuffle(fs)
            fo.append("setter(%s)" % ", ".join(fs))
        elif skip and r.random() < .4:
            fo.append("setter")
            enabled = True
        has_setter = enabled and not custom
        ff, fvis, fty = [], sfvis if enabled and sfvis is not None else "", None
        if want(.5):
            o, fvis = visibility(r)
            ff.append(o)
        if want(.3):
            fty = r.choice(["u8", "Vec<u8>", "String", "Option<String>", "my::Custom<u8>"])
            ff.append(f'ty = "{fty}"')
        build = want(.2)
        if build:
            ff.append(r.choice(['build = "self.make()?"', "build = { self.x }"]))
        if ff:
            r.shuffle(ff)
            fo.append("field(%s)" % ", ".join(ff))
        if want(.4) and not build and fty is None:
            fo.append(r.choice(["default", 'default = "f()"', "default = 1 + 2"]))
        try_ = try_all
        if want(.3):
            try_ = True
            fo.append("try_setter")
        setname = fname or (f"{unraw(fprefix)}_{unraw(n)}" if fprefix else n)
        mine = [x for x in ([setname] if has_setter else []) + ([f"try_{unraw(setname)}"] if has_setter and try_ else []) + ([each[0]] if has_setter and each else [])]
        if set(mine) & taken or len(set(mine)) < len(mine):
            continue
        taken |= set(mine)
        need_clone |= pat != "owned"
        fa = decorate(deco, (FORWARD_FIELD, "", ["field", "setter"]), (STAY_FIELD, "", []), (PASSED, "builder_field_attr({})", ["field"]), (PASSED, "builder_setter_attr({})", ["setter"]))
        body += [written(x) for x in among(r, spread(r, fo), [x for x, _, _ in fa])]
        body.append(f"{r.choice(VIS)} {n}: {ty},")
        # What has to come out.
        at = fty if fty is not None else ty
        see.append(f"field {n} {fvis}: " + (f"PhantomData<{ty}>" if not enabled else at if fty is not None else f"Option<{ty}>"))
        at_option = is_option if fty is None else fty == "Option<String>"
        at_inner = inner if fty is None else "String"
        attrs[f"field {n}"] = [x for _, w, x in fa if "field" in w]
        if has_setter:
            vis = svisf if svisf is not None else svisopt if svisopt is not None else "pub"
            recv, ret = {"owned": ("self", "Self"), "mutable": ("&mut self", "&mut Self"), "immutable": ("&self", "Self")}[pat]
            t = at_inner if fstrip and at_option else at
            see.append(f"fn {setname} {vis}: ({recv}, {'impl Into<' + t + '>' if finto else t}) -> {ret}")
            if try_:
                see.append(f"fn try_{unraw(setname)} {vis}: ({recv}, impl TryInto<{t}>) -> Result<{ret}, Error>")
            if each:
                see.append(f"fn {each[0]} {vis}: ({recv}, {'impl Into<any>' if each[1] else 'any'}) -> {ret}")
            for x in mine:
                attrs[f"fn {x}"] = [x for _, w, x in fa if "setter" in w]
    see.append(f"struct {builder} {bvis}: {generics[1]}")
    err = error or unraw(builder) + "Error"
    if not bskip:
        see.append(f"fn {bname} {bmvis}: ({'self' if pattern == 'owned' else '&self'}) -> Result<{name}{generics[1]}, {err}>")
    see.append(f"fn {empty} : () -> Self")
    if error is None:
        see += [f"enum {err} {bvis}: ", f"impl Display for {err}", f"impl From<UninitializedFieldError> for {err}", f"impl Debug for {err}"]
        if errvar:
            see += [f"impl From<String> for {err}", f"variant {err}::ValidationError"]
        if not no_std:
            see.append(f"impl Error for {err}")
        see.append(f"variant {err}::UninitializedField")
    see.append(("no " if ctor else "") + f"impl Default for {builder}")
    if need_clone:
        see.append(f"impl Clone for {builder}")
    if not error is None:
        see.append(f"no enum {unraw(builder)}Error")
    see += [f"impl {t.split('::')[-1]} for {builder}" for t in derive]
    if not any(x.split("::")[-1] == "Clone" for x in derive) and not need_clone:
        see.append(f"no impl Clone for {builder}")
    attrs["struct"] = [x for _, w, x in sa if "struct" in w]
    attrs["impl"] = [x for _, w, x in sa if "impl" in w]
    head = [written(x) for x in among(r, spread(r, so), [x for x, _, _ in sa])]
    text = "\n".join(head + [f"{svis} struct {name}{generics[0]} {generics[2]} {{"] + body + ["}"])
    clones = pattern != "owned"
    holds = limited(limits, "struct", False, True) + limited(limits, "impl", clones, False) + ([] if ctor else limited(limits, "default", clones, False))
    return text, sorted({flat(s) for s in see}), {flat(k): [meant(x) for x in v] for k, v in attrs.items()}, {"": sorted({flat(s) for s in holds})}


def family(seed, which):
    """[(kind, text, what is expected of it)]: definitions whose builder is known, among others that may be wrong or damaged."""
    r = random.Random(seed)
    out = []
    for _ in range(r.choice([3, 5, 8])):
        known = definition(r.getrandbits(60))
        out.append(("known builder", known[0], known[which]))
    for _ in range(r.choice([0, 1, 1, 2])):
        out += [(k, t, None) for k, t, _ in r.sample(r.choice([expgen.questions, expgen.mistakes])(r.getrandbits(60)), 2)]
    r.shuffle(out)
    return out
