"""Texts of expansion requests: struct definitions (plain, exotic, rejected, corrupted) with few different names,
so that requests resemble each other without being equal."""
import random
import re

import corpus

FOCI = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15"]

GENERICS = [
    ("", ""), ("", ""), ("", ""), ("", ""),
    ("<T>", ""), ("<T: Clone>", ""), ("<T: Clone + Default, U>", ""), ("<'a>", ""), ("<'a, T: 'a>", ""), ("<const N: usize>", ""),
    ("<T>", "where T: Clone"), ("<'a, 'b: 'a, T, U: Into<T>>", "where T: PartialEq<U>, U: Clone + 'a"), ("<T = String>", ""),
    ("<T, const N: usize>", "where [T; N]: Default"),
]
NAMES = ["a", "b", "c", "value", "r#type", "name", "items", "try_into", "build", "x1", "_d", "the_field_with_a_long_name"]
TYPES = ["u8", "u32", "String", "Option<u8>", "Option<String>", "std::option::Option<Vec<u8>>", "::core::option::Option<T>", "Vec<String>",
         "Vec<T>", "HashMap<String, u32>", "T", "&'a str", "Box<dyn Fn(u8) -> u8>", "[u8; 4]", "[T; N]", "(u8, String)", "(Option<u8>)", "fn(u8) -> T",
         "Result<u8, String>", "<T as Iterator>::Item", "PhantomData<T>", "!", "Arc<Mutex<T>>", "my::Option<u8>", "crate::opt::Option<String>", "option::Option<u8>", "Opt<u8>", "Option<Option<u8>>", "(my::Option<u8>)", "impl Clone", "_", "Option", "Self"]
VIS = ["", "pub ", "pub(crate) ", "pub(in crate::a) ", "pub(super) "]
TRAITS = ["Debug", "Clone", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "serde::Serialize", "std::fmt::Debug", "Deserialize", "Default", "Copy"]

STRUCT = [
    'builder(pattern = "owned")', 'builder(pattern = "mutable")', 'builder(pattern = "immutable")',
    'builder(setter(into))', 'builder(setter(strip_option, into))', 'builder(setter(prefix = "with"))', 'builder(setter(skip))',
    'builder(default)', 'builder(default = "Self::make()")', 'builder(default = make())', 'builder(name = "FooMaker")', 'builder(name = "Other")',
    'builder(private)', 'builder(public)', 'builder(vis = "pub(crate)")', 'builder(field(private))', 'builder(field(public))', 'builder(field(vis = "pub(super)"))',
    'builder(build_fn(skip))', 'builder(build_fn(name = "finish"))', 'builder(build_fn(validate = "Self::check"))', 'builder(build_fn(error = "MyError"))',
    'builder(build_fn(error(validation_error = false)))', 'builder(build_fn(error(validation_error = false), private))', 'builder(build_fn(private, name = "done", validate = path::to::check))',
    'builder(custom_constructor)', 'builder(create_empty = "empty")', 'builder(custom_constructor, create_empty = "nothing")', 'builder(crate = "crate::re::db")',
    'builder(no_std)', 'builder(try_setter)', 'allow(dead_code)', 'allow(clippy::all, unused)', 'cfg(feature = "x")', 'doc = "Docs."', 'derive(Clone, Debug)', 'non_exhaustive',
    'builder_struct_attr(doc = "Struct attr")', 'builder_struct_attr(derive(Serialize))', 'builder_struct_attr(cfg(feature = "y"))', 'builder_impl_attr(allow(missing_docs))', 'builder_impl_attr(cfg(a))',
]
FIELD = [
    'builder(default)', 'builder(default = "42")', 'builder(default = "{ let a = 1; a + 2 }")', 'builder(default = compute(&self.a)?)', 'builder(default = "None")',
    'builder(setter(into))', 'builder(setter(into = false))', 'builder(setter(strip_option))', 'builder(setter(into, strip_option))', 'builder(setter(skip))', 'builder(setter(skip = false))', 'builder(setter(custom))',
    'builder(setter(name = "fill"))', 'builder(setter(prefix = "put"))', 'builder(setter(name = "fill", prefix = "put"))', 'builder(setter(each = "add"))', 'builder(setter(each(name = "push", into)))', 'builder(setter(each(name = "push", into = false), into, strip_option))',
    'builder(try_setter)', 'builder(try_setter, setter(into, name = "fill"))', 'builder(private)', 'builder(public)', 'builder(vis = "pub(self)")',
    'builder(pattern = "owned")', 'builder(pattern = "mutable")', 'builder(pattern = "immutable")',
    'builder(field(private))', 'builder(field(public))', 'builder(field(vis = "pub(crate)"))', 'builder(field(ty = "Vec<u8>"))', 'builder(field(ty = "Foo<T>", build = "self.a.clone().unwrap_or_default()"))', 'builder(field(build = "make(&self.b)?"))', 'builder(field(build = { let q = 1; q }))',
    'allow(dead_code)', 'allow(non_snake_case, unused_variables)', 'cfg(feature = "z")', 'cfg(not(test))', 'doc = "A field."', 'serde(rename = "q")',
    'builder_field_attr(serde(default))', 'builder_field_attr(doc = "x", cfg(b))', 'builder_setter_attr(must_use)', 'builder_setter_attr(doc = "Setter", allow(unused))', 'builder_field_attr(allow(a))',
]
BAD_STRUCT = [
    'builder(pattern = "frozen")', 'builder(unknown)', 'builder(setter(each = "x"))', 'builder(private, public)', 'builder(vis = "nonsense here")', 'builder(build_fn(validate = "1 + 1"))',
    'builder(build_fn(error(validation_error = false), validate = "check"))', 'builder(name = "not an ident")', 'builder(default = "")', 'builder(setter(into = "maybe"))', 'builder', 'builder = "x"', 'builder(derive = 3)',
    'builder(build_fn(error(foo = true)))', 'builder(pattern = "owned", pattern = "mutable")', 'builder(field(ty = "u8"))', 'builder(build_fn(nope), custom_constructor = 7, crate = 3)', 'builder_struct_attr = "x"', 'builder_impl_attr(123)', 'builder_struct_attr(1 +)', 'builder(setter(skip, skip))',
]
BAD_FIELD = [
    'builder(default = "")', 'builder(default = "{")', 'builder(unknown, another)', 'builder(setter(nope))', 'builder(setter(each))', 'builder(setter(each(into)))', 'builder(setter(each(name = 1)))', 'builder(private, public)', 'builder(private, vis = "pub")',
    'builder(setter(skip = 4))', 'builder(field(ty = ""))', 'builder(field(build = "let"))', 'builder(pattern = 5)', 'builder(try_setter = "yes")', 'builder_field_attr(123)', 'builder_setter_attr(123)', 'builder_field_attr', 'builder_setter_attr = "x"', 'builder(setter(custom = false, skip))',
    'builder(field(build = "a"), default = "b")', 'builder(field(build = "a"), default)', 'builder(field(ty = "u8"), default = "b")', 'builder(setter(skip), field(build = "c"))', 'builder(setter(custom = false))', 'builder(default, default)', 'builder(setter(prefix = "1x"))', 'builder(setter(name = ""))',
]


def derives(r):
    return "builder(derive(%s))" % ", ".join(r.choice(TRAITS) for _ in range(r.randint(1, 7)))


def some(r, good, bad, p, pbad, most):
    out = []
    while len(out) < most and r.random() < p:
        out.append(r.choice(bad) if r.random() < pbad else r.choice(good))
    return out


def merge(r, attrs):
    """Several #[builder(..)] may be written as one."""
    b = [a for a in attrs if a.startswith("builder(")]
    if len(b) < 2 or r.random() < .5:
        return attrs
    return ["builder(%s)" % ", ".join(a[len("builder("):-1] for a in b)] + [a for a in attrs if not a.startswith("builder(")]


def wild(r, pbad):
    """As a list of lines, attributes on lines of their own."""
    gen, wh = r.choice(GENERICS)
    lines = ["#[%s]" % a for a in merge(r, some(r, STRUCT, BAD_STRUCT, .65, pbad, 6))]
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        lines.insert(r.randint(0, len(lines)), "#[%s]" % derives(r))
    name = r.choice(["Foo", "Foo", "Foo", "Foo", "Bar", "r#Box"])
    vis = r.choice(VIS)
    shape = r.random()
    if shape < .02:
        return lines + [f"{vis}enum {name}{gen} {{", "A,", "B(u8),", "}"]
    if shape < .03:
        return lines + [f"{vis}struct {name}{gen};"]
    if shape < .04:
        return lines + [f"{vis}struct {name}{gen}(u8, String);"]
    if shape < .05:
        return lines + [f"{vis}union {name}{gen} {{", "a: u8,", "}"]
    lines.append(f"{vis}struct {name}{gen} {wh} {{")
    names = list(NAMES)
    r.shuffle(names)
    for n in names[:r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 12])]:
        lines += ["#[%s]" % a for a in merge(r, some(r, FIELD, BAD_FIELD, .6, pbad, 5))]
        t = r.choice(TYPES[:14]) if r.random() < .7 else r.choice(TYPES)
        lines.append(f"{r.choice(VIS)}{n}: {t},")
    return lines + ["}"]


def vary(r, lines, pool):
    """The same definition with one or two lines different."""
    lines = list(lines)
    for _ in range(r.choice([1, 1, 2])):
        attr = [i for i, l in enumerate(lines) if l.lstrip().startswith("#[")]
        inner = [i for i, l in enumerate(lines) if l.rstrip().endswith(",")]
        k = r.random()
        if k < .35 and attr:
            del lines[r.choice(attr)]
        elif k < .45 and attr:
            i = r.choice(attr)
            lines.insert(i, lines[i])
        elif k < .75 and inner:
            lines.insert(r.choice(inner), "#[%s]" % (derives(r) if r.random() < .05 else r.choice(FIELD + BAD_FIELD[:4])))
        elif k < .85:
            lines.insert(0, "#[%s]" % (derives(r) if r.random() < .3 else r.choice(STRUCT)))
        elif k < .93 and inner:
            i = r.choice(inner)
            lines[i] = re.sub(r": .*,$", ": %s," % r.choice(TYPES[:14] if r.random() < .6 else TYPES), lines[i])
        elif len(attr) > 1:
            i, j = r.sample(attr, 2)
            lines[i], lines[j] = lines[j], lines[i]
    return lines


PANICS = ["builder_field_attr(123)", "builder_setter_attr(123)", "builder_field_attr(= x)", "builder(setter(custom = false, skip))", "builder_setter_attr()"]


def panicking(r):
    """Definitions whose pass-through attributes are no attributes, alone or together with things that are only wrong."""
    k = r.random()
    if k < .3:
        at = ["#[%s]" % x for x in r.sample(PANICS[:3] + BAD_FIELD, r.randint(1, 3)) + [r.choice(PANICS)]]
        r.shuffle(at)
        return ["#[builder(pattern = \"mutable\")]", "struct Foo {"] + at + [f"{r.choice(VIS)}a: u8,", "}"]
    ls = wild(r, r.choice([0, .1, .4]))
    inner = [i for i, l in enumerate(ls) if l.endswith(",")]
    if k < .5 or not inner:
        return ["#[%s]" % r.choice(["builder_struct_attr(123)", "builder_impl_attr(123)", "builder_struct_attr(= 1)"])] + ls
    for _ in range(r.randint(1, 2)):
        ls.insert(r.choice(inner), "#[%s]" % r.choice(PANICS))
    return ls


def corrupt(r, text):
    """What a damaged or half-typed source gives."""
    k = r.random()
    toks = re.findall(r"\s+|\w+|[^\w\s]", text)
    real = [i for i, t in enumerate(toks) if not t.isspace()]
    if k < .3:
        return text[:r.randrange(1, len(text))]
    if k < .6:
        for _ in range(r.randint(1, 3)):
            toks[r.choice(real)] = ""
    elif k < .8:
        for _ in range(r.randint(1, 2)):
            i, j = r.choice(real), r.choice(real)
            toks[i], toks[j] = toks[j], toks[i]
    else:
        i = r.choice(real)
        toks[i] = toks[i] + " " + toks[r.choice(real)]
    return "".join(toks)


def family(seed):
    """Several texts that resemble each other, as (kind, text)."""
    r = random.Random(seed)
    base = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if r.random() < .4:
            c = corpus.gen_config(r.getrandbits(40), r.choice(FOCI), "c0", r.choice(["std", "std", "alloc", "core"]))
            ls = [l for l in corpus.emit_struct(c).split("\n") if l != "#[derive(Builder)]"]
            base.append(("documented", ls))
        else:
            pbad = r.choice([0, 0, .05, .25])
            base.append(("exotic" if not pbad else "faulty", wild(r, pbad)))
    out = []
    for k, ls in base:
        out.append((k, "\n".join(ls)))
        for _ in range(r.choice([1, 2, 3, 4])):
            out.append(("variant", "\n".join(vary(r, ls, base))))
        if r.random() < .5:
            out.append(("corrupted", corrupt(r, "\n".join(ls))))
    for _ in range(r.choice([0, 0, 1, 2])):
        out.append(("odd pass-through attributes", "\n".join(panicking(r))))
    seen, res = set(), []
    for k, t in out:
        if t not in seen and len(t) < 20000:
            seen.add(t)
            res.append((k, t))
    return res


# ---------------------------------------------------------------- damage inside attributes, which always reaches the macro

TOKEN = re.compile(r"""\s+|b?"(?:\\.|[^"\\])*"|r#*"[^"]*"#*|'(?:\\.|[^\\'])'|r#\w+|\w+|::|=>|->|[^\w\s]""")
WORDS = ["builder", "setter", "default", "field", "each", "into", "strip_option", "try_setter", "name", "prefix", "skip", "custom", "ty", "build", "build_fn", "validate",
         "error", "validation_error", "pattern", "public", "private", "vis", "derive", "crate", "create_empty", "custom_constructor", "no_std", "doc", "cfg", "allow",
         "true", "false", "self", "Self", "fn", "let", "_", "x", "r#type", "dyn", "async", "String", "union", "where", "super"]
ATOMS = ['""', '"a b"', '"{"', '"}"', '"}{"', '"pub"', '"::"', '"crate"', '"r#x"', '"x y z"', '"0"', '"\\u{0}"', '"é"', '"_"', '"self"', '"Vec<"', '"let a"', '"return"', '"a;"', '"// c"', '"/* c */ 1"', '"\\n"', '"#"', '"owned"',
         '"loop {}"', '"break"', "b\"x\"", "'c'", "b'c'", "1", "-1", "1.5", "0xFFu8", "340282366920938463463374607431768211456", "true", "|x| x", "{}", "[]", "()", "(,)", "{ ; }", "[1, 2]", "a::b", "::a", "a::", "<T as U>::V", "!", "?", "#", "$x", "..", "=", "==", ",",
         ";", ":", "@", "&mut x", "'a", "if a {} else {}", "match x {}", "Vec<u8>", "impl X", "unsafe {}", "x!()", "x![a]", "vec![1]", "let x = 1", "return", "#[x]", "#![x]", "concat!(\"a\")", "include_str!(\"x\")", "stringify!(x)"]


def trees(text):
    """A list of tokens and (open, list, close)."""
    stack = [[]]
    for t in TOKEN.findall(text):
        if t.isspace():
            continue
        if t in "([{":
            stack.append([t])
        elif t in ")]}":
            x = stack.pop()
            stack[-1].append((x[0], x[1:], t))
        else:
            stack[-1].append(t)
    return stack[0]


def flatten(ts):
    return " ".join(t if isinstance(t, str) else f"{t[0]} {flatten(t[1])} {t[2]}" for t in ts)


def lists(ts, depth=0):
    out = [ts]
    for t in ts:
        if not isinstance(t, str):
            out += lists(t[1], depth + 1)
    return out


def hurt(r, ts):
    """Changes one thing, in place, keeping brackets balanced."""
    ls = lists(ts)
    l = r.choice(ls)
    i = r.randrange(len(l)) if l else 0
    k = r.random()
    if not l or k < .2:
        l.insert(i, r.choice(WORDS) if r.random() < .5 else r.choice(ATOMS))
    elif k < .4:
        del l[i]
    elif k < .5:
        l.insert(i, l[i])
    elif k < .6:
        l[i] = r.choice(WORDS)
    elif k < .72:
        l[i] = r.choice(ATOMS)
    elif k < .8:
        m = r.choice(ls)
        if m and m is not l:
            m.insert(r.randrange(len(m)), flatten([l[i]]))
    elif k < .86:
        j = r.randrange(len(l))
        l[i], l[j] = l[j], l[i]
    elif k < .92:
        a, b = r.choice(["()", "[]", "{}"])
        l[i] = (a, [l[i]], b)
    elif k < .96:
        if isinstance(l[i], str):
            l.insert(i, l[i])
        else:
            a, b = r.choice(["()", "[]", "{}"])
            l[i] = (a, l[i][1], b)
    else:
        n = r.choice([3, 10, 40])
        a, b = r.choice(["()", "[]"])
        for _ in range(n):
            l[i] = (a, [l[i]], b)


def damage(r, lines):
    lines = list(lines)
    at = [i for i, l in enumerate(lines) if l.lstrip().startswith("#[") and l.rstrip().endswith("]")]
    inner = [i for i, l in enumerate(lines) if l.rstrip().endswith(",") and ":" in l]
    if not at or r.random() < .25:
        x = r.choice(FIELD + BAD_FIELD + PANICS + ["builder", "builder()", "builder_field_attr()", "builder_setter_attr(a, b)", "builder(setter(custom = false))", "builder(setter = 1)"])
        where = r.choice(inner) if inner and r.random() < .8 else 0
        if where == 0:
            x = r.choice(STRUCT + BAD_STRUCT + ["builder_struct_attr()", "builder_impl_attr(a b)", "builder_impl_attr(x, y)"])
        lines.insert(where, f"#[{x}]")
        at.append(where)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.choice(at)
        if not lines[i].lstrip().startswith("#["):
            continue
        body = lines[i].strip()[2:-1]
        try:
            ts = trees(body)
        except IndexError:
            continue
        for _ in range(r.choice([1, 1, 1, 2, 4]) if ts else 0):
            # What is around the outermost brackets stays most of the time, or it is no attribute any more.
            if not isinstance(ts[-1], str) and r.random() < .95:
                hurt(r, ts[-1][1])
            elif len(ts) > 2 and r.random() < .5:
                ts[2:] = [r.choice(ATOMS)]
            else:
                hurt(r, ts)
            if not ts:
                break
        lines[i] = f"#[{flatten(ts)}]"
    return lines


LETTERS = "abcxyzABC_0189" * 3 + "ßéÉжλ中文あ𝒳ℵª"
ODD_TYPES = ["<u8 as Option>::Option", "Option<>", "Option<'static>", "Option<{ 1 }>", "std::option::Option", "Option(u8) -> u8", "::Option<u8>", "m!(u8)", "Option<u8, u16>", "dyn Option<u8> + 'static",
             "Option::<u8>", "&'static mut Option<u8>", "fn(&u8) -> &u8", "[u8; { 1 + 1 }]", "for<'a> fn(&'a u8)", "impl Option<u8>", "!", "_", "*const Option<u8>", "Option<Option<>>", "Option<'a, u8>",
             "Option<T = u8>", "Option<{}>", "Option<-1>", "core::option::Option<u8>", "std::option::Option<>", "Self", "Option<Self>", "(Option<u8>,)", "()", "unsafe extern \"C\" fn(...)", "Option<u8>::Out"]
AROUND = [("(", ")"), ("Option<", ">"), ("&", ""), ("Vec<", ">"), ("[", "; 1]"), ("(", ",)"), ("fn(", ")"), ("[", "]"), ("Box<dyn Fn(", ")>"), ("*mut ", ""), ("std::option::Option<", ">"), ("a::b::<", ">::C")]


def odd_name(r, first="abcxyzABC_ßéÉжλ中文あ"):
    """An identifier of any length, in which some letters have several bytes."""
    n = r.choice([0, 1, 2, 5, 20, 40, 80, 200])
    x = r.choice(first) + "".join(r.choice(LETTERS) for _ in range(r.randint(0, n)))
    return x if x != "_" else "__"


def odd_type(r):
    t = r.choice(ODD_TYPES + ["Option<u8>", "Option<u8>", "u8", "String"])
    if r.random() < .5:
        one = r.choice(AROUND + AROUND[:1] * 4)
        for _ in range(r.choice([1, 2, 5, 60])):
            a, b = one if r.random() < .9 else r.choice(AROUND)
            t = a + t + b
    return t


def reshape(r, lines):
    """The same fields in another kind of type, or unusual fields."""
    lines = list(lines)
    head = [i for i, l in enumerate(lines) if re.search(r"\b(struct|enum|union)\b.*\{$", l) and not l.startswith("#")]
    if head:
        i = head[0]
        k = r.random()
        if k < .08:
            lines[i] = re.sub(r"\bstruct\b", "union", lines[i])
        elif k < .15:
            return lines[:i] + [re.sub(r"\bstruct\b", "enum", lines[i]), "A {"] + lines[i + 1:] + [",}"]
        elif k < .22:
            return lines[:i] + [r.choice(["struct Foo;", "struct Foo();", "struct Foo {}", "enum Foo {}", "struct Foo<T>(T) where T: Clone;", "struct r#Foo {}"])]
        elif k < .75:
            for _ in range(r.choice([1, 1, 2, 4])):
                x = r.choice(["", "pub ", "pub(in a::b) ", "pub(crate) "]) + r.choice(["x", "_x", "r#fn", "r#self_", "r#type", odd_name(r), odd_name(r)]) + f": {odd_type(r)},"
                if r.random() < .5:
                    w = r.sample(["into", "strip_option", 'each = "each_it"', 'prefix = "p"', f'name = "{odd_name(r)}"', f'prefix = "{odd_name(r)}"', 'each(name = "each_it", into)'], r.choice([1, 1, 2, 3]))
                    x = f"#[builder({r.choice(['', 'try_setter, '])}setter({', '.join(w)}){r.choice(['', ', default'])})] " + x
                lines.insert(i + 1, x)
        else:
            lines[i] = re.sub(r"\bstruct (\w|#)+", lambda m: "struct " + r.choice(["r#type", "É", "_Foo", "FooBuilder", "Self_", "F" * 200, odd_name(r), odd_name(r), odd_name(r)]), lines[i])
    return lines


def questions(seed):
    """Texts whose answers are judged, as (kind, text, what has to come out): well-formed, wrong, and damaged inside attributes."""
    r = random.Random(seed)
    out = []
    for _ in range(r.choice([1, 2, 3])):
        k = r.random()
        if k < .3:
            c = corpus.gen_config(r.getrandbits(40), r.choice(FOCI), "c0", r.choice(["std", "std", "alloc", "core"]))
            ls = [l for l in corpus.emit_struct(c).split("\n") if l != "#[derive(Builder)]"]
            kind = "documented"
        elif k < .85:
            pbad = r.choice([0, .05, .25])
            ls, kind = wild(r, pbad), "exotic" if not pbad else "faulty"
        else:
            ls, kind = panicking(r), "odd pass-through attributes"
        out.append((kind, ls))
        for _ in range(r.choice([2, 4, 8])):
            d = damage(r, ls)
            out.append(("damaged attribute", d))
            if r.random() < .2:
                out.append(("damaged twice", damage(r, d)))
        if r.random() < .5:
            out.append(("another shape", reshape(r, wild(r, 0) if kind == "faulty" or r.random() < .3 else ls)))
        if r.random() < .3:
            out.append(("truncated or scrambled", [corrupt(r, "\n".join(ls))]))
    seen, res = set(), []
    for k, ls in out:
        t = "\n".join(ls)
        if t not in seen and len(t) < 20000:
            seen.add(t)
            res.append((k, t, "builder" if k == "documented" else None))
    return res


# ---------------------------------------------------------------- definitions with known mistakes

# Options and the places the documentation has them in.
KNOWN = {
    "struct": ["pattern", "setter", "default", "name", "public", "private", "vis", "build_fn", "field", "derive", "custom_constructor", "create_empty", "crate", "no_std", "try_setter"],
    "struct setter": ["prefix", "into", "strip_option", "skip"],
    "build_fn": ["skip", "name", "validate", "public", "private", "vis", "error"],
    "error": ["validation_error"],
    "struct field": ["public", "private", "vis"],
    "field": ["pattern", "setter", "default", "public", "private", "vis", "try_setter", "field"],
    "field setter": ["prefix", "name", "into", "strip_option", "skip", "custom", "each"],
    "field field": ["public", "private", "vis", "ty", "build"],
    "each": ["name", "into"],
}
WRAP = {"struct": "{}", "struct setter": "setter({})", "build_fn": "build_fn({})", "error": "build_fn(error({}))", "struct field": "field({})",
        "field": "{}", "field setter": "setter({})", "field field": "field({})", "each": 'setter(each(name = "one_more", {}))'}
RIGHT = {"pattern": 'pattern = "owned"', "name": 'name = "other"', "vis": 'vis = "pub(crate)"', "derive": "derive(Debug)", "create_empty": 'create_empty = "fresh"', "crate": 'crate = "::derive_builder"',
         "validate": 'validate = "check"', "error": 'error = "MyErr"', "prefix": 'prefix = "with"', "ty": 'ty = "u8"', "build": 'build = "1"', "each": 'each = "one_more"', "setter": "setter(into)", "build_fn": "build_fn(private)",
         "field": "field(private)", "validation_error": "validation_error = true"}
FLAGS = ["public", "private", "custom_constructor", "no_std", "try_setter"]
BOOLS = ["into", "strip_option", "skip", "custom", "validation_error"]
NAMED = ["name", "create_empty", "prefix"]


def misspelled(r, known):
    w = r.choice(known)
    i = r.randrange(len(w))
    x = r.choice([w[:i] + w[i + 1:], w[:i] + w[i] + w[i:], w[:i] + r.choice("abexyz_") + w[i + 1:], w + r.choice(["s", "_", "2"]), "nope", "unknown", w.upper(), w[:i] + w[i:i + 2][::-1] + w[i + 2:]])
    return x if re.fullmatch(r"[A-Za-z_]\w*", x) and x != "_" else "nope"


def mistake(r, level):
    """(kind, attribute) that no definition may have at this level ("struct" or "field")."""
    places = [p for p in KNOWN if p.split(" ")[0] == level or (level == "struct") == (p in ("build_fn", "error")) and " " not in p and p not in ("struct", "field") and (p == "each") == (level == "field")]
    place = r.choice(places)
    known = KNOWN[place]
    wrap = lambda x: "builder(%s)" % WRAP[place].format(x)
    k = r.random()
    if k < .25:
        x = misspelled(r, known)
        while x in known or (place == "each" and x == "into"):
            x = misspelled(r, known)
        return "unknown option", wrap(x + r.choice(["", " = true", '= "x"', "(x)", "(a, b = 1)"]))
    if k < .4:
        x = r.choice(sorted({w for p in KNOWN for w in KNOWN[p]} - set(known)))
        return "option in the wrong place", wrap(RIGHT.get(x, x))
    if k < .55:
        w = r.choice(known)
        v = {"public": ["= true", "(x)", '= "pub"'], "default": ['= ""', '= "{"', '= "1)"', r'= "let x =\n\n2 2"', '= "1 } { 2"', '= "  "', '= "/* none */"', '= "5 //"', r'= "let x = 1;\nlet"', r'= "a b\n\n  c"', '("x")', "(a)"], "pattern": ["", "= 5", '= "frozen"', '= ""', '= "Owned"'], "vis": ["", '= "nonsense here"', "= 3"], "crate": ["", "= 3", '= "1"'],
             "validate": ["", "= 1", '= "1 + 1"', '= ""'], "error": ["", "= 1", '= "1 + 1"', "()"], "derive": ["= 3", '= "Debug"', "", "(3)", '("Debug")'], "ty": ["", "= 1", '= ""', '= "1 +"'], "build": ["", '= "let"', '= "{"', r'= "make(\n  1 2,\n)"', '= "// none"', '= ""', r'= "\n"', '= "1; } fn x() { 2"'],
             "each": ["= 3", "(into)", "", "(name = 1)", "()", '= "a b"'], "setter": ["= 1", '= "into"'], "build_fn": ["= 1", '= "skip"'], "field": ["= 1", '= "private"']}
        v = v.get(w) or v.get({**dict.fromkeys(FLAGS, "public")}.get(w), None) or {w in BOOLS: ["= 4", '= "maybe"', "(true)", "= 1.5"], w in NAMED: ["", "= 1", '= "a b"', '= ""', "(x)", '= "1x"']}.get(True)
        if v:
            return "wrong value", wrap(w + " " + r.choice(v))
    if k < .7:
        p = r.choice([p for p in places if "vis" in KNOWN[p]])
        vis = r.choice(['vis = "pub(crate)"', 'vis = "pub"', 'vis = ""', 'vis = "pub(in crate::a)"'])
        x = r.sample(["public", "private", vis], r.choice([2, 2, 2, 3]))
        if r.random() < .3 and p in ("struct", "field"):
            return "two visibilities", "builder(%s)" % x[0], *["builder(%s)" % y for y in x[1:]]
        return "two visibilities", "builder(%s)" % WRAP[p].format(", ".join(x))
    if k < .8:
        w = r.choice(known)
        x = RIGHT.get(w, w)
        if r.random() < .5 and place in ("struct", "field"):
            return "said twice", wrap(x), wrap(x)
        return "said twice", wrap(f"{x}, {x}")
    if k < .9:
        n = r.choice(["builder_struct_attr", "builder_impl_attr"] if level == "struct" else ["builder_field_attr", "builder_setter_attr"])
        return "pass-through of no attribute", n + r.choice(["", ' = "x"', "(123)", "()", "(= 1)", '("x")', "(a b)", "(1 + 1)", "(,)", "(a, b)"])
    if level == "field":
        x = [r.choice(["default", 'default = "1"', "default = 2", "default = { 3 }"]), r.choice(['field(build = "4")', 'field(ty = "u8")', 'field(ty = "u8", build = "5")', "field(build = { 6 })", 'field(private, ty = "Vec<u8>")'])]
        r.shuffle(x)
        if r.random() < .4:
            return "default of a custom field", *["builder(%s)" % y for y in x]
        return "default of a custom field", "builder(%s)" % ", ".join(x)
    x = [r.choice(['validate = "check"', "validate = a::check"]), r.choice(["error(validation_error = false)", 'error(validation_error = "false")']), *r.sample(["private", 'name = "finish"', "skip", "skip = false"], 2)][:r.choice([2, 2, 3, 4])]
    if len(x) == 4 and x[2][:4] == x[3][:4]:
        x.pop()
    r.shuffle(x)
    return "validation without an error for it", "builder(build_fn(%s))" % ", ".join(x)


def items(lines):
    """[(first line of its attributes, line of the item)] of a definition; the struct itself comes first."""
    out, start = [], None
    for i, l in enumerate(lines):
        t = l.strip()
        if start is None:
            start = i
        if t.startswith("#[") or t.startswith("///") or not t:
            continue
        out.append((start, i))
        start = None
        if t == "}":
            out.pop()
            break
    return out


def sound(lines):
    """Without the attributes that contradict earlier ones on the same item."""
    drop = set()
    for a, b in items(lines):
        seen = set()
        for i in range(a, b):
            t = lines[i].strip()
            if not t.startswith("#[builder("):
                continue
            inner = trees(t[2:-1])[1][1]
            names = {w for k, w in enumerate(inner) if isinstance(w, str) and (not k or inner[k - 1] == ",")}
            n = len([w for k, w in enumerate(inner) if isinstance(w, str) and (not k or inner[k - 1] == ",")])
            names = {"vis" if w in ("public", "private") else w for w in names}
            custom = re.search(r"field\(.*(ty|build) =", t)
            if custom:
                names.add("default")
            if n + bool(custom) != len(names) or names & seen:
                drop.add(i)
            else:
                seen |= names
    return [l for i, l in enumerate(lines) if i not in drop]


def mistakes(seed):
    """Definitions without and with known mistakes, as (kind, text, what has to come out)."""
    r = random.Random(seed)
    res = []
    for _ in range(r.choice([1, 1, 2])):
        if r.random() < .6:
            c = corpus.gen_config(r.getrandbits(40), r.choice(FOCI), "c0", r.choice(["std", "std", "alloc", "core"]))
            base = [l for l in corpus.emit_struct(c).split("\n") if l != "#[derive(Builder)]"]
            res.append(("documented", "\n".join(base), "builder"))
        else:
            base = sound(wild(r, 0))
        its = items(base)
        if not re.search(r"\bstruct\b.*\{$", base[its[0][1]]):
            continue
        if r.random() < .5:
            # The same attributes on an item that is no struct with named fields.
            head = [l for l in base[:its[0][1]] if l.strip()]
            for kind in r.sample(["enum", "union", "tuple", "unit", "enum of structs"], 2):
                name = r.choice(["Foo", "r#type", "C0"])
                gen = r.choice(["", "<T>", "<'a, T: Clone>"])
                fields = "\n".join(base[its[0][1] + 1:])
                body = {"enum": f"enum {name}{gen} {{ A, B(u8), C {{ x: u8 }} }}", "union": f"union {name}{gen} {{\n{fields}", "tuple": f"struct {name}{gen}(pub u8, String);", "unit": f"struct {name};",
                        "enum of structs": f"enum {name} {{ A {{\n{fields} }}"}[kind]
                text = "\n" + "\n".join(head + [r.choice(["", "pub ", "pub(crate) "]) + body])
                res.append(("not a struct with named fields", text, [[1, text.count("\n") + 1]]))
        for _ in range(r.choice([4, 8, 12])):
            lines, at, kinds = list(base), [], []
            pick = r.sample(range(len(its)), min(len(its), r.choice([1, 1, 1, 1, 2, 3])))
            if r.random() < .25:
                pick[0] = 0
            for i in sorted(set(pick), reverse=True):
                k, *attrs = mistake(r, "field" if i else "struct")
                a, b = its[i]
                grew = 0
                for x in attrs:
                    w = r.randint(a, b)
                    lines.insert(w, f"#[{x}]")
                    b += 1
                    grew += 1
                at = [[p + grew, q + grew] for p, q in at] + [[a + 2, b + 2]]
                kinds.append(k)
            # A mistake of the struct itself hides those of its fields.
            res.append((kinds[0] if len(set(kinds)) == 1 else "several kinds", "\n" + "\n".join(lines), at[-1:] if 0 in pick else at))
    return res or mistakes(seed + 1)
