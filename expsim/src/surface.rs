//! What an answer gives its user: names, visibilities and signatures (C16), and where the user's attributes are (C17).
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;

/// Known under one name, wherever they are taken from.
const STD: &[&str] = &["Option", "Result", "PhantomData", "Into", "TryInto", "Default", "Display", "Debug", "From", "Error", "Clone", "Extend", "String", "PartialEq"];

fn words(t: TokenStream, sub: &[String], out: &mut Vec<String>) {
    for x in t {
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                out.push(a.into());
                words(g.stream(), sub, out);
                out.push(b.into());
            }
            TokenTree::Ident(i) => {
                let i = i.to_string();
                if STD.contains(&&i[..]) {
                    // Back over the path in front.
                    let mut k = out.len();
                    let mut known = false;
                    while k >= 2 && out[k - 1] == ":" && out[k - 2] == ":" {
                        k -= 2;
                        if k > 0 && out[k - 1].chars().all(|c| c.is_alphanumeric() || c == '_') && !out[k - 1].is_empty() {
                            known |= out[k - 1] == "core" || out[k - 1] == "std";
                            k -= 1;
                        } else {
                            break;
                        }
                    }
                    if known {
                        out.truncate(k);
                    }
                }
                out.push(if sub.contains(&i) { "any".into() } else { i });
            }
            x => out.push(x.to_string()),
        }
    }
}

fn norm(t: impl ToTokens, sub: &[String]) -> String {
    let mut out = vec![];
    words(t.to_token_stream(), sub, &mut out);
    out.concat().split_whitespace().collect::<String>().replace(",>", ">")
}

fn mentions(t: impl ToTokens, name: &str) -> bool {
    t.to_token_stream().into_iter().any(|x| match x {
        TokenTree::Ident(i) => i == name,
        TokenTree::Group(g) => mentions(g.stream(), name),
        _ => false,
    })
}

fn params(g: &syn::Generics) -> String {
    let p: Vec<String> = g
        .params
        .iter()
        .map(|p| match p {
            syn::GenericParam::Lifetime(l) => l.lifetime.to_string(),
            syn::GenericParam::Type(t) => t.ident.to_string(),
            syn::GenericParam::Const(c) => c.ident.to_string(),
        })
        .collect();
    if p.is_empty() {
        String::new()
    } else {
        format!("<{}>", p.join(","))
    }
}

/// What holds of the parameters, wherever it is written.
fn limits(g: &syn::Generics, of: &str, out: &mut Vec<String>) {
    let mut order = vec![];
    let mut bounds: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for p in &g.params {
        let (n, b) = match p {
            syn::GenericParam::Lifetime(l) => (l.lifetime.to_string(), l.bounds.iter().map(|b| b.to_string()).collect()),
            syn::GenericParam::Type(t) => {
                out.extend(t.default.iter().map(|d| format!("{of}{}={}", t.ident, norm(d, &[]))));
                (t.ident.to_string(), t.bounds.iter().map(|b| norm(b, &[])).collect())
            }
            syn::GenericParam::Const(c) => {
                out.extend(c.default.iter().map(|d| format!("{of}{}={}", c.ident, norm(d, &[]))));
                (c.ident.to_string(), vec![format!("const{}", norm(&c.ty, &[]))])
            }
        };
        order.push(n.clone());
        bounds.insert(n, b);
    }
    for w in g.where_clause.iter().flat_map(|w| &w.predicates) {
        let (n, b) = match w {
            syn::WherePredicate::Type(w) if w.lifetimes.is_none() => (norm(&w.bounded_ty, &[]), w.bounds.iter().map(|b| norm(b, &[])).collect()),
            syn::WherePredicate::Lifetime(w) => (w.lifetime.to_string(), w.bounds.iter().map(|b| b.to_string()).collect::<Vec<_>>()),
            w => (String::new(), vec![norm(w, &[])]),
        };
        match bounds.get_mut(&n) {
            Some(x) => x.extend(b),
            None if n.is_empty() => out.push(format!("{of}where{}", b[0])),
            None => out.push(format!("{of}where{n}:{}", b.join("+"))),
        }
    }
    out.push(format!("{of}order{}", order.join(",")));
    for (n, mut b) in bounds {
        b.sort();
        b.dedup();
        out.push(format!("{of}{n}:{}", b.join("+")));
    }
}

fn signature(s: &syn::Signature) -> String {
    let names: Vec<String> = s.generics.type_params().map(|t| t.ident.to_string()).collect();
    let bounds = |n: &str| {
        let mut b: Vec<String> = s.generics.type_params().filter(|t| t.ident == n).flat_map(|t| &t.bounds).map(|b| norm(b, &names)).collect();
        for w in s.generics.where_clause.iter().flat_map(|w| &w.predicates) {
            if let syn::WherePredicate::Type(w) = w {
                if w.bounded_ty.to_token_stream().to_string() == n {
                    b.extend(w.bounds.iter().map(|b| norm(b, &names)));
                }
            }
        }
        b.sort();
        if b.is_empty() {
            "any".to_string()
        } else {
            format!("impl{}", b.join("+"))
        }
    };
    let args: Vec<String> = s
        .inputs
        .iter()
        .map(|a| match a {
            syn::FnArg::Receiver(r) => match (&r.reference, &r.mutability) {
                (Some(_), Some(_)) => "&mutself".into(),
                (Some(_), None) => "&self".into(),
                _ => "self".into(),
            },
            syn::FnArg::Typed(t) => {
                let ty = t.ty.to_token_stream().to_string();
                if names.contains(&ty) {
                    bounds(&ty)
                } else {
                    norm(&t.ty, &[])
                }
            }
        })
        .collect();
    let ret = match &s.output {
        syn::ReturnType::Default => "()".into(),
        syn::ReturnType::Type(_, t) => {
            let mut r = norm(t, &[]);
            if let syn::Type::Path(p) = &**t {
                let last = p.path.segments.last().unwrap();
                if let (true, syn::PathArguments::AngleBracketed(a)) = (last.ident == "Result", &last.arguments) {
                    if a.args.len() == 2 && names.iter().any(|n| mentions(&a.args[1], n)) {
                        r = format!("Result<{},Error>", norm(&a.args[0], &[]));
                    }
                }
            }
            r
        }
    };
    let unsafe_ = if s.unsafety.is_some() { "unsafe" } else { "" };
    let async_ = if s.asyncness.is_some() { "async" } else { "" };
    format!("{unsafe_}{async_}({})->{ret}", args.join(","))
}

/// The number after "mark".
fn number(s: &str) -> Option<String> {
    s.match_indices("mark").map(|(k, _)| s[k + 4..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).find(|n| !n.is_empty())
}

/// The user's attributes, which are marked, and derives.
fn marked(a: &[syn::Attribute], derive: bool) -> Vec<String> {
    a.iter()
        .map(|a| a.meta.to_token_stream().to_string().split_whitespace().collect::<String>())
        .filter_map(|s| if number(&s).is_some() { Some(s) } else if derive && s.starts_with("derive(") { Some("derive".into()) } else { None })
        .collect()
}

fn derived(a: &[syn::Attribute], of: &str, out: &mut Vec<String>) {
    for a in a {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.push(format!("impl{}for{of}", m.path.segments.last().unwrap().ident));
                Ok(())
            });
        }
    }
}

pub struct Seen {
    facts: Vec<String>,
    visible: Vec<String>,
    limits: Vec<String>,
    attrs: BTreeMap<String, Vec<Vec<String>>>,
}

impl Seen {
    fn put(&mut self, vis: &syn::Visibility, fact: String) {
        if !matches!(vis, syn::Visibility::Inherited) {
            self.visible.push(fact.clone());
        }
        self.facts.push(fact);
    }

    fn at(&mut self, place: String, a: &[syn::Attribute], derive: bool) {
        self.attrs.entry(place).or_default().push(marked(a, derive));
    }

    fn items(&mut self, items: &[syn::Item]) {
        for i in items {
            match i {
                syn::Item::Struct(s) => {
                    self.put(&s.vis, format!("struct{}{}:{}", s.ident, norm(&s.vis, &[]), params(&s.generics)));
                    self.at("struct".into(), &s.attrs, true);
                    limits(&s.generics, "struct", &mut self.limits);
                    derived(&s.attrs, &s.ident.to_string(), &mut self.facts);
                    for f in &s.fields {
                        let n = f.ident.as_ref().map_or(String::new(), |i| i.to_string());
                        self.put(&f.vis, format!("field{n}{}:{}", norm(&f.vis, &[]), norm(&f.ty, &[])));
                        self.at(format!("field{n}"), &f.attrs, false);
                    }
                }
                syn::Item::Enum(e) => {
                    self.put(&e.vis, format!("enum{}{}:{}", e.ident, norm(&e.vis, &[]), params(&e.generics)));
                    self.facts.push(format!("enum{}", e.ident));
                    derived(&e.attrs, &e.ident.to_string(), &mut self.facts);
                    for v in &e.variants {
                        self.facts.push(format!("variant{}::{}", e.ident, v.ident));
                    }
                }
                syn::Item::Impl(i) => {
                    let of = match &*i.self_ty {
                        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        t => norm(t, &[]),
                    };
                    if let Some((_, t, _)) = &i.trait_ {
                        let mut t = t.clone();
                        if t.segments.last().unwrap().ident == "Default" {
                            limits(&i.generics, "default", &mut self.limits);
                        }
                        let last = t.segments.pop().unwrap().into_value();
                        let arg = match &last.arguments {
                            // Of paths in arguments, the name will do.
                            syn::PathArguments::AngleBracketed(a) => {
                                let a: Vec<String> = a
                                    .args
                                    .iter()
                                    .map(|a| match a {
                                        syn::GenericArgument::Type(syn::Type::Path(p)) => p.path.segments.last().unwrap().to_token_stream().to_string(),
                                        a => norm(a, &[]),
                                    })
                                    .collect();
                                format!("<{}>", a.join(","))
                            }
                            _ => String::new(),
                        };
                        self.facts.push(format!("impl{}{arg}for{of}", last.ident));
                    } else {
                        self.at("impl".into(), &i.attrs, false);
                        limits(&i.generics, "impl", &mut self.limits);
                        for x in &i.items {
                            match x {
                                syn::ImplItem::Fn(f) => {
                                    self.put(&f.vis, format!("fn{}{}:{}", f.sig.ident, norm(&f.vis, &[]), signature(&f.sig)));
                                    self.at(format!("fn{}", f.sig.ident), &f.attrs, false);
                                }
                                syn::ImplItem::Const(c) => self.put(&c.vis, format!("const{}", c.ident)),
                                syn::ImplItem::Type(t) => self.put(&t.vis, format!("type{}", t.ident)),
                                _ => {}
                            }
                        }
                    }
                }
                syn::Item::Const(c) => {
                    self.put(&c.vis, format!("const{}", c.ident));
                    if let syn::Expr::Block(b) = &*c.expr {
                        let inner: Vec<syn::Item> = b.block.stmts.iter().filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
                        self.items(&inner);
                    }
                }
                syn::Item::Fn(f) => self.put(&f.vis, format!("function{}", f.sig.ident)),
                syn::Item::Static(x) => self.put(&x.vis, format!("static{}", x.ident)),
                syn::Item::Type(x) => self.put(&x.vis, format!("type{}", x.ident)),
                syn::Item::Trait(x) => self.put(&x.vis, format!("trait{}", x.ident)),
                syn::Item::Union(x) => self.put(&x.vis, format!("union{}", x.ident)),
                syn::Item::Use(x) => self.put(&x.vis, format!("use{}", norm(&x.tree, &[]))),
                syn::Item::Mod(x) => self.put(&x.vis, format!("mod{}", x.ident)),
                _ => {}
            }
        }
    }
}

fn look(t: TokenStream) -> Result<Seen, String> {
    let f: syn::File = syn::parse2(t).map_err(|e| format!("unparsable: the answer is not a list of items: {e}"))?;
    let mut s = Seen { facts: vec![], visible: vec![], limits: vec![], attrs: BTreeMap::new() };
    s.items(&f.items);
    Ok(s)
}

/// Everything documented is there, nothing more can be seen, and nothing is that must not be.
pub fn surface(t: TokenStream, want: &[String]) -> Option<String> {
    let s = match look(t) {
        Ok(s) => s,
        Err(e) => return Some(e),
    };
    for w in want {
        if let Some(no) = w.strip_prefix("no") {
            if s.facts.iter().any(|f| f == no) {
                return Some(format!("surface: {no} is there"));
            }
        } else if s.facts.iter().filter(|f| *f == w).count() != 1 {
            let start: String = w.chars().take_while(|c| *c != ':').take(5).collect();
            let like: Vec<&String> = s.facts.iter().filter(|f| f.starts_with(&start)).collect();
            return Some(format!("surface: not just one {w} among {like:?}"));
        }
    }
    s.visible.iter().find(|v| !want.contains(v)).map(|v| format!("surface: {v} can be seen"))
}

/// Just these things hold of the type parameters.
pub fn parameters(t: TokenStream, want: &[String]) -> Option<String> {
    let s = match look(t) {
        Ok(s) => s,
        Err(e) => return Some(e),
    };
    if let Some(w) = want.iter().find(|w| !s.limits.contains(w)) {
        return Some(format!("parameters: no {w} among {:?}", s.limits));
    }
    s.limits.iter().find(|f| !want.contains(f)).map(|f| format!("parameters: {f} is not asked for"))
}

fn count(t: TokenStream, out: &mut BTreeMap<String, i64>) {
    for x in t {
        match x {
            TokenTree::Group(g) => count(g.stream(), out),
            x => {
                if let Some(n) = number(&x.to_string()) {
                    *out.entry(n).or_default() += 1;
                }
            }
        }
    }
}

/// The user's attributes are in these places, in this order, and nowhere else.
pub fn placement(t: TokenStream, want: &BTreeMap<String, Vec<String>>) -> Option<String> {
    let mut marks = BTreeMap::new();
    count(t.clone(), &mut marks);
    let s = match look(t) {
        Ok(s) => s,
        Err(e) => return Some(e),
    };
    for (place, list) in want {
        let Some(have) = s.attrs.get(place) else {
            return Some(format!("attributes: there is no {place}"));
        };
        if have.len() != 1 {
            return Some(format!("attributes: {place} is there {} times", have.len()));
        }
        let have: Vec<String> = have[0].clone();
        // What a derive needs comes after it.
        if let Some(k) = have.iter().rposition(|a| a == "derive") {
            if k > 0 && have[..k].iter().any(|a| a != "derive") {
                return Some(format!("attributes: in front of the derive: {have:?}"));
            }
        }
        let have: Vec<&String> = have.iter().filter(|a| *a != "derive").collect();
        if have != list.iter().collect::<Vec<_>>() {
            return Some(format!("attributes: {place} has {have:?} instead of {list:?}"));
        }
    }
    for a in want.values().flatten() {
        *marks.entry(number(a).expect("a mark")).or_default() -= 1;
    }
    marks.iter().find(|(_, n)| **n != 0).map(|(m, n)| format!("attributes: number {m} is in {n} more places than it should be"))
}
