//! What the attributes of one generated struct mean, as the generator that wrote them knows it.

use serde_json::Value;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pat {
    Own,
    Mut,
    Imm,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Store {
    Opt,
    Precise,
    Phantom,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dflt {
    None,
    /// `T::default()`
    Trait,
    Expr,
    /// Can return an error.
    Try,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    /// Type tag of the probes inside.
    pub f: usize,
    /// Shape of the target field: V, N, C, L, S behind any number of O.
    pub sh: String,
    /// Shape of the builder field's (inner) value.
    pub bsh: String,
    pub store: Store,
    pub pat: Pat,
    pub setter: bool,
    pub into: bool,
    pub strip: bool,
    pub try_: bool,
    /// 0 none, 1 plain, 2 into
    pub each: u8,
    pub def: Dflt,
    /// Custom build expression: None / Expr / Try
    pub cust: Dflt,
    /// The field whose default and custom build expression these are: another one's if they are the same text.
    pub dsite: usize,
    pub csite: usize,
}
impl Field {
    pub fn arg_shape(&self) -> &str {
        if self.strip && self.bsh.starts_with('O') {
            &self.bsh[1..]
        } else {
            &self.bsh
        }
    }
    pub fn stripped(&self) -> bool {
        self.strip && self.bsh.starts_with('O')
    }
}

#[derive(Clone, Debug)]
pub struct Desc {
    pub name: String,
    pub pat: Pat,
    pub clone: bool,
    pub validate: bool,
    /// "gen", "noval", "custom"
    pub err: String,
    /// The validator's error is a text that the user-supplied error type takes in.
    pub vtext: bool,
    pub sdef: Dflt,
    pub ctors: usize,
    pub fields: Vec<Field>,
}

fn pat(v: &Value) -> Pat {
    match v.as_str().unwrap() {
        "own" => Pat::Own,
        "mut" => Pat::Mut,
        "imm" => Pat::Imm,
        x => panic!("pattern {x}"),
    }
}
fn dflt(v: &Value) -> Dflt {
    match v.as_str() {
        None => Dflt::None,
        Some("trait") => Dflt::Trait,
        Some("expr") => Dflt::Expr,
        Some("try") => Dflt::Try,
        Some(x) => panic!("default {x}"),
    }
}

impl Desc {
    pub fn parse(s: &str) -> Desc {
        let v: Value = serde_json::from_str(s).expect("description");
        let b = |v: &Value| v.as_bool().unwrap();
        Desc {
            name: v["name"].as_str().unwrap().into(),
            pat: pat(&v["pat"]),
            clone: b(&v["clone"]),
            validate: b(&v["validate"]),
            err: v["err"].as_str().unwrap().into(),
            vtext: b(&v["vtext"]),
            sdef: dflt(&v["sdef"]),
            ctors: v["ctors"].as_u64().unwrap() as usize,
            fields: v["fields"]
                .as_array()
                .unwrap()
                .iter()
                .map(|f| Field {
                    name: f["name"].as_str().unwrap().into(),
                    f: f["f"].as_u64().unwrap() as usize,
                    sh: f["sh"].as_str().unwrap().into(),
                    bsh: f["bsh"].as_str().unwrap().into(),
                    store: match f["store"].as_str().unwrap() {
                        "opt" => Store::Opt,
                        "precise" => Store::Precise,
                        _ => Store::Phantom,
                    },
                    pat: pat(&f["pat"]),
                    setter: b(&f["setter"]),
                    into: b(&f["into"]),
                    strip: b(&f["strip"]),
                    try_: b(&f["try"]),
                    each: f["each"].as_u64().unwrap() as u8,
                    def: dflt(&f["def"]),
                    cust: dflt(&f["cust"]),
                    dsite: f["dsite"].as_u64().unwrap() as usize,
                    csite: f["csite"].as_u64().unwrap() as usize,
                })
                .collect(),
        }
    }
}
