//! Values as the oracle sees them.

pub type Id = u64;
pub fn mk_id(run: u32, ix: u32) -> Id {
    ((run as u64) << 32) | ix as u64
}
pub fn id_run(id: Id) -> u32 {
    (id >> 32) as u32
}
pub fn id_ix(id: Id) -> u32 {
    id as u32
}
pub const NO_ID: Id = u64::MAX;
pub fn id_text(id: Id) -> String {
    if id == NO_ID {
        "-".into()
    } else {
        format!("#{}", id_ix(id))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Origin {
    /// Made by the caller and handed over.
    Given,
    /// The raw argument of a converting setter.
    Raw,
    Into,
    TryInto,
    CloneOf(Id),
    /// The type's own `Default`.
    Default,
    /// A field's default expression.
    Dflt(usize),
    /// This field of a struct-level default.
    SDflt(usize),
    Custom(usize),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub f: usize,
    pub c: u64,
    pub origin: Origin,
    pub born: u32,
    pub drops: u32,
}

/// Leaf: instance id and content (Copy values have no identity: id == NO_ID).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    I(Id, u64),
    None,
    Some(Box<Val>),
    Seq(Id, Vec<Val>),
}

impl Val {
    pub fn leaves(&self, out: &mut Vec<(Id, u64)>) {
        match self {
            Val::I(i, c) => out.push((*i, *c)),
            Val::None => {}
            Val::Some(b) => b.leaves(out),
            Val::Seq(i, v) => {
                if *i != NO_ID {
                    out.push((*i, u64::MAX));
                }
                v.iter().for_each(|x| x.leaves(out));
            }
        }
    }
    pub fn ids(&self) -> Vec<Id> {
        let mut v = vec![];
        self.leaves(&mut v);
        v.into_iter().map(|x| x.0).filter(|x| *x != NO_ID).collect()
    }
    /// Same shape and contents, identities ignored.
    pub fn same_content(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::I(_, a), Val::I(_, b)) => a == b,
            (Val::None, Val::None) => true,
            (Val::Some(a), Val::Some(b)) => a.same_content(b),
            (Val::Seq(_, a), Val::Seq(_, b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same_content(y)),
            _ => false,
        }
    }
    pub fn text(&self) -> String {
        match self {
            Val::I(i, c) if *i == NO_ID => format!("{c}"),
            Val::I(i, c) => format!("{c}{}", id_text(*i)),
            Val::None => "None".into(),
            Val::Some(b) => format!("Some({})", b.text()),
            Val::Seq(i, v) => {
                let s: Vec<_> = v.iter().map(|x| x.text()).collect();
                if *i == NO_ID {
                    format!("[{}]", s.join(", "))
                } else {
                    format!("{}[{}]", id_text(*i), s.join(", "))
                }
            }
        }
    }
}

/// One builder field, read directly.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FObs {
    Phantom,
    Unset,
    Set(Val),
    Precise(Val),
}
impl FObs {
    pub fn val(&self) -> Option<&Val> {
        match self {
            FObs::Set(v) | FObs::Precise(v) => Some(v),
            _ => None,
        }
    }
    pub fn same_content(&self, o: &FObs) -> bool {
        match (self, o) {
            (FObs::Phantom, FObs::Phantom) | (FObs::Unset, FObs::Unset) => true,
            (FObs::Set(a), FObs::Set(b)) | (FObs::Precise(a), FObs::Precise(b)) => a.same_content(b),
            _ => false,
        }
    }
    pub fn text(&self) -> String {
        match self {
            FObs::Phantom => "skipped".into(),
            FObs::Unset => "unset".into(),
            FObs::Set(v) => v.text(),
            FObs::Precise(v) => format!("={}", v.text()),
        }
    }
}
