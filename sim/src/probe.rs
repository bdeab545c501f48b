//! The values that flow through builders. Each one is tracked from birth to drop; each piece of user code that
//! generated code can run on them is a scheduling and fault point.

use crate::ctx::{cb, cx, live, produced, K};
use crate::val::*;
use std::marker::PhantomData;

/// The content of a value to make.
#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    V(u64),
    None,
    Some(Box<Spec>),
    Seq(Vec<u64>),
}

pub trait Shape: Sized {
    const TAG: usize;
    fn make(s: &Spec, o: Origin) -> Self;
    fn val(&self) -> Val;
    /// A value that differs from the type's own `Default`.
    fn fresh() -> Spec;
}

fn new_id(f: usize, o: Origin, c: u64) -> Id {
    if live() {
        cx().new_inst(f, o, c)
    } else {
        NO_ID
    }
}
fn fresh_content() -> u64 {
    if live() {
        cx().fresh_content()
    } else {
        0
    }
}

fn dropped(id: Id) {
    if !live() || id == NO_ID {
        return;
    }
    if crate::interpose::IN_SIM.with(|s| s.get()) && !std::thread::panicking() {
        crate::ctx::set_sim(false);
        crate::sched::yield_point();
        crate::ctx::set_sim(true);
    }
    let c = cx();
    if id_run(id) != c.run {
        c.foreign += 1;
        return;
    }
    let i = &mut c.insts[id_ix(id) as usize];
    i.drops += 1;
    if i.drops > 1 {
        c.violation(&["C05"], "dropped-twice", format!("value {} was dropped again", id_text(id)));
    }
}

macro_rules! tracked {
    ($n:ident) => {
        impl<const F: usize> Drop for $n<F> {
            fn drop(&mut self) {
                dropped(self.id)
            }
        }
        impl<const F: usize> Shape for $n<F> {
            const TAG: usize = F;
            fn make(s: &Spec, o: Origin) -> Self {
                let c = match s {
                    Spec::V(c) => *c,
                    s => panic!("spec {s:?} for a plain value"),
                };
                $n { id: new_id(F, o, c), c }
            }
            fn val(&self) -> Val {
                Val::I(self.id, self.c)
            }
            fn fresh() -> Spec {
                Spec::V(fresh_content())
            }
        }
        impl<const F: usize> Default for $n<F> {
            fn default() -> Self {
                cb(K::Default, F, NO_ID, false, None);
                let v = Self::make(&Self::fresh(), Origin::Default);
                produced(vec![v.val()]);
                v
            }
        }
        impl<const F: usize> std::fmt::Debug for $n<F> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.c)
            }
        }
        impl<const F: usize> PartialEq for $n<F> {
            fn eq(&self, o: &Self) -> bool {
                self.c == o.c
            }
        }
    };
}

/// An ordinary value.
pub struct V<const F: usize> {
    id: Id,
    c: u64,
}
/// A value that cannot be cloned.
pub struct NC<const F: usize> {
    id: Id,
    c: u64,
}
tracked!(V);
tracked!(NC);

impl<const F: usize> Clone for V<F> {
    fn clone(&self) -> Self {
        cb(K::Clone, F, self.id, false, None);
        let v = V { id: new_id(F, Origin::CloneOf(self.id), self.c), c: self.c };
        produced(vec![v.val()]);
        v
    }
}

/// A `Copy` value: content without identity.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cp<const F: usize> {
    c: u64,
}
impl<const F: usize> Shape for Cp<F> {
    const TAG: usize = F;
    fn make(s: &Spec, _: Origin) -> Self {
        match s {
            Spec::V(c) => Cp { c: *c },
            s => panic!("spec {s:?} for a copy value"),
        }
    }
    fn val(&self) -> Val {
        Val::I(NO_ID, self.c)
    }
    fn fresh() -> Spec {
        Spec::V(fresh_content())
    }
}
impl<const F: usize> Default for Cp<F> {
    fn default() -> Self {
        cb(K::Default, F, NO_ID, false, None);
        let v = Self::make(&Self::fresh(), Origin::Default);
        produced(vec![v.val()]);
        v
    }
}

/// A collection.
pub struct Coll<const F: usize> {
    id: Id,
    items: Vec<V<F>>,
}
impl<const F: usize> Drop for Coll<F> {
    fn drop(&mut self) {
        dropped(self.id)
    }
}
impl<const F: usize> Shape for Coll<F> {
    const TAG: usize = F;
    fn make(s: &Spec, o: Origin) -> Self {
        match s {
            Spec::Seq(v) => Coll {
                id: new_id(F, o, u64::MAX),
                items: v.iter().map(|c| V::make(&Spec::V(*c), o)).collect(),
            },
            s => panic!("spec {s:?} for a collection"),
        }
    }
    fn val(&self) -> Val {
        Val::Seq(self.id, self.items.iter().map(|x| x.val()).collect())
    }
    fn fresh() -> Spec {
        Spec::Seq(vec![fresh_content(), fresh_content()])
    }
}
impl<const F: usize> Default for Coll<F> {
    fn default() -> Self {
        cb(K::Default, F, NO_ID, false, None);
        let v = Self::make(&Spec::Seq(vec![]), Origin::Default);
        produced(vec![v.val()]);
        v
    }
}
impl<const F: usize> Clone for Coll<F> {
    fn clone(&self) -> Self {
        let items = self.items.clone();
        cb(K::Clone, F, self.id, false, None);
        let v = Coll { id: new_id(F, Origin::CloneOf(self.id), u64::MAX), items };
        produced(vec![v.val()]);
        v
    }
}
impl<const F: usize> Extend<V<F>> for Coll<F> {
    fn extend<I: IntoIterator<Item = V<F>>>(&mut self, it: I) {
        cb(K::Extend, F, self.id, false, None);
        for x in it {
            self.items.push(x);
        }
    }
}
impl<const F: usize> std::fmt::Debug for Coll<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.items)
    }
}
impl<const F: usize> PartialEq for Coll<F> {
    fn eq(&self, o: &Self) -> bool {
        self.items == o.items
    }
}

impl<T: Shape> Shape for Option<T> {
    const TAG: usize = T::TAG;
    fn make(s: &Spec, o: Origin) -> Self {
        match s {
            Spec::None => None,
            Spec::Some(b) => Some(T::make(b, o)),
            s => panic!("spec {s:?} for an option"),
        }
    }
    fn val(&self) -> Val {
        match self {
            None => Val::None,
            Some(x) => Val::Some(Box::new(x.val())),
        }
    }
    fn fresh() -> Spec {
        Spec::Some(Box::new(T::fresh()))
    }
}
impl<T: Shape> Shape for Vec<T> {
    const TAG: usize = T::TAG;
    fn make(s: &Spec, o: Origin) -> Self {
        match s {
            Spec::Seq(v) => v.iter().map(|c| T::make(&Spec::V(*c), o)).collect(),
            s => panic!("spec {s:?} for a vector"),
        }
    }
    fn val(&self) -> Val {
        Val::Seq(NO_ID, self.iter().map(|x| x.val()).collect())
    }
    fn fresh() -> Spec {
        Spec::Seq(vec![fresh_content(), fresh_content()])
    }
}

impl<T: Shape> Shape for std::collections::VecDeque<T> {
    const TAG: usize = T::TAG;
    fn make(s: &Spec, o: Origin) -> Self {
        Vec::<T>::make(s, o).into()
    }
    fn val(&self) -> Val {
        Val::Seq(NO_ID, self.iter().map(|x| x.val()).collect())
    }
    fn fresh() -> Spec {
        Vec::<T>::fresh()
    }
}
/// Types that hold exactly one value and behave like it.
macro_rules! around {
    ($([$($g:tt)*] $t:ty, $of:ty, |$x:ident| $inner:expr, $make:expr;)*) => {$(
        impl<$($g)*> Shape for $t {
            const TAG: usize = <$of>::TAG;
            fn make(s: &Spec, o: Origin) -> Self {
                $make(<$of>::make(s, o))
            }
            fn val(&self) -> Val {
                let $x = self;
                $inner.val()
            }
            fn fresh() -> Spec {
                <$of>::fresh()
            }
        }
    )*};
}
around! {
    [T: Shape] Box<T>, T, |x| **x, Box::new;
    [T: Shape] (T,), T, |x| x.0, |v| (v,);
    [T: Shape] [T; 1], T, |x| x[0], |v| [v];
    [const F: usize] &'static Cp<F>, Cp<F>, |x| **x, |v| &*Box::leak(Box::new(v));
}

/// Argument of a converting setter: becomes a `T` through `Into`.
pub struct Raw<T> {
    id: Id,
    spec: Spec,
    p: PhantomData<fn() -> T>,
}
/// Argument of a fallible setter: becomes a `T` through `TryInto`, unless a failure is injected.
pub struct RawTry<T> {
    id: Id,
    spec: Spec,
    p: PhantomData<fn() -> T>,
}
impl<T> Drop for Raw<T> {
    fn drop(&mut self) {
        dropped(self.id)
    }
}
impl<T> Drop for RawTry<T> {
    fn drop(&mut self) {
        dropped(self.id)
    }
}
/// What a failed conversion returns: the token of the injected failure.
#[derive(Debug, PartialEq, Eq)]
pub struct ConvErr(pub u64);

macro_rules! conversions {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> From<Raw<$t>> for $t {
            fn from(r: Raw<$t>) -> Self {
                cb(K::Into, <$t as Shape>::TAG, r.id, false, None);
                let v = <$t as Shape>::make(&r.spec, Origin::Into);
                produced(vec![v.val()]);
                v
            }
        }
        impl<$($g)*> TryFrom<RawTry<$t>> for $t {
            type Error = ConvErr;
            fn try_from(r: RawTry<$t>) -> Result<Self, ConvErr> {
                if let Some(t) = cb(K::TryInto, <$t as Shape>::TAG, r.id, true, None) {
                    return Err(ConvErr(t));
                }
                let v = <$t as Shape>::make(&r.spec, Origin::TryInto);
                produced(vec![v.val()]);
                Ok(v)
            }
        }
    )*};
}
conversions! {
    [const F: usize] V<F>;
    [const F: usize] NC<F>;
    [const F: usize] Cp<F>;
    [const F: usize] Coll<F>;
    [const F: usize] Vec<V<F>>;
    [const F: usize] Option<V<F>>;
    [const F: usize] Option<NC<F>>;
    [const F: usize] Option<Cp<F>>;
    [const F: usize] Option<Coll<F>>;
    [const F: usize] Option<Vec<V<F>>>;
    [const F: usize] Option<Option<V<F>>>;
    [const F: usize] Box<V<F>>;
    [const F: usize] (V<F>,);
    [const F: usize] [V<F>; 1];
    [const F: usize] &'static Cp<F>;
    [const F: usize] std::collections::VecDeque<V<F>>;
    [const F: usize] Option<Box<V<F>>>;
    [const F: usize] Option<(V<F>,)>;
    [const F: usize] Option<[V<F>; 1]>;
    [const F: usize] Option<&'static Cp<F>>;
    [const F: usize] Option<std::collections::VecDeque<V<F>>>;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    /// The argument type itself.
    Plain,
    /// `Raw` through `Into`.
    Into,
    /// `T` for an `Option<T>` through `Into`.
    Lift,
    /// `RawTry` through `TryInto`.
    Try,
    /// The argument type itself through `TryInto`.
    TryId,
    Each,
    EachInto,
    /// Direct assignment, as a hand-written setter would do it.
    Poke,
}
pub const HOWS: [(How, &str); 8] = [
    (How::Plain, "plain"),
    (How::Into, "into"),
    (How::Lift, "lift"),
    (How::Try, "try"),
    (How::TryId, "try_id"),
    (How::Each, "each"),
    (How::EachInto, "each_into"),
    (How::Poke, "poke"),
];

/// One setter call: which setter, with which argument, and which values were made for it.
pub struct Call {
    pub f: usize,
    pub how: How,
    /// None only for `Poke`: unset the field.
    pub spec: Option<Spec>,
    pub given: Option<Val>,
    pub raw: Id,
}
impl Call {
    fn sp(&self) -> Spec {
        self.spec.clone().expect("argument")
    }
}

pub fn arg<T: Shape>(c: &mut Call) -> T {
    let v = T::make(&c.sp(), Origin::Given);
    c.given = Some(v.val());
    v
}
/// The `T` inside a planned `Some(T)`.
pub fn lift<T: Shape>(c: &mut Call) -> T {
    let v = match c.sp() {
        Spec::Some(b) => T::make(&b, Origin::Given),
        s => panic!("spec {s:?} to lift"),
    };
    c.given = Some(Val::Some(Box::new(v.val())));
    v
}
pub fn raw<T: Shape>(c: &mut Call) -> Raw<T> {
    let id = new_id(T::TAG, Origin::Raw, 0);
    c.raw = id;
    Raw { id, spec: c.sp(), p: PhantomData }
}
pub fn rawtry<T: Shape>(c: &mut Call) -> RawTry<T> {
    let id = new_id(T::TAG, Origin::Raw, 0);
    c.raw = id;
    RawTry { id, spec: c.sp(), p: PhantomData }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrObs {
    /// Field name, and the Display text.
    Uninit(String, String),
    /// The token text of an injected error and the Display text.
    Text(String, String),
    Other(String),
}

pub enum MutRet {
    /// Returned the builder; false if not the one it was called on.
    Same(bool),
    Err(u64),
    Na,
}
pub enum NewRet {
    New(Box<dyn Bld>),
    Err(u64),
    Na,
}

/// What every generated builder offers, implemented next to it by generated glue.
pub trait Bld: Send + Sync {
    fn obs(&self) -> Vec<FObs>;
    fn clone_b(&self) -> Option<Box<dyn Bld>>;
    /// `Clone::clone_from`; false if the builder is not `Clone`.
    fn clone_from_b(&mut self, src: &dyn Bld) -> bool;
    fn any(&self) -> &dyn std::any::Any;
    fn op_mut(&mut self, c: &mut Call) -> MutRet;
    fn op_ref(&self, c: &mut Call) -> NewRet;
    fn op_own(self: Box<Self>, c: &mut Call) -> NewRet;
    fn poke(&mut self, c: &mut Call);
    fn build_ref(&self) -> Option<Result<Box<dyn Tgt>, ErrObs>>;
    fn build_own(self: Box<Self>) -> Option<Result<Box<dyn Tgt>, ErrObs>>;
}
pub trait Tgt: Send + Sync {
    fn obs(&self) -> Vec<Val>;
}

pub fn ob_opt<T: Shape>(x: &Option<T>) -> FObs {
    match x {
        None => FObs::Unset,
        Some(v) => FObs::Set(v.val()),
    }
}
pub fn ob_pre<T: Shape>(x: &T) -> FObs {
    FObs::Precise(x.val())
}
pub fn poke_opt<T: Shape>(x: &mut Option<T>, c: &mut Call) {
    *x = if c.spec.is_some() { Some(arg(c)) } else { None };
}
pub fn poke_pre<T: Shape>(x: &mut T, c: &mut Call) {
    if c.spec.is_some() {
        *x = arg(c);
    }
}

// ---- user code that generated code calls ----

pub fn inj_s(t: u64) -> String {
    format!("injected {t}")
}

pub fn on_validate(b: &dyn Bld) -> Result<(), u64> {
    match cb(K::Validate, 0, NO_ID, true, Some(b.obs())) {
        None => Ok(()),
        Some(t) => Err(t),
    }
}
/// Conversion into a user-supplied error type.
pub fn err_conv(site: usize) {
    cb(K::ErrConv, site, NO_ID, false, None);
}
fn made<T: Shape>(o: Origin) -> T {
    let v = T::make(&T::fresh(), o);
    produced(vec![v.val()]);
    v
}
/// A field's default expression.
pub fn dflt<T: Shape>(site: usize) -> T {
    cb(K::Dflt, site, NO_ID, false, None);
    made(Origin::Dflt(site))
}
pub fn dflt_try<T: Shape>(site: usize) -> Result<T, u64> {
    match cb(K::Dflt, site, NO_ID, true, None) {
        None => Ok(made(Origin::Dflt(site))),
        Some(t) => Err(t),
    }
}
/// A field's custom build expression.
pub fn custom<T: Shape>(site: usize, seen: FObs) -> T {
    cb(K::Custom, site, NO_ID, false, Some(vec![seen]));
    made(Origin::Custom(site))
}
pub fn custom_try<T: Shape>(site: usize, seen: FObs) -> Result<T, u64> {
    match cb(K::Custom, site, NO_ID, true, Some(vec![seen])) {
        None => Ok(made(Origin::Custom(site))),
        Some(t) => Err(t),
    }
}
pub fn custom_all<T: Shape>(site: usize, b: &dyn Bld) -> T {
    cb(K::Custom, site, NO_ID, false, Some(b.obs()));
    made(Origin::Custom(site))
}
pub fn custom_all_try<T: Shape>(site: usize, b: &dyn Bld) -> Result<T, u64> {
    match cb(K::Custom, site, NO_ID, true, Some(b.obs())) {
        None => Ok(made(Origin::Custom(site))),
        Some(t) => Err(t),
    }
}
/// The struct-level default: one callback, then one value per field.
pub fn sdflt() {
    cb(K::SDflt, 0, NO_ID, false, None);
}
pub fn sdflt_try() -> Result<(), u64> {
    match cb(K::SDflt, 0, NO_ID, true, None) {
        None => Ok(()),
        Some(t) => Err(t),
    }
}
pub fn sd<T: Shape>(f: usize) -> T {
    T::make(&T::fresh(), Origin::SDflt(f))
}
pub fn sd_done(v: Vec<Val>) {
    produced(v)
}

/// Turns a value of a type parameter's only instantiation into the type parameter.
pub fn any<S, T>(s: S) -> T {
    assert_eq!(std::mem::size_of::<S>(), std::mem::size_of::<T>());
    let s = std::mem::ManuallyDrop::new(s);
    unsafe { std::mem::transmute_copy::<S, T>(&s) }
}
/// The same for a reference.
pub fn any_ref<S, T>(s: &S) -> &T {
    assert_eq!(std::mem::size_of::<S>(), std::mem::size_of::<T>());
    unsafe { &*(s as *const S as *const T) }
}
