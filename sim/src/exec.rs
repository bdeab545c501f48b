//! Executes plans against the real generated code and judges every step against the reference model.
//!
//! The model of a builder is the list of values its fields must hold; the model of a build is the ordered list of
//! steps the documentation promises. Both follow from the description alone.

use crate::ctx::*;
use crate::desc::*;
use crate::interpose::IN_SIM;
use crate::plan::*;
use crate::probe::*;
use crate::rng::{mix, Digest, Rng};
use crate::sched::{self, await_baton, Sched, MAX_CLIENTS};
use crate::val::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Cfg {
    pub desc: &'static str,
    pub new: &'static [fn() -> Box<dyn Bld>],
}

pub static mut CFGS: Vec<&'static Cfg> = Vec::new();
#[allow(static_mut_refs)]
pub fn cfgs() -> &'static Vec<&'static Cfg> {
    unsafe { &CFGS }
}
pub static mut ON_FATAL: fn() = || {};

pub fn fatal(msg: &str) -> ! {
    cx().violation(&["C14"], "stuck", msg.to_string());
    let hook = unsafe { ON_FATAL };
    hook();
    unreachable!()
}

enum Outcome<T> {
    Val(T),
    /// An injected panic came out.
    Panic(u64),
    RealPanic(String),
}

fn guarded<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SIM.with(|s| s.set(false));
    match r {
        Ok(v) => Outcome::Val(v),
        Err(p) => match p.downcast::<Injected>() {
            Ok(i) => Outcome::Panic(i.0),
            Err(_) => Outcome::RealPanic(REAL_PANIC.with(|m| m.take()).unwrap_or_else(|| "unknown panic".into())),
        },
    }
}

fn begin(op: &Op) -> u32 {
    let c = cx();
    let me = c.sched.cur;
    c.next_op += 1;
    let id = c.next_op;
    c.stats.ops += 1;
    c.digest.add(((me as u64) << 40) | ((op.k as u64) << 32) | ((op.slot as u64) << 16) | op.f as u64);
    let o = &mut c.ops[me];
    o.op = id;
    o.active = true;
    o.evs.clear();
    o.faults = op.faults.iter().map(|f| (*f, false)).collect();
    o.ncb = 0;
    o.fired = None;
    o.waited = false;
    o.inner = op.inner.clone();
    id
}

struct Rec {
    op: u32,
    evs: Vec<Ev>,
    fired: Option<(FaultKind, u64, usize)>,
}

fn end() -> Rec {
    let c = cx();
    let me = c.sched.cur;
    let o = &mut c.ops[me];
    o.active = false;
    let r = Rec { op: o.op, evs: std::mem::take(&mut o.evs), fired: o.fired };
    if o.waited {
        o.waited = false;
        c.violation(&["C14"], "waits", "an operation waited for another operation inside generated code".into());
    }
    r
}

fn bad(p: &[&'static str], rule: &str, d: String) {
    cx().violation(p, rule, d);
}

fn desc_of(slot: usize) -> &'static Desc {
    let c = cx();
    c.descs[slot % c.plan.cfgs.len()]
}

fn obs_text(v: &[FObs], d: &Desc) -> String {
    v.iter().zip(&d.fields).map(|(o, f)| format!("{}: {}", f.name, o.text())).collect::<Vec<_>>().join(", ")
}
fn diff_text(want: &[FObs], got: &[FObs], d: &Desc) -> String {
    let mut s = vec![];
    for i in 0..want.len().max(got.len()) {
        let (a, b) = (want.get(i), got.get(i));
        if a != b {
            s.push(format!(
                "field {} should hold {} but holds {}",
                d.fields.get(i).map_or("?", |f| &f.name),
                a.map_or("nothing".into(), |x| x.text()),
                b.map_or("nothing".into(), |x| x.text())
            ));
        }
    }
    s.join("; ")
}

/// Invariant of every scheduling point: a builder that nobody has exclusively holds exactly what the model says,
/// and targets built earlier are what they were.
pub fn check_slots(at: &str) {
    let c = cx();
    c.stats.inv_checks += 1;
    let me = c.sched.cur;
    let mine = c.plan.clients.get(me).and_then(|p| p.get(c.cur_op[me])).map(|o| (o.slot, o.k));
    let overlap = c.ops.iter().enumerate().any(|(i, o)| i != me && o.active);
    let mut found = vec![];
    for (i, s) in c.slots.iter_mut().enumerate() {
        if s.excl {
            continue;
        }
        if let Some(b) = &s.b {
            let o = b.obs();
            if o != s.m {
                let mut p: Vec<&'static str> = vec!["C01"];
                match mine {
                    Some((x, OpK::Build)) if x == i => p.push("C03"),
                    Some((x, _)) if x == i => p.push("C04"),
                    _ => p.extend(["C15", "C04"]),
                }
                if overlap {
                    p.push("C14");
                }
                found.push((p, i, diff_text(&s.m, &o, c.descs[i % c.plan.cfgs.len()])));
                s.m = o;
            }
        }
    }
    for (p, i, d) in found {
        c.violation(&p, "builder-changed", format!("at {at}, builder in slot {i} changed without an operation of its own: {d}"));
    }
}

fn check_built() {
    let c = cx();
    let mut found = vec![];
    for (i, b) in c.built.iter_mut().enumerate() {
        let o = b.t.obs();
        if o != b.v {
            found.push(i);
            b.v = o;
        }
    }
    for i in found {
        c.violation(&["C04", "C15"], "target-changed", format!("target number {i}, built earlier, changed"));
    }
}

/// How `b` relates to a clone of `a` made during operation `op`.
enum CloneRel {
    Ok,
    Content,
    Identity(String),
}
fn clone_rel(a: &Val, b: &Val, op: u32) -> CloneRel {
    if !a.same_content(b) {
        return CloneRel::Content;
    }
    let (mut x, mut y) = (vec![], vec![]);
    a.leaves(&mut x);
    b.leaves(&mut y);
    for ((i, _), (j, _)) in x.iter().zip(&y) {
        if *i == NO_ID && *j == NO_ID {
            continue;
        }
        match cx().inst(*j) {
            Some(n) if n.origin == Origin::CloneOf(*i) && n.born == op => {}
            Some(n) => return CloneRel::Identity(format!("{} is {:?} of operation {}, not this operation's clone of {}", id_text(*j), n.origin, n.born, id_text(*i))),
            None => return CloneRel::Identity(format!("{} is not of this run", id_text(*j))),
        }
    }
    CloneRel::Ok
}

fn is_type_default(v: &Val, sh: &str, op: u32, evs: &[Ev]) -> bool {
    let dflt = |i: Id| cx().inst(i).is_some_and(|n| n.origin == Origin::Default && n.born == op);
    match (sh.as_bytes()[0], v) {
        (b'O', Val::None) => true,
        (b'S', Val::Seq(i, x)) => *i == NO_ID && x.is_empty(),
        (b'L', Val::Seq(i, x)) => dflt(*i) && x.is_empty(),
        (b'C', Val::I(_, c)) => evs.iter().any(|e| e.k == K::Default && e.out.first() == Some(&Val::I(NO_ID, *c))),
        (_, Val::I(i, _)) => dflt(*i),
        _ => false,
    }
}
fn has_default_cb(sh: &str) -> bool {
    !matches!(sh.as_bytes()[0], b'O' | b'S')
}

// ---------------------------------------------------------------- creation

fn make_builder(slot: usize, ctor: usize) -> Option<(Box<dyn Bld>, Vec<FObs>)> {
    let d = desc_of(slot);
    let cfg = cfgs()[cx().plan.cfgs[slot % cx().plan.cfgs.len()]];
    let f = cfg.new[ctor % cfg.new.len()];
    let r = guarded(|| insim(f));
    let me = cx().sched.cur;
    let (evs, op) = (cx().ops[me].evs.clone(), cx().ops[me].op);
    let b = match r {
        Outcome::Val(b) => b,
        Outcome::Panic(_) => return None,
        Outcome::RealPanic(m) => {
            bad(&["C15"], "new-panics", format!("creating a builder panicked: {m}"));
            return None;
        }
    };
    let o = b.obs();
    let mut want_defaults: Vec<usize> = vec![];
    for (f, x) in d.fields.iter().zip(&o) {
        let ok = match (f.store, x) {
            (Store::Phantom, FObs::Phantom) | (Store::Opt, FObs::Unset) => true,
            (Store::Precise, FObs::Precise(v)) => {
                if has_default_cb(&f.bsh) {
                    want_defaults.push(f.f);
                }
                is_type_default(v, &f.bsh, op, &evs)
            }
            _ => false,
        };
        if !ok {
            let p: &[&'static str] = if f.store == Store::Precise { &["C12", "C15"] } else { &["C15"] };
            bad(p, "new-not-empty", format!("in a new builder, field {} is {}", f.name, x.text()));
        }
    }
    let mut got: Vec<usize> = vec![];
    for e in &evs {
        match e.k {
            K::Default => got.push(e.site),
            K::Dflt | K::SDflt => bad(&["C07", "C15"], "default-at-creation", format!("creating a builder evaluated {}", e.k.name())),
            _ => bad(&["C15"], "callback-at-creation", format!("creating a builder called {}", e.k.name())),
        }
    }
    want_defaults.sort();
    got.sort();
    if want_defaults != got {
        bad(&["C15", "C12"], "defaults-at-creation", format!("creating a builder called the Default of types {got:?} instead of {want_defaults:?}"));
    }
    Some((b, o))
}

fn put(slot: usize, b: Box<dyn Bld>, m: Vec<FObs>) {
    // Exclusive lock held.
    let old = {
        let s = &mut cx().slots[slot];
        s.m = m;
        s.b.replace(b)
    };
    drop(old);
}

fn op_new(op: &Op) {
    sched::lock(op.slot, true);
    begin(op);
    let r = make_builder(op.slot, op.ctor);
    end();
    if let Some((b, m)) = r {
        put(op.slot, b, m);
    }
    sched::unlock(op.slot, true);
}

/// Takes the slot's lock with a builder in it.
fn lock_with_builder(op: &Op, excl: bool) {
    loop {
        if !excl && cx().slots[op.slot].b.is_some() {
            sched::lock(op.slot, false);
            if cx().slots[op.slot].b.is_some() {
                return;
            }
            sched::unlock(op.slot, false);
        }
        sched::lock(op.slot, true);
        if cx().slots[op.slot].b.is_none() {
            begin(&Op::new(OpK::New, op.slot));
            let r = make_builder(op.slot, 0);
            end();
            if let Some((b, m)) = r {
                put(op.slot, b, m);
            } else {
                fatal("a builder cannot be created");
            }
        }
        if excl {
            return;
        }
        sched::unlock(op.slot, true);
        sched::lock(op.slot, false);
        if cx().slots[op.slot].b.is_some() {
            return;
        }
        sched::unlock(op.slot, false);
    }
}

/// Puts a new builder into its slot. Inside other user code nobody may wait: then it is dropped.
fn put_dst(op: &Op, b: Box<dyn Bld>, m: Vec<FObs>) {
    let c = cx();
    let s = &c.slots[op.dst];
    if c.depth[c.sched.cur] > 0 && (s.excl || s.shared > 0) {
        drop(b);
        return;
    }
    sched::lock(op.dst, true);
    put(op.dst, b, m);
    sched::unlock(op.dst, true);
}

/// An operation that user code performs from within another one, on builders it can get at right now.
pub fn nested(op: &Op) {
    let d = desc_of(op.slot);
    let excl = match op.k {
        OpK::New | OpK::Drop => true,
        OpK::Set => match d.fields.get(op.f) {
            Some(f) => op.how == How::Poke || f.pat != Pat::Imm,
            None => return,
        },
        OpK::Build => d.pat == Pat::Own,
        OpK::Clone => false,
    };
    let c = cx();
    let me = c.sched.cur;
    let s = &c.slots[op.slot];
    if s.excl || ((excl || s.b.is_none()) && s.shared > 0) {
        return;
    }
    c.stats.nested += 1;
    let outer = std::mem::take(&mut c.ops[me]);
    c.depth[me] += 1;
    c.note(|| "    in it:".to_string());
    perform(op);
    let c = cx();
    c.depth[me] -= 1;
    c.ops[me] = outer;
    c.note(|| "    (end of the inner operation)".to_string());
}

fn slot_ptr(slot: usize) -> *mut dyn Bld {
    let b = cx().slots[slot].b.as_mut().expect("builder");
    &mut **b as *mut dyn Bld
}

// ---------------------------------------------------------------- setters

fn set_props(how: How) -> Vec<&'static str> {
    match how {
        How::Try | How::TryId => vec!["C02", "C01"],
        How::Each | How::EachInto => vec!["C10", "C01"],
        _ => vec!["C01"],
    }
}

enum SetRet {
    /// The builder after the call (same one or new), as observed.
    Done(Vec<FObs>, bool),
    Err(u64),
    Panic(u64),
    RealPanic(String),
}

/// Judges one setter call. `pat` is how the setter takes its builder.
#[allow(clippy::too_many_arguments)]
fn check_set(d: &Desc, op: &Op, pat: Pat, pre: &[FObs], after: Option<&[FObs]>, call: &Call, ret: &SetRet, r: &Rec) {
    let f = &d.fields[op.f];
    let how = op.how;
    let sp = set_props(how);
    let with = |extra: &[&'static str]| -> Vec<&'static str> {
        let mut v = sp.clone();
        v.extend_from_slice(extra);
        v
    };

    // 1. What the builder it was called on holds afterwards, when it must not change.
    let failed = !matches!(ret, SetRet::Done(..));
    if let Some(after) = after {
        if (failed || pat == Pat::Imm) && after != pre {
            let relaxed = failed
                && pat != Pat::Imm
                && matches!(how, How::Each | How::EachInto)
                && r.fired.is_some_and(|x| matches!(r.evs[x.2].k, K::Default | K::Extend));
            if relaxed {
                for (i, (a, b)) in pre.iter().zip(after).enumerate() {
                    let ok = a == b || (i == op.f && each_partial(a, b, f));
                    if !ok {
                        bad(&["C10", "C01"], "each-panic-damage", format!("an item setter interrupted in the collection left field {} at {} (was {})", d.fields[i].name, b.text(), a.text()));
                    }
                }
            } else {
                let mut p: Vec<&'static str> = vec![];
                match ret {
                    SetRet::Err(_) => p.push("C02"),
                    SetRet::Panic(_) | SetRet::RealPanic(_) => p.push("C09"),
                    _ => {}
                }
                if pat == Pat::Imm {
                    p.push("C04");
                }
                bad(&p, "builder-touched", format!("after the call the builder it was called on differs: {}", diff_text(pre, after, d)));
            }
        }
    }

    // 2. Callbacks.
    let pre_ids: Vec<Id> = pre.iter().flat_map(|x| x.val().map_or(vec![], |v| v.ids())).collect();
    let mut cloned: Vec<Id> = vec![];
    let (mut into, mut tryinto) = (0, 0);
    for (j, e) in r.evs.iter().enumerate() {
        if r.fired.is_some_and(|x| j > x.2) {
            let p = if r.fired.unwrap().0 == FaultKind::Err { with(&["C02"]) } else { with(&["C09"]) };
            bad(&p, "callback-after-failure", format!("the setter went on to call {} after its failure", e.k.name()));
        }
        match e.k {
            K::Clone => {
                if pat != Pat::Imm {
                    bad(&["C05"], "setter-clones", format!("a setter that takes the builder {pat:?} cloned {}", id_text(e.id)));
                } else if cloned.contains(&e.id) {
                    bad(&["C05"], "setter-clones-twice", format!("an immutable setter cloned {} more than once", id_text(e.id)));
                } else if !pre_ids.contains(&e.id) {
                    bad(&["C05"], "setter-clones-other", format!("an immutable setter cloned {}, which the builder does not hold", id_text(e.id)));
                }
                cloned.push(e.id);
            }
            K::Into if matches!(how, How::Into | How::EachInto) && e.id == call.raw => into += 1,
            K::TryInto if how == How::Try && e.id == call.raw => tryinto += 1,
            K::Default | K::Extend if matches!(how, How::Each | How::EachInto) && e.site == f.f => {}
            K::Default | K::Dflt | K::SDflt => {
                let mut p = vec!["C07"];
                if matches!(how, How::Each | How::EachInto) {
                    p.push("C10");
                }
                bad(&p, "default-in-setter", format!("a setter evaluated {} at site {}", e.k.name(), e.site))
            }
            K::Custom => bad(&["C12"], "custom-in-setter", "a setter evaluated a custom build expression".into()),
            K::Validate => bad(&["C06"], "validate-in-setter", "a setter called the validator".into()),
            _ => bad(&sp, "conversion-count", format!("a setter called {} on {}", e.k.name(), id_text(e.id))),
        }
    }
    if into > 1 || tryinto > 1 {
        bad(&sp, "conversion-count", "the argument was converted more than once".into());
    }

    // 3. The result.
    match (ret, r.fired) {
        (SetRet::RealPanic(m), _) => {
            bad(&with(&["C09"]), "setter-panics", format!("the setter panicked by itself: {m}"));
            return;
        }
        (SetRet::Panic(t), Some((FaultKind::Panic, u, _))) if *t == u => return,
        (SetRet::Err(t), Some((FaultKind::Err, u, _))) if *t == u => return,
        (SetRet::Panic(_), _) => {
            bad(&with(&["C09"]), "wrong-panic", "a panic came out that is not the one injected here".into());
            return;
        }
        (SetRet::Err(t), x) => {
            bad(&with(&["C02"]), "wrong-error", format!("the setter returned conversion error {t}, injected was {x:?}"));
            return;
        }
        (SetRet::Done(..), Some((FaultKind::Panic, _, _))) => {
            bad(&with(&["C09"]), "panic-swallowed", "a panic of user code did not reach the caller".into());
            return;
        }
        (SetRet::Done(..), Some((FaultKind::Err, _, _))) => {
            bad(&with(&["C02"]), "failure-swallowed", "the conversion failed but the setter succeeded".into());
            return;
        }
        _ => {}
    }
    let SetRet::Done(post, same) = ret else { return };
    if !same {
        bad(&sp, "other-builder", "a mutable setter did not return the builder it was called on".into());
    }
    let given = match how {
        How::Into | How::EachInto => r.evs.iter().find(|e| e.k == K::Into && e.id == call.raw).and_then(|e| e.out.first().cloned()),
        How::Try => r.evs.iter().find(|e| e.k == K::TryInto && e.id == call.raw).and_then(|e| e.out.first().cloned()),
        _ => call.given.clone(),
    };
    for (i, (a, b)) in pre.iter().zip(post).enumerate() {
        let fi = &d.fields[i];
        let each = matches!(how, How::Each | How::EachInto);
        if i == op.f && !each {
            let want = match (&given, how) {
                (Some(v), How::Poke) if fi.store == Store::Precise => FObs::Precise(v.clone()),
                (Some(v), How::Poke) => FObs::Set(v.clone()),
                (None, How::Poke) => {
                    if fi.store == Store::Precise {
                        a.clone()
                    } else {
                        FObs::Unset
                    }
                }
                (Some(v), _) => {
                    let v = if fi.stripped() { Val::Some(Box::new(v.clone())) } else { v.clone() };
                    if fi.store == Store::Precise {
                        FObs::Precise(v)
                    } else {
                        FObs::Set(v)
                    }
                }
                (None, _) => {
                    bad(&sp, "not-converted", "the setter succeeded without converting its argument".into());
                    continue;
                }
            };
            if want != *b {
                if want.same_content(b) {
                    bad(&["C05"], "not-the-given-value", format!("field {} holds {} instead of the given {}", fi.name, b.text(), want.text()));
                } else {
                    let mut p = with(&[]);
                    if fi.store == Store::Precise {
                        p.push("C12");
                    }
                    bad(&p, "set-value", format!("field {} holds {} instead of {}", fi.name, b.text(), want.text()));
                }
            }
        } else if i == op.f {
            if let Some(item) = &given {
                check_each(fi, a, b, item, pat, r);
            } else {
                bad(&sp, "not-converted", "the item setter succeeded without converting its item".into());
            }
        } else {
            same_field(fi, a, b, pat, r.op, how);
        }
    }
}

/// A field that an operation does not concern.
fn same_field(f: &Field, a: &FObs, b: &FObs, pat: Pat, op: u32, how: How) {
    let mut p: Vec<&'static str> = vec!["C01"];
    match f.store {
        Store::Precise => p.push("C12"),
        Store::Phantom => p.push("C13"),
        _ => {}
    }
    match how {
        How::Try => p.push("C02"),
        How::Each | How::EachInto => p.push("C10"),
        _ => {}
    }
    if pat != Pat::Imm {
        if a != b {
            if a.same_content(b) {
                bad(&["C05"], "other-replaced", format!("field {} was replaced: {} became {}", f.name, a.text(), b.text()));
            } else {
                bad(&p, "other-field", format!("a setter of another field changed field {} from {} to {}", f.name, a.text(), b.text()));
            }
        }
        return;
    }
    p.push("C04");
    match (a.val(), b.val()) {
        (Some(x), Some(y)) if std::mem::discriminant(a) == std::mem::discriminant(b) => match clone_rel(x, y, op) {
            CloneRel::Ok => {}
            CloneRel::Content => bad(&p, "other-field", format!("in the new builder field {} is {} instead of {}", f.name, b.text(), a.text())),
            CloneRel::Identity(s) => bad(&["C05", "C04"], "other-not-cloned", format!("in the new builder field {}: {s}", f.name)),
        },
        _ if a == b => {}
        _ => bad(&p, "other-field", format!("in the new builder field {} is {} instead of {}", f.name, b.text(), a.text())),
    }
}

fn inner_coll<'a>(o: &'a FObs, f: &Field) -> Option<&'a Val> {
    let v = o.val()?;
    if f.stripped() {
        match v {
            Val::Some(b) => Some(b),
            _ => None,
        }
    } else {
        Some(v)
    }
}

fn each_partial(a: &FObs, b: &FObs, f: &Field) -> bool {
    // Interrupted inside the collection's own code: nothing already there may be lost or reordered.
    let old: Vec<Val> = match inner_coll(a, f) {
        Some(Val::Seq(_, v)) => v.clone(),
        _ => vec![],
    };
    match (inner_coll(b, f), b) {
        (Some(Val::Seq(_, v)), _) => v.len() <= old.len() + 1 && v.len() >= old.len() && v[..old.len()] == old[..],
        (None, FObs::Set(Val::None)) => old.is_empty(),
        _ => false,
    }
}

fn check_each(f: &Field, a: &FObs, b: &FObs, item: &Val, pat: Pat, r: &Rec) {
    let p = ["C10", "C01"];
    let old = inner_coll(a, f);
    let Some(Val::Seq(nid, new)) = inner_coll(b, f) else {
        bad(&p, "each-result", format!("after an item setter field {} is {}", f.name, b.text()));
        return;
    };
    let (oid, old) = match old {
        Some(Val::Seq(i, v)) => (Some(*i), v.clone()),
        _ => (None, vec![]),
    };
    if new.len() != old.len() + 1
        || !old.iter().zip(new).all(|(x, y)| x.same_content(y))
        || !new.last().is_some_and(|x| x.same_content(item))
    {
        bad(&p, "each-result", format!("after appending {} field {} is {} (was {})", item.text(), f.name, b.text(), a.text()));
        return;
    }
    if new.last() != Some(item) {
        bad(&["C05", "C10"], "each-item-identity", format!("the appended item is {} instead of the given {}", new.last().unwrap().text(), item.text()));
    }
    for (x, y) in old.iter().zip(new) {
        let ok = if pat == Pat::Imm { matches!(clone_rel(x, y, r.op), CloneRel::Ok) } else { x == y };
        if !ok {
            bad(&["C05", "C10"], "each-items-identity", format!("item {} became {}", x.text(), y.text()));
        }
    }
    if *nid != NO_ID {
        let n = cx().inst(*nid).cloned();
        let ok = match oid {
            Some(o) if pat == Pat::Imm => n.as_ref().is_some_and(|n| n.origin == Origin::CloneOf(o) && n.born == r.op),
            Some(o) => *nid == o,
            None => n.as_ref().is_some_and(|n| n.origin == Origin::Default && n.born == r.op),
        };
        if !ok {
            bad(&["C10"], "each-collection", format!("the collection extended is {} ({:?}), expected {}", id_text(*nid), n.map(|n| n.origin), match oid {
                Some(o) => format!("the given one, {}", id_text(o)),
                None => "the type's Default".into(),
            }));
        }
    }
}

fn op_set(op: &Op) {
    let d = desc_of(op.slot);
    if op.f >= d.fields.len() {
        return;
    }
    let f = &d.fields[op.f];
    if f.store == Store::Phantom || (!f.setter && op.how != How::Poke) {
        return;
    }
    let pat = if op.how == How::Poke { Pat::Mut } else { f.pat };
    let excl = pat != Pat::Imm;
    let mut call = Call { f: op.f, how: op.how, spec: op.spec.clone(), given: None, raw: NO_ID };
    lock_with_builder(op, excl);
    let pre = cx().slots[op.slot].m.clone();
    match pat {
        Pat::Mut => {
            let b = slot_ptr(op.slot);
            begin(op);
            let out = if op.how == How::Poke {
                guarded(|| {
                    unsafe { (*b).poke(&mut call) };
                    MutRet::Same(true)
                })
            } else {
                guarded(|| unsafe { (*b).op_mut(&mut call) })
            };
            let r = end();
            let after = unsafe { (*b).obs() };
            let ret = match out {
                Outcome::Val(MutRet::Na) => {
                    sched::unlock(op.slot, true);
                    return;
                }
                Outcome::Val(MutRet::Same(s)) => SetRet::Done(after.clone(), s),
                Outcome::Val(MutRet::Err(t)) => SetRet::Err(t),
                Outcome::Panic(t) => SetRet::Panic(t),
                Outcome::RealPanic(m) => SetRet::RealPanic(m),
            };
            check_set(d, op, pat, &pre, Some(&after), &call, &ret, &r);
            cx().slots[op.slot].m = after;
            sched::unlock(op.slot, true);
        }
        Pat::Imm => {
            let b = slot_ptr(op.slot);
            begin(op);
            let out = guarded(|| unsafe { (*b).op_ref(&mut call) });
            let r = end();
            let after = unsafe { (*b).obs() };
            let mut made = None;
            let ret = match out {
                Outcome::Val(NewRet::Na) => {
                    sched::unlock(op.slot, false);
                    return;
                }
                Outcome::Val(NewRet::New(n)) => {
                    let o = n.obs();
                    made = Some((n, o.clone()));
                    SetRet::Done(o, true)
                }
                Outcome::Val(NewRet::Err(t)) => SetRet::Err(t),
                Outcome::Panic(t) => SetRet::Panic(t),
                Outcome::RealPanic(m) => SetRet::RealPanic(m),
            };
            check_set(d, op, pat, &pre, Some(&after), &call, &ret, &r);
            cx().slots[op.slot].m = after;
            sched::unlock(op.slot, false);
            if let Some((n, o)) = made {
                put_dst(op, n, o);
            }
        }
        Pat::Own => {
            let b = cx().slots[op.slot].b.take().expect("builder");
            begin(op);
            let out = guarded(|| b.op_own(&mut call));
            let r = end();
            let mut made = None;
            let ret = match out {
                Outcome::Val(NewRet::Na) => {
                    sched::unlock(op.slot, true);
                    return;
                }
                Outcome::Val(NewRet::New(n)) => {
                    let o = n.obs();
                    made = Some((n, o.clone()));
                    SetRet::Done(o, true)
                }
                Outcome::Val(NewRet::Err(t)) => SetRet::Err(t),
                Outcome::Panic(t) => SetRet::Panic(t),
                Outcome::RealPanic(m) => SetRet::RealPanic(m),
            };
            check_set(d, op, pat, &pre, None, &call, &ret, &r);
            if let Some((n, o)) = made {
                put(op.slot, n, o);
            }
            sched::unlock(op.slot, true);
        }
    }
}

// ---------------------------------------------------------------- builds

struct Want {
    k: K,
    site: usize,
    id: Id,
    optional: bool,
    used: bool,
}
fn want(k: K, site: usize, id: Id) -> Want {
    Want { k, site, id, optional: false, used: false }
}

/// Where a field's value must come from.
#[derive(Clone, Debug)]
enum From {
    Moved(Val),
    Cloned(Val),
    Either(Val),
    Expr(K),
    TypeDefault,
    Struct,
    Missing,
}

fn plan_build(d: &Desc, pre: &[FObs]) -> (Vec<Vec<Want>>, Vec<From>) {
    let mut steps: Vec<Vec<Want>> = vec![vec![], vec![]];
    if d.validate {
        steps[0].push(want(K::Validate, 0, NO_ID));
    }
    if d.sdef != Dflt::None {
        steps[1].push(want(K::SDflt, 0, NO_ID));
    }
    let mut from = vec![];
    for (i, f) in d.fields.iter().enumerate() {
        let mut w = vec![];
        let type_default = |w: &mut Vec<Want>| {
            if has_default_cb(&f.sh) {
                w.push(want(K::Default, f.f, NO_ID));
            }
            From::TypeDefault
        };
        let unset = |w: &mut Vec<Want>, skipped: bool| match f.def {
            Dflt::Expr | Dflt::Try => {
                w.push(want(K::Dflt, f.dsite, NO_ID));
                From::Expr(K::Dflt)
            }
            Dflt::Trait => type_default(w),
            Dflt::None if d.sdef != Dflt::None => From::Struct,
            Dflt::None if skipped => type_default(w),
            Dflt::None => From::Missing,
        };
        let fr = if f.store == Store::Phantom {
            unset(&mut w, true)
        } else if f.cust != Dflt::None {
            w.push(want(K::Custom, f.csite, NO_ID));
            From::Expr(K::Custom)
        } else {
            match &pre[i] {
                FObs::Precise(v) => From::Moved(v.clone()),
                FObs::Set(v) if f.pat == Pat::Own => From::Moved(v.clone()),
                FObs::Set(v) => {
                    let optional = d.pat == Pat::Own;
                    for id in v.ids() {
                        let mut x = want(K::Clone, f.f, id);
                        x.optional = optional;
                        w.push(x);
                    }
                    if optional {
                        From::Either(v.clone())
                    } else {
                        From::Cloned(v.clone())
                    }
                }
                _ => unset(&mut w, false),
            }
        };
        steps.push(w);
        from.push(fr);
    }
    (steps, from)
}

fn step_name(d: &Desc, s: usize) -> String {
    match s {
        0 => "validation".into(),
        1 => "the struct-level default".into(),
        n => format!("field {}", d.fields[n - 2].name),
    }
}

fn kind_props(k: K, skipped: bool) -> Vec<&'static str> {
    let mut p = match k {
        K::Validate => vec!["C06"],
        K::SDflt | K::Dflt => vec!["C07"],
        K::Default => vec!["C07", "C13"],
        K::Custom => vec!["C12"],
        K::Clone => vec!["C05"],
        K::Into | K::TryInto | K::Extend => vec!["C01"],
        K::ErrConv => vec!["C08"],
    };
    if skipped && !p.contains(&"C13") {
        p.push("C13");
    }
    p
}

fn field_kind_props(f: &Field) -> Vec<&'static str> {
    let mut p = vec![];
    if f.store == Store::Phantom {
        p.push("C13");
    }
    if f.store == Store::Precise || f.cust != Dflt::None {
        p.push("C12");
    }
    p
}

fn name_is(a: &str, b: &str) -> bool {
    a.strip_prefix("r#").unwrap_or(a) == b.strip_prefix("r#").unwrap_or(b)
}

fn check_build(d: &Desc, pre: &[FObs], out: &Outcome<Result<Vec<Val>, ErrObs>>, r: &Rec) {
    let (mut steps, from) = plan_build(d, pre);
    let missing = from.iter().position(|f| matches!(f, From::Missing)).map(|i| i + 2);
    let skipped_site = |e: &Ev| match e.k {
        K::Dflt => d.fields.iter().any(|f| f.dsite == e.site && f.store == Store::Phantom),
        _ => false,
    };
    let limit = missing.unwrap_or(usize::MAX);
    let mut pos = 0;
    let mut fired_step = None;
    let mut converted = 0;
    for (j, e) in r.evs.iter().enumerate() {
        if e.k == K::ErrConv {
            // A user-supplied error type takes in the failure that ended the build, and nothing else.
            converted += 1;
            let failed = r.evs[..j].iter().any(|x| matches!(x.fired, Some(FaultKind::Err | FaultKind::Panic)));
            let text = r.evs[..j].last().is_some_and(|x| x.k == K::Validate && x.fired == Some(FaultKind::Err));
            let ok = converted == 1
                && match e.site {
                    0 => d.err == "custom" && missing.is_some() && !failed,
                    _ => d.vtext && text,
                };
            if !ok {
                bad(&["C08", "C01"], "error-conversion", "the build converted an error although nothing had failed that way".into());
                continue;
            }
            let g = if e.site == 0 { limit } else { 0 };
            for s in pos..g {
                if let Some(w) = steps[s].iter().find(|w| !w.used && !w.optional) {
                    bad(&["C08"], "out-of-order", format!("the missing value of {} was reported before {} of {}", step_name(d, g), w.k.name(), step_name(d, s)));
                    break;
                }
            }
            pos = g;
            if r.fired.is_some_and(|x| j == x.2) {
                fired_step = Some(g);
            }
            continue;
        }
        if converted > 0 {
            bad(&["C08"], "went-on", format!("after the build had converted its error it went on to call {}", e.k.name()));
        }
        let here = |w: &Want| !w.used && w.k == e.k && w.site == e.site && w.id == e.id;
        let after_failure = r.fired.filter(|x| j > x.2);
        // The step this callback belongs to: the current one, else a later one, else an earlier one.
        let g = (pos..steps.len()).chain(0..pos).find(|g| steps[*g].iter().any(here));
        let Some(g) = g else {
            let again = r.evs[..j].iter().any(|x| x.k == e.k && x.site == e.site && x.id == e.id);
            let mut p = kind_props(e.k, skipped_site(e));
            if e.k == K::SDflt && d.fields.iter().any(|f| f.store == Store::Phantom && f.def == Dflt::None) {
                p.push("C13");
            }
            if after_failure.is_some() {
                p.push("C08");
            }
            if pos == 0 && d.validate && e.k != K::Validate {
                p.push("C06");
            }
            bad(&p, if again { "evaluated-again" } else { "evaluated-unasked" }, format!(
                "the build called {} at site {} on {} {}",
                e.k.name(), e.site, id_text(e.id),
                if again { "more than once" } else { "although nothing required it" }
            ));
            continue;
        };
        steps[g].iter_mut().find(|w| here(w)).unwrap().used = true;
        if let Some(x) = after_failure {
            let mut p = vec!["C08"];
            if r.evs[x.2].k == K::Validate {
                p.push("C06");
            }
            bad(&p, "went-on", format!("after {} failed, the build went on to {} of {}", r.evs[x.2].k.name(), e.k.name(), step_name(d, g)));
            continue;
        }
        if g > limit {
            bad(&["C08"], "went-on", format!("after {} was found missing, the build evaluated {} of {}", step_name(d, limit), e.k.name(), step_name(d, g)));
        }
        if g < pos {
            let mut p = vec!["C08"];
            if g == 0 {
                p.push("C06");
            }
            bad(&p, "out-of-order", format!("{} of {} was evaluated after {}", e.k.name(), step_name(d, g), step_name(d, pos)));
        } else {
            for s in pos..g {
                if let Some(w) = steps[s].iter().find(|w| !w.used && !w.optional) {
                    let mut p = vec!["C08"];
                    if s == 0 {
                        p.push("C06");
                    }
                    bad(&p, "out-of-order", format!("{} of {} was evaluated before {} of {}", e.k.name(), step_name(d, g), w.k.name(), step_name(d, s)));
                    break;
                }
            }
            pos = g;
        }
        if r.fired.is_some_and(|x| j == x.2) {
            fired_step = Some(g);
        }
        // What the callback saw.
        if let Some(seen) = &e.seen {
            let ok = if seen.len() == d.fields.len() && (e.k == K::Validate || seen.len() > 1) {
                seen[..] == pre[..]
            } else {
                pre.get(e.site) == seen.first()
            };
            if !ok {
                let p: &[&'static str] = if e.k == K::Validate { &["C06"] } else { &["C12"] };
                bad(p, "saw-other-state", format!("{} saw [{}] while the builder was given [{}]", e.k.name(), seen.iter().map(|x| x.text()).collect::<Vec<_>>().join(", "), obs_text(pre, d)));
            }
        }
    }
    // Every step that was reached ran completely.
    let reached = match fired_step {
        Some(g) => g,
        None if missing.is_some() => limit,
        None => steps.len(),
    };
    let natural_end = !matches!(out, Outcome::RealPanic(_)) && r.fired.is_none() || fired_step.is_some();
    if natural_end {
        for s in 0..reached {
            for w in steps[s].iter().filter(|w| !w.used && !w.optional) {
                let skipped = s >= 2 && d.fields[s - 2].store == Store::Phantom;
                // A value given in uniform type may have been judged under another id already: still a missing clone.
                let mut p = kind_props(w.k, skipped);
                if w.k == K::Default && !skipped {
                    p.retain(|x| *x != "C13");
                }
                bad(&p, "not-evaluated", format!("the build never evaluated {} of {}{}", w.k.name(), step_name(d, s), if w.id == NO_ID { String::new() } else { format!(" on {}", id_text(w.id)) }));
            }
        }
    }

    // The result.
    match (out, r.fired) {
        (Outcome::RealPanic(m), _) => bad(&["C01", "C08"], "build-panics", format!("the build panicked by itself: {m}")),
        (Outcome::Panic(t), Some((FaultKind::Panic, u, _))) if *t == u => {}
        (Outcome::Panic(_), _) => bad(&["C08", "C01"], "wrong-panic", "a panic came out that is not the one injected here".into()),
        (Outcome::Val(_), Some((FaultKind::Panic, _, _))) => bad(&["C08", "C01"], "panic-swallowed", "a panic of user code did not reach the caller of the build".into()),
        (Outcome::Val(Ok(_)), Some((FaultKind::Err, _, j))) => {
            let mut p = if r.evs[j].k == K::Validate { vec!["C06", "C01"] } else { vec!["C08", "C01"] };
            if d.validate && r.evs[j].k != K::Validate {
                p.push("C06");
            }
            bad(&p, "failure-swallowed", format!("{} failed but the build succeeded", r.evs[j].k.name()));
        }
        (Outcome::Val(Err(e)), Some((FaultKind::Err, t, j))) => {
            let text = inj_s(t);
            let ok = match e {
                ErrObs::Text(s, disp) => *s == text && disp.contains(&text),
                ErrObs::Uninit(s, _) => d.err == "noval" && *s == text,
                ErrObs::Other(_) => false,
            };
            if !ok {
                let p: &[&'static str] = if r.evs[j].k == K::Validate { &["C06", "C08"] } else { &["C08", "C01"] };
                bad(p, "wrong-error", format!("{} failed with `{text}` but the build returned {e:?}", r.evs[j].k.name()));
            }
        }
        (Outcome::Val(Err(e)), None) => match missing {
            Some(m) => {
                let f = &d.fields[m - 2];
                let ok = match e {
                    ErrObs::Uninit(n, disp) => name_is(n, &f.name) && disp.contains(n.as_str()),
                    _ => false,
                };
                if !ok {
                    let mut p = vec!["C08"];
                    if let ErrObs::Uninit(n, _) = e {
                        p.extend(d.fields.iter().filter(|x| name_is(&x.name, n)).flat_map(field_kind_props));
                    }
                    bad(&p, "wrong-error", format!("field {} is the first missing one but the build returned {e:?}", f.name));
                }
            }
            None => {
                let mut p = vec!["C01", "C08"];
                if let ErrObs::Uninit(n, _) = e {
                    if let Some((i, f)) = d.fields.iter().enumerate().find(|(_, f)| name_is(&f.name, n)) {
                        p.extend(field_kind_props(f));
                        if matches!(from[i], From::Expr(K::Dflt) | From::TypeDefault | From::Struct) {
                            p.push("C07");
                        }
                    }
                }
                bad(&p, "unexpected-error", format!("the build had everything it needs but returned {e:?}; builder: {}", obs_text(pre, d)));
            }
        },
        (Outcome::Val(Ok(_)), None) if missing.is_some() => {
            let mut p = vec!["C08", "C01"];
            if d.validate {
                p.push("C06");
            }
            bad(&p, "missing-not-reported", format!("{} has no value and no default but the build succeeded", step_name(d, limit)));
        }
        (Outcome::Val(Ok(vals)), None) => {
            for (i, v) in vals.iter().enumerate() {
                check_target_field(d, i, v, &from, r);
            }
        }
        (Outcome::Val(_), Some((FaultKind::Stall | FaultKind::Nest(_), _, _))) => {}
    }
}

fn check_target_field(d: &Desc, i: usize, v: &Val, from: &[From], r: &Rec) {
    let f = &d.fields[i];
    let mut p = vec!["C01"];
    p.extend(field_kind_props(f));
    let given = |ok: bool, x: &Val| {
        if !ok {
            bad(&p, "built-value", format!("the target's field {} is {} but the builder was given {}", f.name, v.text(), x.text()));
        }
        ok
    };
    match &from[i] {
        From::Moved(x) => {
            if given(v.same_content(x), x) && v != x {
                bad(&["C05"], "not-moved", format!("the target's field {} is {} instead of the given {} itself", f.name, v.text(), x.text()));
            }
        }
        From::Cloned(x) => {
            if given(v.same_content(x), x) {
                if let CloneRel::Identity(s) = clone_rel(x, v, r.op) {
                    bad(&["C05", "C04"], "not-a-clone", format!("the target's field {}: {s}", f.name));
                }
            }
        }
        From::Either(x) => {
            if given(v.same_content(x), x) && v != x {
                if let CloneRel::Identity(s) = clone_rel(x, v, r.op) {
                    bad(&["C05"], "not-a-clone", format!("the target's field {}: {s}", f.name));
                }
            }
        }
        From::Expr(k) => {
            // The n-th evaluation of an expression is for the n-th of the fields that needed it.
            let site = |f: &Field| if *k == K::Dflt { f.dsite } else { f.csite };
            let needs = |j: &usize| matches!(from[*j], From::Expr(x) if x == *k) && site(&d.fields[*j]) == site(f);
            let n = (0..i).filter(needs).count();
            let last = (i + 1..d.fields.len()).all(|j| !needs(&j));
            let mut of = r.evs.iter().filter(|e| e.k == *k && e.site == site(f)).skip(n);
            let e = if last { of.last() } else { of.next() };
            let out = e.and_then(|e| e.out.first());
            if out != Some(v) {
                p.push(if *k == K::Dflt { "C07" } else { "C12" });
                bad(&p, "built-default", format!("the target's field {} is {} instead of this build's {} {}", f.name, v.text(), k.name(), out.map_or("(not evaluated)".into(), |x| x.text())));
            }
        }
        From::TypeDefault => {
            if !is_type_default(v, &f.sh, r.op, &r.evs) {
                p.push("C07");
                bad(&p, "built-default", format!("the target's field {} is {} instead of a fresh Default of its type", f.name, v.text()));
            }
        }
        From::Struct => {
            let out = r.evs.iter().filter(|e| e.k == K::SDflt).next_back().and_then(|e| e.out.get(i));
            if out != Some(v) {
                p.push("C07");
                bad(&p, "built-default", format!("the target's field {} is {} instead of this build's struct-level default {}", f.name, v.text(), out.map_or("(not evaluated)".into(), |x| x.text())));
            }
        }
        From::Missing => {}
    }
}

fn op_build(op: &Op) {
    let d = desc_of(op.slot);
    let own = d.pat == Pat::Own;
    lock_with_builder(op, own);
    let pre = cx().slots[op.slot].m.clone();
    let mut keep = None;
    let take = |x: Option<Result<Box<dyn Tgt>, ErrObs>>, keep: &mut Option<Box<dyn Tgt>>| match x.expect("build method") {
        Ok(t) => {
            let v = t.obs();
            *keep = Some(t);
            Ok(v)
        }
        Err(e) => Err(e),
    };
    let (out, r) = if own {
        let b = cx().slots[op.slot].b.take().expect("builder");
        begin(op);
        let o = guarded(|| b.build_own());
        (o, end())
    } else {
        let b = slot_ptr(op.slot);
        begin(op);
        let o = guarded(|| unsafe { (*b).build_ref() });
        (o, end())
    };
    let out = match out {
        Outcome::Val(x) => Outcome::Val(take(x, &mut keep)),
        Outcome::Panic(t) => Outcome::Panic(t),
        Outcome::RealPanic(m) => Outcome::RealPanic(m),
    };
    if matches!(out, Outcome::Val(Ok(_))) {
        cx().stats.builds_ok += 1;
    } else {
        cx().stats.builds_err += 1;
    }
    cx().note(|| match &out {
        Outcome::Val(Ok(v)) => format!("    built [{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")),
        Outcome::Val(Err(e)) => format!("    build returned {e:?}"),
        Outcome::Panic(t) => format!("    build unwound by injected panic #{t}"),
        Outcome::RealPanic(m) => format!("    build panicked: {m}"),
    });
    check_build(d, &pre, &out, &r);
    if !own {
        let b = slot_ptr(op.slot);
        let after = unsafe { (*b).obs() };
        if after != pre {
            bad(&["C03", "C01"], "build-disturbs", format!("a build by reference changed its builder: {}", diff_text(&pre, &after, d)));
        }
        cx().slots[op.slot].m = after;
    }
    sched::unlock(op.slot, own);
    if let (Some(t), Outcome::Val(Ok(v))) = (keep, out) {
        let c = cx();
        c.built_total += 1;
        let old = if c.built.len() >= 6 { Some(c.built.remove(0)) } else { None };
        c.built.push(Built { cfg: 0, t, v });
        drop(old);
    }
}

fn op_clone(op: &Op) {
    let d = desc_of(op.slot);
    if !d.clone {
        return;
    }
    // `clone_from` needs a builder to overwrite: the one in the slot the clone goes to, if it can be had.
    let mut over = None;
    if op.ctor > 0 && op.dst != op.slot {
        let c = cx();
        let s = &c.slots[op.dst];
        if !(c.depth[c.sched.cur] > 0 && (s.excl || s.shared > 0)) {
            sched::lock(op.dst, true);
            over = cx().slots[op.dst].b.take();
            sched::unlock(op.dst, true);
        }
    }
    lock_with_builder(op, false);
    let pre = cx().slots[op.slot].m.clone();
    let b = slot_ptr(op.slot);
    begin(op);
    let out = match over {
        Some(mut o) => guarded(|| insim(move || unsafe { o.clone_from_b(&*b) }.then_some(o))),
        None => guarded(|| insim(|| unsafe { (*b).clone_b() })),
    };
    let r = end();
    let after = unsafe { (*b).obs() };
    if after != pre {
        bad(&["C04"], "clone-disturbs", format!("cloning a builder changed it: {}", diff_text(&pre, &after, d)));
        cx().slots[op.slot].m = after;
    }
    for e in &r.evs {
        match e.k {
            K::Clone => {}
            K::Dflt | K::SDflt | K::Default => bad(&["C07", "C04"], "default-in-clone", format!("cloning a builder evaluated {}", e.k.name())),
            _ => bad(&["C04"], "callback-in-clone", format!("cloning a builder called {}", e.k.name())),
        }
    }
    let mut made = None;
    match (out, r.fired) {
        (Outcome::Val(Some(n)), None) => {
            let o = n.obs();
            for ((f, a), b) in d.fields.iter().zip(&pre).zip(&o) {
                same_field(f, a, b, Pat::Imm, r.op, How::Plain);
            }
            made = Some((n, o));
        }
        (Outcome::Panic(t), Some((FaultKind::Panic, u, _))) if t == u => {}
        (Outcome::Val(None), _) => {}
        _ => bad(&["C04"], "clone-result", "cloning a builder did not end as its parts did".into()),
    }
    sched::unlock(op.slot, false);
    if let Some((n, o)) = made {
        put_dst(op, n, o);
    }
}

fn op_drop(op: &Op) {
    sched::lock(op.slot, true);
    let b = cx().slots[op.slot].b.take();
    begin(op);
    insim(|| drop(b));
    end();
    sched::unlock(op.slot, true);
}

// ---------------------------------------------------------------- runs

fn client(me: usize) {
    let n = cx().plan.clients[me].len();
    for i in 0..n {
        cx().cur_op[me] = i;
        let op = cx().plan.clients[me][i].clone();
        if cx().log.is_some() {
            let t = op.text(&cx().plan, &cx().descs);
            cx().note(|| format!("client {me} op {i}: {t}"));
        }
        perform(&op);
        check_built();
        sched::yield_point();
    }
}

fn perform(op: &Op) {
    match op.k {
        OpK::New => op_new(op),
        OpK::Set => op_set(op),
        OpK::Build => op_build(op),
        OpK::Clone => op_clone(op),
        OpK::Drop => op_drop(op),
    }
}

fn worker(me: usize) {
    loop {
        await_baton(me);
        client(me);
        sched::finish();
    }
}

pub struct RunResult {
    pub viol: Vec<Violation>,
    pub stats: Stats,
    pub digest: u64,
    pub plan: Plan,
    pub insts: usize,
    pub log: Vec<String>,
    pub steps: u64,
}

pub static mut WORKERS: usize = 0;

/// The description of each configuration in this program, parsed once.
pub fn descs() -> &'static Vec<Desc> {
    use std::sync::OnceLock;
    static D: OnceLock<Vec<Desc>> = OnceLock::new();
    D.get_or_init(|| cfgs().iter().map(|c| Desc::parse(c.desc)).collect())
}

pub fn setup() {
    crate::interpose::ENTROPY_SIM.store(true, std::sync::atomic::Ordering::Relaxed);
    unsafe { crate::interpose::ON_FUTEX_WAIT = sched::futex_wait };
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        if IN_SIM.with(|s| s.get()) {
            REAL_PANIC.with(|r| r.set(Some(m)));
        } else {
            eprintln!("HARNESS PANIC {m} at {:?}", i.location().map(|l| l.to_string()));
            std::process::exit(70);
        }
    }));
}

pub fn run(plan: Plan, run_no: u32, from_seed: bool, want_log: bool) -> RunResult {
    let n = plan.clients.len().min(MAX_CLIENTS);
    #[allow(static_mut_refs)]
    unsafe {
        while WORKERS < n {
            let i = WORKERS;
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || worker(i)).expect("worker thread");
            WORKERS += 1;
        }
    }
    let ds: Vec<&'static Desc> = plan.cfgs.iter().map(|c| &descs()[*c]).collect();
    let rng = if from_seed { Some(Rng::new(mix(plan.seed, 0x5c4ed))) } else { None };
    crate::interpose::ENTROPY.store(plan.seed, std::sync::atomic::Ordering::Relaxed);
    crate::interpose::SIM_NANOS.store(1_000_000_000 + (plan.seed % 1000) * 1_000_000_000, std::sync::atomic::Ordering::Relaxed);
    let slots = (0..plan.nslots)
        .map(|_| Slot { cfg: 0, b: None, m: vec![], shared: 0, excl: false })
        .collect();
    let mut c = Box::new(Ctx {
        run: run_no,
        descs: ds,
        insts: Vec::with_capacity(256),
        ops: (0..n.max(1)).map(|_| OpCtx::default()).collect(),
        slots,
        built: vec![],
        built_total: 0,
        viol: vec![],
        stats: Stats::default(),
        sched: Sched::new(n, rng, plan.stay, plan.sched.clone()),
        digest: Digest::new(),
        next_op: 0,
        next_content: 0,
        next_token: 100,
        cur_op: vec![0; n.max(1)],
        plan,
        log: if want_log { Some(vec![]) } else { None },
        foreign: 0,
        depth: vec![0; n.max(1)],
    });
    install(&mut *c);
    if n > 0 {
        let first = {
            let s = &mut cx().sched;
            // The first client is chosen like every other step.
            let f = match &mut s.rng {
                Some(r) => r.below(n),
                None => s.replay.first().map_or(0, |x| if (*x as usize) < n { *x as usize } else { 0 }),
            };
            s.pos = 1;
            s.taken.push(f as u8);
            s.cur = f;
            f
        };
        crate::interpose::unpark(&sched::WORDS[first], 1);
        await_baton(MAX_CLIENTS);
    }
    finish_run();
    install(std::ptr::null_mut());
    c.plan.sched = std::mem::take(&mut c.sched.taken);
    RunResult {
        viol: std::mem::take(&mut c.viol),
        digest: c.digest.0,
        steps: c.stats.yields,
        stats: c.stats.clone(),
        plan: c.plan.clone(),
        insts: c.insts.len(),
        log: c.log.take().unwrap_or_default(),
    }
}

fn finish_run() {
    let c = cx();
    check_slots("the end of the run");
    for (i, p) in c.plan.clients.iter().enumerate() {
        c.cur_op[i] = p.len();
    }
    for i in 0..cx().slots.len() {
        let b = cx().slots[i].b.take();
        drop(b);
    }
    let built = std::mem::take(&mut cx().built);
    drop(built);
    let mut lost = vec![];
    for (i, n) in cx().insts.iter().enumerate() {
        if n.drops == 0 {
            lost.push(format!("value #{i} ({:?}, content {}) made in operation {} was never dropped", n.origin, n.c, n.born));
        }
    }
    if let Some(s) = lost.first() {
        let k = lost.len();
        bad(&["C05"], "leaked", format!("{s}{}", if k > 1 { format!(" (and {} more)", k - 1) } else { String::new() }));
    }
    if cx().foreign > 0 {
        let k = cx().foreign;
        bad(&["C15", "C05"], "kept-across-runs", format!("{k} values of an earlier run were still alive inside generated code"));
    }
}

/// Everything recorded of the current run, for a fatal end.
pub fn current() -> (Vec<Violation>, Plan) {
    let c = cx();
    let mut p = c.plan.clone();
    p.sched = c.sched.taken.clone();
    (c.viol.clone(), p)
}
