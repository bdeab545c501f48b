//! State of the current simulated execution. Exactly one thread (the baton holder) touches it at any time.

use crate::desc::Desc;
use crate::interpose::IN_SIM;
use crate::plan::{FSel, Fault, FaultKind, Plan};
use crate::probe::Bld;
use crate::rng::Digest;
use crate::sched::Sched;
use crate::val::*;
use std::cell::Cell;

/// Kinds of user code that generated code calls.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum K {
    Validate,
    SDflt,
    Dflt,
    Custom,
    Clone,
    Default,
    Into,
    TryInto,
    Extend,
    /// A user-supplied error type taking in an error of the build.
    ErrConv,
}
pub const NK: usize = 10;
pub const KINDS: [(K, &str); NK] = [
    (K::Validate, "validate"),
    (K::SDflt, "struct_default"),
    (K::Dflt, "default"),
    (K::Custom, "custom_build"),
    (K::Clone, "clone"),
    (K::Default, "type_default"),
    (K::Into, "into"),
    (K::TryInto, "try_into"),
    (K::Extend, "extend"),
    (K::ErrConv, "error_conversion"),
];
impl K {
    pub fn name(self) -> &'static str {
        KINDS.iter().find(|x| x.0 == self).unwrap().1
    }
    pub fn parse(s: &str) -> K {
        KINDS.iter().find(|x| x.1 == s).expect("callback kind").0
    }
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub k: K,
    /// Field index for Dflt/Custom, type tag for Clone/Default/Into/TryInto/Extend, for ErrConv 0 for a missing field
    /// and 1 for the validator's text, 0 otherwise.
    pub site: usize,
    /// Instance the callback was called on (clone source, raw argument).
    pub id: Id,
    /// What it produced, one entry per value (several for a struct default).
    pub out: Vec<Val>,
    /// Builder as seen from inside the callback.
    pub seen: Option<Vec<FObs>>,
    pub fired: Option<FaultKind>,
}

/// What the current operation of one client is doing.
#[derive(Default)]
pub struct OpCtx {
    pub op: u32,
    pub active: bool,
    pub evs: Vec<Ev>,
    pub faults: Vec<(Fault, bool)>,
    pub ncb: u32,
    /// Token of the panic or error that was injected, and at which event.
    pub fired: Option<(FaultKind, u64, usize)>,
    pub waited: bool,
    pub inner: Vec<crate::plan::Op>,
}

pub struct Slot {
    pub cfg: usize,
    pub b: Option<Box<dyn Bld>>,
    pub m: Vec<FObs>,
    pub shared: u32,
    pub excl: bool,
}

pub struct Built {
    pub cfg: usize,
    pub t: Box<dyn crate::probe::Tgt>,
    pub v: Vec<Val>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<&'static str>,
    pub rule: String,
    pub detail: String,
    pub client: usize,
    pub op: usize,
    pub op_text: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub ops: u64,
    pub builds_ok: u64,
    pub builds_err: u64,
    pub yields: u64,
    pub switches: u64,
    pub inv_checks: u64,
    pub cbs: [u64; NK],
    pub f_panic: [u64; NK],
    pub f_err: [u64; NK],
    pub f_stall: u64,
    pub nested: u64,
    pub contended: u64,
}

pub struct Ctx {
    pub run: u32,
    pub descs: Vec<&'static Desc>,
    pub insts: Vec<Inst>,
    pub ops: Vec<OpCtx>,
    pub slots: Vec<Slot>,
    pub built: Vec<Built>,
    pub built_total: usize,
    pub viol: Vec<Violation>,
    pub stats: Stats,
    pub sched: Sched,
    pub digest: Digest,
    pub next_op: u32,
    pub next_content: u64,
    pub next_token: u64,
    pub plan: Plan,
    pub cur_op: Vec<usize>,
    pub log: Option<Vec<String>>,
    pub foreign: u64,
    /// How many operations each client is in.
    pub depth: Vec<u32>,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

pub fn install(c: *mut Ctx) {
    unsafe { CTX = c }
}
pub fn live() -> bool {
    unsafe { !CTX.is_null() }
}
/// Only the baton holder calls this, and never keeps the reference across a scheduling point.
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}

/// Payload of an injected panic.
pub struct Injected(pub u64);

thread_local! {
    /// Message of the last panic that was not injected.
    pub static REAL_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

pub fn set_sim(on: bool) -> bool {
    IN_SIM.with(|s| s.replace(on))
}

/// Runs generated code.
pub fn insim<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            set_sim(self.0);
        }
    }
    let _g = G(set_sim(true));
    f()
}

/// Entry of every piece of user code that generated code can call: a scheduling point, then a fault decision.
/// Returns the token of an error to return, if one is injected here.
pub fn cb(k: K, site: usize, id: Id, can_fail: bool, seen: Option<Vec<FObs>>) -> Option<u64> {
    if !live() {
        return None;
    }
    let was = set_sim(false);
    let me = cx().sched.cur;
    {
        let c = cx();
        c.stats.cbs[k as usize] += 1;
        c.digest.add(((me as u64) << 32) | ((k as u64) << 16) | site as u64);
        let o = &mut c.ops[me];
        o.evs.push(Ev { k, site, id, out: vec![], seen, fired: None });
        if c.log.is_some() {
            let s = format!("    client {me}: {} site {site} on {}", k.name(), id_text(id));
            c.log.as_mut().unwrap().push(s);
        }
    }
    let ix = cx().ops[me].evs.len() - 1;
    let mut todo = None;
    {
        let o = &mut cx().ops[me];
        let n = o.ncb;
        o.ncb += 1;
        if o.active {
            for (f, used) in o.faults.iter_mut() {
                if *used {
                    continue;
                }
                let hit = match f.sel {
                    FSel::Nth(x) => x == n,
                    FSel::At(kk, s) => kk == k && (s == site || s == usize::MAX),
                };
                if !hit || (f.kind == FaultKind::Err && !can_fail) {
                    continue;
                }
                if matches!(f.kind, FaultKind::Panic | FaultKind::Nest(_)) && std::thread::panicking() {
                    continue;
                }
                *used = true;
                todo = Some(f.kind);
                break;
            }
        }
    }
    if todo == Some(FaultKind::Stall) {
        let c = cx();
        c.stats.f_stall += 1;
        c.ops[me].evs[ix].fired = todo;
        if let Some(l) = &mut c.log {
            l.push(format!("    client {me}: stalled until every other client has stopped"));
        }
        crate::sched::stall();
        todo = None;
    } else {
        crate::sched::yield_point();
    }
    if let Some(FaultKind::Nest(n)) = todo {
        let op = cx().ops[me].inner.get(n as usize).cloned();
        if let Some(op) = op {
            crate::exec::nested(&op);
        }
        todo = None;
    }
    match todo {
        Some(kind) => {
            let c = cx();
            c.next_token += 1;
            let t = c.next_token;
            c.ops[me].evs[ix].fired = todo;
            c.ops[me].fired = Some((kind, t, ix));
            if let Some(l) = &mut c.log {
                l.push(format!("    client {me}: injected {} #{t}", if kind == FaultKind::Err { "error" } else { "panic" }));
            }
            if kind == FaultKind::Panic {
                c.stats.f_panic[k as usize] += 1;
                set_sim(was);
                std::panic::resume_unwind(Box::new(Injected(t)));
            }
            c.stats.f_err[k as usize] += 1;
            set_sim(was);
            Some(t)
        }
        None => {
            set_sim(was);
            None
        }
    }
}

/// Records what the last callback entered by this client produced.
pub fn produced(v: Vec<Val>) {
    if !live() {
        return;
    }
    let me = cx().sched.cur;
    if let Some(e) = cx().ops[me].evs.last_mut() {
        e.out = v;
    }
}

impl Ctx {
    pub fn new_inst(&mut self, f: usize, origin: Origin, c: u64) -> Id {
        let op = self.ops.get(self.sched.cur).map_or(0, |o| o.op);
        self.insts.push(Inst { f, c, origin, born: op, drops: 0 });
        mk_id(self.run, self.insts.len() as u32 - 1)
    }
    pub fn inst(&self, id: Id) -> Option<&Inst> {
        if id_run(id) == self.run {
            self.insts.get(id_ix(id) as usize)
        } else {
            None
        }
    }
    pub fn fresh_content(&mut self) -> u64 {
        self.next_content += 1;
        1_000_000 + self.next_content
    }
    pub fn violation(&mut self, props: &[&'static str], rule: &str, detail: String) {
        let client = self.sched.cur.min(self.cur_op.len().saturating_sub(1));
        let op = self.cur_op.get(client).copied().unwrap_or(0);
        let op_text = self
            .plan
            .clients
            .get(client)
            .and_then(|c| c.get(op))
            .map_or(String::from("end of run"), |o| o.text(&self.plan, &self.descs));
        if let Some(l) = &mut self.log {
            l.push(format!("  !! {rule}: {detail}"));
        }
        if self.viol.len() < 40 {
            self.viol.push(Violation { props: props.to_vec(), rule: rule.into(), detail, client, op, op_text });
        }
    }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            let t = s();
            l.push(t);
        }
    }
}
