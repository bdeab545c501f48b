//! A run is decided completely by a plan: which clients do which operations with which arguments, which faults
//! are injected where, and which client goes on at each scheduling point.

use crate::ctx::K;
use crate::desc::{Desc, Dflt, Field, Pat, Store};
use crate::probe::{How, Spec, HOWS};
use crate::rng::Rng;
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    Panic,
    Err,
    Stall,
    /// The user code performs another operation itself, before it goes on: the n-th inner operation.
    Nest(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FSel {
    /// The n-th callback of the operation.
    Nth(u32),
    /// The first callback of this kind at this site (usize::MAX: any).
    At(K, usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fault {
    pub sel: FSel,
    pub kind: FaultKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpK {
    New,
    Set,
    Build,
    Clone,
    Drop,
}
const OPKS: [(OpK, &str); 5] = [
    (OpK::New, "new"),
    (OpK::Set, "set"),
    (OpK::Build, "build"),
    (OpK::Clone, "clone"),
    (OpK::Drop, "drop"),
];

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: OpK,
    pub slot: usize,
    pub dst: usize,
    pub f: usize,
    pub how: How,
    pub spec: Option<Spec>,
    pub faults: Vec<Fault>,
    pub ctor: usize,
    pub inner: Vec<Op>,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub cfgs: Vec<usize>,
    pub nslots: usize,
    pub clients: Vec<Vec<Op>>,
    pub stay: u32,
    pub seed: u64,
    pub sched: Vec<u8>,
}

fn spec_json(s: &Spec) -> Value {
    match s {
        Spec::V(c) => json!(c),
        Spec::None => json!("none"),
        Spec::Some(b) => json!({"some": spec_json(b)}),
        Spec::Seq(v) => json!(v),
    }
}
fn spec_parse(v: &Value) -> Spec {
    match v {
        Value::Number(n) => Spec::V(n.as_u64().unwrap()),
        Value::String(_) => Spec::None,
        Value::Object(o) => Spec::Some(Box::new(spec_parse(&o["some"]))),
        Value::Array(a) => Spec::Seq(a.iter().map(|x| x.as_u64().unwrap()).collect()),
        _ => panic!("argument {v}"),
    }
}

impl Fault {
    fn json(&self) -> Value {
        let kind = match self.kind {
            FaultKind::Panic => "panic",
            FaultKind::Err => "error",
            FaultKind::Stall => "stall",
            FaultKind::Nest(_) => "nest",
        };
        let mut v = match self.sel {
            FSel::Nth(n) => json!({"fault": kind, "nth_callback": n}),
            FSel::At(k, usize::MAX) => json!({"fault": kind, "at": k.name()}),
            FSel::At(k, s) => json!({"fault": kind, "at": k.name(), "site": s}),
        };
        if let FaultKind::Nest(n) = self.kind {
            v.as_object_mut().unwrap().insert("inner".into(), json!(n));
        }
        v
    }
    fn parse(v: &Value) -> Fault {
        let kind = match v["fault"].as_str().unwrap() {
            "panic" => FaultKind::Panic,
            "error" => FaultKind::Err,
            "nest" => FaultKind::Nest(v["inner"].as_u64().unwrap() as u8),
            _ => FaultKind::Stall,
        };
        let sel = match v.get("nth_callback") {
            Some(n) => FSel::Nth(n.as_u64().unwrap() as u32),
            None => FSel::At(
                K::parse(v["at"].as_str().unwrap()),
                v.get("site").map_or(usize::MAX, |s| s.as_u64().unwrap() as usize),
            ),
        };
        Fault { sel, kind }
    }
}

impl Op {
    pub fn new(k: OpK, slot: usize) -> Op {
        Op { k, slot, dst: slot, f: 0, how: How::Plain, spec: None, faults: vec![], ctor: 0, inner: vec![] }
    }
    fn json(&self) -> Value {
        let mut v = json!({"op": OPKS.iter().find(|x| x.0 == self.k).unwrap().1, "slot": self.slot});
        let m = v.as_object_mut().unwrap();
        match self.k {
            OpK::New => {
                m.insert("ctor".into(), json!(self.ctor));
            }
            OpK::Set => {
                m.insert("dst".into(), json!(self.dst));
                m.insert("field".into(), json!(self.f));
                m.insert("how".into(), json!(HOWS.iter().find(|x| x.0 == self.how).unwrap().1));
                if let Some(s) = &self.spec {
                    m.insert("arg".into(), spec_json(s));
                }
            }
            OpK::Clone => {
                m.insert("dst".into(), json!(self.dst));
                m.insert("ctor".into(), json!(self.ctor));
            }
            _ => {}
        }
        if !self.inner.is_empty() {
            m.insert("inner".into(), Value::Array(self.inner.iter().map(|o| o.json()).collect()));
        }
        if !self.faults.is_empty() {
            m.insert("faults".into(), Value::Array(self.faults.iter().map(|f| f.json()).collect()));
        }
        v
    }
    fn parse(v: &Value) -> Op {
        let k = OPKS.iter().find(|x| x.1 == v["op"].as_str().unwrap()).expect("operation").0;
        let slot = v["slot"].as_u64().unwrap() as usize;
        let n = |s: &str, d: usize| v.get(s).map_or(d, |x| x.as_u64().unwrap() as usize);
        Op {
            k,
            slot,
            dst: n("dst", slot),
            f: n("field", 0),
            how: v.get("how").map_or(How::Plain, |h| HOWS.iter().find(|x| x.1 == h.as_str().unwrap()).unwrap().0),
            spec: v.get("arg").map(spec_parse),
            faults: v.get("faults").map_or(vec![], |a| a.as_array().unwrap().iter().map(Fault::parse).collect()),
            ctor: n("ctor", 0),
            inner: v.get("inner").map_or(vec![], |a| a.as_array().unwrap().iter().map(Op::parse).collect()),
        }
    }
    pub fn text(&self, p: &Plan, d: &[&'static Desc]) -> String {
        let desc = d[self.slot % p.cfgs.len()];
        let mut s = match self.k {
            OpK::New => format!("slot{} = {}::new[{}]", self.slot, desc.name, self.ctor),
            OpK::Set => format!(
                "slot{}.set {}.{} {:?} {} -> slot{}",
                self.slot,
                desc.name,
                desc.fields.get(self.f).map_or("?", |f| &f.name),
                self.how,
                self.spec.as_ref().map_or("-".into(), |x| format!("{x:?}")),
                self.dst
            ),
            OpK::Build => format!("slot{}.build {}", self.slot, desc.name),
            OpK::Clone if self.ctor > 0 => format!("slot{}.clone_from slot{} {}", self.dst, self.slot, desc.name),
            OpK::Clone => format!("slot{} = slot{}.clone {}", self.dst, self.slot, desc.name),
            OpK::Drop => format!("drop slot{}", self.slot),
        };
        for f in &self.faults {
            s += &format!(" !{:?}@{:?}", f.kind, f.sel);
            if let FaultKind::Nest(n) = f.kind {
                if let Some(o) = self.inner.get(n as usize) {
                    s += &format!(" {{ {} }}", o.text(p, d));
                }
            }
        }
        s
    }
}

impl Plan {
    pub fn json(&self, names: &[String]) -> Value {
        json!({
            "builders": self.cfgs.iter().map(|c| names[*c].clone()).collect::<Vec<_>>(),
            "slots": self.nslots,
            "clients": self.clients.iter().map(|c| c.iter().map(|o| o.json()).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "seed": self.seed,
            "stay": self.stay,
            "schedule": self.sched,
        })
    }
    /// The plan, and whether its schedule is to be drawn from its seed (no schedule given).
    pub fn parse(v: &Value, names: &[String]) -> (Plan, bool) {
        let p = Plan {
            cfgs: v["builders"]
                .as_array()
                .unwrap()
                .iter()
                .map(|b| names.iter().position(|n| n == b.as_str().unwrap()).expect("unknown builder"))
                .collect(),
            nslots: v["slots"].as_u64().unwrap() as usize,
            clients: v["clients"]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| c.as_array().unwrap().iter().map(Op::parse).collect())
                .collect(),
            stay: v["stay"].as_u64().unwrap_or(50) as u32,
            seed: v["seed"].as_u64().unwrap_or(0),
            sched: v["schedule"].as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()),
        };
        (p, !v["schedule"].is_array())
    }
}

struct Gen<'a> {
    rng: Rng,
    descs: Vec<&'a Desc>,
    nslots: usize,
    content: u64,
    focus: &'a str,
    fault_pct: u32,
    nest_pct: u32,
}

impl Gen<'_> {
    fn desc(&self, slot: usize) -> &Desc {
        self.descs[slot % self.descs.len()]
    }
    fn content(&mut self) -> u64 {
        // Now and then two values look the same.
        if self.content > 0 && self.rng.pct(7) {
            1 + self.rng.u64() % self.content
        } else {
            self.content += 1;
            self.content
        }
    }
    fn spec(&mut self, sh: &str) -> Spec {
        match sh.as_bytes()[0] {
            b'O' => {
                if self.rng.pct(22) {
                    Spec::None
                } else {
                    Spec::Some(Box::new(self.spec(&sh[1..])))
                }
            }
            b'S' | b'L' => {
                let n = *self.rng.pick(&[0, 1, 1, 2, 3]);
                Spec::Seq((0..n).map(|_| self.content()).collect())
            }
            _ => Spec::V(self.content()),
        }
    }
    fn same_cfg_slot(&mut self, slot: usize) -> usize {
        let n = self.descs.len();
        let c: Vec<usize> = (0..self.nslots).filter(|s| s % n == slot % n).collect();
        *self.rng.pick(&c)
    }
    fn hows(&self, f: &Field) -> Vec<(How, u32)> {
        let mut v = vec![];
        let w = |p: &str, hi: u32, lo: u32| if self.focus == p { hi } else { lo };
        if f.setter {
            v.push((How::Plain, 10));
            if f.into {
                v.push((How::Into, w("C09", 30, 10)));
                if f.arg_shape().starts_with('O') {
                    v.push((How::Lift, 6));
                }
            }
            if f.try_ {
                v.push((How::Try, w("C02", 60, 14)));
                v.push((How::TryId, w("C02", 10, 3)));
            }
            match f.each {
                1 => v.push((How::Each, w("C10", 60, 14))),
                2 => v.push((How::EachInto, w("C10", 60, 14))),
                _ => {}
            }
        }
        if f.store != Store::Phantom {
            v.push((How::Poke, if v.is_empty() { 10 } else { 3 }));
        }
        v
    }
    fn set(&mut self, slot: usize, f: usize) -> Option<Op> {
        let fd = self.desc(slot).fields[f].clone();
        let h = self.hows(&fd);
        if h.is_empty() {
            return None;
        }
        let ws: Vec<u32> = h.iter().map(|x| x.1).collect();
        let how = h[self.rng.weighted(&ws)].0;
        let mut op = Op::new(OpK::Set, slot);
        op.f = f;
        op.how = how;
        op.spec = match how {
            How::Poke => {
                if fd.store == Store::Opt && self.rng.pct(40) {
                    None
                } else {
                    Some(self.spec(&fd.bsh))
                }
            }
            How::Each | How::EachInto => Some(Spec::V(self.content())),
            How::Lift => {
                let s = self.spec(&fd.arg_shape()[1..]);
                Some(Spec::Some(Box::new(s)))
            }
            _ => Some(self.spec(fd.arg_shape())),
        };
        if fd.pat == Pat::Imm && how != How::Poke {
            op.dst = if self.rng.pct(50) { slot } else { self.same_cfg_slot(slot) };
        }
        Some(op)
    }
    fn set_faults(&mut self, op: &mut Op, imm: bool) {
        let mut c: Vec<(Fault, u32)> = vec![];
        let at = |k, kind| Fault { sel: FSel::At(k, usize::MAX), kind };
        match op.how {
            How::Into | How::EachInto => c.push((at(K::Into, FaultKind::Panic), 10)),
            How::Try => {
                c.push((at(K::TryInto, FaultKind::Err), if self.focus == "C02" { 30 } else { 12 }));
                c.push((at(K::TryInto, FaultKind::Panic), 6));
            }
            _ => {}
        }
        if matches!(op.how, How::Each | How::EachInto) {
            c.push((at(K::Default, FaultKind::Panic), 2));
            c.push((at(K::Extend, FaultKind::Panic), 2));
        }
        if imm && op.how != How::Poke {
            let n = self.rng.below(6) as u32;
            c.push((Fault { sel: FSel::Nth(n), kind: FaultKind::Panic }, 10));
        }
        let n = self.rng.below(4) as u32;
        c.push((Fault { sel: FSel::Nth(n), kind: FaultKind::Stall }, 3));
        let ws: Vec<u32> = c.iter().map(|x| x.1).collect();
        op.faults.push(c[self.rng.weighted(&ws)].0);
    }
    /// Lets the user code that an operation calls use builders itself.
    fn nest(&mut self, op: &mut Op, depth: u32) {
        let imm = op.k == OpK::Set && self.desc(op.slot).fields[op.f].pat == Pat::Imm;
        if op.how == How::Poke || !self.rng.pct(self.nest_pct / (1 + depth)) {
            return;
        }
        let n = if op.k == OpK::Set && !imm { self.rng.below(2) } else { self.rng.below(7) } as u32;
        let slot = if self.rng.pct(45) { op.slot } else { self.rng.below(self.nslots) };
        let d = self.desc(slot).clone();
        let mut o = match self.rng.weighted(&[45, 25, 12, 12, 6]) {
            0 => {
                let mut o = Op::new(OpK::Build, slot);
                if self.rng.pct(self.fault_pct) {
                    o.faults = self.build_faults(slot);
                }
                o
            }
            1 => {
                let f = self.rng.below(d.fields.len());
                match self.set(slot, f) {
                    Some(mut o) => {
                        if self.rng.pct(self.fault_pct) {
                            self.set_faults(&mut o, d.fields[f].pat == Pat::Imm);
                        }
                        o
                    }
                    None => Op::new(OpK::Build, slot),
                }
            }
            2 => {
                let mut o = Op::new(OpK::New, slot);
                o.ctor = self.rng.below(d.ctors);
                o
            }
            3 if d.clone => {
                let mut o = Op::new(OpK::Clone, slot);
                o.dst = self.same_cfg_slot(slot);
                o.ctor = usize::from(self.rng.pct(30));
                o
            }
            _ => Op::new(OpK::Drop, slot),
        };
        if depth < 2 {
            self.nest(&mut o, depth + 1);
        }
        op.faults.push(Fault { sel: FSel::Nth(n), kind: FaultKind::Nest(op.inner.len() as u8) });
        op.inner.push(o);
    }
    fn build_faults(&mut self, slot: usize) -> Vec<Fault> {
        let d = self.desc(slot).clone();
        let mut c: Vec<(Fault, u32)> = vec![];
        let add = |c: &mut Vec<(Fault, u32)>, k, site, can, w: u32| {
            if can {
                c.push((Fault { sel: FSel::At(k, site), kind: FaultKind::Err }, w));
            }
            c.push((Fault { sel: FSel::At(k, site), kind: FaultKind::Panic }, w.div_ceil(3)));
        };
        if d.validate {
            add(&mut c, K::Validate, 0, true, if self.focus == "C06" { 30 } else { 8 });
        }
        if d.sdef != Dflt::None {
            add(&mut c, K::SDflt, 0, d.sdef == Dflt::Try, 8);
        }
        for f in &d.fields {
            match f.def {
                Dflt::Expr | Dflt::Try => add(&mut c, K::Dflt, f.dsite, f.def == Dflt::Try, 6),
                Dflt::Trait => add(&mut c, K::Default, f.f, false, 3),
                Dflt::None => {}
            }
            if f.cust != Dflt::None {
                add(&mut c, K::Custom, f.csite, f.cust == Dflt::Try, 6);
            }
        }
        if d.err == "custom" {
            c.push((Fault { sel: FSel::At(K::ErrConv, usize::MAX), kind: FaultKind::Panic }, 4));
        }
        let n = self.rng.below(10) as u32;
        c.push((Fault { sel: FSel::Nth(n), kind: FaultKind::Panic }, 5));
        let n = self.rng.below(8) as u32;
        c.push((Fault { sel: FSel::Nth(n), kind: FaultKind::Stall }, 4));
        let ws: Vec<u32> = c.iter().map(|x| x.1).collect();
        let k = match self.focus {
            "C08" | "C06" => *self.rng.pick(&[1, 1, 2, 3]),
            _ => *self.rng.pick(&[1, 1, 1, 2]),
        };
        (0..k).map(|_| c[self.rng.weighted(&ws)].0).collect()
    }
    fn fill(&mut self, slot: usize, out: &mut Vec<Op>) {
        let d = self.desc(slot).clone();
        let mut fs: Vec<usize> = (0..d.fields.len())
            .filter(|i| {
                let f = &d.fields[*i];
                f.store == Store::Opt && f.cust == Dflt::None && f.def == Dflt::None && d.sdef == Dflt::None
            })
            .collect();
        for i in (1..fs.len()).rev() {
            let j = self.rng.below(i + 1);
            fs.swap(i, j);
        }
        if !fs.is_empty() && self.rng.pct(if self.focus == "C08" { 35 } else { 12 }) {
            let j = self.rng.below(fs.len());
            fs.remove(j);
        }
        for f in fs {
            if let Some(mut op) = self.set(slot, f) {
                op.dst = slot;
                if op.how == How::Poke && op.spec.is_none() {
                    let sh = d.fields[f].bsh.clone();
                    op.spec = Some(self.spec(&sh));
                }
                out.push(op);
            }
        }
    }
    fn client(&mut self, len: usize) -> Vec<Op> {
        let mut out = vec![];
        let home = self.rng.below(self.nslots);
        while out.len() < len {
            let slot = if self.rng.pct(60) { home } else { self.rng.below(self.nslots) };
            let d = self.desc(slot).clone();
            let wb = if matches!(self.focus, "C03" | "C06" | "C07" | "C08" | "C12" | "C13") { 34 } else { 22 };
            match self.rng.weighted(&[38, 14, wb, 6, 3, 5]) {
                0 => {
                    let f = self.rng.below(d.fields.len());
                    if let Some(mut op) = self.set(slot, f) {
                        let imm = d.fields[f].pat == Pat::Imm;
                        let faulty = self.rng.pct(self.fault_pct)
                            || (op.how == How::Try && self.rng.pct(35))
                            || (self.focus == "C09" && self.rng.pct(40));
                        if faulty {
                            self.set_faults(&mut op, imm);
                        }
                        self.nest(&mut op, 0);
                        let retry = faulty && self.rng.pct(50);
                        let mut again = op.clone();
                        out.push(op);
                        if retry {
                            again.faults.clear();
                            again.inner.clear();
                            out.push(again);
                        }
                    }
                }
                1 => self.fill(slot, &mut out),
                2 => {
                    let mut op = Op::new(OpK::Build, slot);
                    if self.rng.pct(self.fault_pct + 10) {
                        op.faults = self.build_faults(slot);
                    }
                    self.nest(&mut op, 0);
                    let n = if op.faults.is_empty() { usize::from(self.rng.pct(30)) } else { 1 };
                    out.push(op);
                    if d.pat != Pat::Own {
                        for _ in 0..n {
                            out.push(Op::new(OpK::Build, slot));
                        }
                    }
                }
                3 => {
                    if d.clone {
                        let mut op = Op::new(OpK::Clone, slot);
                        op.dst = self.same_cfg_slot(slot);
                        op.ctor = usize::from(self.rng.pct(30));
                        if self.rng.pct(self.fault_pct / 2) {
                            let n = self.rng.below(5) as u32;
                            op.faults.push(Fault { sel: FSel::Nth(n), kind: FaultKind::Panic });
                        }
                        self.nest(&mut op, 0);
                        out.push(op);
                    }
                }
                4 => out.push(Op::new(OpK::Drop, slot)),
                _ => {
                    let mut op = Op::new(OpK::New, slot);
                    op.ctor = self.rng.below(d.ctors);
                    out.push(op);
                }
            }
        }
        out
    }
}

/// The plan of one run, from its seed.
pub fn generate(seed: u64, cfgs: Vec<usize>, descs: Vec<&Desc>, focus: &str) -> Plan {
    let mut rng = Rng::new(seed);
    let multi_pct = match focus {
        "C14" => 95,
        "C04" | "C15" => 60,
        _ => 35,
    };
    let n = if rng.pct(multi_pct) { rng.range(2, 4) } else { 1 };
    let nslots = cfgs.len() * rng.range(1, 3);
    let fault_pct = *rng.pick(&[0, 12, 25, 40]);
    let stay = *rng.pick(&[20, 50, 75, 92]);
    let long = rng.pct(12);
    let very_long = long && n == 1 && rng.pct(15);
    let nest_pct = match focus {
        "C14" | "C15" => *rng.pick(&[0, 10, 30]),
        _ => *rng.pick(&[0, 0, 0, 25]),
    };
    let mut g = Gen { rng: Rng::new(rng.u64()), descs, nslots, content: 0, focus, fault_pct, nest_pct };
    let clients = (0..n)
        .map(|_| {
            let hi = match (n, long) {
                (1, false) => 16,
                (1, true) if very_long => 400,
                (1, true) => 60,
                (_, false) => 9,
                (_, true) => 22,
            };
            let len = g.rng.range(2, hi);
            g.client(len)
        })
        .collect();
    Plan { cfgs, nslots, clients, stay, seed, sched: vec![] }
}
