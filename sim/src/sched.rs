//! The scheduler: client threads are real OS threads, but exactly one of them runs at any time, and every
//! hand-over is a decision drawn from the run's seed (or read from a replay file) and recorded.

use crate::ctx::cx;
use crate::interpose::{park, unpark};
use crate::rng::Rng;
use std::sync::atomic::{AtomicU32, Ordering};

pub const STAY: u8 = 255;
pub const MAX_CLIENTS: usize = 6;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Ready,
    /// Waits for a slot: (slot, exclusive).
    Lock(usize, bool),
    Stalled,
    /// In a futex wait inside generated code.
    Futex,
    Done,
}

pub struct Sched {
    pub cur: usize,
    pub st: Vec<State>,
    pub rng: Option<Rng>,
    pub stay: u32,
    pub taken: Vec<u8>,
    pub replay: Vec<u8>,
    pub pos: usize,
    pub multi: bool,
}

pub static WORDS: [AtomicU32; MAX_CLIENTS + 1] = [const { AtomicU32::new(0) }; MAX_CLIENTS + 1];

impl Sched {
    pub fn new(n: usize, rng: Option<Rng>, stay: u32, replay: Vec<u8>) -> Sched {
        Sched { cur: 0, st: vec![State::Ready; n], rng, stay, taken: vec![], replay, pos: 0, multi: n > 1 }
    }

    fn runnable(&self) -> Vec<usize> {
        (0..self.st.len()).filter(|i| self.st[*i] == State::Ready).collect()
    }

    /// Who runs next; `None` when every client is done.
    fn pick(&mut self, me: usize) -> Option<usize> {
        let mut r = self.runnable();
        if r.is_empty() {
            // Faults stop when nothing else can happen: the stalled clients come back.
            for want in [State::Stalled, State::Futex] {
                for s in self.st.iter_mut() {
                    if *s == want {
                        *s = State::Ready;
                    }
                }
                r = self.runnable();
                if !r.is_empty() {
                    break;
                }
            }
        }
        if r.is_empty() {
            return None;
        }
        if r.len() == 1 {
            return Some(r[0]);
        }
        let me_ok = r.contains(&me);
        let fallback = if me_ok { me } else { r[0] };
        let choice = match &mut self.rng {
            Some(rng) => {
                if me_ok && rng.pct(self.stay) {
                    STAY
                } else {
                    r[rng.below(r.len())] as u8
                }
            }
            None => {
                let c = self.replay.get(self.pos).copied().unwrap_or(STAY);
                self.pos += 1;
                c
            }
        };
        let n = if choice != STAY && r.contains(&(choice as usize)) { choice as usize } else { fallback };
        self.taken.push(if n == fallback { STAY } else { n as u8 });
        Some(n)
    }
}

fn give_baton(n: usize) {
    unpark(&WORDS[n], 1);
}
/// Blocks until this thread holds the baton.
pub fn await_baton(me: usize) {
    park(&WORDS[me], 0);
    WORDS[me].store(0, Ordering::Release);
}

fn switch_to(me: usize, n: usize) {
    let c = cx();
    c.sched.cur = n;
    c.stats.switches += 1;
    c.digest.add(0xabcd_0000 + n as u64);
    if c.log.is_some() {
        c.log.as_mut().unwrap().push(format!("  -- client {me} gives way to client {n}"));
    }
    give_baton(n);
    await_baton(me);
}

pub fn yield_point() {
    let c = cx();
    c.stats.yields += 1;
    crate::exec::check_slots("a callback");
    if !cx().sched.multi {
        return;
    }
    let me = cx().sched.cur;
    match cx().sched.pick(me) {
        Some(n) if n != me => switch_to(me, n),
        _ => {}
    }
}

fn block(s: State) {
    let me = cx().sched.cur;
    cx().sched.st[me] = s;
    match cx().sched.pick(me) {
        Some(n) if n != me => switch_to(me, n),
        Some(_) => {}
        None => crate::exec::fatal("every client waits"),
    }
}

pub fn stall() {
    if cx().sched.multi {
        block(State::Stalled);
    }
}

pub fn futex_wait() {
    let c = cx();
    let me = c.sched.cur;
    c.ops[me].waited = true;
    if !c.sched.multi || c.sched.st.iter().enumerate().all(|(i, s)| i == me || *s == State::Done) {
        crate::exec::fatal("an operation waits for something that nobody is left to provide");
    }
    block(State::Futex);
}

pub fn lock(slot: usize, excl: bool) {
    loop {
        let c = cx();
        let s = &mut c.slots[slot];
        if !s.excl && (!excl || s.shared == 0) {
            if excl {
                s.excl = true;
            } else {
                s.shared += 1;
            }
            return;
        }
        c.stats.contended += 1;
        block(State::Lock(slot, excl));
    }
}
pub fn unlock(slot: usize, excl: bool) {
    let c = cx();
    let s = &mut c.slots[slot];
    if excl {
        s.excl = false;
    } else {
        s.shared -= 1;
    }
    for st in c.sched.st.iter_mut() {
        if matches!(st, State::Lock(x, _) if *x == slot) {
            *st = State::Ready;
        }
    }
}

/// The current client has no operations left. Index `n` of WORDS is the main thread's.
pub fn finish() {
    let c = cx();
    let me = c.sched.cur;
    c.sched.st[me] = State::Done;
    match c.sched.pick(me) {
        Some(n) => {
            c.sched.cur = n;
            c.digest.add(0xdddd_0000 + n as u64);
            give_baton(n);
        }
        None => {
            if c.sched.st.iter().any(|s| *s != State::Done) {
                crate::exec::fatal("the remaining clients wait for each other");
            }
            give_baton(MAX_CLIENTS);
        }
    }
}
