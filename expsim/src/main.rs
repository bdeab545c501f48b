//! A simulated expansion process: the real `builder_for_struct` serving requests on several worker threads, of
//! which exactly one runs at any time; a seeded (or recorded) schedule decides every hand-over.

mod arena;

mod surface;

use arena::Arena;
use dbsim::interpose::{self, park, unpark, IN_SIM};
use dbsim::rng::{mix, Digest, Rng};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use serde_json::{json, Value};
use std::cell::Cell;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

#[global_allocator]
static HEAP: Arena = Arena;

thread_local! {
    static MSG: Cell<Option<String>> = const { Cell::new(None) };
}

fn walk(t: TokenStream, out: &mut String) {
    for x in t {
        // Where it comes from: the place of the request is 1:0.
        let at = x.span().start();
        if (at.line, at.column) != (1, 0) {
            let _ = write!(out, "{}:{}'", at.line, at.column);
        }
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("( ", ") "),
                    Delimiter::Brace => ("{ ", "} "),
                    Delimiter::Bracket => ("[ ", "] "),
                    Delimiter::None => ("\u{ab} ", "\u{bb} "),
                };
                out.push_str(a);
                walk(g.stream(), out);
                out.push_str(b);
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                let _ = write!(out, "{i} ");
            }
            TokenTree::Literal(l) => {
                let _ = write!(out, "{l} ");
            }
        }
    }
}

#[derive(Clone, PartialEq)]
enum Judge {
    /// Answers are compared, not judged.
    No,
    Any,
    /// Only a builder will do.
    Builder,
    /// Only diagnostics will do, and one has to point between each of these lines.
    Reject(Vec<(usize, usize)>),
    /// These names, visibilities and signatures.
    Surface(Vec<String>),
    /// These attributes in these places.
    Placement(std::collections::BTreeMap<String, Vec<String>>),
    Parameters(Vec<String>),
}

/// The line of each diagnostic in an answer, and what it says.
fn diagnostics(t: TokenStream, out: &mut Vec<(usize, String)>) {
    let t: Vec<TokenTree> = t.into_iter().collect();
    for (i, x) in t.iter().enumerate() {
        match (x, t.get(i + 2)) {
            (TokenTree::Ident(n), Some(TokenTree::Group(g))) if n == "compile_error" => out.push((n.span().start().line, g.stream().to_string())),
            (TokenTree::Group(g), _) => diagnostics(g.stream(), out),
            _ => {}
        }
    }
}

/// What is wrong with an answer taken by itself, if anything is.
fn judge(t: TokenStream, how: &Judge) -> Option<String> {
    if t.is_empty() {
        return Some("empty: the answer has neither a builder nor a diagnostic".into());
    }
    let refused = |t: &TokenStream| {
        let mut d = vec![];
        diagnostics(t.clone(), &mut d);
        d.first().map(|(_, m)| format!("refused: a definition without mistakes is refused: {m}"))
    };
    if let Judge::Surface(want) = how {
        return refused(&t).or_else(|| surface::surface(t, want));
    }
    if let Judge::Placement(want) = how {
        return refused(&t).or_else(|| surface::placement(t, want));
    }
    if let Judge::Parameters(want) = how {
        return refused(&t).or_else(|| surface::parameters(t, want));
    }
    if let Judge::Reject(at) = how {
        let mut d = vec![];
        diagnostics(t, &mut d);
        if d.is_empty() {
            return Some("accepted: a definition with a mistake is not rejected".into());
        }
        if at.iter().any(|(a, b)| d.iter().all(|(l, _)| l < a || l > b)) {
            return Some(format!("elsewhere: a mistake in lines {at:?} is not pointed to: {d:?}"));
        }
    } else if *how == Judge::Builder {
        match syn::parse2::<syn::File>(t) {
            Err(e) => return Some(format!("unparsable: the answer is not a list of items: {e}")),
            Ok(f) => {
                let said = f.items.iter().find(|i| matches!(i, syn::Item::Macro(_)));
                if let Some(syn::Item::Macro(m)) = said {
                    return Some(format!("refused: a documented definition is not accepted: {}", m.mac.tokens));
                }
            }
        }
    }
    None
}

/// What one request gives: tokens, a parse error, or a panic.
fn expand(text: &str, how: &Judge) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        IN_SIM.with(|s| s.set(true));
        let r = match syn::parse_str::<syn::DeriveInput>(text) {
            Ok(ast) => Ok(derive_builder_core::builder_for_struct(ast)),
            Err(e) => Err(e.to_string()),
        };
        IN_SIM.with(|s| s.set(false));
        r
    }));
    IN_SIM.with(|s| s.set(false));
    match r {
        // Tokens of a thread that has ended have no place any more, and say so by a panic.
        Ok(Ok(t)) => catch_unwind(AssertUnwindSafe(|| {
            if let Some(bad) = if *how == Judge::No { None } else { judge(t.clone(), how) } {
                return bad;
            }
            let mut s = String::new();
            walk(t, &mut s);
            s
        }))
        .unwrap_or_else(|_| "panic: the answer has tokens of another thread".into()),
        Ok(Err(e)) => format!("not a struct definition: {e}"),
        Err(_) => format!("panic: {}", MSG.with(|m| m.take()).unwrap_or_default()),
    }
}

// ---------------------------------------------------------------- workers and schedule

const MAX: usize = 8;
static WORDS: [AtomicU32; MAX + 1] = [const { AtomicU32::new(0) }; MAX + 1];

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Waits,
    Stalled,
    Done,
}

struct Req {
    text: String,
    want: String,
    how: Judge,
    /// The thread ends after this request and a new one goes on.
    restart: bool,
    /// The worker stops at this allocation until the others have nothing left to do.
    stall_at: u64,
}

struct World {
    cur: usize,
    st: Vec<St>,
    queue: Vec<Vec<Req>>,
    next: Vec<usize>,
    allocs: Vec<u64>,
    rng: Option<Rng>,
    every: u64,
    countdown: u64,
    /// (allocations until the hand-over, next worker)
    taken: Vec<(u64, usize)>,
    replay: Vec<(u64, usize)>,
    pos: usize,
    since: u64,
    digest: Digest,
    switches: u64,
    mid: u64,
    waits: u64,
    stalls: u64,
    restarts: u64,
    served: u64,
    bad: Vec<Value>,
    stuck: Option<String>,
    log: bool,
    /// Answers are judged by themselves, not compared.
    judge: bool,
    answers: [u64; 3],
    most: f64,
}
static mut WORLD: *mut World = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}

/// How many steps a request may take, by the size of its text.
fn bound(len: usize) -> u64 {
    20_000 + 60 * len as u64
}

impl World {
    /// Nothing, or why this is no answer.
    fn verdict(&mut self, got: String, me: usize, text: &str, well_formed: bool) -> String {
        let n = self.allocs[me];
        self.most = self.most.max(n as f64 / bound(text.len()) as f64);
        if n > bound(text.len()) {
            return format!("steps: {n} steps for a text of {} bytes", text.len());
        }
        for bad in ["panic: ", "unparsable: ", "empty: ", "refused: ", "accepted: ", "elsewhere: ", "surface: ", "attributes: ", "parameters: "] {
            if got.starts_with(bad) {
                return got;
            }
        }
        if well_formed && got.starts_with("not a struct definition") {
            return got;
        }
        self.answers[if got.starts_with("not a struct definition") {
            0
        } else if got.contains("compile_error !") {
            1
        } else {
            2
        }] += 1;
        String::new()
    }
    fn runnable(&mut self) -> Vec<usize> {
        let r: Vec<usize> = (0..self.st.len()).filter(|i| self.st[*i] == St::Ready).collect();
        if !r.is_empty() {
            return r;
        }
        for want in [St::Waits, St::Stalled] {
            // Waiting threads look again (spurious wake-ups are allowed); slow ones come back last.
            if want == St::Waits && self.st.contains(&St::Stalled) {
                continue;
            }
            let mut r = vec![];
            for (i, s) in self.st.iter_mut().enumerate() {
                if *s == want {
                    *s = St::Ready;
                    r.push(i);
                }
            }
            if !r.is_empty() {
                return r;
            }
        }
        vec![]
    }
    /// The next hand-over point is drawn when the previous one has happened.
    fn arm(&mut self) {
        self.since = 0;
        self.countdown = match &mut self.rng {
            Some(r) => 1 + r.u64() % (2 * self.every),
            None => self.replay.get(self.pos).map_or(u64::MAX, |x| x.0),
        };
    }
    fn choose(&mut self, me: usize, forced: bool) -> Option<usize> {
        let r = self.runnable();
        if r.is_empty() {
            return None;
        }
        let n = match &mut self.rng {
            Some(rng) => r[rng.below(r.len())],
            None => {
                let x = self.replay.get(self.pos).map_or(me, |x| x.1);
                if r.contains(&x) {
                    x
                } else if r.contains(&me) && !forced {
                    me
                } else {
                    r[0]
                }
            }
        };
        self.taken.push((if forced { u64::MAX } else { self.since }, n));
        self.pos += 1;
        Some(n)
    }
}

fn hand_over(me: usize, n: usize) {
    if me == n {
        return;
    }
    let x = w();
    x.cur = n;
    x.switches += 1;
    x.digest.add(mix(n as u64, x.allocs[me]));
    if x.log {
        eprintln!("-- worker {me} gives way to worker {n} after {} allocations of its request", x.allocs[me]);
    }
    unpark(&WORDS[n], 1);
    park(&WORDS[me], 0);
    WORDS[me].store(0, Ordering::Release);
}

fn block(s: St) {
    let me = w().cur;
    w().st[me] = s;
    match w().choose(me, true) {
        Some(n) => {
            w().arm();
            hand_over(me, n)
        }
        None => unreachable!(),
    }
}

fn on_alloc() {
    IN_SIM.with(|s| s.set(false));
    let me = w().cur;
    let x = w();
    x.allocs[me] += 1;
    x.since += 1;
    let q = &x.queue[me][x.next[me]];
    if q.stall_at == x.allocs[me] && x.st.len() > 1 {
        x.stalls += 1;
        if x.log {
            eprintln!("-- worker {me} stalls at allocation {}", x.allocs[me]);
        }
        block(St::Stalled);
    } else if x.since >= x.countdown {
        let c = x.choose(me, false);
        x.arm();
        if let Some(n) = c {
            if n != me {
                x.mid += 1;
                hand_over(me, n);
            }
        }
    }
    IN_SIM.with(|s| s.set(true));
}

static SPINS: AtomicU64 = AtomicU64::new(0);
fn on_wait() {
    let x = w();
    x.waits += 1;
    let me = x.cur;
    let others = x.st.iter().enumerate().any(|(i, s)| i != me && *s != St::Done);
    if !others || SPINS.fetch_add(1, Ordering::Relaxed) > 20_000 {
        x.stuck = Some(format!("worker {me} waits for a lock that is never released"));
        finish();
    }
    block(St::Waits);
}

fn worker(me: usize) {
    unpark(&STARTED, 1);
    park(&WORDS[me], 0);
    WORDS[me].store(0, Ordering::Release);
    serve(me);
}

/// Runs requests until the queue is empty or this thread is to die. What happens then is decided by the main
/// thread, which first waits for the thread to be really gone (its thread-locals included).
fn serve(me: usize) {
    loop {
        let x = w();
        if x.next[me] >= x.queue[me].len() {
            x.st[me] = St::Done;
            unpark(&WORDS[MAX], 1);
            return;
        }
        let k = x.next[me];
        let text = x.queue[me][k].text.clone();
        x.allocs[me] = 0;
        x.digest.add(mix(me as u64, k as u64));
        if x.log {
            eprintln!("worker {me} request {k}");
        }
        let how = x.queue[me][k].how.clone();
        let got = expand(&text, &how);
        let x = w();
        x.served += 1;
        let got = if x.judge { x.verdict(got, me, &text, how != Judge::Any) } else { got };
        if got != x.queue[me][k].want && x.bad.len() < 8 {
            if x.log {
                eprintln!("worker {me} request {k}: DIFFERS");
            }
            x.bad.push(json!({"worker": me, "request": k, "got": got, "text": text}));
        }
        let restart = x.queue[me][k].restart;
        x.next[me] += 1;
        if restart {
            x.restarts += 1;
            if x.log {
                eprintln!("-- worker {me} dies, a new thread takes over");
            }
            unpark(&WORDS[MAX], 2);
            return;
        }
    }
}

fn spawn(me: usize) -> std::thread::JoinHandle<()> {
    STARTED.store(0, Ordering::Release);
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || worker(me)).expect("worker");
    park(&STARTED, 0);
    h
}
static STARTED: AtomicU32 = AtomicU32::new(0);

fn finish() -> ! {
    let x = w();
    let v = json!({
        "bad": x.bad, "stuck": x.stuck, "served": x.served, "switches": x.switches, "mid_expansion": x.mid,
        "waits": x.waits, "stalls": x.stalls, "restarts": x.restarts, "allocs": arena::ALLOCS.load(Ordering::Relaxed),
        "digest": format!("{:016x}", x.digest.0), "answers": x.answers, "most": x.most,
        "schedule": x.taken.iter().map(|(a, b)| json!([if *a == u64::MAX { 0 } else { *a }, b])).collect::<Vec<_>>(),
        "entropy_reads": interpose::ENTROPY_READS.load(Ordering::Relaxed),
        "clock_reads": interpose::CLOCK_READS.load(Ordering::Relaxed),
        "disk_opens": interpose::DISK_OPENS.load(Ordering::Relaxed),
        "surroundings_reads": interpose::SURROUNDINGS_READS.load(Ordering::Relaxed),
    });
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{v}");
    let _ = o.flush();
    exit_now(0)
}

extern "C" {
    fn _exit(c: i32) -> !;
    fn fork() -> i32;
    fn pipe(f: *mut i32) -> i32;
    fn read(f: i32, p: *mut u8, n: usize) -> isize;
    fn write(f: i32, p: *const u8, n: usize) -> isize;
    fn close(f: i32) -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
}
fn exit_now(c: i32) -> ! {
    unsafe { _exit(c) }
}

fn seams(seed: u64) {
    interpose::ENTROPY.store(mix(seed, 1), Ordering::Relaxed);
    interpose::ENTROPY_SIM.store(true, Ordering::Relaxed);
    interpose::SIM_NANOS.store((1 + mix(seed, 2) % 4_000_000_000) * 1_000_000_000, Ordering::Relaxed);
    interpose::SURROUNDINGS.store(mix(seed, 4) | 1, Ordering::Relaxed);
    unsafe { interpose::new_environment(mix(seed, 5)) };
    // Where the first allocation lies.
    let n = mix(seed, 3) % 4000;
    std::mem::forget(Vec::<u64>::with_capacity(n as usize * 16 + 1));
}

fn how(v: &Value, text: usize) -> Judge {
    if v["judge"].as_bool() != Some(true) {
        return Judge::No;
    }
    match &v["expect"][text] {
        Value::String(s) if s == "builder" => Judge::Builder,
        Value::Array(a) if a.first().map_or(false, |x| x.is_string()) => Judge::Surface(a.iter().map(|x| x.as_str().unwrap().into()).collect()),
        Value::Object(o) if o.contains_key("") => Judge::Parameters(o[""].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect()),
        Value::Object(o) => Judge::Placement(o.iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect())).collect()),
        Value::Array(a) => Judge::Reject(a.iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as usize)).collect()),
        _ => Judge::Any,
    }
}

fn session(v: &Value, log: bool) {
    let seed = v["seed"].as_u64().unwrap();
    let queue: Vec<Vec<Req>> = v["workers"]
        .as_array()
        .unwrap()
        .iter()
        .map(|q| {
            q.as_array()
                .unwrap()
                .iter()
                .map(|r| Req {
                    text: v["texts"][r["text"].as_u64().unwrap() as usize].as_str().unwrap().into(),
                    want: v["wants"][r["text"].as_u64().unwrap() as usize].as_str().unwrap_or("").into(),
                    how: how(v, r["text"].as_u64().unwrap() as usize),
                    restart: r["restart"].as_bool().unwrap_or(false),
                    stall_at: r["stall_at"].as_u64().unwrap_or(0),
                })
                .collect()
        })
        .collect();
    let n = queue.len();
    let replay: Option<Vec<(u64, usize)>> = v["schedule"].as_array().map(|a| {
        a.iter()
            .map(|x| {
                let c = x[0].as_u64().unwrap();
                (if c == 0 { u64::MAX } else { c }, x[1].as_u64().unwrap() as usize)
            })
            .collect()
    });
    let mut x = Box::new(World {
        cur: 0,
        st: vec![St::Ready; n],
        next: vec![0; n],
        allocs: vec![0; n],
        queue,
        rng: if replay.is_none() { Some(Rng::new(mix(seed, 9))) } else { None },
        every: v["every"].as_u64().unwrap_or(100).max(1),
        countdown: 0,
        taken: Vec::with_capacity(1 << 16),
        replay: replay.unwrap_or_default(),
        pos: 0,
        since: 0,
        digest: Digest::new(),
        switches: 0,
        mid: 0,
        waits: 0,
        stalls: 0,
        restarts: 0,
        served: 0,
        bad: vec![],
        stuck: None,
        log,
        judge: v["judge"].as_bool() == Some(true),
        answers: [0; 3],
        most: 0.,
    });
    unsafe {
        WORLD = &mut *x;
        arena::ON_ALLOC = on_alloc;
        interpose::ON_FUTEX_WAIT = on_wait;
        interpose::ON_SLEEP = on_wait;
        alarm(60);
    }
    seams(seed);
    let mut threads: Vec<Option<std::thread::JoinHandle<()>>> = (0..n).map(|i| Some(spawn(i))).collect();
    let Some(mut f) = w().choose(0, true) else { finish() };
    loop {
        w().arm();
        w().cur = f;
        unpark(&WORDS[f], 1);
        park(&WORDS[MAX], 0);
        let why = WORDS[MAX].swap(0, Ordering::AcqRel);
        let me = w().cur;
        let _ = threads[me].take().unwrap().join();
        if why == 2 {
            threads[me] = Some(spawn(me));
        }
        match w().choose(me, why == 1) {
            Some(n) => f = n,
            None => finish(),
        }
        w().digest.add(mix(f as u64, 0xdead));
    }
}

/// Every text alone, each in a process of its own that never expanded anything before.
fn solos(v: &Value) {
    let seed = v["seed"].as_u64().unwrap();
    let mut res = vec![];
    for (i, t) in v["texts"].as_array().unwrap().iter().enumerate() {
        let t = t.as_str().unwrap();
        unsafe {
            let mut fd = [0i32; 2];
            assert_eq!(pipe(fd.as_mut_ptr()), 0);
            let p = fork();
            if p == 0 {
                close(fd[0]);
                alarm(30);
                let s = mix(seed, 1000 + i as u64);
                seams(s);
                let r = expand(t, &Judge::No);
                let b = r.as_bytes();
                let mut k = 0;
                while k < b.len() {
                    let n = write(fd[1], b.as_ptr().add(k), b.len() - k);
                    if n <= 0 {
                        break;
                    }
                    k += n as usize;
                }
                exit_now(0);
            }
            close(fd[1]);
            let mut out = vec![];
            let mut buf = [0u8; 65536];
            loop {
                let n = read(fd[0], buf.as_mut_ptr(), buf.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&buf[..n as usize]);
            }
            close(fd[0]);
            let mut st = 0;
            waitpid(p, &mut st, 0);
            res.push(if st == 0 { json!(String::from_utf8_lossy(&out)) } else { json!(format!("died: {st}")) });
        }
    }
    println!("{}", json!({ "solos": res }));
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let v: Value = serde_json::from_str(&s).expect("input");
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let was = IN_SIM.with(|s| s.replace(false));
        if !was {
            eprintln!("HARNESS PANIC {m} at {:?}", i.location().map(|l| l.to_string()));
            exit_now(70);
        }
        MSG.with(|x| x.set(Some(m)));
        IN_SIM.with(|s| s.set(true));
    }));
    match a.first().map(|s| s.as_str()) {
        Some("solos") => {
            // Addresses grow the other way than in sessions, and nothing is used again.
            arena::DOWN.store(true, Ordering::Relaxed);
            arena::FRESH.store(true, Ordering::Relaxed);
            solos(&v)
        }
        Some("session") => {
            if v["downwards"].as_bool() == Some(true) {
                arena::DOWN.store(true, Ordering::Relaxed);
            }
            session(&v, a.iter().any(|x| x == "--log"))
        }
        _ => exit_now(2),
    }
}
