//! Explorer: runs *every* case of a set of finite suites against the real code, in parallel,
//! and layered breadth-first search over real objects.  Crashes, hangs and panics of the code
//! under test are violations; they are isolated in a child process and confirmed by a replay.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

// ---------------------------------------------------------------- hashing
#[derive(Clone, Copy)]
pub struct Fx(u64, u64);
impl Default for Fx {
    fn default() -> Self {
        Fx(0x243F6A8885A308D3, 0x13198A2E03707344)
    }
}
impl Fx {
    #[inline]
    fn add(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
        self.1 = (self.1 ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29) ^ self.0 >> 32;
    }
    pub fn fin128(self) -> u128 {
        let m = |mut z: u64| {
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        };
        ((m(self.0) as u128) << 64) | m(self.1 ^ self.0.rotate_left(17)) as u128
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.fin128() as u64
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(a));
        }
        self.add(b.len() as u64);
    }
    fn write_u8(&mut self, v: u8) {
        self.add(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.add(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.add(v)
    }
    fn write_usize(&mut self, v: usize) {
        self.add(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.add(v as u64);
        self.add((v >> 64) as u64)
    }
}
#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type Set64 = HashSet<u64, BuildHasherDefault<Ident>>;
pub fn h128<T: Hash + ?Sized>(t: &T) -> u128 {
    let mut f = Fx::default();
    t.hash(&mut f);
    f.fin128()
}

// ---------------------------------------------------------------- context
/// Per-case context: counts what was executed, remembers what is being executed.
pub struct Ctx {
    pub transitions: u64,
    pub traces: u64,
    pub skipped: u64,
    states: Set64,
    outcomes: BTreeMap<String, u64>,
    digest: u64,
    tracing: bool,
    trace: Vec<String>,
    live_trace: bool,
}
impl Ctx {
    fn new() -> Self {
        Ctx {
            transitions: 0,
            traces: 0,
            skipped: 0,
            states: Set64::default(),
            outcomes: BTreeMap::new(),
            digest: 0,
            tracing: false,
            trace: vec![],
            live_trace: false,
        }
    }
    /// An operation of the real code is about to be executed.
    #[inline]
    pub fn op<F: FnOnce() -> String>(&mut self, f: F) {
        self.transitions += 1;
        if self.tracing {
            let s = f();
            if self.live_trace {
                println!("  step {}: {}", self.trace.len() + 1, s);
                let _ = std::io::stdout().flush();
            }
            self.trace.push(s);
        }
    }
    /// A note for the trace, not an operation.
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing {
            let s = f();
            if self.live_trace {
                println!("  {}", s);
                let _ = std::io::stdout().flush();
            }
            self.trace.push(s);
        }
    }
    /// A concrete state of a real object (its full stored representation) was seen.
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let mut f = Fx::default();
        t.hash(&mut f);
        let h = f.finish();
        self.states.insert(h);
        self.digest = self.digest.rotate_left(7) ^ h;
    }
    #[inline]
    pub fn outcome(&mut self, s: &'static str) {
        if let Some(c) = self.outcomes.get_mut(s) {
            *c += 1;
        } else {
            self.outcomes.insert(s.to_string(), 1);
        }
    }
    pub fn skip(&mut self) {
        self.skipped += 1;
    }
    /// Runs `f` expecting a panic; Ok(()) if it panicked.
    pub fn must_panic<T, F: FnOnce() -> T>(&mut self, what: &str, f: F) -> R {
        match quiet_catch(f) {
            Ok(_) => Err(format!("{}: returned although it must panic", what)),
            Err(_) => Ok(()),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}
/// Runs `f`, turning a panic into Err(message).
pub fn quiet_catch<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Fails a case.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub fn same<T: PartialEq + Debug>(what: &str, got: &T, want: &T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, the polynomial model says {:?}", what, got, want))
    }
}

// ---------------------------------------------------------------- suites
pub type CaseFn = std::sync::Arc<dyn Fn(&mut Ctx, u64) -> R + Sync + Send>;
pub enum Suite {
    Indexed { name: String, bounds: String, count: u64, run: CaseFn },
    Bfs(Box<dyn DynBfs>),
}
impl Suite {
    fn name(&self) -> &str {
        match self {
            Suite::Indexed { name, .. } => name,
            Suite::Bfs(b) => b.name(),
        }
    }
}
#[derive(Default)]
pub struct Suites(pub Vec<Suite>);
impl Suites {
    pub fn add<F>(&mut self, name: &str, bounds: &str, count: u64, run: F)
    where
        F: Fn(&mut Ctx, u64) -> R + Sync + Send + 'static,
    {
        self.0.push(Suite::Indexed { name: name.into(), bounds: bounds.into(), count, run: std::sync::Arc::new(run) });
    }
    /// Runs every indexed suite whose name contains one of the words once more, with dense operands
    /// whose vectors have spare capacity (left, right or both).
    pub fn spare(&mut self, words: &[&str]) {
        let mut more = vec![];
        for s in &self.0 {
            if let Suite::Indexed { name, bounds, count, run } = s {
                if words.iter().any(|w| name.contains(w)) {
                    let run = run.clone();
                    more.push(Suite::Indexed {
                        name: format!("{}, spare capacity", name),
                        bounds: format!("the same with vectors of spare capacity 1 and 50 in the left, the right and both operands: {}", bounds),
                        count: *count,
                        run: std::sync::Arc::new(move |ctx: &mut Ctx, i| {
                            for slack in [(1, 0), (50, 0), (0, 50), (50, 1)] {
                                crate::model::SLACK.with(|x| x.set(slack));
                                let r = run(ctx, i);
                                crate::model::SLACK.with(|x| x.set((0, 0)));
                                r.map_err(|e| format!("with spare capacity {:?}: {}", slack, e))?;
                            }
                            Ok(())
                        }),
                    });
                }
            }
        }
        self.0.extend(more);
    }
    pub fn add_bfs<M: Machine + 'static>(&mut self, m: M) {
        self.0.push(Suite::Bfs(Box::new(BfsRun { m })));
    }
}

/// A transition system over real objects, driven in lockstep with the model.
pub trait Machine: Sync + Send {
    type S: Clone + Send + Sync;
    fn name(&self) -> &str;
    fn bounds(&self) -> String;
    fn max_depth(&self) -> usize;
    fn max_states(&self) -> usize {
        40_000_000
    }
    fn init(&self) -> Vec<Self::S>;
    fn nops(&self) -> usize;
    /// Ok(None): not enabled (outside the bounds or undefined).
    fn step(&self, ctx: &mut Ctx, s: &Self::S, op: usize) -> Result<Option<Self::S>, String>;
    /// Full concrete representation of the state.
    fn key(&self, s: &Self::S) -> u128;
    fn check(&self, ctx: &mut Ctx, s: &Self::S) -> R;
}
pub trait DynBfs: Sync + Send {
    fn name(&self) -> &str;
    fn bounds(&self) -> String;
    fn run(&self, sid: u32, rt: &Runtime, rep: &mut Report) -> Result<(), Viol>;
    fn replay(&self, ctx: &mut Ctx, path: &[u32]) -> R;
}
struct BfsRun<M: Machine> {
    m: M,
}
impl<M: Machine> BfsRun<M> {
    /// Replays a whole history (initial state number, operations) on fresh objects.
    fn history(&self, ctx: &mut Ctx, path: &[u32]) -> Result<u128, String> {
        let mut s = self.m.init()[path[0] as usize].clone();
        self.m.check(ctx, &s)?;
        for (i, &op) in path[1..].iter().enumerate() {
            match self.m.step(ctx, &s, op as usize)? {
                Some(n) => s = n,
                None => return Err(format!("history diverged at step {} (operation not enabled)", i)),
            }
            self.m.check(ctx, &s)?;
        }
        Ok(self.m.key(&s))
    }
}
impl<M: Machine> DynBfs for BfsRun<M> {
    fn name(&self) -> &str {
        self.m.name()
    }
    fn bounds(&self) -> String {
        self.m.bounds()
    }
    fn replay(&self, ctx: &mut Ctx, path: &[u32]) -> R {
        self.history(ctx, path).map(|_| ())
    }
    fn run(&self, sid: u32, rt: &Runtime, rep: &mut Report) -> Result<(), Viol> {
        // node table: parent, op (op of the roots = number of the initial state)
        let mut nodes: Vec<(u32, u32)> = vec![];
        let mut keys: Vec<u128> = vec![];
        let mut seen: HashSet<u128> = HashSet::new();
        let mut frontier: Vec<(u32, M::S)> = vec![];
        let path_of = |nodes: &Vec<(u32, u32)>, mut i: u32| {
            let mut p = vec![];
            loop {
                let (par, op) = nodes[i as usize];
                p.push(op);
                if par == u32::MAX {
                    break;
                }
                i = par;
            }
            p.reverse();
            p
        };
        for (i, s) in self.m.init().into_iter().enumerate() {
            let k = self.m.key(&s);
            let mut c = Ctx::new();
            if let Err(e) = quiet_catch(|| self.m.check(&mut c, &s)).unwrap_or_else(|p| Err(format!("panic: {}", p))) {
                return Err(Viol { sid, data: vec![i as u32], msg: e });
            }
            rep.absorb(&mut c);
            if seen.insert(k) {
                nodes.push((u32::MAX, i as u32));
                keys.push(k);
                frontier.push((nodes.len() as u32 - 1, s));
            }
        }
        let mut depth = 0;
        let mut complete = true;
        while !frontier.is_empty() {
            if depth >= self.m.max_depth() {
                complete = false;
                break;
            }
            let nthreads = rt.threads;
            let next = AtomicU64::new(0);
            let fr = &frontier;
            let nodes_r = &nodes;
            let seen_r = &seen;
            let stop = AtomicBool::new(false);
            type Out<S> = (Vec<(u64, u32, u128, S)>, Vec<Viol>, Ctx);
            let outs: Vec<Out<M::S>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..nthreads)
                    .map(|t| {
                        let next = &next;
                        let stop = &stop;
                        sc.spawn(move || {
                            let mut ctx = Ctx::new();
                            let mut out = vec![];
                            let mut viols = vec![];
                            let mut local: HashSet<u128> = HashSet::new();
                            loop {
                                let i = next.fetch_add(1, Relaxed);
                                if i >= fr.len() as u64 || stop.load(Relaxed) {
                                    break;
                                }
                                let (node, s) = &fr[i as usize];
                                let path = path_of(nodes_r, *node);
                                for op in 0..self.m.nops() as u32 {
                                    rt.slot_path(t, sid, &path, op);
                                    let r = quiet_catch(|| {
                                        let n = self.m.step(&mut ctx, s, op as usize)?;
                                        if let Some(n) = &n {
                                            self.m.check(&mut ctx, n)?;
                                        }
                                        Ok::<_, String>(n)
                                    })
                                    .unwrap_or_else(|p| Err(format!("panic: {}", p)));
                                    match r {
                                        Err(msg) => {
                                            let mut d = path.clone();
                                            d.push(op);
                                            viols.push(Viol { sid, data: d, msg });
                                            stop.store(true, Relaxed);
                                        }
                                        Ok(None) => {}
                                        Ok(Some(n)) => {
                                            let k = self.m.key(&n);
                                            if !seen_r.contains(&k) && local.insert(k) {
                                                out.push((i, op, k, n));
                                            }
                                        }
                                    }
                                }
                            }
                            rt.slot_clear(t);
                            (out, viols, ctx)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let mut all = vec![];
            let mut viols = vec![];
            for (o, v, mut c) in outs {
                all.extend(o);
                viols.extend(v);
                rep.absorb(&mut c);
            }
            if !viols.is_empty() {
                viols.sort_by(|a, b| a.data.len().cmp(&b.data.len()).then(a.data.cmp(&b.data)));
                return Err(viols.remove(0));
            }
            all.sort_by_key(|x| (x.0, x.1));
            let old = std::mem::take(&mut frontier);
            for (i, op, k, s) in all {
                if seen.insert(k) {
                    nodes.push((old[i as usize].0, op));
                    keys.push(k);
                    frontier.push((nodes.len() as u32 - 1, s));
                }
            }
            depth += 1;
            if nodes.len() > self.m.max_states() {
                complete = frontier.is_empty();
                break;
            }
        }
        // conformance: every discovered state's whole history, replayed on fresh objects
        let next = AtomicU64::new(0);
        let outs: Vec<(Vec<Viol>, Ctx, u64)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..rt.threads)
                .map(|t| {
                    let (next, nodes, keys) = (&next, &nodes, &keys);
                    sc.spawn(move || {
                        let mut ctx = Ctx::new();
                        let (mut viols, mut n) = (vec![], 0);
                        loop {
                            let i = next.fetch_add(1, Relaxed) as usize;
                            if i >= nodes.len() {
                                break;
                            }
                            let path = path_of(nodes, i as u32);
                            rt.slot_path(t, sid, &path, 0);
                            match quiet_catch(|| self.history(&mut ctx, &path)).unwrap_or_else(|p| Err(format!("panic: {}", p))) {
                                Ok(k) if k == keys[i] => n += 1,
                                Ok(_) => viols.push(Viol { sid, data: path, msg: "the same history of operations gave two different objects".into() }),
                                Err(msg) => viols.push(Viol { sid, data: path, msg }),
                            }
                        }
                        rt.slot_clear(t);
                        (viols, ctx, n)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (mut v, mut c, n) in outs {
            if !v.is_empty() {
                return Err(v.remove(0));
            }
            rep.absorb(&mut c);
            rep.traces += n;
        }
        rep.bfs.push(format!(
            "{}: {} machine states, depth {}{}",
            self.m.name(),
            nodes.len(),
            depth,
            if complete { ", closed under every operation within the bounds" } else { " (depth bound reached; every shorter history covered)" }
        ));
        // a sample history: the last state found
        if !nodes.is_empty() {
            let path = path_of(&nodes, nodes.len() as u32 - 1);
            let mut c = Ctx::new();
            c.tracing = true;
            let _ = self.history(&mut c, &path);
            rep.samples.push(format!("{} history {:?}: {}", self.m.name(), path, c.trace.join("; ")));
        }
        Ok(())
    }
}

pub struct Viol {
    pub sid: u32,
    pub data: Vec<u32>,
    pub msg: String,
}

// ---------------------------------------------------------------- crash-safe progress slots
const SLOT_WORDS: usize = 128;
pub struct Runtime {
    threads: usize,
    base: *mut u64,
}
unsafe impl Sync for Runtime {}
unsafe impl Send for Runtime {}
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
}
impl Runtime {
    fn new(threads: usize, file: Option<&Path>) -> Self {
        use std::os::fd::AsRawFd;
        let len = threads * SLOT_WORDS * 8;
        let base = match file {
            Some(p) => {
                let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
                f.set_len(len as u64).unwrap();
                let m = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
                assert!(m as isize != -1, "mmap failed");
                m as *mut u64
            }
            None => Box::leak(vec![0u64; threads * SLOT_WORDS].into_boxed_slice()).as_mut_ptr(),
        };
        Runtime { threads, base }
    }
    // words: 0 = start time in ms + 1 (0: idle), 1 = suite, 2 = number of data words, 3.. = data
    #[inline]
    fn word(&self, t: usize, i: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(t * SLOT_WORDS + i) as *const AtomicU64) }
    }
    #[inline]
    fn slot_idx(&self, t: usize, sid: u32, idx: u64) {
        self.word(t, 1).store(sid as u64, Relaxed);
        self.word(t, 2).store(2, Relaxed);
        self.word(t, 3).store(idx & 0xffff_ffff, Relaxed);
        self.word(t, 4).store(idx >> 32, Relaxed);
        self.word(t, 0).store(NOW.load(Relaxed) + 1, Relaxed);
    }
    fn slot_path(&self, t: usize, sid: u32, path: &[u32], op: u32) {
        let n = path.len().min(SLOT_WORDS - 5);
        self.word(t, 1).store(sid as u64, Relaxed);
        self.word(t, 2).store(n as u64 + 1, Relaxed);
        for (i, &p) in path[..n].iter().enumerate() {
            self.word(t, 3 + i).store(p as u64, Relaxed);
        }
        self.word(t, 3 + n).store(op as u64, Relaxed);
        self.word(t, 0).store(NOW.load(Relaxed) + 1, Relaxed);
    }
    fn slot_clear(&self, t: usize) {
        self.word(t, 0).store(0, Relaxed);
    }
}
static NOW: AtomicU64 = AtomicU64::new(0);

// ---------------------------------------------------------------- report
#[derive(Default)]
pub struct Report {
    transitions: u64,
    traces: u64,
    cases: u64,
    skipped: u64,
    states: Set64,
    outcomes: BTreeMap<String, u64>,
    bounds: Vec<String>,
    bfs: Vec<String>,
    samples: Vec<String>,
    determinism: u64,
}
impl Report {
    fn absorb(&mut self, c: &mut Ctx) {
        self.transitions += c.transitions;
        self.traces += c.traces;
        self.skipped += c.skipped;
        if self.states.is_empty() {
            self.states = std::mem::take(&mut c.states);
        } else {
            self.states.extend(c.states.drain());
        }
        for (k, v) in std::mem::take(&mut c.outcomes) {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(" …");
        t
    }
}

// ---------------------------------------------------------------- driver
pub struct Prop {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub build: fn(thorough: bool) -> Suites,
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn run_indexed(run: &CaseFn, count: u64, sid: u32, rt: &Runtime, rep: &mut Report) -> Result<(), Viol> {
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let msgs: Mutex<HashMap<u64, String>> = Mutex::new(HashMap::new());
    let chunk = (count / (rt.threads as u64 * 64)).clamp(1, 256);
    let outs: Vec<Ctx> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..rt.threads)
            .map(|t| {
                let (next, best, msgs) = (&next, &best, &msgs);
                sc.spawn(move || {
                    let mut ctx = Ctx::new();
                    IN_CASE.with(|c| c.set(true));
                    'o: loop {
                        let lo = next.fetch_add(chunk, Relaxed);
                        if lo >= count {
                            break;
                        }
                        for idx in lo..(lo + chunk).min(count) {
                            if idx > best.load(Relaxed) {
                                break 'o;
                            }
                            rt.slot_idx(t, sid, idx);
                            let r = catch_unwind(AssertUnwindSafe(|| run(&mut ctx, idx))).unwrap_or_else(|_| {
                                Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
                            });
                            match r {
                                Ok(()) => ctx.traces += 1,
                                Err(e) => {
                                    best.fetch_min(idx, Relaxed);
                                    msgs.lock().unwrap().insert(idx, e);
                                }
                            }
                        }
                    }
                    rt.slot_clear(t);
                    ctx
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for mut c in outs {
        rep.absorb(&mut c);
    }
    let b = best.load(Relaxed);
    if b != u64::MAX {
        let msg = msgs.lock().unwrap().remove(&b).unwrap();
        return Err(Viol { sid, data: vec![b as u32, (b >> 32) as u32], msg });
    }
    rep.cases += count;
    // determinism: a spread of cases, run twice, must leave the same concrete states
    let k = count.min(64);
    for j in 0..k {
        let idx = if k == 1 { 0 } else { (count - 1) / (k - 1) * j };
        let d = |_: ()| {
            let mut c = Ctx::new();
            let _ = quiet_catch(|| run(&mut c, idx));
            c.digest
        };
        if d(()) != d(()) {
            return Err(Viol { sid, data: vec![idx as u32, (idx >> 32) as u32], msg: "two runs of the same case left different states".into() });
        }
        rep.determinism += 1;
    }
    Ok(())
}

fn replay_one(s: &Suite, data: &[u32], live: bool) -> (Result<(), String>, Vec<String>) {
    let mut ctx = Ctx::new();
    ctx.tracing = true;
    ctx.live_trace = live;
    let r = quiet_catch(|| match s {
        Suite::Indexed { run, .. } => run(&mut ctx, data[0] as u64 | (*data.get(1).unwrap_or(&0) as u64) << 32),
        Suite::Bfs(b) => b.replay(&mut ctx, data),
    })
    .unwrap_or_else(|p| Err(format!("panic: {}", p)));
    (r, ctx.trace)
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let l = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if IN_CASE.with(|c| c.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
        } else {
            eprintln!("harness panic: {}{}", m, l);
        }
    }));
}

/// Entry point of every check binary.
pub fn main(p: Prop) {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("child") => child(&p, Path::new(&args[2])),
        Some("replay") => replay_cmd(&p, &args[2..]),
        Some("sequence") => sequence_cmd(&p, &args[2..]),
        Some("list") => {
            for s in (p.build)(thorough()).0 {
                match &s {
                    Suite::Indexed { name, bounds, count, .. } => println!("{} [{}] {}", name, count, bounds),
                    Suite::Bfs(b) => println!("{} [bfs] {}", b.name(), b.bounds()),
                }
            }
        }
        _ => parent(&p),
    }
}

const RLIMIT_AS: i32 = 9;
fn limit_mem(gb: u64) {
    unsafe {
        setrlimit(RLIMIT_AS, &[gb << 30, gb << 30]);
    }
}

fn case_limit_ms() -> u64 {
    std::env::var("VERIF_CASE_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 60_000 } else { 20_000 })
}

/// Runs all suites; writes its verdict into `dir`.
fn child(p: &Prop, dir: &Path) {
    limit_mem(14);
    let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let rt = Arc::new(Runtime::new(threads, Some(&dir.join("slots"))));
    let t0 = Instant::now();
    {
        let rt = rt.clone();
        let dir = dir.to_path_buf();
        let lim = case_limit_ms();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            let now = t0.elapsed().as_millis() as u64;
            NOW.store(now, Relaxed);
            for t in 0..rt.threads {
                let st = rt.word(t, 0).load(Relaxed);
                if st != 0 && now > st - 1 + lim {
                    let n = rt.word(t, 2).load(Relaxed) as usize;
                    let mut o = format!("{}", rt.word(t, 1).load(Relaxed));
                    for i in 0..n {
                        let _ = write!(o, " {}", rt.word(t, 3 + i).load(Relaxed));
                    }
                    std::fs::write(dir.join("hang"), o).unwrap();
                    std::process::exit(3);
                }
            }
        });
    }
    let suites = (p.build)(thorough()).0;
    let mut rep = Report::default();
    for (sid, s) in suites.iter().enumerate() {
        let t1 = Instant::now();
        let before = rep.transitions;
        let r = match s {
            Suite::Indexed { name, bounds, count, run } => {
                rep.bounds.push(format!("{}: {} cases: {}", name, count, bounds));
                run_indexed(run, *count, sid as u32, &rt, &mut rep)
            }
            Suite::Bfs(b) => {
                rep.bounds.push(format!("{}: {}", b.name(), b.bounds()));
                b.run(sid as u32, &rt, &mut rep)
            }
        };
        if let Err(v) = r {
            let d: Vec<String> = v.data.iter().map(|x| x.to_string()).collect();
            std::fs::write(dir.join("violation"), format!("{}\n{}\n{}", v.sid, d.join(" "), v.msg)).unwrap();
            finish(p, dir, &rep);
            std::process::exit(1);
        }
        if t1.elapsed().as_secs_f64() > 0.5 || std::env::var_os("VERIF_VERBOSE").is_some() {
            println!(
            "{} {}: ok, {} operations checked, {:.2}s",
            p.id,
            s.name(),
            rep.transitions - before,
            t1.elapsed().as_secs_f64()
            );
        }
        if let Suite::Indexed { name, count, .. } = s {
            if rep.samples.len() < 24 && *count > 0 {
                let idx = *count * 2 / 3;
                let (r, tr) = replay_one(s, &[idx as u32, (idx >> 32) as u32], false);
                rep.samples.push(format!("{} case {}: {} -> {}", name, idx, clip(&tr.join("; "), 600), if r.is_ok() { "agrees with the model" } else { "DISAGREES" }));
            }
        }
    }
    finish(p, dir, &rep);
    std::process::exit(0);
}

fn finish(_p: &Prop, dir: &Path, rep: &Report) {
    let mut o = String::new();
    let list = |v: &[String]| v.iter().map(|s| jstr(&clip(s, 900))).collect::<Vec<_>>().join(", ");
    let _ = write!(
        o,
        "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"cases_enumerated\": {}, \"cases_outside_the_property\": {}, \"distinct_outcome_classes\": {{{}}}, \"determinism_rechecks\": {}, \"bounds\": [{}], \"searches\": [{}], \"samples\": [{}]",
        rep.states.len(),
        rep.transitions,
        rep.traces,
        rep.cases,
        rep.skipped,
        rep.outcomes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "),
        rep.determinism,
        list(&rep.bounds),
        list(&rep.bfs),
        list(&rep.samples)
    );
    std::fs::write(dir.join("coverage"), o).unwrap();
}

fn replay_cmd(p: &Prop, args: &[String]) {
    // replay <file>  |  replay <suite number> <data...>
    limit_mem(5);
    let (sid, data): (usize, Vec<u32>) = if args.len() == 1 {
        let txt = std::fs::read_to_string(&args[0]).expect("cannot read the replay file");
        let line = txt.lines().find(|l| l.starts_with("replay ")).expect("no replay line");
        let w: Vec<u32> = line.split_whitespace().skip(2).map(|x| x.parse().unwrap()).collect();
        (w[0] as usize, w[1..].to_vec())
    } else {
        (args[0].parse().unwrap(), args[1..].iter().map(|x| x.parse().unwrap()).collect())
    };
    let suites = (p.build)(thorough()).0;
    println!("suite {}", suites[sid].name());
    let (r, _) = replay_one(&suites[sid], &data, true);
    match r {
        Ok(()) => {
            println!("property held on this case");
            std::process::exit(0)
        }
        Err(e) => {
            println!("FAILS: {}", e);
            std::process::exit(1)
        }
    }
}

/// A failure that a fresh process does not show for the case alone depends on what was executed
/// before it: runs the case several times, then all cases of the suite up to it, one after another.
fn sequence_cmd(p: &Prop, args: &[String]) {
    limit_mem(14);
    let w: Vec<u32> = args.iter().map(|x| x.parse().unwrap()).collect();
    let suites = (p.build)(thorough()).0;
    let s = &suites[w[0] as usize];
    println!("suite {}", s.name());
    let fail = |what: String, e: String| {
        println!("FAILS {}: {}", what, e);
        std::process::exit(1)
    };
    for k in 0..5 {
        if let (Err(e), _) = replay_one(s, &w[1..], false) {
            fail(format!("when run for the {}. time in one process", k + 1), e);
        }
    }
    if let Suite::Indexed { run, .. } = s {
        let last = w[1] as u64 | (*w.get(2).unwrap_or(&0) as u64) << 32;
        let mut ctx = Ctx::new();
        let t = Instant::now();
        for idx in last.saturating_sub(1_000_000)..=last {
            let r = quiet_catch(|| run(&mut ctx, idx)).unwrap_or_else(|p| Err(format!("panic: {}", p)));
            if let Err(e) = r {
                fail(format!("in case {} after the cases before it, in order, in one process", idx), e);
            }
            if t.elapsed() > Duration::from_secs(60) {
                break;
            }
        }
    }
    std::process::exit(0)
}

/// Replays one case in a fresh process. Some(text) if it fails, hangs or dies.
fn confirm(words: &str, limit: Duration) -> Option<String> {
    again("replay", words, limit)
}
fn again(mode: &str, words: &str, limit: Duration) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .arg(mode)
        .args(words.split_whitespace())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let mut so = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        use std::io::Read;
        let mut b = vec![];
        let _ = so.read_to_end(&mut b);
        String::from_utf8_lossy(&b).to_string()
    });
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let out = rd.join().unwrap();
            return match st.code() {
                Some(0) => None,
                Some(_) => Some(out),
                None => Some(format!("{}FAILS: the operation above killed the process ({})", out, st)),
            };
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            let out = rd.join().unwrap();
            return Some(format!("{}FAILS: the operation above did not return within {:.0} s", out, limit.as_secs_f64()));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn parent(p: &Prop) {
    let t0 = Instant::now();
    let tier = if thorough() { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = verif_dir();
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let _ = std::fs::create_dir_all(root.join("replays"));
    let work = root.join("replays").join(format!(".work-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).unwrap();

    let exe = std::env::current_exe().unwrap();
    let mut case_ms = case_limit_ms();
    // (suite and data words, message)
    let mut verdict: Option<(String, String)> = None;
    let mut error: Option<String> = None;
    for attempt in 0..3 {
        for f in ["hang", "violation", "coverage"] {
            let _ = std::fs::remove_file(work.join(f));
        }
        let st = Command::new(&exe).arg("child").arg(&work).env("VERIF_CASE_MS", case_ms.to_string()).status();
        let st = match st {
            Ok(s) => s,
            Err(e) => {
                error = Some(format!("cannot start the explorer: {}", e));
                break;
            }
        };
        match st.code() {
            Some(0) => break,
            Some(1) => {
                let v = std::fs::read_to_string(work.join("violation")).unwrap_or_default();
                let mut l = v.splitn(3, '\n');
                let sid = l.next().unwrap_or("0").to_string();
                let data = l.next().unwrap_or("").to_string();
                let msg = l.next().unwrap_or("").to_string();
                let words = format!("{} {}", sid, data);
                // every failure must fail again, in a fresh process
                match confirm(&words, Duration::from_millis(case_ms * 2)) {
                    Some(t) => verdict = Some((words, format!("{}\n{}", msg, t))),
                    // What a call returns must not depend on earlier or concurrent calls.
                    None => match again("sequence", &words, Duration::from_secs(150)) {
                        Some(t) => verdict = Some((words.clone(), format!("{}\nnot when run alone, but depending on what was executed before (run again: {} sequence {}):\n{}", msg, exe.display(), words, t))),
                        None => {
                            let _ = std::fs::remove_file(work.join("violation"));
                            let st = Command::new(&exe).arg("child").arg(&work).env("VERIF_CASE_MS", case_ms.to_string()).status();
                            match (st.map(|s| s.code()), std::fs::read_to_string(work.join("violation"))) {
                                (Ok(Some(1)), Ok(v)) => verdict = Some((words, format!("{}\nnot when run alone, but again in a second exploration by concurrent workers:\n{}", msg, v))),
                                _ => error = Some(format!("a reported failure did not repeat (nondeterminism): case {}: {}", words, msg)),
                            }
                        }
                    },
                }
                break;
            }
            Some(3) => {
                let words = std::fs::read_to_string(work.join("hang")).unwrap_or_default();
                match confirm(&words, Duration::from_millis(case_ms * 3 / 2)) {
                    Some(t) => {
                        verdict = Some((words, t));
                        break;
                    }
                    None if attempt < 2 => case_ms *= 4,
                    None => {
                        error = Some("cases keep exceeding the time limit but finish when run alone".into());
                        break;
                    }
                }
            }
            Some(c) => {
                error = Some(format!("explorer exited with status {}", c));
                break;
            }
            None => {
                // killed by a signal: find the case that does it
                let slots = std::fs::read(work.join("slots")).unwrap_or_default();
                let w: Vec<u64> = slots.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                for s in w.chunks_exact(SLOT_WORDS) {
                    if s[0] == 0 {
                        continue;
                    }
                    let mut words = format!("{}", s[1]);
                    for i in 0..(s[2] as usize).min(SLOT_WORDS - 3) {
                        let _ = write!(words, " {}", s[3 + i]);
                    }
                    if let Some(t) = confirm(&words, Duration::from_millis(case_ms)) {
                        verdict = Some((words, t));
                        break;
                    }
                }
                if verdict.is_none() {
                    error = Some(format!("explorer died ({}) and no case in flight dies on its own", st));
                }
                break;
            }
        }
    }

    let cov = std::fs::read_to_string(work.join("coverage")).unwrap_or_default();
    let cov = if cov.is_empty() {
        "\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": []".to_string()
    } else {
        cov
    };
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{{}, \"exhaustive\": {}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        jstr(p.id),
        jstr(tier),
        seed,
        cov,
        verdict.is_none() && error.is_none(),
        p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        verdict.is_some() as u32
    );
    std::fs::write(root.join("evidence").join(format!("{}.json", p.id)), ev).unwrap();
    let _ = std::fs::remove_dir_all(&work);

    if let Some((words, text)) = verdict {
        let suites = (p.build)(thorough()).0;
        let sid: usize = words.split_whitespace().next().unwrap_or("0").parse().unwrap_or(0);
        let name = suites.get(sid).map(|s| s.name().to_string()).unwrap_or_default();
        let rp = root.join("replays").join(format!("{}.txt", p.id));
        let body = format!(
            "property {}\ntier {}\nsuite {}\nreplay {} {}\nrun again: VERIF_TIER={} bash run_check.sh {} replay replays/{}.txt\n\n{}\n",
            p.id, tier, name, p.id, words, tier, p.id, p.id, text
        );
        std::fs::write(&rp, &body).unwrap();
        println!("{}", clip(&text, 3000));
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        std::process::exit(1);
    }
    if let Some(e) = error {
        println!("CHECK ERROR property={}: {}", p.id, e);
        std::process::exit(2);
    }
    println!("{} held on everything explored ({}, {:.1}s)", p.id, tier, t0.elapsed().as_secs_f64());
}
