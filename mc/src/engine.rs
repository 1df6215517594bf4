//! A small stateless model checker: a *scope* is a closure that asks the
//! engine for every choice it makes (`Exec::choose`), and the engine runs it
//! once per possible sequence of answers, depth first, over all cores.
//! Nothing is sampled: a scope ends when the tree of choices is exhausted.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// FNV-1a, stable across processes (std's hasher is seeded at random).
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn fnv<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

/// Why an execution failed. `key` identifies the finding (see known-findings).
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail {
            key: String::new(),
            msg,
        }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        msg.to_string().into()
    }
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !($c) { return Err($crate::engine::Fail::from(format!($($t)*))); }
    };
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err($crate::engine::Fail::from(format!($($t)*))) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One execution: answers choices from a prefix, then takes the first option.
pub struct Exec {
    prefix: Vec<u32>,
    pub choices: Vec<u32>,
    arity: Vec<u32>,
    pub budget: u32,
    pub trace: bool,
    pub notes: Vec<String>,
    label: String,
    outcome: Fnv,
    trivial: bool,
    states: Vec<u64>,
    transitions: u64,
    traces: u64,
    evals: u64,
}
impl Exec {
    fn new(prefix: Vec<u32>, trace: bool) -> Self {
        Exec {
            prefix,
            choices: vec![],
            arity: vec![],
            budget: 0,
            trace,
            notes: vec![],
            label: String::new(),
            outcome: Fnv::default(),
            trivial: false,
            states: vec![],
            transitions: 0,
            traces: 0,
            evals: 1,
        }
    }
    /// All `n` answers are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: empty choice");
        let i = self.choices.len();
        let v = if i < self.prefix.len() {
            let v = self.prefix[i];
            if v as usize >= n {
                eprintln!("engine: replay diverged at choice {i}: {v} >= {n}");
                std::process::exit(3);
            }
            v
        } else {
            0
        };
        self.choices.push(v);
        self.arity.push(n as u32);
        v as usize
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.choose(s.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Deviation-bounded choice: anything but the default (0) costs one unit
    /// of `budget`; with an empty budget only the default is possible.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return 0;
        }
        let v = self.choose(n);
        if v != 0 {
            self.budget -= 1;
        }
        v
    }
    pub fn dev<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.deviate(s.len())]
    }
    /// Text shown when this execution is a counterexample or a sample.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.notes.push(s);
        }
    }
    /// Names the input for the known-findings list.
    pub fn label(&mut self, s: impl Into<String>) {
        self.label = s.into();
    }
    /// What was observed; distinct outcomes are counted.
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        t.hash(&mut self.outcome);
    }
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    /// A state of the reference model reached by this execution.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.push(fnv(t));
    }
    /// One step taken both by the model and by the implementation.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    /// One complete model trace replayed on the implementation.
    pub fn validated(&mut self) {
        self.traces += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub scope: String,
    pub choices: Vec<u32>,
    pub key: String,
    pub msg: String,
    pub notes: Vec<String>,
}

#[derive(Default)]
pub struct ScopeStat {
    pub name: String,
    pub rule: String,
    pub execs: u64,
    pub evals: u64,
    pub outcomes: u64,
    pub trivial: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub max_depth: usize,
    pub wall: f64,
    pub samples: Vec<String>,
    pub failed: u64,
}

pub struct Ctx {
    pub tier: Tier,
    pub only: Option<(String, Vec<u32>)>,
    pub stats: Vec<ScopeStat>,
    pub failures: Vec<Failure>,
    pub status: Option<std::fs::File>,
    pub scope_names: Vec<String>,
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    pub static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        if IN_CASE.with(|c| c.get()) {
            PANIC.with(|p| *p.borrow_mut() = Some(s));
        } else {
            eprintln!("engine panic: {s}");
        }
    }));
}

/// Runs library code, turning a panic into an error message.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("{what} panicked: {m}").into())
        }
    }
}

struct Slot {
    since: AtomicU64, // ms since start, 0 = idle
    cur: Mutex<Vec<u32>>,
}

const HANG_MS: u64 = 45_000;
const SPLIT: usize = 4;
const MAX_FAILS: usize = 400;

struct Shared {
    queue: Mutex<(Vec<Vec<u32>>, usize)>, // jobs, active workers
    cv: Condvar,
    fails: Mutex<Vec<Failure>>,
    nfails: AtomicUsize,
}

#[derive(Default)]
struct Local {
    execs: u64,
    evals: u64,
    trivial: u64,
    transitions: u64,
    traces: u64,
    max_depth: usize,
    outcomes: HashSet<u64>,
    states: HashSet<u64>,
    samples: BTreeMap<Vec<u32>, ()>,
}

impl Ctx {
    pub fn new(tier: Tier) -> Self {
        Ctx {
            tier,
            only: None,
            stats: vec![],
            failures: vec![],
            status: None,
            scope_names: vec![],
        }
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.tier == Tier::Quick {
            quick
        } else {
            thorough
        }
    }

    fn run_one<F>(f: &F, prefix: Vec<u32>, trace: bool) -> (Exec, R)
    where
        F: Fn(&mut Exec) -> R,
    {
        let mut e = Exec::new(prefix, trace);
        IN_CASE.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut e)));
        IN_CASE.with(|c| c.set(false));
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                Err(Fail::from(format!("panic: {m}")))
            }
        };
        (e, r)
    }

    /// Explores every execution of `f`.
    pub fn explore<F>(&mut self, name: &str, rule: &str, f: F)
    where
        F: Fn(&mut Exec) -> R + Sync,
    {
        self.scope_names.push(name.to_string());
        if let Some((scope, choices)) = &self.only {
            if scope != name {
                return;
            }
            let (e, r) = Self::run_one(&f, choices.clone(), true);
            for n in &e.notes {
                eprintln!("  {n}");
            }
            match r {
                Ok(()) => eprintln!("replay: this execution holds"),
                Err(x) => {
                    eprintln!("replay: {}", x.msg);
                    self.failures.push(Failure {
                        scope: name.into(),
                        choices: e.choices.clone(),
                        key: if x.key.is_empty() { e.label.clone() } else { x.key },
                        msg: x.msg,
                        notes: e.notes,
                    });
                }
            }
            return;
        }
        let t0 = Instant::now();
        let threads: usize = std::env::var("MC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
                    .min(16)
            });
        let sh = Shared {
            queue: Mutex::new((vec![vec![]], 0)),
            cv: Condvar::new(),
            fails: Mutex::new(vec![]),
            nfails: AtomicUsize::new(0),
        };
        let slots: Vec<Slot> = (0..threads)
            .map(|_| Slot {
                since: AtomicU64::new(0),
                cur: Mutex::new(vec![]),
            })
            .collect();
        let locals: Mutex<Vec<Local>> = Mutex::new(vec![]);
        let done = AtomicUsize::new(0);
        let status = self.status.as_ref();
        let scope_id = self.scope_names.len() as u32 - 1;

        std::thread::scope(|s| {
            for w in 0..threads {
                let (sh, slots, locals, f, done) = (&sh, &slots, &locals, &f, &done);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut l = Local::default();
                        loop {
                            let job = {
                                let mut q = sh.queue.lock().unwrap();
                                loop {
                                    if let Some(j) = q.0.pop() {
                                        q.1 += 1;
                                        break Some(j);
                                    }
                                    if q.1 == 0 {
                                        break None;
                                    }
                                    q = sh.cv.wait(q).unwrap();
                                }
                            };
                            let Some(job) = job else { break };
                            run_job(w, job, sh, &slots[w], &mut l, f, t0, status, scope_id);
                            let mut q = sh.queue.lock().unwrap();
                            q.1 -= 1;
                            drop(q);
                            sh.cv.notify_all();
                        }
                        sh.cv.notify_all();
                        locals.lock().unwrap().push(l);
                        done.fetch_add(1, SeqCst);
                    })
                    .unwrap();
            }
            // watchdog: a single execution that does not come back is a hang
            while done.load(SeqCst) < threads {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for s in &slots {
                    let since = s.since.load(SeqCst);
                    if since != 0 && now > since + HANG_MS {
                        let choices = s.cur.lock().unwrap().clone();
                        eprintln!("HANG scope={name} choices={choices:?}");
                        hang_exit(name, &choices);
                    }
                }
            }
        });

        let mut st = ScopeStat {
            name: name.into(),
            rule: rule.into(),
            ..Default::default()
        };
        let (mut outs, mut states) = (HashSet::new(), HashSet::new());
        let mut samples = BTreeMap::new();
        for l in locals.into_inner().unwrap() {
            st.execs += l.execs;
            st.evals += l.evals;
            st.trivial += l.trivial;
            st.transitions += l.transitions;
            st.traces += l.traces;
            st.max_depth = st.max_depth.max(l.max_depth);
            outs.extend(l.outcomes);
            states.extend(l.states);
            samples.extend(l.samples);
        }
        st.outcomes = outs.len() as u64;
        st.states = states.len() as u64;
        let n = samples.len();
        for (i, c) in samples.into_keys().enumerate() {
            if i == 0 || i == n / 2 || i + 1 == n {
                let (e, _) = Self::run_one(&f, c, true);
                let mut t = e.notes.join(" | ");
                if t.len() > 1500 {
                    let mut k = 1500;
                    while !t.is_char_boundary(k) {
                        k -= 1;
                    }
                    t.truncate(k);
                }
                st.samples.push(format!("{name} {:?}: {t}", e.choices));
            }
        }
        let mut fails = sh.fails.into_inner().unwrap();
        for f in fails.iter_mut() { f.scope = name.to_string(); }
        fails.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
        st.failed = sh.nfails.load(SeqCst) as u64;
        // one representative per key, replayed with its trace
        let mut seen = HashSet::new();
        for fl in fails {
            if !seen.insert(fl.key.clone()) {
                continue;
            }
            let (e, r) = Self::run_one(&f, fl.choices.clone(), true);
            let mut fl = fl;
            fl.notes = e.notes;
            if r.is_ok() {
                fl.notes.push("(did not fail again when replayed: depends on state the harness does not own)".into());
            }
            self.failures.push(fl);
        }
        st.wall = t0.elapsed().as_secs_f64();
        eprintln!(
            "scope {name}: {} executions, {} distinct outcomes, {} states, {} transitions, {} failed, {:.1}s",
            st.execs, st.outcomes, st.states, st.transitions, st.failed, st.wall
        );
        self.stats.push(st);
    }
}

fn hang_exit(name: &str, choices: &[u32]) -> ! {
    if let Ok(p) = std::env::var("MC_HANG_FILE") {
        let _ = std::fs::write(
            p,
            serde_json::json!({"scope": name, "choices": choices}).to_string(),
        );
    }
    std::process::exit(77)
}

#[allow(clippy::too_many_arguments)]
fn run_job<F>(
    w: usize,
    job: Vec<u32>,
    sh: &Shared,
    slot: &Slot,
    l: &mut Local,
    f: &F,
    t0: Instant,
    status: Option<&std::fs::File>,
    scope_id: u32,
) where
    F: Fn(&mut Exec) -> R,
{
    let base = job.len();
    let mut prefix = job;
    let mut first = true;
    let mut floor = base;
    loop {
        if sh.nfails.load(SeqCst) >= MAX_FAILS {
            return;
        }
        *slot.cur.lock().unwrap() = prefix.clone();
        if let Some(fl) = status {
            use std::os::unix::fs::FileExt;
            let mut b = vec![0u8; 256];
            b[0..4].copy_from_slice(&scope_id.to_le_bytes());
            let n = prefix.len().min(60);
            b[4..8].copy_from_slice(&(n as u32).to_le_bytes());
            for (i, c) in prefix.iter().take(n).enumerate() {
                b[8 + 4 * i..12 + 4 * i].copy_from_slice(&c.to_le_bytes());
            }
            let _ = fl.write_all_at(&b[..248], (w * 256) as u64);
        }
        slot.since.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
        let (e, r) = Ctx::run_one(f, prefix, false);
        slot.since.store(0, SeqCst);
        l.execs += 1;
        l.evals += e.evals;
        l.transitions += e.transitions;
        l.traces += e.traces;
        l.max_depth = l.max_depth.max(e.choices.len());
        if e.trivial {
            l.trivial += 1;
        } else {
            l.outcomes.insert(e.outcome.finish());
        }
        l.states.extend(e.states.iter());
        if l.samples.len() < 8 || l.execs.is_power_of_two() {
            l.samples.insert(e.choices.clone(), ());
        }
        if let Err(x) = r {
            sh.nfails.fetch_add(1, SeqCst);
            let key = if x.key.is_empty() { e.label.clone() } else { x.key };
            sh.fails.lock().unwrap().push(Failure {
                scope: String::new(),
                choices: e.choices.clone(),
                key,
                msg: x.msg,
                notes: vec![],
            });
        }
        if first {
            first = false;
            // hand the alternatives near the root to other workers
            let end = SPLIT.min(e.choices.len());
            if base < end {
                let mut q = sh.queue.lock().unwrap();
                for i in base..end {
                    for alt in 1..e.arity[i] {
                        let mut p = e.choices[..i].to_vec();
                        p.push(alt);
                        q.0.push(p);
                    }
                }
                drop(q);
                sh.cv.notify_all();
                floor = end;
            }
        }
        // next execution below `floor`
        let (mut c, a) = (e.choices, e.arity);
        loop {
            if c.len() <= floor {
                return;
            }
            let i = c.len() - 1;
            if c[i] + 1 < a[i] {
                c[i] += 1;
                break;
            }
            c.pop();
        }
        prefix = c;
    }
}
