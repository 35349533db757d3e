//! The explorer: runs units (bounded spaces) on all cores, one case at a time, keeping a record of
//! the case in flight so that an abort or hang of the code under test is attributed to its input.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Unit {
    pub name: String,
    pub run: Box<dyn Fn(&mut Task) + Send + Sync>,
}

impl Unit {
    pub fn new(name: impl Into<String>, run: impl Fn(&mut Task) + Send + Sync + 'static) -> Unit {
        Unit { name: name.into(), run: Box::new(run) }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub unit: String,
    pub unit_no: usize,
    pub index: u64,
    pub data: String,
    pub what: String,
}

#[derive(Default)]
struct Shared {
    states: u64,
    transitions: u64,
    traces: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    notes: Vec<String>,
    capped_units: u64,
    done_units: u64,
}

pub struct Task<'a> {
    pub tier: Tier,
    unit: &'a str,
    unit_no: usize,
    index: u64,
    only: Option<u64>,
    skip: Vec<u64>,
    slot: &'a [AtomicU64],
    start: Instant,
    cap: Duration,
    stop: bool,
    capped: bool,
    violations: Vec<Violation>,
    counters: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
}

impl Task<'_> {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counters.entry(what).or_default() += n;
    }

    /// Should enumeration stop early (violations found, or time cap)?
    pub fn stopped(&self) -> bool {
        self.stop
    }

    /// One case. `data` describes it completely; `check` runs it on the real code and judges it.
    pub fn case(&mut self, data: impl Fn() -> String, check: impl FnOnce(&mut Task) -> Result<(), String>) {
        if self.stop {
            return;
        }
        let ix = self.index;
        self.index += 1;
        if let Some(only) = self.only {
            if ix != only {
                return;
            }
            println!("CASE {} | {}", self.unit, data());
            use std::io::Write;
            let _ = std::io::stdout().flush();
            self.stop = true;
        } else if self.skip.contains(&ix) {
            return;
        } else if ix % 256 == 0 && self.start.elapsed() > self.cap {
            self.stop = true;
            self.capped = true;
            return;
        }
        if ix == 3 || ix == 1000 {
            if self.samples.len() < 2 {
                let mut d = data();
                if d.len() > 300 {
                    d.truncate(300);
                    d.push_str("...");
                }
                self.samples.push(format!("{} | {}", self.unit, d));
            }
        }
        self.slot[1].store(self.unit_no as u64, SeqCst);
        self.slot[2].store(ix, SeqCst);
        self.slot[3].store(self.start.elapsed().as_millis() as u64, SeqCst);
        self.slot[0].store(1, SeqCst);
        let r = guard(|| check(self)).unwrap_or_else(|e| Err(format!("panics: {e}")));
        self.slot[0].store(0, SeqCst);
        if let Err(what) = r {
            self.violations.push(Violation {
                unit: self.unit.to_string(),
                unit_no: self.unit_no,
                index: ix,
                data: data(),
                what,
            });
            if self.violations.len() >= 8 {
                self.stop = true;
            }
        }
    }
}

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}

/// Runs code under test, turning a panic into an error message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let before = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(before));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub struct Args {
    pub prop: String,
    pub tier: Tier,
    pub only: Option<(usize, u64)>,
    pub skip: Vec<(usize, u64)>,
    pub slots: Option<String>,
    pub out: Option<String>,
    pub cap: u64,
    pub threads: usize,
    pub filter: Option<String>,
    pub child: Option<String>,
}

fn unit_index(x: &str) -> (usize, u64) {
    let (u, n) = x.split_once(':').expect("unit:index");
    (u.parse().unwrap(), n.parse().unwrap())
}

pub fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        tier: Tier::Quick,
        only: None,
        skip: vec![],
        slots: None,
        out: None,
        cap: 400,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
        filter: None,
        child: None,
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        let val = || v[i + 1].clone();
        match v[i].as_str() {
            "--prop" => a.prop = val(),
            "--tier" => a.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--only" => {
                a.only = Some(unit_index(&val()));
            }
            "--skip" => a.skip = val().split(',').map(unit_index).collect(),
            "--slots" => a.slots = Some(val()),
            "--out" => a.out = Some(val()),
            "--cap" => a.cap = val().parse().unwrap(),
            "--threads" => a.threads = val().parse().unwrap(),
            "--filter" => a.filter = Some(val()),
            "--child" => a.child = Some(val()),
            x => panic!("unknown argument {x}"),
        }
        i += 2;
    }
    a
}

pub const SLOT_WORDS: usize = 8;
const HANG_MS: u64 = 40_000;

fn map_slots(path: &Option<String>, n: usize) -> &'static [AtomicU64] {
    let words = n * SLOT_WORDS;
    match path {
        None => Box::leak((0..words).map(|_| AtomicU64::new(0)).collect::<Vec<_>>().into_boxed_slice()),
        Some(p) => unsafe {
            use std::os::fd::AsRawFd;
            let f = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(p)
                .expect("slot file");
            f.set_len((words * 8) as u64).expect("slot file");
            let m = libc::mmap(
                std::ptr::null_mut(),
                words * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            );
            assert!(m != libc::MAP_FAILED);
            std::slice::from_raw_parts(m as *const AtomicU64, words)
        },
    }
}

pub fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// Runs all units and writes the result. Never returns.
pub fn run(a: Args, units: Vec<Unit>) -> ! {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !GUARDED.with(|g| g.get()) {
            hook(i);
        }
    }));
    let start = Instant::now();
    let threads = if a.only.is_some() { 1 } else { a.threads };
    let slots = map_slots(&a.slots, threads);
    let next = AtomicUsize::new(0);
    let finished = AtomicBool::new(false);
    let failed = AtomicBool::new(false);
    let shared = Mutex::new(Shared::default());
    let cap = Duration::from_secs(a.cap);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            while !finished.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                let now = start.elapsed().as_millis() as u64;
                for t in 0..threads {
                    let s = &slots[t * SLOT_WORDS..(t + 1) * SLOT_WORDS];
                    if s[0].load(SeqCst) == 1 && now > s[3].load(SeqCst) + HANG_MS {
                        let (u, ix) = (s[1].load(SeqCst), s[2].load(SeqCst));
                        eprintln!("HANG unit {u} case {ix}");
                        unsafe { libc::_exit(97) }
                    }
                }
            }
        });
        let mut hs = vec![];
        for t in 0..threads {
            let slot = &slots[t * SLOT_WORDS..(t + 1) * SLOT_WORDS];
            let (a, units, next, shared) = (&a, &units, &next, &shared);
            let b = std::thread::Builder::new().stack_size(16 << 20);
            hs.push(
                b.spawn_scoped(sc, move || loop {
                    let n = next.fetch_add(1, SeqCst);
                    if n >= units.len() {
                        break;
                    }
                    if let Some((u, _)) = a.only {
                        if u != n {
                            continue;
                        }
                    }
                    if let Some(f) = &a.filter {
                        if !units[n].name.contains(f.as_str()) {
                            continue;
                        }
                    }
                    let mut task = Task {
                        tier: a.tier,
                        unit: &units[n].name,
                        unit_no: n,
                        index: 0,
                        only: a.only.map(|o| o.1),
                        skip: a.skip.iter().filter(|s| s.0 == n).map(|s| s.1).collect(),
                        slot,
                        start,
                        cap,
                        stop: start.elapsed() > cap,
                        capped: start.elapsed() > cap,
                        violations: vec![],
                        counters: BTreeMap::new(),
                        samples: vec![],
                        states: 0,
                        transitions: 0,
                        traces: 0,
                    };
                    let began = Instant::now();
                    let r = guard(|| (units[n].run)(&mut task));
                    if std::env::var_os("MC_TIMES").is_some() {
                        eprintln!("{:8.2} s  {}", began.elapsed().as_secs_f64(), units[n].name);
                    }
                    if let Err(e) = r {
                        // Code under test that panics while a unit is being set up.
                        task.stop = false;
                        task.index = u64::MAX - 1;
                        task.case(|| "setting up".to_string(), |_| Err(format!("panics: {e}")));
                        task.index = 0;
                    }
                    let mut s = shared.lock().unwrap();
                    s.states += task.states;
                    s.transitions += task.transitions;
                    s.traces += task.traces;
                    for (k, v) in task.counters {
                        *s.counters.entry(k.to_string()).or_default() += v;
                    }
                    *s.counters.entry("cases".to_string()).or_default() += task.index;
                    if n % 7 == 0 || s.samples.len() < 4 {
                        s.samples.extend(task.samples);
                    }
                    s.violations.extend(task.violations);
                    s.capped_units += u64::from(task.capped);
                    s.done_units += 1;
                })
                .expect("thread"),
            );
        }
        for h in hs {
            if h.join().is_err() {
                failed.store(true, SeqCst);
            }
        }
        finished.store(true, SeqCst);
    });
    let mut s = shared.into_inner().unwrap();
    // Simplest first.
    s.violations.sort_by_key(|v| (v.data.len(), v.unit.len(), v.unit.clone(), v.index));
    s.samples.sort();
    let keep = 12;
    if s.samples.len() > keep {
        let step = s.samples.len() / keep;
        s.samples = s.samples.into_iter().step_by(step).take(keep).collect();
    }
    if a.only.is_some() {
        for v in &s.violations {
            println!("FAILS {} | {} | {}", v.unit, v.data, v.what);
        }
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"states\":{},\"transitions\":{},\"traces\":{},\"units\":{},\"capped_units\":{},\"wall_s\":{:.2},\"counters\":{{",
        s.states,
        s.transitions,
        s.traces,
        s.done_units,
        s.capped_units,
        start.elapsed().as_secs_f64()
    );
    for (i, (k, v)) in s.counters.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
    }
    let _ = write!(o, "}},\"notes\":[");
    for (i, n) in s.notes.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, json_str(n));
    }
    let _ = write!(o, "],\"samples\":[");
    for (i, n) in s.samples.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, json_str(n));
    }
    let _ = write!(o, "],\"violations\":[");
    for (i, v) in s.violations.iter().take(40).enumerate() {
        let _ = write!(
            o,
            "{}{{\"unit\":{},\"unit_no\":{},\"index\":{},\"data\":{},\"what\":{}}}",
            if i > 0 { "," } else { "" },
            json_str(&v.unit),
            v.unit_no,
            v.index,
            json_str(&v.data),
            json_str(&v.what)
        );
    }
    let _ = writeln!(o, "]}}");
    match &a.out {
        Some(p) => std::fs::write(p, &o).expect("result file"),
        None => {
            if a.only.is_none() {
                println!("{o}")
            }
        }
    }
    let code = if failed.load(SeqCst) {
        3
    } else if s.violations.is_empty() {
        0
    } else {
        1
    };
    std::process::exit(code)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 2);
    s.push_str("0x");
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
