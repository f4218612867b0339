//! Campaign runner: cases, verdicts, evidence, replay, watchdog.

use crate::rng::{fnv, splitmix, Rng};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    io::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

/// A violated property, with the witness.
#[derive(Debug, Clone)]
pub struct Fail(pub String);
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::core::Fail(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::core::Fail(format!($($t)*))); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    /// Integer literals found in the sources of the code under test; they are
    /// only used as interesting input values.
    pub lits: Vec<u64>,
    pub out_dir: PathBuf,
    /// divides the number of random cases (sanitizer / interpreter builds)
    pub scale: u64,
    pub budget: Duration,
}

/// What the monitors observed.
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub distinct_counted: u64,
    pub hashes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

const HASH_CAP: usize = 4_000_000;

impl Obs {
    /// Count `n` oracle evaluations.
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
    /// A case which is distinct by construction (enumerated).
    pub fn distinct(&mut self, n: u64) {
        self.distinct_counted += n;
    }
    /// A non-trivial random case, distinct by its hash.
    pub fn case_hash(&mut self, h: u64) {
        if self.hashes.len() < HASH_CAP {
            self.hashes.insert(h);
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
    fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.distinct_counted += o.distinct_counted;
        for h in o.hashes {
            if self.hashes.len() < HASH_CAP {
                self.hashes.insert(h);
            }
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Case<'a> {
    pub cx: &'a Cx,
    pub rng: Rng,
    pub idx: u64,
    pub obs: &'a mut Obs,
}

type CaseFn = Box<dyn Fn(&mut Case) -> R + Send + Sync>;

pub struct Campaign {
    pub name: &'static str,
    pub what: &'static str,
    /// Number of cases (the thorough tier runs random cases until its time is used up).
    pub quick: u64,
    /// Enumerates a finite space completely (independent of seed and tier).
    pub exhaustive: bool,
    pub f: CaseFn,
}

impl Campaign {
    pub fn random(
        name: &'static str,
        what: &'static str,
        quick: u64,
        f: impl Fn(&mut Case) -> R + Send + Sync + 'static,
    ) -> Campaign {
        Campaign {
            name,
            what,
            // many short cases: they are cheap compared with the build
            quick: if quick >= 1000 { quick * 6 } else { quick },
            exhaustive: false,
            f: Box::new(f),
        }
    }
    pub fn all(
        name: &'static str,
        what: &'static str,
        n: u64,
        f: impl Fn(&mut Case) -> R + Send + Sync + 'static,
    ) -> Campaign {
        Campaign {
            name,
            what,
            quick: n,
            exhaustive: true,
            f: Box::new(f),
        }
    }
}

pub struct Check {
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub campaigns: Vec<Campaign>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Run code under test which may legitimately panic; the message is returned.
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let p = LAST_PANIC.with(|p| p.borrow_mut().take());
        p.map(|(l, m)| format!("{m} ({l})")).unwrap_or_default()
    })
}

enum Verdict {
    Held,
    Violated(String),
    Broken(String),
}

fn run_case(cx: &Cx, c: &Campaign, idx: u64, obs: &mut Obs) -> Verdict {
    let mut s = cx.seed;
    let mut h = splitmix(&mut s);
    h ^= fnv(cx.prop.as_bytes());
    let mut h2 = splitmix(&mut h) ^ fnv(c.name.as_bytes());
    let mut h3 = splitmix(&mut h2) ^ idx;
    let rng = Rng::new(splitmix(&mut h3));
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut case = Case {
            cx,
            rng,
            idx,
            obs: &mut *obs,
        };
        (c.f)(&mut case)
    }));
    match res {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(Fail(m))) => Verdict::Violated(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            // Panics raised by a line of this crate are mistakes of the monitor.
            if loc.starts_with("src/") || loc.contains("/harness/src/") {
                Verdict::Broken(format!("monitor panicked at {loc}: {msg}"))
            } else {
                Verdict::Violated(format!("the library panicked at {loc}: {msg}"))
            }
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(cx: &Cx, camp: &str, idx: Option<u64>, msg: &str) -> PathBuf {
    let _ = std::fs::create_dir_all(&cx.out_dir);
    let p = cx.out_dir.join(format!("{}-replay.txt", cx.prop));
    let idx = idx.map_or("-".to_string(), |i| i.to_string());
    let s = format!(
        "property={}\ncampaign={camp}\nindex={idx}\nseed={}\ntier={}\n\n{msg}\n",
        cx.prop,
        cx.seed,
        tier_name(cx.tier)
    );
    let _ = std::fs::write(&p, s);
    p
}

pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn thread_cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 1..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: u64 = f.get(11)?.parse().ok()?;
    let k: u64 = f.get(12)?.parse().ok()?;
    Some(u + k)
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str()?.parse().ok()))
        .unwrap_or(0)
}

#[derive(Default)]
struct Slot {
    tid: AtomicU64,
    /// index + 1 of the running case; 0: idle
    case: AtomicU64,
}

/// CPU seconds one case may burn. The slowest case needs well below 5 s of
/// CPU time; so this only fires if the code under test does not return.
const CASE_CPU_SECS: u64 = 150;

pub struct Only {
    pub campaign: String,
    pub index: Option<u64>,
}

/// Runs all campaigns; returns the exit code.
pub fn run(cx: Cx, check: Check, only: Option<Only>, evidence: Option<&Path>, build: &str) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let mut total = Obs::default();
    let mut camp_json = vec![];
    let mut exhaustive = true;
    let mut violation: Option<(String, u64, String)> = None;
    let mut broken: Option<String> = None;
    let cx = Arc::new(cx);
    let n_random = check.campaigns.iter().filter(|c| !c.exhaustive).count().max(1) as u32;
    let prog = cx.out_dir.join(format!("{}-progress-{build}.txt", cx.prop));
    let _ = std::fs::create_dir_all(&cx.out_dir);

    'camps: for c in &check.campaigns {
        if let Some(o) = &only {
            if o.campaign != c.name {
                continue;
            }
            if let Some(i) = o.index {
                let mut obs = Obs::default();
                match run_case(&cx, c, i, &mut obs) {
                    Verdict::Held => {}
                    Verdict::Violated(m) => violation = Some((c.name.into(), i, m)),
                    Verdict::Broken(m) => broken = Some(m),
                }
                total.merge(obs);
                break 'camps;
            }
        }
        let _ = std::fs::write(&prog, c.name);
        exhaustive &= c.exhaustive;
        let n = if c.exhaustive {
            c.quick
        } else {
            match cx.tier {
                Tier::Quick => (c.quick / cx.scale).max(1),
                // as many as fit into the time
                Tier::Thorough => u64::MAX,
            }
        };
        let budget = cx.budget / n_random;
        let tc = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let finished = AtomicBool::new(false);
        let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let bad: Mutex<Option<String>> = Mutex::new(None);
        let merged: Mutex<Obs> = Mutex::new(Obs::default());
        let threads = cx.threads.min(n as usize).max(1);
        let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for slot in &slots {
                let (cx, next, stop, found, bad, merged) =
                    (&cx, &next, &stop, &found, &bad, &merged);
                hs.push(sc.spawn(move || {
                    slot.tid.store(my_tid(), Ordering::Relaxed);
                    let mut obs = Obs::default();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if !c.exhaustive && tc.elapsed() > budget {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        slot.case.store(i + 1, Ordering::Relaxed);
                        let v = run_case(cx, c, i, &mut obs);
                        slot.case.store(0, Ordering::Relaxed);
                        match v {
                            Verdict::Held => {}
                            Verdict::Violated(m) => {
                                let mut f = found.lock().unwrap();
                                if f.as_ref().is_none_or(|(j, _)| i < *j) {
                                    *f = Some((i, m));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                            Verdict::Broken(m) => {
                                *bad.lock().unwrap() = Some(format!("{} #{i}: {m}", c.name));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    merged.lock().unwrap().merge(obs);
                }));
            }
            let (cxr, slots, finished) = (&cx, &slots, &finished);
            sc.spawn(move || {
                let mut seen: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
                let mut tick = 0u64;
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    tick += 1;
                    if tick % 50 != 0 {
                        continue;
                    }
                    for (s, slot) in slots.iter().enumerate() {
                        let case = slot.case.load(Ordering::Relaxed);
                        let tid = slot.tid.load(Ordering::Relaxed);
                        let Some(cpu) = thread_cpu_ticks(tid) else {
                            continue;
                        };
                        if seen[s].0 != case {
                            seen[s] = (case, cpu);
                        } else if case != 0 && cpu - seen[s].1 > CASE_CPU_SECS * 100 {
                            let msg = format!(
                                "campaign {} case {}: a call into the library did not return \
                                 within {CASE_CPU_SECS} s of CPU time",
                                c.name,
                                case - 1
                            );
                            let p = write_replay(cxr, c.name, Some(case - 1), &msg);
                            // The reader of the output may be gone.
                            let _ = writeln!(
                                std::io::stdout(),
                                "{msg}\nVIOLATION property={} replay={}",
                                cxr.prop,
                                p.display()
                            );
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            finished.store(true, Ordering::Relaxed);
        });
        let obs = merged.into_inner().unwrap();
        let done = next.load(Ordering::Relaxed).min(n);
        camp_json.push(format!(
            "{{\"name\":{},\"what\":{},\"cases\":{},\"evaluations\":{},\"exhaustive\":{},\"seconds\":{:.2}}}",
            json_str(c.name),
            json_str(c.what),
            done,
            obs.evals,
            c.exhaustive && done == n,
            tc.elapsed().as_secs_f64()
        ));
        total.merge(obs);
        if let Some(m) = bad.into_inner().unwrap() {
            broken = Some(m);
            break;
        }
        if let Some((i, m)) = found.into_inner().unwrap() {
            violation = Some((c.name.to_string(), i, m));
            break;
        }
    }
    let _ = std::fs::remove_file(&prog);

    let wall = t0.elapsed().as_secs_f64();
    let distinct = total.distinct_counted + total.hashes.len() as u64;
    let nviol = u64::from(violation.is_some());
    if let Some(ev) = evidence {
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"build\": {},\n  \"campaigns\": [{}],\n  \"observed\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            json_str(&cx.prop),
            tier_name(cx.tier),
            cx.seed,
            total.evals,
            distinct,
            json_str(check.rule),
            exhaustive && violation.is_none() && only.is_none(),
            json_str(build),
            camp_json.join(",\n   "),
            total
                .counters
                .iter()
                .map(|(k, v)| format!("{}:{v}", json_str(k)))
                .collect::<Vec<_>>()
                .join(", "),
            total
                .samples
                .iter()
                .map(|s| json_str(s))
                .collect::<Vec<_>>()
                .join(",\n   "),
            check
                .assumptions
                .iter()
                .map(|s| json_str(s))
                .collect::<Vec<_>>()
                .join(", "),
            wall,
            nviol,
        );
        if let Some(d) = ev.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if std::fs::write(ev, s).is_err() {
            eprintln!("cannot write {}", ev.display());
            return 2;
        }
    }
    if let Some((camp, i, m)) = violation {
        let p = write_replay(&cx, &camp, Some(i), &m);
        println!("{} [{build}] campaign {camp}, case {i}: {m}", cx.prop);
        println!("VIOLATION property={} replay={}", cx.prop, p.display());
        return 1;
    }
    if let Some(m) = broken {
        eprintln!("INCONCLUSIVE {}: {m}", cx.prop);
        return 2;
    }
    if total.evals == 0 || (distinct == 0 && only.is_none()) {
        eprintln!("INCONCLUSIVE {}: nothing was observed", cx.prop);
        return 2;
    }
    println!(
        "{} [{build}] held: {} evaluations, {} distinct cases, {:.1} s",
        cx.prop, total.evals, distinct, wall
    );
    0
}
