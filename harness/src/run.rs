//! Supervisor of the monitors: runs cases in worker processes, attributes crashes and hangs to
//! their case, confirms them by replay, and writes evidence.
use crate::rng::{hash_bytes, mix};
use crate::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Returns `Err(message)` from the case if the condition does not hold.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => {
        if !$c {
            return Err(format!($($arg)+));
        }
    };
}

pub type CaseFn = fn(&mut Rng, u64, &mut Cx) -> Result<(), String>;

pub struct Phase {
    pub name: &'static str,
    /// Number of cases in the quick tier.
    pub quick: u64,
    /// Number of cases in the thorough tier; 0 for "as many as fit the time".
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub phases: Vec<Phase>,
    /// Counters that must reach at least these values (in every tier) for the run to be conclusive.
    pub floors: &'static [(&'static str, u64)],
    /// CPU seconds after which a single case is regarded as hanging.
    pub hang_cpu_s: u64,
}

#[derive(Default)]
pub struct Cx {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
    pub evals: u64,
    phase: String,
    phase_samples: usize,
    pub thorough: bool,
    pub case_id: (usize, u64),
}

const MAX_DISTINCT: usize = 3_000_000;

impl Cx {
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let c = self.counters.entry(format!("max_{}", name)).or_insert(0);
        *c = (*c).max(n);
    }
    /// Registers a non-trivial case by a hash of what identifies it.
    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < MAX_DISTINCT {
            self.distinct.insert(mix(h ^ hash_bytes(self.phase.as_bytes())));
        }
    }
    pub fn distinct_str(&mut self, s: &str) {
        self.distinct(hash_bytes(s.as_bytes()))
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.phase_samples < 1 {
            self.phase_samples += 1;
            let mut s: String = f();
            if s.len() > 600 {
                s = s.chars().take(400).collect::<String>() + "...";
            }
            self.samples.push(format!("[{}] {}", self.phase, s));
        }
    }
    /// Reports something that is a violation unless the known-findings file lists `key`.
    pub fn known(&mut self, key: &str, msg: impl FnOnce() -> String) {
        let e = self.known.entry(key.to_string()).or_insert_with(|| (0, msg()));
        e.0 += 1;
    }
}

/// The harness itself is broken: inconclusive.
pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR {}", msg);
    std::process::exit(3)
}

/// Short debugging form of a text.
pub fn show(s: &str) -> String {
    if s.len() <= 1500 {
        format!("{:?}", s)
    } else {
        let a: String = s.chars().take(600).collect();
        let n = s.chars().count();
        let b: String = s.chars().skip(n - 300).collect();
        format!("{:?}...<{} chars>...{:?}", a, n, b)
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string payload>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

#[cfg(not(miri))]
mod sys {
    #[repr(C)]
    struct RLimit {
        cur: u64,
        max: u64,
    }
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
        fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32;
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
        fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
    pub fn limit_memory(bytes: u64) {
        let l = RLimit { cur: bytes, max: bytes };
        unsafe {
            setrlimit(9, &l);
        }
    }
    pub fn no_core() {
        let l = RLimit { cur: 0, max: 0 };
        unsafe {
            setrlimit(4, &l);
        }
    }
    /// Die with the parent.
    pub fn pdeathsig() {
        unsafe {
            prctl(1, 9, 0, 0, 0);
        }
    }
    pub fn my_cpu_clock() -> i32 {
        let mut c = 0;
        unsafe {
            pthread_getcpuclockid(pthread_self(), &mut c);
        }
        c
    }
    pub fn cpu_ns(clk: i32) -> u64 {
        let mut t = Timespec { sec: 0, nsec: 0 };
        unsafe {
            if clock_gettime(clk, &mut t) != 0 {
                return 0;
            }
        }
        t.sec as u64 * 1_000_000_000 + t.nsec as u64
    }
}
#[cfg(miri)]
mod sys {
    pub fn limit_memory(_: u64) {}
    pub fn no_core() {}
    pub fn pdeathsig() {}
    pub fn my_cpu_clock() -> i32 {
        0
    }
    pub fn cpu_ns(_: i32) -> u64 {
        0
    }
}

/// CPU time of the calling thread in nanoseconds.
pub fn thread_cpu_ns() -> u64 {
    sys::cpu_ns(sys::my_cpu_clock())
}

static CASE_SEQ: AtomicU64 = AtomicU64::new(0);

fn run_case(check: &Check, ph: usize, idx: u64, cx: &mut Cx) -> Result<(), String> {
    let p = &check.phases[ph];
    let mut rng = Rng::from_parts(seed(), hash_bytes(p.name.as_bytes()), idx);
    cx.case_id = (ph, idx);
    cx.evals += 1;
    CASE_SEQ.fetch_add(1, Ordering::SeqCst);
    match quiet(|| (p.f)(&mut rng, idx, cx)) {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {}", m)),
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}

const STACK: usize = 256 << 20;

/// Body of a worker process.
fn worker(check: &'static Check, dir: &Path, w: u64, n: u64, only: Option<(usize, u64)>) -> ! {
    sys::pdeathsig();
    sys::no_core();
    sys::limit_memory(6 << 30);
    install_hook();
    let dir = dir.to_path_buf();
    let limit = check.hang_cpu_s.max(1) * 1_000_000_000;
    let part = std::env::var("VERIF_PART").ok().and_then(|s| {
        let (j, m) = s.split_once('/')?;
        Some((j.parse::<u64>().ok()?, m.parse::<u64>().ok()?))
    });
    let (tx, rx) = std::sync::mpsc::channel::<i32>();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            tx.send(sys::my_cpu_clock()).unwrap();
            let mut slot = std::fs::File::create(dir.join(format!("slot{}", w))).unwrap();
            let mut cx = Cx { thorough: thorough(), ..Default::default() };
            let mut viol: Option<(usize, u64, String)> = None;
            let t0 = Instant::now();
            let total = if cx.thorough {
                std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(600.0)
            } else {
                120.0f64
            };
            let np = check.phases.len();
            'outer: for ph in 0..np {
                let p = &check.phases[ph];
                cx.phase = p.name.to_string();
                cx.phase_samples = 0;
                if let Some((oph, oidx)) = only {
                    if oph == ph {
                        if let Err(m) = run_case(check, ph, oidx, &mut cx) {
                            viol = Some((ph, oidx, m));
                        }
                    }
                    continue;
                }
                let left = total - t0.elapsed().as_secs_f64();
                let share = if cx.thorough { left / (np - ph) as f64 } else { (left / (np - ph) as f64 * 3.0).min(left) };
                let deadline = Instant::now() + Duration::from_secs_f64(share.max(0.5));
                let count = if !cx.thorough {
                    p.quick
                } else if p.thorough == 0 {
                    u64::MAX
                } else {
                    p.thorough
                };
                // The unchecked build takes all cases of small phases and a sample of others
                let (mut idx, n) = match part {
                    Some((j, m)) if count <= 2000 || count == u64::MAX => (j, m),
                    Some((j, m)) => (j, 4 * m),
                    None => (w, n),
                };
                let mut done = 0u64;
                while idx < count {
                    let code = ((ph as u64) << 48) | idx;
                    let _ = slot.seek(SeekFrom::Start(0));
                    let _ = slot.write_all(&code.to_le_bytes());
                    if let Err(m) = run_case(check, ph, idx, &mut cx) {
                        viol = Some((ph, idx, m));
                        break 'outer;
                    }
                    done += 1;
                    idx += n;
                    // At least one case of each phase per worker; then the clock decides
                    if (done & 7 == 0 || p.quick < 1000) && Instant::now() > deadline {
                        if count != u64::MAX {
                            cx.count(&format!("phase_cut_short:{}", p.name), 1);
                        }
                        break;
                    }
                }
                cx.count(&format!("cases:{}", p.name), done);
                if part.is_some() {
                    cx.count("cases_in_unchecked_build", done);
                }
            }
            let mut out = String::new();
            for (k, v) in &cx.counters {
                out.push_str(&format!("C\t{}\t{}\n", v, k));
            }
            out.push_str(&format!("C\t{}\t__evals\n", cx.evals));
            for s in &cx.samples {
                out.push_str(&format!("S\t{}\n", esc(s)));
            }
            for (k, (n, m)) in &cx.known {
                out.push_str(&format!("K\t{}\t{}\t{}\n", n, k, esc(m)));
            }
            if let Some((ph, idx, m)) = &viol {
                out.push_str(&format!("V\t{}\t{}\t{}\n", ph, idx, esc(m)));
            }
            let hb: Vec<u8> = cx.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
            std::fs::write(dir.join(format!("hash{}", w)), hb).unwrap();
            std::fs::write(dir.join(format!("res{}", w)), out).unwrap();
            std::process::exit(if viol.is_some() { 10 } else { 0 });
        })
        .unwrap();
    let clk = rx.recv().unwrap();
    // Watchdog
    let (mut seq, mut at) = (u64::MAX, 0);
    loop {
        std::thread::sleep(Duration::from_millis(200));
        if h.is_finished() {
            std::process::exit(4);
        }
        let s = CASE_SEQ.load(Ordering::SeqCst);
        let c = sys::cpu_ns(clk);
        if s != seq {
            seq = s;
            at = c;
        } else if c.saturating_sub(at) > limit {
            std::process::exit(42);
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// The findings listed for a property: (key, description).
pub fn listed_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let Some((pid, r)) = r.split_once(' ') else { continue };
        let Some(r) = r.trim().strip_prefix("key=") else { continue };
        let (key, desc) = r.split_once(' ').unwrap_or((r, ""));
        if pid == id {
            out.push((key.to_string(), desc.trim().to_string()));
        }
    }
    out
}

/// Totals over all workers.
#[derive(Default)]
pub struct Totals {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
    pub evals: u64,
    pub violation: Option<(String, String)>,
    pub inconclusive: Vec<String>,
}

fn read_results(dir: &Path, w: u64, t: &mut Totals) -> Option<(usize, u64, String)> {
    let text = std::fs::read_to_string(dir.join(format!("res{}", w))).ok()?;
    let mut viol = None;
    for l in text.lines() {
        let f: Vec<&str> = l.splitn(4, '\t').collect();
        match f[0] {
            "C" => {
                let v: u64 = f[1].parse().unwrap();
                if f[2] == "__evals" {
                    t.evals += v;
                } else if f[2].starts_with("max_") {
                    let e = t.counters.entry(f[2].into()).or_insert(0);
                    *e = (*e).max(v);
                } else {
                    *t.counters.entry(f[2].into()).or_insert(0) += v;
                }
            }
            "S" => t.samples.push(unesc(f[1])),
            "K" => {
                let e = t.known.entry(f[2].to_string()).or_insert((0, unesc(f[3])));
                e.0 += f[1].parse::<u64>().unwrap();
            }
            "V" => viol = Some((f[1].parse().unwrap(), f[2].parse().unwrap(), unesc(f[3]))),
            _ => (),
        }
    }
    if let Ok(mut f) = std::fs::File::open(dir.join(format!("hash{}", w))) {
        let mut b = Vec::new();
        let _ = f.read_to_end(&mut b);
        for c in b.chunks_exact(8) {
            t.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    viol
}

fn exit_desc(st: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    if let Some(s) = st.signal() {
        format!("killed by signal {}", s)
    } else {
        format!("exit code {}", st.code().unwrap_or(-1))
    }
}

fn crash_signal(st: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11))
}

/// Runs all workers and gathers their results.
pub fn supervise(check: &'static Check, dir: &Path) -> Totals {
    let exe = std::env::current_exe().unwrap();
    // The same monitor built without debug assertions and overflow checks
    let bare = std::env::var_os("VERIF_BARE").filter(|p| Path::new(p).exists());
    const BARE: u64 = 500;
    let parts = if bare.is_some() { 2 } else { 0 };
    let n = std::env::var("VERIF_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8)) as u64;
    let spawn = |w: u64, only: Option<(usize, u64)>| {
        let mut c = match &bare {
            Some(bare) if w % 1000 >= BARE => {
                let mut c = Command::new(bare);
                c.env("VERIF_PART", format!("{}/{}", w % 1000 - BARE, parts));
                c
            }
            _ => Command::new(&exe),
        };
        c.arg("--worker").arg(w.to_string()).arg(n.to_string()).arg(dir);
        if let Some((p, i)) = only {
            c.arg(p.to_string()).arg(i.to_string());
        }
        c.stdout(Stdio::null());
        if let Ok(f) = std::fs::File::create(dir.join(format!("err{}", w))) {
            c.stderr(f);
        }
        c.spawn().expect("cannot spawn worker")
    };
    let mut kids: Vec<(u64, std::process::Child)> = (0..n).chain(BARE..BARE + parts).map(|w| (w, spawn(w, None))).collect();
    let mut t = Totals::default();
    let name = |w: u64, ph: usize, idx: u64| {
        let build = if w % 1000 >= BARE { " (unchecked build)" } else { "" };
        format!("{}:{}{}", check.phases[ph].name, idx, build)
    };
    while !kids.is_empty() && t.violation.is_none() {
        std::thread::sleep(Duration::from_millis(15));
        let mut i = 0;
        while i < kids.len() {
            let Ok(Some(st)) = kids[i].1.try_wait() else {
                i += 1;
                continue;
            };
            let (w, _) = kids.remove(i);
            match st.code() {
                Some(0) | Some(10) => {
                    if let Some((ph, idx, m)) = read_results(dir, w, &mut t) {
                        t.violation = Some((name(w, ph, idx), m));
                    }
                }
                code => {
                    let slot = std::fs::read(dir.join(format!("slot{}", w))).unwrap_or_default();
                    let err = std::fs::read_to_string(dir.join(format!("err{}", w))).unwrap_or_default();
                    if slot.len() < 8 || !(crash_signal(&st) || code == Some(42)) {
                        t.inconclusive.push(format!("worker {}: {} {}", w, exit_desc(&st), err.trim()));
                        continue;
                    }
                    let v = u64::from_le_bytes(slot[..8].try_into().unwrap());
                    let (ph, idx) = ((v >> 48) as usize, v & 0xffff_ffff_ffff);
                    // Confirm by replaying the case alone
                    let mut k = spawn(1000 + w, Some((ph, idx)));
                    let st2 = k.wait().unwrap();
                    if crash_signal(&st2) || st2.code() == Some(42) {
                        let what = if st2.code() == Some(42) {
                            format!("case does not finish within {} s of CPU time", check.hang_cpu_s)
                        } else {
                            let e2 = std::fs::read_to_string(dir.join(format!("err{}", 1000 + w))).unwrap_or_default();
                            format!("process crashed ({}) {}", exit_desc(&st2), e2.trim().replace('\n', " "))
                        };
                        t.violation = Some((name(w, ph, idx), what));
                    } else {
                        t.inconclusive.push(format!(
                            "worker {} ended with {} in case {}, which a replay did not reproduce ({})",
                            w,
                            exit_desc(&st),
                            name(w, ph, idx),
                            exit_desc(&st2)
                        ));
                    }
                }
            }
        }
    }
    for (_, k) in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    t
}

/// Writes evidence, prints the verdict, and gives the exit code.
pub fn conclude(
    id: &str,
    level: &str,
    rule: &str,
    assumptions: &[&str],
    floors: &[(&str, u64)],
    mut t: Totals,
    wall: f64,
) -> i32 {
    let vd = verif_dir();
    let listed = listed_findings(id);
    for (k, (_, m)) in &t.known {
        if !listed.iter().any(|l| l.0 == *k) && t.violation.is_none() {
            t.violation = Some((format!("finding {}", k), m.clone()));
        }
    }
    let mut per_phase: BTreeMap<String, usize> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    for s in &t.samples {
        let ph = s.split(']').next().unwrap_or("").to_string();
        let c = per_phase.entry(ph).or_insert(0);
        if *c < 2 {
            *c += 1;
            samples.push(s.clone());
        }
    }
    let mut cov = format!(
        "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"observations\": {{{}}}",
        t.evals,
        t.distinct.len(),
        json_str(rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t.counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")
    );
    if !t.known.is_empty() {
        cov.push_str(&format!(
            ", \"known_findings_seen\": {{{}}}",
            t.known.iter().map(|(k, v)| format!("{}: {}", json_str(k), v.0)).collect::<Vec<_>>().join(", ")
        ));
    }
    let tier = if thorough() { "thorough" } else { "quick" };
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        json_str(id),
        json_str(tier),
        seed(),
        json_str(level),
        cov,
        assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        t.violation.is_some() as u32
    );
    let _ = std::fs::create_dir_all(vd.join("evidence"));
    if let Err(e) = std::fs::write(vd.join("evidence").join(format!("{}.json", id)), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 3;
    }
    for (k, d) in &listed {
        if let Some((n, m)) = t.known.get(k) {
            println!("KNOWN-FINDING: property={} {} [{}; seen {} times, e.g. {}]", id, d, k, n, m.replace('\n', " "));
        }
    }
    if let Some((case, m)) = &t.violation {
        let path = vd.join("work").join(format!("replay-{}.txt", id));
        let _ = std::fs::create_dir_all(vd.join("work"));
        let (replay, unchecked) = match case.strip_suffix(" (unchecked build)") {
            Some(c) => (c, " VERIF_UNCHECKED=1"),
            None => (case.as_str(), ""),
        };
        let body = format!(
            "property: {}\ncase: {}\nseed: {}\ntier: {}\nreplay: VERIF_SEED={} VERIF_TIER={}{} /verif/run.sh {} --case {}\n\n{}\n",
            id,
            case,
            seed(),
            tier,
            seed(),
            tier,
            unchecked,
            id,
            replay,
            m
        );
        let _ = std::fs::write(&path, body);
        println!("{} case {}: {}", id, case, m);
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    for (k, min) in floors {
        let have = match *k {
            "distinct_nontrivial" => t.distinct.len() as u64,
            "evaluations" => t.evals,
            k => t.counters.get(k).copied().unwrap_or(0),
        };
        if have < *min {
            t.inconclusive.push(format!("coverage floor not met: {} = {} < {}", k, have, min));
        }
    }
    if !t.inconclusive.is_empty() {
        for m in &t.inconclusive {
            println!("INCONCLUSIVE {} {}", id, m);
        }
        return 3;
    }
    println!(
        "OK {} tier={} seed={} evaluations={} distinct={} wall={:.1}s",
        id,
        tier,
        seed(),
        t.evals,
        t.distinct.len(),
        wall
    );
    0
}

pub fn main(check: Check) {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "--inproc").unwrap_or(false) {
        // --inproc CASES OFFSET SECONDS [PHASE]
        let num = |i: usize| args[i].parse::<f64>().unwrap();
        return inproc(&check, num(2) as u64, num(3) as u64, num(4), args.get(5).map(|s| s.as_str()));
    }
    let check: &'static Check = Box::leak(Box::new(check));
    if args.get(1).map(|s| s == "--worker").unwrap_or(false) {
        let w = args[2].parse().unwrap();
        let n = args[3].parse().unwrap();
        let only = args.get(5).map(|p| (p.parse().unwrap(), args[6].parse().unwrap()));
        worker(check, Path::new(&args[4]), w, n, only);
    }
    if args.get(1).map(|s| s == "--case").unwrap_or(false) {
        // Replays one case in this process
        let (pn, idx) = args[2].rsplit_once(':').expect("--case phase:index");
        let ph = check.phases.iter().position(|p| p.name == pn).expect("no such phase");
        install_hook();
        let idx: u64 = idx.parse().unwrap();
        let r = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let mut cx = Cx { thorough: thorough(), ..Default::default() };
                let r = run_case(check, ph, idx, &mut cx);
                for (k, v) in &cx.known {
                    println!("finding {}: {}", k, v.1);
                }
                r
            })
            .unwrap()
            .join()
            .unwrap();
        match r {
            Ok(()) => println!("case held"),
            Err(m) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", check.id, args[2]);
                std::process::exit(1);
            }
        }
        return;
    }
    let t0 = Instant::now();
    let dir = verif_dir().join("work").join(format!("{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("work dir");
    let t = supervise(check, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    let wall = t0.elapsed().as_secs_f64();
    std::process::exit(conclude(check.id, check.level, check.rule, check.assumptions, check.floors, t, wall));
}

/// Runs the phases in this process, in turns, with the given number of cases each (for sanitizers).
/// Only the sanitizer's verdict counts; a case that fails otherwise is counted and passed over.
fn inproc(check: &Check, cases: u64, offset: u64, secs: f64, only: Option<&str>) {
    install_hook();
    let t0 = Instant::now();
    let mut cx = Cx::default();
    let mut failed = 0;
    let phases: Vec<usize> = (0..check.phases.len()).filter(|p| only.map_or(true, |o| o == check.phases[*p].name)).collect();
    'outer: for i in 0..cases {
        for &ph in &phases {
            if t0.elapsed().as_secs_f64() > secs {
                break 'outer;
            }
            cx.phase = check.phases[ph].name.to_string();
            println!("CASE {}:{}", cx.phase, offset + i);
            if let Err(m) = run_case(check, ph, offset + i, &mut cx) {
                failed += 1;
                println!("CASE-FAILED {}:{} {}", check.phases[ph].name, offset + i, esc(&m));
            }
        }
    }
    println!("INPROC cases={} distinct={} failed={}", cx.evals, cx.distinct.len(), failed);
}

/// Runs `f` on a thread with the given stack size. Overflow crashes the process, which the
/// supervisor attributes to the case.
pub fn on_stack<T: Send>(bytes: usize, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(bytes)
            .spawn_scoped(s, || {
                let r = quiet(f);
                r
            })
            .unwrap_or_else(|e| harness_error(&format!("cannot spawn thread: {}", e)));
        match h.join() {
            Ok(r) => r,
            Err(_) => Err("thread panicked".into()),
        }
    })
}
