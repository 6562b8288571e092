//! A small property-testing engine.
//!
//! * A case is a tape of choices. Generators draw every choice from a [`Src`]; 0 is always
//!   the simplest choice, and drawing past the end of a replayed tape yields 0.
//! * Case `i` is a pure function of (seed, property, float width, i). After these, a worker
//!   runs guided cases: mutants of tapes that reached something new in the code under test
//!   (see cover.rs). They depend on the worker's cases before them, and on nothing else.
//! * Cases run in worker processes. A worker that dies or stops making progress (measured
//!   in CPU time) is attributed to the case it was working on.
//! * A failing tape is shrunk (delete, zero, lower) and saved as the replay file.

use crate::cover::Corpus;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, Stdio};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ random source

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}
fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

/// Where a generator draws its choices from.
pub struct Src {
    tape: Vec<u64>,
    /// Where elements of a list begin.
    marks: Vec<u32>,
    /// Choices to make first, if there is an rng.
    preset: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub verbose: bool,
    notes: Vec<String>,
    labels: Vec<&'static str>,
    nontrivial: bool,
    fp: u64,
    /// How much the code under test gets to do, roughly.
    size: usize,
    /// Unusual lengths used so far (see dict.rs).
    pub long: u32,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src::make(vec![], Some(Rng::new(seed)))
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src::make(tape, None)
    }
    /// The choices of `preset`, and then random ones.
    pub fn mutant(preset: Vec<u64>, seed: u64) -> Src {
        let mut s = Src::random(seed);
        s.preset = preset;
        s
    }
    fn make(tape: Vec<u64>, rng: Option<Rng>) -> Src {
        Src {
            tape,
            marks: vec![],
            preset: vec![],
            pos: 0,
            rng,
            verbose: false,
            notes: vec![],
            labels: vec![],
            nontrivial: false,
            fp: 0,
            size: 0,
            long: 0,
        }
    }
    /// Choices made so far.
    pub fn drawn(&self) -> usize {
        self.pos
    }
    /// A choice in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = match self.rng {
            Some(ref mut r) => {
                // a case that has grown beyond all bounds is brought to its end
                let v = match self.preset.get(self.pos) {
                    Some(v) => v % n,
                    None if self.pos > 4_000_000 => 0,
                    None => r.next() % n,
                };
                self.tape.push(v);
                v
            }
            None => self.tape.get(self.pos).map_or(0, |v| v % n),
        };
        self.pos += 1;
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Any 64-bit pattern.
    pub fn bits(&mut self) -> u64 {
        let v = match self.rng {
            Some(ref mut r) => {
                let v = match self.preset.get(self.pos) {
                    Some(v) => *v,
                    None => r.next(),
                };
                self.tape.push(v);
                v
            }
            None => self.tape.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        v
    }
    /// True with probability num/den; simplest is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        unreachable!()
    }
    /// Integer in lo..=hi; simplest is the one closest to zero.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let base = if lo > 0 { lo } else if hi < 0 { hi } else { 0 };
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let v = if span > u64::MAX as u128 { self.bits() as u128 } else { self.below(span as u64) as u128 } as i128;
        // zigzag around base, then fill the longer side
        let up = hi as i128 - base as i128;
        let down = base as i128 - lo as i128;
        let m = up.min(down);
        let r = if v <= 2 * m {
            if v % 2 == 1 { base as i128 + (v + 1) / 2 } else { base as i128 - v / 2 }
        } else if up > down {
            base as i128 + (v - m)
        } else {
            base as i128 - (v - m)
        };
        r.clamp(lo as i128, hi as i128) as i64
    }
    /// "One more element?" for loops; expected count about `avg`, at most `max`.
    pub fn more(&mut self, count: usize, avg: u64, max: usize) -> bool {
        if count < max && self.rng.is_some() {
            self.marks.push(self.pos as u32);
        }
        count < max && self.chance(avg, avg + 1)
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f();
            self.notes.push(s);
            self.flush_notes();
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self, yes: bool) {
        if yes {
            self.nontrivial = true;
        }
    }
    /// Adds to the identity of the generated case (for counting distinct ones).
    pub fn ident(&mut self, b: &[u8]) {
        self.fp = hash_bytes(self.fp, b);
        self.size = self.size.saturating_add(b.len());
    }
    /// Says that this case takes long, so that guided cases are not modelled on it.
    pub fn costly(&mut self) {
        self.size = usize::MAX;
    }
    pub fn rng_mode(&self) -> bool {
        self.rng.is_some()
    }
}

/// Err(message) is a violation of the property.
pub type Check = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return Err(format!($($arg)*)); }
    };
}

// ------------------------------------------------------------------ panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info.location().map(|l| l.file().to_owned()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs code under test; a panic in it becomes Err(panic message).
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone()).map(|x| x.0).unwrap_or_default()),
    }
}

enum Run {
    Pass,
    Fail(String),
    Harness(String),
}

fn run_case(prop: &Prop, s: &mut Src) -> Run {
    match panic::catch_unwind(AssertUnwindSafe(|| (prop.case)(s))) {
        Ok(Ok(())) => Run::Pass,
        Ok(Err(m)) => Run::Fail(m),
        Err(_) => {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
            // Paths of this package are relative; those of the code under test absolute.
            if loc.starts_with("src/") {
                Run::Harness(format!("{} ({})", msg, loc))
            } else {
                Run::Fail(format!("panicked: {} ({})", msg, loc))
            }
        }
    }
}

// ------------------------------------------------------------------ runner

pub struct Prop {
    pub id: &'static str,
    /// What makes a case non-trivial (goes into the evidence).
    pub rule: &'static str,
    pub case: fn(&mut Src) -> Check,
    /// Cases per (quick, thorough) run and float width.
    pub cases: (u64, u64),
    /// Stack size in MiB of the thread that runs the cases.
    pub stack_mb: usize,
}

const HANG_CPU_S: f64 = 20.0;
const CONFIRM_CPU_S: f64 = 40.0;
const MEM_KB: u64 = 3 * 1024 * 1024;

pub fn width() -> &'static str {
    if cfg!(feature = "f64") { "f64" } else { "f32" }
}

fn case_seed(seed: u64, prop: &Prop, i: u64) -> u64 {
    let h = hash_bytes(seed, prop.id.as_bytes());
    let h = hash_bytes(h, width().as_bytes());
    hash_bytes(h, &i.to_le_bytes())
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

pub fn main(prop: Prop) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let stack = prop.stack_mb;
    let h = std::thread::Builder::new()
        .stack_size(stack << 20)
        .spawn(move || real_main(prop, args))
        .unwrap();
    match h.join() {
        Ok(code) => exit(code),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            eprintln!("harness error: driver thread panicked {:?}", m);
            exit(2)
        }
    }
}

fn real_main(prop: Prop, args: Vec<String>) -> i32 {
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    if args.iter().any(|a| a == "--worker") {
        return worker(&prop, &args, seed);
    }
    if args.iter().any(|a| a == "--shrink") {
        return shrink_cmd(&prop, &args);
    }
    if let Some(f) = arg(&args, "--replay") {
        return replay(&prop, &f);
    }
    if let Some(i) = arg(&args, "--show") {
        let n: u64 = i.parse().unwrap();
        for i in 0..n {
            let mut s = Src::random(case_seed(seed, &prop, i));
            s.verbose = true;
            let r = run_case(&prop, &mut s);
            println!("=== case {} nontrivial={} labels={:?}\n{}", i, s.nontrivial, s.labels, s.notes.join("\n"));
            match r {
                Run::Fail(m) => println!("FAIL {}", m),
                Run::Harness(m) => println!("HARNESS {}", m),
                Run::Pass => {}
            }
        }
        return 0;
    }
    drive(&prop, &args, seed)
}

/// What one worker process runs: `cases` random cases in all, then `guided` guided ones.
struct Plan {
    seed: u64,
    w: u64,
    of: u64,
    cases: u64,
    guided: u64,
}

impl Plan {
    fn from_args(args: &[String], seed: u64) -> Plan {
        let num = |n: &str| arg(args, n).unwrap().parse::<u64>().unwrap();
        Plan { seed, w: num("--worker"), of: num("--of"), cases: num("--cases"), guided: num("--guided") }
    }
    fn args(&self) -> Vec<String> {
        [("--worker", self.w), ("--of", self.of), ("--cases", self.cases), ("--guided", self.guided), ("--seed", self.seed)]
            .iter()
            .flat_map(|(k, v)| vec![k.to_string(), v.to_string()])
            .collect()
    }
    fn first_guided(&self) -> u64 {
        self.cases.div_ceil(self.of) * self.of
    }
    /// Calls `f` with each case in turn, until it returns false. `f` runs the case.
    fn run(&self, prop: &Prop, f: &mut dyn FnMut(u64, &mut Src, &Corpus) -> bool) {
        let mut corpus = Corpus::new();
        let mut i = self.w;
        while i < self.cases {
            let mut s = Src::random(case_seed(self.seed, prop, i));
            // the first of them feed the corpus
            let feed = self.guided > 0 && i / self.of < 1500;
            if feed {
                Corpus::start();
            }
            if !f(i, &mut s, &corpus) {
                return;
            }
            if feed {
                corpus.keep(s.size, &s.tape, &s.marks);
            }
            i += self.of;
        }
        let (first, mut i) = (self.first_guided(), self.first_guided() + self.w);
        while i < first + self.guided && !corpus.is_empty() {
            let sub = case_seed(self.seed, prop, i);
            let mut s = Src::mutant(corpus.mutant(&mut Rng::new(sub)), mix(sub));
            Corpus::start();
            if !f(i, &mut s, &corpus) {
                return;
            }
            corpus.keep(s.size, &s.tape, &s.marks);
            i += self.of;
        }
    }
}

fn worker(prop: &Prop, args: &[String], seed: u64) -> i32 {
    let plan = Plan::from_args(args, seed);
    let out = PathBuf::from(arg(args, "--out").unwrap());
    let progress = fs::OpenOptions::new().create(true).write(true).truncate(false).open(out.with_extension("progress")).unwrap();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut evals, mut nontriv, mut guided) = (0u64, 0u64, 0u64);
    let mut kept = 0;
    let mut samples: Vec<Vec<u64>> = vec![];
    let mut fail: Option<(u64, Vec<u64>, String)> = None;
    let mut broken = false;
    let until: u64 = arg(args, "--until").map_or(u64::MAX, |x| x.parse().unwrap());
    plan.run(prop, &mut |i, s, corpus| {
        if i > until {
            return false;
        }
        // what is about to run, for the driver, should this process die of it
        let mut b = i.to_le_bytes().to_vec();
        if i >= plan.first_guided() {
            guided += 1;
            b.extend_from_slice(&(s.preset.len() as u64).to_le_bytes());
            s.preset.iter().for_each(|x| b.extend_from_slice(&x.to_le_bytes()));
        }
        progress.write_all_at(&b, 0).unwrap();
        kept = corpus.len();
        let r = run_case(prop, s);
        evals += 1;
        for l in &s.labels {
            *labels.entry(l).or_insert(0) += 1;
        }
        if s.nontrivial {
            nontriv += 1;
            if seen.len() < 3_000_000 {
                seen.insert(s.fp);
            }
            // a few samples, spread over the run
            if samples.len() < 3 && (samples.is_empty() || evals % 97 == 0) {
                samples.push(s.tape.clone());
            }
        }
        match r {
            Run::Pass => true,
            Run::Fail(m) => {
                fail = Some((i, s.tape.clone(), m));
                false
            }
            Run::Harness(m) => {
                eprintln!("harness error in case {}: {}", i, m);
                broken = true;
                false
            }
        }
    });
    if broken {
        return 2;
    }
    let mut o = String::new();
    o.push_str(&format!("evals {}\nnontriv {}\nguided {}\nfeatures {}\n", evals, nontriv, guided, kept));
    for (l, c) in labels {
        o.push_str(&format!("label {} {}\n", c, l));
    }
    for tape in samples {
        let mut t = Src::replay(tape);
        t.verbose = true;
        let _ = run_case(prop, &mut t);
        let s = truncate(&t.notes.join(" | "), 600);
        o.push_str(&format!("sample {}\n", s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")));
    }
    if let Some((i, tape, m)) = fail {
        let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
        o.push_str(&format!("fail {} {} {}\n", i, t.join(","), m.replace('\n', "\\n")));
    }
    let mut hb = vec![];
    for h in &seen {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(out.with_extension("hashes"), hb).unwrap();
    fs::write(&out, o).unwrap();
    0
}

fn truncate(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        format!("{}...", s.chars().take(n).collect::<String>())
    }
}

fn cpu_s(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() > 13 {
        (f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0)) / 100.0
    } else {
        0.0
    }
}

fn spawn_self(extra: &[String]) -> Child {
    let exe = std::env::current_exe().unwrap();
    Command::new("bash")
        .arg("-c")
        .arg(format!("ulimit -c 0; ulimit -v {}; exec \"$0\" \"$@\"", MEM_KB))
        .arg(exe)
        .args(extra)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap()
}

fn child_err(c: &mut Child) -> String {
    let mut s = String::new();
    if let Some(mut e) = c.stderr.take() {
        use std::io::Read;
        let _ = e.read_to_string(&mut s);
    }
    s
}

#[derive(Clone, Debug)]
enum Kind {
    Wrong,
    Crash(String),
    Hang,
}

fn drive(prop: &Prop, args: &[String], seed: u64) -> i32 {
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let n: u64 = arg(args, "--cases")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { prop.cases.1 } else { prop.cases.0 });
    let guided: u64 = arg(args, "--guided").and_then(|s| s.parse().ok()).unwrap_or(n / if tier == "thorough" { 2 } else { 5 });
    let dir = PathBuf::from(arg(args, "--dir").expect("--dir"));
    let evid = arg(args, "--evidence").expect("--evidence");
    let replay_out = arg(args, "--replay-out").expect("--replay-out");
    let t0 = Instant::now();
    fs::create_dir_all(&dir).unwrap();
    let nw = std::thread::available_parallelism().map_or(4, |x| x.get() as u64).min(8);
    let plan = |w: u64| Plan { seed, w, of: nw, cases: n, guided };
    let mut kids: Vec<(Child, PathBuf, u64, f64, bool)> = vec![];
    for w in 0..nw {
        let out = dir.join(format!("w{}.txt", w));
        let prog = out.with_extension("progress");
        fs::write(&prog, u64::MAX.to_le_bytes()).unwrap();
        let mut a = plan(w).args();
        a.extend(["--out".into(), out.display().to_string()]);
        let c = spawn_self(&a);
        kids.push((c, out, u64::MAX, 0.0, false));
    }
    // (index, kind, tape, message)
    let mut bad: Vec<(u64, Kind, Vec<u64>, String)> = vec![];
    let mut harness_err: Option<String> = None;
    let mut last_note = Instant::now();
    loop {
        let mut alive = 0;
        for (c, out, last, since, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match c.try_wait().unwrap() {
                Some(st) => {
                    *done = true;
                    if st.success() {
                        continue;
                    }
                    let err = child_err(c);
                    let idx = read_progress(out);
                    if st.code() == Some(2) {
                        harness_err = Some(err);
                    } else if idx == u64::MAX {
                        harness_err = Some(format!("worker ended before its first case: {:?} {}", st, err));
                    } else {
                        bad.push((idx, Kind::Crash(format!("{:?} {}", st, truncate(err.trim(), 200))), record_tape(prop, seed, out), String::new()));
                    }
                }
                None => {
                    alive += 1;
                    let idx = read_progress(out);
                    let cpu = cpu_s(c.id());
                    if idx != *last {
                        *last = idx;
                        *since = cpu;
                    } else if cpu - *since > HANG_CPU_S && idx != u64::MAX {
                        let _ = c.kill();
                        let _ = c.wait();
                        *done = true;
                        bad.push((idx, Kind::Hang, record_tape(prop, seed, out), String::new()));
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        if last_note.elapsed() > Duration::from_secs(60) {
            last_note = Instant::now();
            eprintln!("{} {}: {:.0} s", prop.id, width(), t0.elapsed().as_secs_f64());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // merge
    let (mut evals, mut nontriv, mut guided_run, mut features) = (0u64, 0u64, 0u64, 0u64);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut seen: HashSet<u64> = HashSet::new();
    for (_, out, _, _, _) in &kids {
        let txt = match fs::read_to_string(out) {
            Ok(t) => t,
            Err(_) => continue,
        };
        for l in txt.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "evals" => evals += v.parse::<u64>().unwrap(),
                "guided" => guided_run += v.parse::<u64>().unwrap(),
                "features" => features = features.max(v.parse::<u64>().unwrap()),
                "nontriv" => nontriv += v.parse::<u64>().unwrap(),
                "label" => {
                    let (c, name) = v.split_once(' ').unwrap();
                    *labels.entry(name.to_owned()).or_insert(0) += c.parse::<u64>().unwrap();
                }
                "sample" => samples.push(v.to_owned()),
                "fail" => {
                    let mut it = v.splitn(3, ' ');
                    let i: u64 = it.next().unwrap().parse().unwrap();
                    let tape = parse_tape(it.next().unwrap());
                    bad.push((i, Kind::Wrong, tape, it.next().unwrap_or("").to_owned()));
                }
                _ => {}
            }
        }
        if let Ok(b) = fs::read(out.with_extension("hashes")) {
            for ch in b.chunks_exact(8) {
                seen.insert(u64::from_le_bytes(ch.try_into().unwrap()));
            }
        }
    }
    samples.truncate(8);
    bad.sort_by_key(|b| b.0);
    let mut violation = None;
    // Set if the failure needs the cases before it.
    let mut history = None;
    for (idx, kind, tape, msg) in bad {
        let confirmed = match kind {
            Kind::Wrong => shrink_wrong(&dir, &tape),
            Kind::Crash(_) | Kind::Hang => shrink_crash(&dir, &tape),
        };
        let (t, m) = match confirmed {
            Some(x) => x,
            None => {
                let m = match &kind {
                    Kind::Wrong => msg.clone(),
                    k => {
                        if !dies_again(&dir, &plan(idx % nw), idx) {
                            harness_err = Some(format!("case {} ended with {:?} but this does not happen again", idx, k));
                            continue;
                        }
                        format!("{:?}", k)
                    }
                };
                history = Some(plan(idx % nw));
                (tape, format!("{} (only after the cases before it in the same process)", m))
            }
        };
        violation = Some((idx, kind, t, m));
        break;
    }
    if let (Some(e), None) = (&harness_err, &violation) {
        eprintln!("harness error: {}", e);
        return 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::new();
    j.push_str(&format!(
        "{{\"property\":{},\"width\":{},\"evaluations\":{},\"guided\":{},\"features\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"rule\":{},\"wall_s\":{:.2},\"labels\":{{",
        js(prop.id), js(width()), evals, guided_run, features, nontriv, seen.len(), js(prop.rule), wall
    ));
    j.push_str(&labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"samples\":[");
    j.push_str(&samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    j.push_str("],\"violation\":");
    let code = match violation {
        None => {
            j.push_str("null");
            0
        }
        Some((idx, kind, tape, msg)) => {
            let notes = describe(&dir, &tape);
            let mut r = String::new();
            r.push_str(&format!(
                "{{\n \"property\": {},\n \"width\": {},\n \"seed\": {},\n \"case\": {},\n \"kind\": {},\n \"message\": {},\n \"input\": {},\n \"history\": [{}],\n \"tape\": [{}]\n}}\n",
                js(prop.id), js(width()), seed, idx, js(&format!("{:?}", kind)), js(&msg), js(&notes),
                history.map_or(String::new(), |p| format!("{}, {}, {}, {}, {}, {}", p.seed, p.w, p.of, p.cases, p.guided, idx)),
                tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            ));
            if let Some(p) = Path::new(&replay_out).parent() {
                fs::create_dir_all(p).unwrap();
            }
            fs::write(&replay_out, r).unwrap();
            println!("{} {}: {}\n  input: {}", prop.id, width(), msg, truncate(&notes, 1500));
            j.push_str(&js(&msg));
            1
        }
    };
    j.push_str("}\n");
    fs::write(evid, j).unwrap();
    code
}

fn read_progress(out: &Path) -> u64 {
    fs::read(out.with_extension("progress"))
        .ok()
        .and_then(|b| b.get(0..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())))
        .unwrap_or(u64::MAX)
}

fn parse_tape(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect()
}

/// Runs a worker again up to a case at which it died or hung; does it end there again?
fn dies_again(dir: &Path, plan: &Plan, idx: u64) -> bool {
    let out = dir.join("again.txt");
    fs::write(out.with_extension("progress"), u64::MAX.to_le_bytes()).unwrap();
    let mut a = plan.args();
    a.extend(["--until".into(), idx.to_string(), "--out".into(), out.display().to_string()]);
    let mut c = spawn_self(&a);
    let mut since = (u64::MAX, 0.0);
    loop {
        match c.try_wait().unwrap() {
            Some(st) => return !st.success() && st.code() != Some(2) && read_progress(&out) == idx,
            None => {
                let (i, cpu) = (read_progress(&out), cpu_s(c.id()));
                if i != since.0 {
                    since = (i, cpu);
                } else if cpu - since.1 > CONFIRM_CPU_S {
                    let _ = c.kill();
                    let _ = c.wait();
                    return i == idx;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
    }
}

/// Shrinking runs in a child, so that a candidate that crashes cannot take the driver along.
fn shrink_wrong(dir: &Path, tape: &[u64]) -> Option<(Vec<u64>, String)> {
    let f = dir.join("shrink.txt");
    let best = dir.join("shrink.best");
    let _ = fs::remove_file(&best);
    fs::write(&f, join(tape)).unwrap();
    let mut c = spawn_self(&["--shrink".into(), f.display().to_string(), "--best".into(), best.display().to_string()]);
    let t0 = Instant::now();
    while c.try_wait().unwrap().is_none() {
        if t0.elapsed() > Duration::from_secs(90) {
            let _ = c.kill();
            let _ = c.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    match fs::read_to_string(&best) {
        Ok(s) if s.contains('\n') => {
            let (t, m) = s.split_once('\n').unwrap();
            Some((parse_tape(t), m.to_owned()))
        }
        _ => None,
    }
}

fn join(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn shrink_cmd(prop: &Prop, args: &[String]) -> i32 {
    let tape = parse_tape(&fs::read_to_string(arg(args, "--shrink").unwrap()).unwrap());
    let best_f = arg(args, "--best").unwrap();
    let t0 = Instant::now();
    let mut try_ = |t: &[u64]| -> Option<(Vec<u64>, String)> {
        if t0.elapsed() > Duration::from_secs(60) {
            return None;
        }
        let mut s = Src::replay(t.to_vec());
        match run_case(prop, &mut s) {
            Run::Fail(m) => {
                let used = s.pos.min(t.len());
                Some((t[..used].to_vec(), m))
            }
            _ => None,
        }
    };
    shrink(tape, &mut try_, &mut |t, m| {
        let tmp = format!("{}.tmp", best_f);
        let _ = fs::write(&tmp, format!("{}\n{}", join(t), m));
        let _ = fs::rename(&tmp, &best_f);
    });
    0
}

type Try<'a> = dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)> + 'a;

fn shrink(tape: Vec<u64>, try_: &mut Try, best_cb: &mut dyn FnMut(&[u64], &str)) {
    let mut best = match try_(&tape) {
        Some((t, m)) => {
            best_cb(&t, &m);
            t
        }
        None => return,
    };
    loop {
        let before = best.clone();
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i -= 1;
                if i + size > best.len() {
                    continue;
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                if let Some((t, m)) = try_(&c) {
                    if t.len() < best.len() {
                        best = t;
                        best_cb(&best, &m);
                        i = i.min(best.len());
                    }
                }
            }
        }
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + size] {
                        *x = 0;
                    }
                    if let Some((t, m)) = try_(&c) {
                        if simpler(&t, &best) {
                            best = t;
                            best_cb(&best, &m);
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            // lower best[i] by bisection
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match try_(&c) {
                    Some((t, m)) if simpler(&t, &best) => {
                        best = t;
                        best_cb(&best, &m);
                        hi = mid;
                        if i >= best.len() {
                            break;
                        }
                    }
                    _ => lo = mid + 1,
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                if let Some((t, m)) = try_(&c) {
                    if simpler(&t, &best) {
                        best = t;
                        best_cb(&best, &m);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return;
        }
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// The tape of the case a worker died of, from what it left in its progress file.
fn record_tape(prop: &Prop, seed: u64, out: &Path) -> Vec<u64> {
    let b = fs::read(out.with_extension("progress")).unwrap_or_default();
    let word = |i: usize| b.get(8 * i..8 * i + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
    let sub = case_seed(seed, prop, word(0).unwrap_or(0));
    // The choices are the generator's stream itself: replaying the raw stream, reduced
    // modulo each bound, gives the same values, because `below` takes `next() % n`.
    let (mut tape, mut r) = match word(1) {
        Some(n) => ((0..n as usize).map_while(|i| word(2 + i)).collect(), Rng::new(mix(sub))),
        None => (vec![], Rng::new(sub)),
    };
    tape.extend((0..400_000).map(|_| r.next()));
    tape
}

enum Alone {
    Pass,
    Fail(String),
    Died(String),
    Hung,
}

fn run_alone(dir: &Path, tape: &[u64], cpu_limit: f64) -> Alone {
    let f = dir.join("alone.txt");
    fs::write(&f, format!("{{\"tape\": [{}]}}", join(tape))).unwrap();
    let mut c = spawn_self(&["--replay".into(), f.display().to_string()]);
    loop {
        match c.try_wait().unwrap() {
            Some(st) => {
                let e = child_err(&mut c);
                return match st.code() {
                    Some(0) => Alone::Pass,
                    Some(1) => Alone::Fail(e),
                    Some(2) => Alone::Pass,
                    _ => Alone::Died(format!("{:?} {}", st, truncate(e.trim(), 300))),
                };
            }
            None => {
                if cpu_s(c.id()) > cpu_limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Alone::Hung;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    }
}

fn shrink_crash(dir: &Path, tape: &[u64]) -> Option<(Vec<u64>, String)> {
    let t0 = Instant::now();
    let first = run_alone(dir, tape, CONFIRM_CPU_S);
    let hang = matches!(first, Alone::Hung);
    let mut best: Option<(Vec<u64>, String)> = None;
    match first {
        Alone::Pass => return None,
        Alone::Fail(m) => best = Some((tape.to_vec(), m)),
        Alone::Died(m) => best = Some((tape.to_vec(), format!("the process died: {}", m))),
        Alone::Hung => best = Some((tape.to_vec(), format!("did not return within {} s of CPU time", CONFIRM_CPU_S))),
    }
    let limit = if hang { 5.0 } else { CONFIRM_CPU_S };
    let budget = Duration::from_secs(100);
    // cut the tail first: raw streams are long
    let (mut lo, mut hi) = (0usize, tape.len());
    while lo < hi && t0.elapsed() < budget {
        let mid = (lo + hi) / 2;
        let ok = match run_alone(dir, &tape[..mid], limit) {
            Alone::Pass => None,
            Alone::Fail(m) => Some(m),
            Alone::Died(m) => Some(format!("the process died: {}", m)),
            Alone::Hung => Some(format!("did not return within {} s of CPU time", limit)),
        };
        if let Some(m) = ok {
            best = Some((tape[..mid].to_vec(), m));
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    if !hang {
        let start = best.clone().unwrap().0;
        let mut cur = best.clone();
        {
            let mut try_ = |t: &[u64]| -> Option<(Vec<u64>, String)> {
                if t0.elapsed() > budget {
                    return None;
                }
                match run_alone(dir, t, limit) {
                    Alone::Died(m) => Some((t.to_vec(), format!("the process died: {}", m))),
                    Alone::Fail(m) => Some((t.to_vec(), m)),
                    _ => None,
                }
            };
            shrink(start, &mut try_, &mut |t, m| cur = Some((t.to_vec(), m.to_owned())));
        }
        best = cur;
    }
    best
}

fn describe(dir: &Path, tape: &[u64]) -> String {
    let f = dir.join("describe.txt");
    let o = dir.join("describe.out");
    let _ = fs::remove_file(&o);
    fs::write(&f, format!("{{\"tape\": [{}]}}", join(tape))).unwrap();
    let mut c = spawn_self(&["--replay".into(), f.display().to_string(), "--notes".into(), o.display().to_string()]);
    let t0 = Instant::now();
    while c.try_wait().unwrap().is_none() {
        if t0.elapsed() > Duration::from_secs(10) {
            let _ = c.kill();
            let _ = c.wait();
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    fs::read_to_string(&o).unwrap_or_default()
}

fn replay(prop: &Prop, file: &str) -> i32 {
    let s = fs::read_to_string(file).expect("replay file");
    let i = s.rfind("\"tape\"").expect("tape in replay file");
    let t = &s[i..];
    let t = &t[t.find('[').unwrap() + 1..t.find(']').unwrap()];
    let tape = parse_tape(t);
    let args: Vec<String> = std::env::args().collect();
    if let Some(h) = s.rfind("\"history\": [") {
        let h = &s[h + 11..];
        let h = parse_tape(&h[h.find('[').unwrap() + 1..h.find(']').unwrap()]);
        if let [seed, w, of, cases, guided, idx] = h[..] {
            // the cases that came before in the same process
            Plan { seed, w, of, cases, guided }.run(prop, &mut |i, s, _| {
                if i < idx {
                    let _ = run_case(prop, s);
                }
                i < idx
            });
        }
    }
    let notes = arg(&args, "--notes");
    let mut src = Src::replay(tape);
    src.verbose = true;
    // The notes are written before the code under test is called where possible.
    NOTES_FILE.with(|n| *n.borrow_mut() = notes.clone());
    let r = run_case(prop, &mut src);
    if let Some(n) = notes {
        let _ = fs::write(n, src.notes.join("\n"));
    } else {
        println!("{}", src.notes.join("\n"));
    }
    match r {
        Run::Pass => {
            println!("PASS");
            0
        }
        Run::Fail(m) => {
            eprintln!("{}", m);
            println!("FAIL {}", m);
            1
        }
        Run::Harness(m) => {
            eprintln!("harness error: {}", m);
            2
        }
    }
}

thread_local! {
    static NOTES_FILE: RefCell<Option<String>> = const { RefCell::new(None) };
}

impl Src {
    /// Flushes the notes, for cases that may kill the process.
    pub fn flush_notes(&self) {
        if !self.verbose {
            return;
        }
        NOTES_FILE.with(|n| {
            if let Some(ref f) = *n.borrow() {
                let _ = fs::write(f, self.notes.join("\n"));
            }
        });
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || (0xd800..0xe000).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
