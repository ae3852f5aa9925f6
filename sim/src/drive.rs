//! Supervisor, workers, shrinking and replay.
//!
//! Run `i` of a check has the seed mix(mix(VERIF_SEED, property), i); everything the run does follows
//! from that seed, so the set of executions does not depend on the number of workers. Workers are
//! separate processes, so that an abort, a hang or runaway memory is attributed to its run.
use crate::guard::{guard, Panicked};
use crate::io::FUEL_MSG;
use crate::json::J;
use crate::model::*;
use crate::props::{Prop, Res, PROPS};
use crate::rng::{mix, Fp, Rng};
use crate::shrink;
use crate::stats::Stats;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

pub const EX_FAIL: i32 = 10;
pub const EX_HARNESS: i32 = 11;
const HANG_SECS: u64 = 40;

#[derive(Clone, Debug, PartialEq)]
pub struct Failure {
    pub class: String,
    pub msg: String,
}

pub enum Verdict {
    Ok,
    Skip(&'static str),
    Fail(Failure),
    /// The harness or the reference model failed; says nothing about the code under test.
    Harness(String),
}

pub fn classify_panic(p: &Panicked) -> Verdict {
    if p.msg.contains(FUEL_MSG) {
        return Verdict::Fail(Failure { class: "hang".into(), msg: "the device was operated on without end".into() });
    }
    if p.loc.contains("unsafe-libyaml") {
        return Verdict::Skip("reference panicked");
    }
    if p.loc.starts_with("src/") {
        return Verdict::Harness(format!("{} at {}", p.msg, p.loc));
    }
    Verdict::Fail(Failure { class: "panic".into(), msg: format!("panicked at {}: {}", p.loc, p.msg) })
}

pub fn execute(prop: &Prop, case: &Case, st: &mut Stats) -> Verdict {
    match guard(|| (prop.run)(case, st)) {
        Ok(Res::Ok) => Verdict::Ok,
        Ok(Res::Skip(s)) => Verdict::Skip(s),
        Ok(Res::Fail(class, msg)) => Verdict::Fail(Failure { class: class.into(), msg }),
        Err(p) => classify_panic(&p),
    }
}

pub fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn prop_seed(seed: u64, id: &str) -> u64 {
    let mut f = Fp::new();
    f.s(id);
    mix(seed, f.0)
}
pub fn case_of(prop: &Prop, seed: u64, i: u64, thorough: bool) -> Case {
    let mut r = Rng::new(mix(prop_seed(seed, prop.id), i));
    let mut c = match guard(|| (prop.gen)(&mut r, i, thorough)) {
        Ok(c) => c,
        Err(p) => {
            eprintln!("harness error: generating run {i}: {} at {}", p.msg, p.loc);
            std::process::exit(EX_HARNESS);
        }
    };
    c.prop = prop.id.into();
    c
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.into()
    } else {
        let h: String = s.chars().take(n).collect();
        format!("{h}… ({} chars)", s.chars().count())
    }
}

fn clip_j(j: &J) -> J {
    match j {
        J::Str(s) => J::Str(clip(s, 240)),
        J::Arr(a) => {
            let mut v: Vec<J> = a.iter().take(24).map(clip_j).collect();
            if a.len() > 24 {
                v.push(J::s(format!("… {} more", a.len() - 24)));
            }
            J::Arr(v)
        }
        J::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), clip_j(v))).collect()),
        o => o.clone(),
    }
}

// ---------------------------------------------------------------- worker

pub struct Known {
    pub prop: String,
    pub fp: u64,
    pub what: String,
}
/// `known: property=<id> case=<fingerprint of the minimised case> <what fails>`
pub fn known_findings(id: &str) -> Vec<Known> {
    let path = root().join("known-findings.txt");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().and_then(|s| s.strip_prefix("property=")).unwrap_or("");
            let c = it.next().and_then(|s| s.strip_prefix("case=")).unwrap_or("");
            let w = it.next().unwrap_or("");
            if p == id {
                v.push(Known { prop: p.into(), fp: u64::from_str_radix(c, 16).unwrap_or(0), what: w.into() });
            }
        }
    }
    v
}

pub fn root() -> PathBuf {
    std::env::var_os("YAMLSIM_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

/// Before the code under test is called for the first time.
pub fn prepare(prop: &Prop) {
    if prop.id == "C15" {
        crate::fork::start(crate::props::share::pristine);
    }
}

#[allow(clippy::too_many_arguments)]
pub fn worker(prop: &Prop, thorough: bool, seed: u64, first: u64, stride: u64, total: u64, secs: u64, out: &Path) -> i32 {
    let t0 = Instant::now();
    prepare(prop);
    let hb = std::fs::File::create(out.with_extension("hb")).expect("heartbeat file");
    let mut st = Stats::default();
    let mut i = first;
    let mut code = 0;
    let known = known_findings(prop.id);
    let mut done = 0u64;
    let mut trivial_kept = false;
    // for surveys: name the runs that need more than this many MB
    let peak_limit = std::env::var("YAMLSIM_PEAK").ok().and_then(|v| v.parse::<usize>().ok()).unwrap_or(0) << 20;
    while i < total {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        hb.write_all_at(&i.to_le_bytes(), 0).expect("heartbeat");
        let case = case_of(prop, seed, i, thorough);
        st.begin();
        crate::alloc::reset_peak();
        let v = execute(prop, &case, &mut st);
        let nt = st.end();
        if peak_limit > 0 && crate::alloc::peak() > peak_limit {
            eprintln!("run {i}: {} MB", crate::alloc::peak() >> 20);
        }
        st.evaluations += 1;
        done += 1;
        match v {
            Verdict::Ok => {
                if st.samples.len() < 2 && (nt || (done > 200 && !trivial_kept)) {
                    trivial_kept |= !nt;
                    let mut j = J::obj().with("run", J::Int(i as i64));
                    j.set("case", clip_j(&case.to_j()));
                    st.samples.push(j);
                }
            }
            Verdict::Skip(s) => *st.skipped.entry(s.into()).or_insert(0) += 1,
            Verdict::Harness(m) => {
                eprintln!("harness error in run {i}: {m}");
                code = EX_HARNESS;
                break;
            }
            Verdict::Fail(f) => {
                // in case minimisation does not survive
                let raw = J::obj()
                    .with("run", J::Int(i as i64))
                    .with("class", J::s(f.class.clone()))
                    .with("message", J::s(f.msg.clone()))
                    .with("since", J::Int(first as i64))
                    .with("stride", J::Int(stride as i64))
                    .with("case", case.to_j())
                    .with("original", case.to_j());
                write_j(&out.with_extension("fail"), &raw);
                let (min, fm) = shrink::shrink(prop, &case, &f, shrink_time(20), &hb, i);
                if known.iter().any(|k| k.fp == min.fp()) {
                    *st.probes.entry("known_finding_hit".into()).or_insert(0) += 1;
                    let _ = std::fs::remove_file(out.with_extension("fail"));
                } else {
                    let j = J::obj()
                        .with("run", J::Int(i as i64))
                        .with("class", J::s(fm.class.clone()))
                        .with("message", J::s(fm.msg.clone()))
                        .with("since", J::Int(first as i64))
                        .with("stride", J::Int(stride as i64))
                        .with("case", min.to_j())
                        .with("original", case.to_j());
                    write_j(&out.with_extension("fail"), &j);
                    code = EX_FAIL;
                    break;
                }
            }
        }
        i += stride;
    }
    let mut j = st.to_j();
    j.set("next", J::Int(i as i64));
    write_j(&out.with_extension("json"), &j);
    write_fps(&out.with_extension("fps"), &st.fps);
    write_fps(&out.with_extension("nt"), &st.nontrivial);
    code
}

fn write_fps(p: &Path, s: &std::collections::HashSet<u64>) {
    let mut b = Vec::with_capacity(s.len() * 8);
    for x in s {
        b.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(p, b).expect("write fingerprints");
}
fn read_fps(p: &Path, s: &mut std::collections::HashSet<u64>) {
    if let Ok(b) = std::fs::read(p) {
        for c in b.chunks_exact(8) {
            s.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}
pub fn write_j(p: &Path, j: &J) {
    let mut s = String::new();
    j.pretty(&mut s, 0);
    s.push('\n');
    std::fs::write(p, s).expect("write json");
}
pub fn read_j(p: &Path) -> Option<J> {
    J::parse(&std::fs::read_to_string(p).ok()?)
}

// ---------------------------------------------------------------- build profiles

/// A second build of this program, in which the code under test has neither debug assertions nor
/// overflow checks, is named by YAMLSIM_PLAIN; every fourth run is executed by it.
static PLAIN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn plain_exe() -> Option<PathBuf> {
    std::env::var_os("YAMLSIM_PLAIN").filter(|p| !p.is_empty()).map(PathBuf::from)
}
fn use_plain(on: bool) {
    PLAIN.store(on, std::sync::atomic::Ordering::Relaxed);
}
fn plain_run(run: u64) -> bool {
    plain_exe().is_some() && run % 4 == 3
}
/// The program that executes runs of the profile chosen by `use_plain`.
fn exe() -> PathBuf {
    match plain_exe() {
        Some(p) if PLAIN.load(std::sync::atomic::Ordering::Relaxed) => p,
        _ => std::env::current_exe().expect("own path"),
    }
}

// ---------------------------------------------------------------- one run in a fresh process

fn exit_class(s: ExitStatus) -> String {
    match (s.code(), s.signal()) {
        (Some(crate::alloc::CAP_EXIT), _) => "memory".into(),
        (_, Some(9 | 24)) => "hang".into(),
        (_, Some(n)) => format!("abort-signal-{n}"),
        (Some(c), _) => format!("exit-{c}"),
        _ => "unknown".into(),
    }
}

/// Run one case in a fresh process with a CPU limit. None: it passed.
pub fn isolated(case: &Case, cpu: u64, dir: &Path) -> Result<Option<Failure>, String> {
    let f = dir.join(format!("one-{}.json", std::process::id()));
    write_j(&f, &J::obj().with("case", case.to_j()));
    let r = isolated_file(&f, cpu);
    let _ = std::fs::remove_file(&f);
    r
}
fn isolated_file(f: &Path, cpu: u64) -> Result<Option<Failure>, String> {
    let exe = exe();
    let o = Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -c 0; ulimit -t {cpu}; exec \"$0\" \"$@\""))
        .arg(exe)
        .arg("one")
        .arg(f)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    match o.status.code() {
        Some(0) => Ok(None),
        Some(EX_FAIL) => {
            let mut it = text.splitn(2, '\n');
            let class = it.next().unwrap_or("").to_string();
            Ok(Some(Failure { class, msg: it.next().unwrap_or("").trim_end().to_string() }))
        }
        Some(EX_HARNESS) => Err(text),
        _ => {
            let class = exit_class(o.status);
            Ok(Some(Failure { msg: format!("the process ended with: {class}"), class }))
        }
    }
}

/// `yamlsim one FILE`
pub fn one(file: &Path) -> i32 {
    let Some(j) = read_j(file) else {
        eprintln!("cannot read {}", file.display());
        return EX_HARNESS;
    };
    let case = Case::from_j(j.get("case"));
    let prop = find(&case.prop);
    prepare(prop);
    let mut st = Stats::default();
    // what happened in the process before, if that matters
    let seed = j.get("seed").int() as u64;
    for i in j.get("before_runs").arr() {
        st.begin();
        let _ = execute(prop, &case_of(prop, seed, i.int() as u64, j.get("tier").str() == "thorough"), &mut st);
    }
    for c in j.get("before").arr() {
        st.begin();
        let _ = execute(prop, &Case::from_j(c), &mut st);
    }
    st.begin();
    match execute(prop, &case, &mut st) {
        Verdict::Ok => 0,
        Verdict::Skip(s) => {
            eprintln!("skipped: {s}");
            0
        }
        Verdict::Harness(m) => {
            println!("{m}");
            EX_HARNESS
        }
        Verdict::Fail(f) => {
            println!("{}\n{}", f.class, f.msg);
            EX_FAIL
        }
    }
}

/// `yamlsim replay FILE`
pub fn replay(file: &Path) -> i32 {
    let Some(j) = read_j(file) else {
        eprintln!("cannot read {}", file.display());
        return 2;
    };
    use_plain(j.get("profile").str() == "plain");
    match isolated_file(file, 60) {
        Ok(None) => {
            println!("replay {}: the property holds on this execution", file.display());
            0
        }
        Ok(Some(f)) => {
            println!("{}: {}", f.class, f.msg);
            let same = j.get("class").str() == f.class;
            println!("replay reproduces the recorded violation: {}", if same { "yes" } else { "no (a different one)" });
            println!("VIOLATION property={} replay={}", j.get("case").get("property").str(), file.display());
            1
        }
        Err(m) => {
            eprintln!("harness error: {m}");
            2
        }
    }
}

// ---------------------------------------------------------------- failures that have a history

/// A run that fails only after others in the same process: the code under test keeps something between
/// instances. Finds a small set of earlier runs that makes it fail, and minimises.
#[allow(clippy::too_many_arguments)]
fn with_history(prop: &Prop, base: &J, class: &str, seed: u64, run: u64, thorough: bool, since: u64, stride: u64, dir: &Path) -> Option<(J, String)> {
    let t0 = Instant::now();
    let earlier: Vec<u64> = (1..).map(|k| k * stride.max(1)).take_while(|d| run >= since + d).map(|d| run - d).collect();
    let f = dir.join("history.json");
    let test = |runs: &[u64]| -> Option<Failure> {
        let mut j = base.clone();
        // in the order in which they happened
        let mut runs = runs.to_vec();
        runs.sort_unstable();
        j.set("before_runs", J::Arr(runs.iter().map(|r| J::Int(*r as i64)).collect()));
        write_j(&f, &j);
        isolated_file(&f, 120).ok().flatten().filter(|x| x.class == class)
    };
    let mut k = 1;
    let mut runs = loop {
        let some = &earlier[..k.min(earlier.len())];
        if some.is_empty() || t0.elapsed().as_secs() > 150 {
            return None;
        }
        if test(some).is_some() {
            break some.to_vec();
        }
        if k >= earlier.len() {
            return None;
        }
        k *= 4;
    };
    // fewer
    let mut step = runs.len().next_power_of_two();
    while step > 0 {
        let mut i = 0;
        while i < runs.len() && t0.elapsed().as_secs() < 240 {
            let mut less = runs.clone();
            less.drain(i..(i + step).min(runs.len()));
            if test(&less).is_some() {
                runs = less;
            } else {
                i += step;
            }
        }
        step /= 2;
    }
    runs.sort_unstable();
    let mut last = test(&runs)?;
    let mut j = base.clone();
    if runs.len() > 40 {
        j.set("before_runs", J::Arr(runs.iter().map(|r| J::Int(*r as i64)).collect()));
        return Some((j, last.msg));
    }
    // as cases, each minimised
    let mut cases: Vec<Case> = runs.iter().map(|r| case_of(prop, seed, *r, thorough)).collect();
    cases.push(Case::from_j(base.get("case")));
    let put = |cases: &[Case]| {
        let mut j = base.clone();
        j.set("before", J::Arr(cases[..cases.len() - 1].iter().map(Case::to_j).collect()));
        j.set("case", cases[cases.len() - 1].to_j());
        j
    };
    for i in 0..cases.len().min(4) {
        let all = cases.clone();
        let (min, fm) = shrink::shrink_by(&cases[i], &last, shrink_time(12), |c| {
            let mut v = all.clone();
            v[i] = c.clone();
            write_j(&f, &put(&v));
            isolated_file(&f, 60).ok().flatten()
        });
        cases[i] = min;
        last = fm;
    }
    let j = put(&cases);
    write_j(&f, &j);
    let again = isolated_file(&f, 60).ok().flatten().filter(|x| x.class == class)?;
    Some((j.with("message", J::s(again.msg.clone())), format!("after {} other runs in the same process: {}", cases.len() - 1, again.msg)))
}

// ---------------------------------------------------------------- supervisor

struct Slot {
    child: Child,
    out: PathBuf,
    last: u64,
    since: Instant,
}

fn spawn(prop: &Prop, thorough: bool, seed: u64, first: u64, stride: u64, total: u64, secs: u64, out: &Path) -> Slot {
    use_plain(plain_run(first));
    let child = Command::new(exe())
        .args(["worker", prop.id, if thorough { "thorough" } else { "quick" }])
        .args([seed, first, stride, total, secs].map(|v| v.to_string()))
        .arg(out)
        .stdin(Stdio::null())
        .spawn()
        .expect("worker starts");
    Slot { child, out: out.into(), last: u64::MAX, since: Instant::now() }
}

fn heartbeat(out: &Path) -> u64 {
    let mut b = [0u8; 8];
    match std::fs::File::open(out.with_extension("hb")).and_then(|f| f.read_exact_at(&mut b, 0)) {
        Ok(()) => u64::from_le_bytes(b),
        Err(_) => u64::MAX,
    }
}

/// Time allowed for minimising a failing case; YAMLSIM_SHRINK=0 turns it off (for surveys).
fn shrink_time(secs: u64) -> Duration {
    Duration::from_secs(std::env::var("YAMLSIM_SHRINK").ok().and_then(|v| v.parse().ok()).unwrap_or(secs))
}

pub fn check(prop: &'static Prop, thorough: bool, seed: u64) -> i32 {
    let t0 = Instant::now();
    let mut workers: u64 = std::env::var("YAMLSIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    if plain_exe().is_some() {
        // all runs of a worker have the same profile
        workers = (workers + 3) / 4 * 4;
    }
    let mul: f64 = std::env::var("YAMLSIM_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let total = ((if thorough { prop.quick * prop.deep } else { prop.quick }) as f64 * mul) as u64;
    let secs: u64 = if thorough { 800 } else { 240 };
    let dir = root().join("work").join(format!("{}-{}", prop.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("work directory");
    std::env::set_var("YAMLSIM_SCRATCH", &dir);

    let mut part = 0u64;
    let mut outs: Vec<PathBuf> = vec![];
    let mut slots: Vec<(u64, Slot)> = vec![];
    for w in 0..workers {
        let out = dir.join(format!("p{part}"));
        part += 1;
        outs.push(out.clone());
        slots.push((w, spawn(prop, thorough, seed, w, workers, total, secs, &out)));
    }
    let mut fails: Vec<(u64, J)> = vec![];
    let mut error: Option<String> = None;
    while !slots.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut again = vec![];
        let mut k = 0;
        while k < slots.len() {
            let s = &mut slots[k].1;
            let status = s.child.try_wait().expect("wait for a worker");
            let hb = heartbeat(&s.out);
            if hb != s.last {
                s.last = hb;
                s.since = Instant::now();
            }
            match status {
                None => {
                    if s.since.elapsed().as_secs() >= HANG_SECS && hb != u64::MAX {
                        let _ = s.child.kill();
                        let _ = s.child.wait();
                        again.push((k, hb, "no progress".to_string()));
                    }
                }
                Some(x) if x.code() == Some(0) => again.push((k, u64::MAX, String::new())),
                Some(x) if x.code() == Some(EX_FAIL) => {
                    match read_j(&s.out.with_extension("fail")) {
                        Some(j) => fails.push((j.get("run").int() as u64, j)),
                        None => error = Some("a worker lost its failure report".into()),
                    }
                    again.push((k, u64::MAX, String::new()));
                }
                Some(x) if x.code() == Some(EX_HARNESS) || x.code() == Some(101) => {
                    error = Some(format!("a worker reported a harness error (run {hb})"));
                    again.push((k, u64::MAX, String::new()));
                }
                Some(x) => again.push((k, hb, exit_class(x))),
            }
            k += 1;
        }
        for (k, hb, why) in again.into_iter().rev() {
            let (_, s) = slots.remove(k);
            if why.is_empty() {
                continue;
            }
            if let Some(j) = read_j(&s.out.with_extension("fail")) {
                fails.push((j.get("run").int() as u64, j));
                continue;
            }
            if hb == u64::MAX {
                error = Some(format!("a worker died before its first run: {why}"));
                continue;
            }
            // attribute the death to the run, in a fresh process
            let case = case_of(prop, seed, hb, thorough);
            use_plain(plain_run(hb));
            match isolated(&case, 20, &dir) {
                Ok(Some(f)) => {
                    let (min, fm) = shrink::shrink_isolated(&case, &f, shrink_time(60), &dir);
                    fails.push((
                        hb,
                        J::obj()
                            .with("run", J::Int(hb as i64))
                            .with("class", J::s(fm.class.clone()))
                            .with("message", J::s(fm.msg.clone()))
                            .with("case", min.to_j())
                            .with("original", case.to_j()),
                    ));
                }
                Ok(None) => {
                    eprintln!("run {hb} ended its worker ({why}) but passes on its own; continuing after it");
                    let left = secs.saturating_sub(t0.elapsed().as_secs());
                    let out = dir.join(format!("p{part}"));
                    part += 1;
                    outs.push(out.clone());
                    slots.push((hb % workers, spawn(prop, thorough, seed, hb + workers, workers, total, left, &out)));
                }
                Err(m) => error = Some(m),
            }
            let _ = s;
        }
        if !fails.is_empty() || error.is_some() {
            // let the others finish the run they are in, then stop them
            for (_, s) in &mut slots {
                if let Ok(None) = s.child.try_wait() {
                    let _ = s.child.kill();
                }
                let _ = s.child.wait();
                if let Some(j) = read_j(&s.out.with_extension("fail")) {
                    fails.push((j.get("run").int() as u64, j));
                }
            }
            slots.clear();
        }
    }

    let mut st = Stats::default();
    for o in &outs {
        if let Some(j) = read_j(&o.with_extension("json")) {
            st.merge(&j);
        }
        read_fps(&o.with_extension("fps"), &mut st.fps);
        read_fps(&o.with_extension("nt"), &mut st.nontrivial);
    }
    st.samples.sort_by_key(|j| j.get("run").int());
    st.samples.truncate(3);
    let explore_s = t0.elapsed().as_secs_f64();

    let mut code = 0;
    let mut violations = 0;
    if let Some(e) = error {
        eprintln!("ERROR: {e}");
        code = 2;
    }
    fails.sort_by_key(|f| f.0);
    if !fails.is_empty() {
        let rdir = root().join("work").join("replays");
        std::fs::create_dir_all(&rdir).expect("replay directory");
        let file = |run: u64| rdir.join(format!("{}-seed{}-run{}.json", prop.id, seed, run));
        let mk = |run: u64, f: &J, case: &J, min: bool| {
            J::obj()
                .with("property", J::s(prop.id))
                .with("seed", J::Int(seed as i64))
                .with("run", J::Int(run as i64))
                .with("run_seed", J::s(format!("{:016x}", mix(prop_seed(seed, prop.id), run))))
                .with("tier", J::s(if thorough { "thorough" } else { "quick" }))
                .with("class", f.get("class").clone())
                .with("message", f.get("message").clone())
                .with("minimised", J::Bool(min))
                .with("profile", J::s(if plain_run(run) { "plain" } else { "checked" }))
                .with("replay_cmd", J::s(format!("bash /verif/replay.sh {}", file(run).display())))
                .with("case", case.clone())
        };
        let same = |f: &J, r: &Result<Option<Failure>, String>| matches!(r, Ok(Some(x)) if x.class == f.get("class").str());
        let mut found = None;
        for (run, f) in fails.iter().take(4) {
            use_plain(plain_run(*run));
            for (case, min) in [(f.get("case"), true), (f.get("original"), false)] {
                write_j(&file(*run), &mk(*run, f, case, min));
                if found.is_none() && same(f, &isolated_file(&file(*run), 60)) {
                    found = Some((*run, f.get("message").str().to_string()));
                }
                if found.is_some() {
                    break;
                }
            }
            if found.is_some() {
                break;
            }
            let _ = std::fs::remove_file(file(*run));
        }
        if found.is_none() {
            // Not by itself: by what happened earlier in the same process?
            let (run, f) = &fails[0];
            use_plain(plain_run(*run));
            let base = mk(*run, f, f.get("original"), false);
            if let Some((j, msg)) = with_history(prop, &base, f.get("class").str(), seed, *run, thorough, f.get("since").int() as u64, f.get("stride").int() as u64, &dir) {
                write_j(&file(*run), &j);
                found = Some((*run, msg));
            }
        }
        match found {
            Some((run, msg)) => {
                let f = &fails.iter().find(|f| f.0 == run).expect("its failure").1;
                println!("{}: {} (run {run}, seed {seed})", f.get("class").str(), clip(&msg, 1500));
                println!("VIOLATION property={} replay={}", prop.id, file(run).display());
                violations = 1;
                code = 1;
            }
            None => {
                eprintln!("ERROR: run {} failed ({}) but does not reproduce in a fresh process", fails[0].0, fails[0].1.get("class").str());
                if code == 0 {
                    code = 2;
                }
            }
        }
    }
    for k in known_findings(prop.id) {
        println!("KNOWN-FINDING: property={} {}", k.prop, k.what);
    }
    let m = |m: &std::collections::BTreeMap<String, u64>| {
        let mut o = J::obj();
        for (k, v) in m {
            o.set(k, J::Int(*v as i64));
        }
        o
    };
    let per_hour = |n: u64| J::Int((n as f64 / explore_s.max(0.001) * 3600.0) as i64);
    let cov = J::obj()
        .with("evaluations", J::Int(st.evaluations as i64))
        .with("distinct_nontrivial", J::Int(st.nontrivial.len() as i64))
        .with("rule", J::s(prop.rule))
        .with("samples", J::Arr(st.samples.clone()))
        .with("planned_runs", J::Int(total as i64))
        .with("runs_per_hour", per_hour(st.evaluations))
        .with("seeds", J::s(format!("one seed per run: mix(mix(VERIF_SEED={seed}, \"{}\"), run index)", prop.id)))
        .with("simulated_device_operations", J::Int(st.ticks as i64))
        .with("simulated_time_note", J::s("the code under test has no clock or timers; simulated time is counted in device operations"))
        .with("bytes_delivered", J::Int(st.bytes_in as i64))
        .with("bytes_accepted_by_sinks", J::Int(st.bytes_out as i64))
        .with("steps_checked", J::Int(st.steps as i64))
        .with("faults_fired", m(&st.faults))
        .with("probes", m(&st.probes))
        .with("skipped", m(&st.skipped))
        .with("distinct_executions", J::Int(st.fps.len() as i64))
        .with(
            "distinct_measure",
            J::s("64-bit fingerprint of the device-level operation log (kind and size of every read, write, interruption, fault) and of what the code under test delivered"),
        )
        .with("workers", J::Int(workers as i64))
        .with(
            "build_profile",
            J::s(match (cfg!(debug_assertions), plain_exe().is_some()) {
                (true, true) => "optimised; 3 of 4 runs with debug assertions and overflow checks, every fourth without",
                (true, false) => "optimised, with debug assertions and overflow checks",
                _ => "optimised, as shipped",
            }),
        )
        .with("real_components", J::s("libyaml-safer from /repo (reader, scanner, parser, composer, document builder, dumper, emitter), std::io::BufReader"))
        .with("stub_components", J::s(prop.stubs));
    let ev = J::obj()
        .with("property", J::s(prop.id))
        .with("tier", J::s(if thorough { "thorough" } else { "quick" }))
        .with("seed", J::Int(seed as i64))
        .with("level", J::s("exploration"))
        .with("coverage", cov)
        .with("assumptions", J::Arr(prop.assumptions.iter().map(|s| J::s(*s)).collect()))
        .with("wall_s", J::Num((t0.elapsed().as_secs_f64() * 100.0).round() / 100.0))
        .with("violations", J::Int(violations));
    let edir = root().join("evidence");
    std::fs::create_dir_all(&edir).expect("evidence directory");
    write_j(&edir.join(format!("{}.json", prop.id)), &ev);
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {} faults and adversities, {:.1} s, {}",
        prop.id,
        if thorough { "thorough" } else { "quick" },
        st.evaluations,
        st.nontrivial.len(),
        st.faults.values().sum::<u64>(),
        t0.elapsed().as_secs_f64(),
        match code {
            0 => "held",
            1 => "VIOLATED",
            _ => "ERROR",
        }
    );
    let _ = std::io::stdout().flush();
    code
}
