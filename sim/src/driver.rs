//! Runs many simulations in parallel, confirms and minimises what fails, and
//! writes the evidence.
use crate::{
    exec::{self, Outcome, RunResult},
    gen::{self, TwinKind},
    kernel,
    oracle::Violation,
    rng::{hash_bytes, mix, Rng},
    scenario::*,
};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    io::Write,
    os::unix::io::FromRawFd,
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant},
};

const RUN_TIMEOUT: Duration = Duration::from_secs(12);
const CONFIRM_TIMEOUT: Duration = Duration::from_secs(45);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub case: u64,
    pub variation: u64,
    pub violation: Violation,
    /// fingerprint of the whole execution
    pub trace: u64,
    pub scenario: Scenario,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub twin: Option<(TwinKind, Scenario)>,
    #[serde(default)]
    pub note: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct CaseReport {
    index: u64,
    runs: u64,
    ops: u64,
    switched: u64,
    checks: u64,
    sim_ns: i64,
    power_losses: u64,
    commands: BTreeMap<String, u64>,
    exits: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    requests: BTreeMap<String, u64>,
    states: Vec<u64>,
    traces: Vec<u64>,
    nontrivial: u64,
    s3: u64,
    sample: Option<String>,
    failure: Option<Replay>,
    other: BTreeMap<String, u64>,
    broken: Vec<String>,
    known: Vec<String>,
}

// ------------------------------------------------------------ one run

/// Runs a scenario in a process of its own.
pub fn run(sc: &Scenario, keep_log: bool, timeout: Duration) -> RunResult {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            exec::prepare();
            let r = exec::execute(sc, keep_log);
            let _g = kernel::in_kernel();
            let out = serde_json::to_vec(&r).expect("json");
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(&out);
            let _ = f.flush();
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let start = Instant::now();
        let mut buf: Vec<u8> = Vec::with_capacity(1 << 16);
        let mut chunk = vec![0u8; 1 << 16];
        let mut timed_out = false;
        loop {
            let left = timeout.checked_sub(start.elapsed());
            let ms = match left {
                Some(l) => l.as_millis() as i32 + 1,
                None => {
                    timed_out = true;
                    break;
                }
            };
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, ms);
            if n == 0 {
                timed_out = true;
                break;
            }
            if n < 0 {
                continue;
            }
            let r = libc::read(fds[0], chunk.as_mut_ptr() as *mut libc::c_void, chunk.len());
            if r <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..r as usize]);
        }
        libc::close(fds[0]);
        if timed_out {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if timed_out {
            return RunResult { broken: Some("timeout".into()), ..RunResult::default() };
        }
        if libc::WIFSIGNALED(status) {
            return RunResult { broken: Some(format!("signal {}", libc::WTERMSIG(status))), ..RunResult::default() };
        }
        let code = libc::WEXITSTATUS(status);
        if code != 0 {
            return RunResult { broken: Some(format!("harness exit {}", code)), ..RunResult::default() };
        }
        match serde_json::from_slice(&buf) {
            Ok(r) => r,
            Err(e) => RunResult { broken: Some(format!("no result: {} ({} bytes)", e, buf.len())), ..RunResult::default() },
        }
    }
}

/// As `run`; a run that gets stuck or crashes becomes a violation once that has
/// been confirmed.
pub fn judged(sc: &Scenario, keep_log: bool) -> RunResult {
    let r = run(sc, keep_log, RUN_TIMEOUT);
    let why = match &r.broken {
        None => return r,
        Some(w) => w.clone(),
    };
    if why.starts_with("harness") || why.starts_with("no result") || why == "signal 9" {
        return r;
    }
    if std::env::var("SIM_DUMP").is_ok() {
        let r = Replay { property: "C15".into(), seed: 0, case: 0, variation: 0, violation: Violation { properties: vec![], kind: why.clone(), step: 0, message: String::new() }, trace: 0, scenario: sc.clone(), twin: None, note: String::new() };
        let _ = std::fs::write(format!("/tmp/dump-{}.json", std::process::id()), serde_json::to_vec(&r).unwrap());
    }
    let mut again = run(sc, keep_log, CONFIRM_TIMEOUT);
    if again.broken.as_deref() != Some(&why) {
        return again;
    }
    let (kind, text) = if why == "timeout" {
        ("hang", "a command neither ends nor does anything that could be observed".to_string())
    } else {
        ("crash", format!("a command crashed: {}", why))
    };
    again.violations.push(Violation {
        properties: vec!["C04".into(), "C15".into()],
        kind: kind.into(),
        step: 0,
        message: text,
    });
    again.broken = None;
    again
}

fn differ(kind: TwinKind, a: &Outcome, b: &Outcome, sc: &Scenario) -> Option<String> {
    let foreign: BTreeSet<String> = sc
        .machines
        .iter()
        .flat_map(|m| m.store.iter())
        .chain(sc.remote_files.iter())
        .filter(|p| !matches!(p.what, What::Build { .. } | What::Patch { .. } | What::TruncatedPatch { .. }))
        .map(|p| p.name.clone())
        .collect();
    if a.exits != b.exits {
        return Some(format!("commands end differently: {:?} and {:?}", a.exits, b.exits));
    }
    if a.current != b.current {
        return Some(format!("`current` differs: {:?} and {:?}", a.current, b.current));
    }
    let empty = BTreeMap::new();
    for s in a.stores.keys().chain(b.stores.keys()) {
        let (x, y) = (a.stores.get(s).unwrap_or(&empty), b.stores.get(s).unwrap_or(&empty));
        for n in x.keys().chain(y.keys()) {
            if x.get(n) == y.get(n) {
                continue;
            }
            if kind == TwinKind::SameArtefacts && y.get(n).is_none() && foreign.iter().any(|f| n == f || n.starts_with(&format!("{}/", f))) {
                continue;
            }
            return Some(format!("{} in the {} store: {:?} and {:?}", n, s, x.get(n), y.get(n)));
        }
    }
    None
}

/// Runs a scenario, and its twin if it has one.
pub fn judge_pair(sc: &Scenario, twin: &Option<(TwinKind, Scenario)>, keep_log: bool) -> (RunResult, Option<RunResult>) {
    let mut r = judged(sc, keep_log);
    let t = match twin {
        None => return (r, None),
        Some((kind, t)) => {
            let t2 = judged(t, keep_log);
            if r.broken.is_none() && t2.broken.is_none() {
                if let Some(d) = differ(*kind, &r.outcome, &t2.outcome, sc) {
                    let (p, text) = match kind {
                        TwinKind::Same => ("C18", "the same history under other circumstances (listing order, page size, hash seeds, clock, request timing) has another outcome"),
                        TwinKind::SameArtefacts => ("C16", "the same history without the foreign files has another outcome"),
                    };
                    r.violations.push(Violation {
                        properties: vec![p.into()],
                        kind: "outcome-differs".into(),
                        step: 0,
                        message: format!("{}: {}", text, d),
                    });
                }
            }
            t2
        }
    };
    (r, Some(t))
}

// ------------------------------------------------------------ known findings

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub kind: String,
    pub text: String,
    pub line: String,
}
/// `finding: property=<id> kind=<kind> message~<substring> :: <description>`
pub fn known_findings(dir: &str) -> Vec<Known> {
    let mut out = vec![];
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let (head, desc) = rest.split_once(" :: ").unwrap_or((rest, ""));
            let get = |k: &str| head.split(k).nth(1).map(|s| s.to_string());
            let property = get("property=").and_then(|s| s.split(' ').next().map(String::from)).unwrap_or_default();
            let kind = get("kind=").and_then(|s| s.split(' ').next().map(String::from)).unwrap_or_default();
            let text = get("message~").unwrap_or_default();
            if !property.is_empty() && !text.is_empty() {
                out.push(Known { property, kind, text, line: desc.to_string() });
            }
        }
    }
    out
}
fn is_known(v: &Violation, property: &str, known: &[Known]) -> Option<String> {
    known
        .iter()
        .find(|k| k.property == property && (k.kind.is_empty() || k.kind == v.kind) && v.message.contains(&k.text))
        .map(|k| k.line.clone())
}

// ------------------------------------------------------------ one case

fn absorb(rep: &mut CaseReport, sc: &Scenario, r: &RunResult) {
    rep.runs += 1;
    if let Some(b) = &r.broken {
        rep.broken.push(format!("{}: {}", b, sc.steps.iter().map(exec::brief).collect::<Vec<_>>().join("; ")));
        return;
    }
    rep.ops += r.ops;
    rep.switched += r.switched;
    rep.checks += r.checks;
    rep.sim_ns += r.sim_ns;
    rep.power_losses += r.power_losses;
    if matches!(sc.remote, Remote::S3 { .. }) {
        rep.s3 += 1;
    }
    for (k, v) in &r.fault_counts {
        *rep.faults.entry(k.clone()).or_default() += v;
    }
    for (k, v) in &r.requests {
        *rep.requests.entry(k.clone()).or_default() += v;
    }
    for p in &r.procs {
        if let Step::Group(g) = &sc.steps[p.step] {
            *rep.commands.entry(g.runs[p.index].cmd.name().to_string()).or_default() += 1;
        }
        *rep.exits.entry(p.exit.clone()).or_default() += 1;
    }
    rep.states.extend(&r.states);
    rep.traces.push(r.trace);
    if r.ops > 0 && r.procs.iter().any(|p| !p.ops.is_empty()) {
        rep.nontrivial += 1;
    }
}

fn relevant(r: &RunResult, property: &str, known: &[Known], rep: &mut CaseReport, sc: &Scenario) -> Option<Violation> {
    let mut found = None;
    let survey = std::env::var("SIM_SURVEY").is_ok();
    for v in &r.violations {
        if survey {
            *rep.other.entry(format!("{} ({})", v.kind, v.properties.join(","))).or_default() += 1;
            let f = format!("/tmp/survey/{}-{}.json", property, v.kind);
            if !std::path::Path::new(&f).exists() {
                let x = Replay {
                    property: v.properties[0].clone(),
                    seed: 0,
                    case: rep.index,
                    variation: 0,
                    violation: v.clone(),
                    trace: r.trace,
                    scenario: sc.clone(),
                    twin: None,
                    note: String::new(),
                };
                let _ = std::fs::create_dir_all("/tmp/survey");
                let _ = std::fs::write(f, serde_json::to_vec(&x).expect("json"));
            }
            continue;
        }
        if v.properties.iter().any(|p| p == property) || std::env::var("SIM_ANY").map_or(false, |k| k == v.kind) {
            match is_known(v, property, known) {
                Some(l) => {
                    if !rep.known.contains(&l) {
                        rep.known.push(l);
                    }
                }
                None if found.is_none() => found = Some(v.clone()),
                None => {}
            }
        } else {
            *rep.other.entry(format!("{} ({})", v.kind, v.properties.join(","))).or_default() += 1;
        }
    }
    found
}

fn one_case(property: &str, seed: u64, index: u64, known: &[Known], more: usize) -> CaseReport {
    let mut rep = CaseReport { index, ..CaseReport::default() };
    let mut rng = Rng::new(mix(seed) ^ hash_bytes(index, property.as_bytes()));
    let c = gen::case(property, &mut rng);
    let (pilot, twin) = judge_pair(&c.base, &c.twin, false);
    absorb(&mut rep, &c.base, &pilot);
    if let (Some(t), Some((_, sc))) = (&twin, &c.twin) {
        absorb(&mut rep, sc, t);
    }
    let fail = |v: Violation, sc: &Scenario, r: &RunResult, variation: u64, twin: Option<(TwinKind, Scenario)>| Replay {
        property: property.into(),
        seed,
        case: index,
        variation,
        violation: v,
        trace: r.trace,
        scenario: sc.clone(),
        twin,
        note: String::new(),
    };
    if let Some(v) = relevant(&pilot, property, known, &mut rep, &c.base) {
        let t = if v.kind == "outcome-differs" { c.twin.clone() } else { None };
        if recurs(&c.base, &t, &v, &mut rep) {
            rep.failure = Some(fail(v, &c.base, &pilot, 0, t));
            return rep;
        }
    }
    if pilot.broken.is_some() {
        return rep;
    }
    for n in 0..c.variants * more {
        let mut r = Rng::new(mix(seed ^ 0xF417) ^ hash_bytes(index * 1000 + n as u64, property.as_bytes()));
        let sc = match gen::variation(property, &mut r, &c.base, &pilot, if c.sweep { Some(n) } else { None }) {
            Some(s) => s,
            None => continue,
        };
        let res = judged(&sc, false);
        absorb(&mut rep, &sc, &res);
        if rep.sample.is_none() && !res.fault_counts.is_empty() {
            rep.sample = Some(describe(&sc, &res));
        }
        if let Some(v) = relevant(&res, property, known, &mut rep, &sc) {
            if !recurs(&sc, &None, &v, &mut rep) {
                continue;
            }
            rep.failure = Some(fail(v, &sc, &res, n as u64 + 1, None));
            return rep;
        }
    }
    if rep.sample.is_none() {
        rep.sample = Some(describe(&c.base, &pilot));
    }
    rep
}

/// What does not happen again when the same run is repeated is not reported.
fn recurs(sc: &Scenario, twin: &Option<(TwinKind, Scenario)>, v: &Violation, rep: &mut CaseReport) -> bool {
    if v.kind == "hang" || v.kind == "crash" {
        return true; // confirmed already
    }
    for _ in 0..2 {
        let (r, _) = judge_pair(sc, twin, false);
        if r.violations.iter().any(|x| x.kind == v.kind && x.properties == v.properties) {
            return true;
        }
    }
    rep.broken.push(format!("not reproducible: {}: {}", v.kind, v.message));
    false
}

fn describe(sc: &Scenario, r: &RunResult) -> String {
    let steps: Vec<String> = sc
        .steps
        .iter()
        .map(|s| match s {
            Step::Group(g) => g
                .runs
                .iter()
                .map(|r| {
                    let f: Vec<String> = r.faults.iter().map(|f| format!("{:?}@{}", f.kind, f.op)).collect();
                    format!("{:?}{}", r.cmd, if f.is_empty() { String::new() } else { format!(" with {}", f.join(", ")) })
                })
                .collect::<Vec<_>>()
                .join(" || "),
            s => format!("{:?}", s),
        })
        .collect();
    format!(
        "{} versions, {} machine(s), {}: {} => {} operations, ends {:?}",
        sc.versions.len(),
        sc.machines.len(),
        match &sc.remote {
            Remote::Fs => "file system remote".to_string(),
            Remote::S3 { root } => format!("S3 remote `{}`", root),
        },
        steps.join("; "),
        r.ops,
        r.procs.iter().map(|p| p.exit.clone()).collect::<Vec<_>>()
    )
}

// ------------------------------------------------------------ minimisation

fn still(sc: &Scenario, twin: &Option<(TwinKind, Scenario)>, property: &str, kind: &str, known: &[Known]) -> Option<(Violation, u64)> {
    let (r, _) = judge_pair(sc, twin, false);
    r.violations
        .iter()
        .find(|v| v.kind == kind && v.properties.iter().any(|p| p == property) && is_known(v, property, known).is_none())
        .map(|v| (v.clone(), r.trace))
}

fn candidates(sc: &Scenario) -> Vec<Scenario> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut Scenario)| {
        let mut s = sc.clone();
        f(&mut s);
        if s != *sc {
            out.push(s);
        }
    };
    for i in (0..sc.steps.len()).rev() {
        push(&|s| {
            s.steps.remove(i);
        });
    }
    for i in 0..sc.steps.len() {
        if let Step::Group(g) = &sc.steps[i] {
            for j in 0..g.runs.len() {
                if g.runs.len() > 1 {
                    push(&|s| {
                        if let Step::Group(g) = &mut s.steps[i] {
                            g.runs.remove(j);
                        }
                    });
                }
                for f in 0..g.runs[j].faults.len() {
                    push(&|s| {
                        if let Step::Group(g) = &mut s.steps[i] {
                            g.runs[j].faults.remove(f);
                        }
                    });
                }
                push(&|s| {
                    if let Step::Group(g) = &mut s.steps[i] {
                        g.runs[j].verbose = false;
                        g.runs[j].level = 1;
                    }
                });
                push(&|s| {
                    if let Step::Group(g) = &mut s.steps[i] {
                        g.runs[j].style = 0;
                    }
                });
            }
            if g.switches.len() > 3 {
                let h = g.switches.len() / 2;
                push(&|s| {
                    if let Step::Group(g) = &mut s.steps[i] {
                        g.switches.truncate(h);
                    }
                });
                push(&|s| {
                    if let Step::Group(g) = &mut s.steps[i] {
                        g.switches.drain(..h);
                    }
                });
            }
            if g.switches.len() <= 12 {
                for w in 0..g.switches.len() {
                    push(&|s| {
                        if let Step::Group(g) = &mut s.steps[i] {
                            g.switches.remove(w);
                        }
                    });
                }
            }
            push(&|s| {
                if let Step::Group(g) = &mut s.steps[i] {
                    g.full = None;
                }
            });
        }
    }
    for m in 0..sc.machines.len() {
        for i in (0..sc.machines[m].store.len()).rev() {
            push(&|s| {
                s.machines[m].store.remove(i);
            });
        }
    }
    for i in (0..sc.remote_files.len()).rev() {
        push(&|s| {
            s.remote_files.remove(i);
        });
    }
    push(&|s| s.elsewhere.clear());
    for i in (0..sc.tags.len()).rev() {
        push(&|s| {
            s.tags.remove(i);
        });
    }
    for i in 0..sc.versions.len() {
        if let Kind::Tree { files, .. } = &sc.versions[i].kind {
            for f in (0..files.len()).rev() {
                push(&|s| {
                    if let Kind::Tree { files, .. } = &mut s.versions[i].kind {
                        if files.len() > 1 {
                            files.remove(f);
                        }
                    }
                });
            }
        }
    }
    push(&|s| {
        s.knobs.latency = 0;
        s.knobs.chunk = 1 << 16;
    });
    push(&|s| s.knobs.page_size = 1000);
    push(&|s| s.knobs.list_order = 0);
    push(&|s| s.knobs.empty_pages = false);
    push(&|s| s.knobs.bare_etags = false);
    push(&|s| s.knobs.multipart = 0);
    push(&|s| s.knobs.modes = 0);
    push(&|s| s.knobs.unprivileged = false);
    push(&|s| s.knobs.readdir.iter_mut().for_each(|r| *r = 0));
    push(&|s| s.knobs.dtype_unknown = false);
    push(&|s| s.knobs.no_cwd = false);
    push(&|s| s.knobs.mute = 0);
    push(&|s| s.knobs.repo_kind = 0);
    out
}

fn minimise(mut rep: Replay, known: &[Known], budget: Duration) -> Replay {
    let start = Instant::now();
    let (p, kind) = (rep.property.clone(), rep.violation.kind.clone());
    // twins are shrunk together only in their commands; keep it simple
    if rep.twin.is_some() {
        rep.note = "twin runs are reported as found".into();
        return rep;
    }
    let mut tried = 0;
    'outer: loop {
        for c in candidates(&rep.scenario) {
            if start.elapsed() > budget || tried > 600 {
                break 'outer;
            }
            tried += 1;
            if let Some((v, trace)) = still(&c, &None, &p, &kind, known) {
                rep.scenario = c;
                rep.violation = v;
                rep.trace = trace;
                continue 'outer;
            }
        }
        break;
    }
    rep.note = format!("minimised in {} runs", tried);
    rep
}

// ------------------------------------------------------------ the corpus

/// Scenarios that once showed a defect (or still show a known one); they are
/// run by every check of a property they concern, after the search.
fn corpus(home: &str) -> Vec<(String, Replay)> {
    let mut out = vec![];
    if let Ok(d) = std::fs::read_dir(format!("{}/sim/corpus", home)) {
        for e in d.flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            if let Some(r) = std::fs::read(e.path()).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                out.push((name, r));
            }
        }
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out
}

// ------------------------------------------------------------ the check

fn budget(property: &str, thorough: bool) -> (u64, Duration, usize) {
    // cases, time cap, factor for the number of variations
    let quick = match property {
        "C06" | "C18" => 6000,
        "C09" => 2000,
        "C16" => 2500,
        "C11" => 800,
        "C15" | "C08" | "C03" => 1000,
        _ => 1300,
    };
    if thorough {
        (quick * 12, Duration::from_secs(780), 2)
    } else {
        (quick, Duration::from_secs(100), 1)
    }
}

pub fn check(property: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let home = std::env::var("VERIF_HOME").unwrap_or_else(|_| "/verif".into());
    let known = known_findings(&home);
    let (mut cases, mut cap, more) = budget(property, thorough);
    if let Some(n) = std::env::var("SIM_CASES").ok().and_then(|s| s.parse().ok()) {
        cases = n;
    }
    if let Some(n) = std::env::var("SIM_SECONDS").ok().and_then(|s| s.parse().ok()) {
        cap = Duration::from_secs(n);
    }
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
    });
    let start = Instant::now();
    let shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const [AtomicU64; 2])
    };
    shared[0].store(u64::MAX, Ordering::SeqCst); // lowest failing case
    shared[1].store(0, Ordering::SeqCst); // next case
    let mut fds = [0i32; 2];
    assert!(unsafe { libc::pipe(fds.as_mut_ptr()) } == 0);
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            worker(w, property, seed, cases, cap, more, &known, shared, fds[1], start);
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    unsafe { libc::close(fds[1]) };
    let mut total = CaseReport::default();
    let mut states: HashSet<u64> = HashSet::new();
    let mut traces: HashSet<u64> = HashSet::new();
    let mut done = 0u64;
    let mut samples: Vec<(u64, String)> = vec![];
    let mut failures: Vec<Replay> = vec![];
    let input = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut rd = std::io::BufReader::new(input);
    use std::io::Read;
    loop {
        let mut len = [0u8; 4];
        if rd.read_exact(&mut len).is_err() {
            break;
        }
        let mut b = vec![0u8; u32::from_le_bytes(len) as usize];
        if rd.read_exact(&mut b).is_err() {
            break;
        }
        let r: CaseReport = match serde_json::from_slice(&b) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("bad report: {}", e);
                continue;
            }
        };
        done += 1;
        total.runs += r.runs;
        total.ops += r.ops;
        total.switched += r.switched;
        total.checks += r.checks;
        total.sim_ns += r.sim_ns;
        total.power_losses += r.power_losses;
        total.s3 += r.s3;
        total.nontrivial += r.nontrivial;
        for (a, b) in [
            (&mut total.commands, &r.commands),
            (&mut total.exits, &r.exits),
            (&mut total.faults, &r.faults),
            (&mut total.requests, &r.requests),
            (&mut total.other, &r.other),
        ] {
            for (k, v) in b {
                *a.entry(k.clone()).or_default() += v;
            }
        }
        states.extend(r.states);
        traces.extend(r.traces);
        total.broken.extend(r.broken);
        for k in r.known {
            if !total.known.contains(&k) {
                total.known.push(k);
            }
        }
        if let Some(s) = r.sample {
            if samples.len() < 400 {
                samples.push((r.index, s));
            }
        }
        if let Some(f) = r.failure {
            failures.push(f);
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    let searched = start.elapsed();
    let mut regress = 0u64;
    for (name, r) in corpus(&home) {
        if !r.violation.properties.iter().any(|p| p == property) {
            continue;
        }
        regress += 1;
        let (res, twin) = judge_pair(&r.scenario, &r.twin, false);
        absorb(&mut total, &r.scenario, &res);
        if let (Some(t), Some((_, sc))) = (&twin, &r.twin) {
            absorb(&mut total, sc, t);
        }
        if let Some(v) = relevant(&res, property, &known, &mut total, &r.scenario) {
            let t = if v.kind == "outcome-differs" { r.twin.clone() } else { None };
            if recurs(&r.scenario, &t, &v, &mut total) {
                failures.push(Replay {
                    property: property.into(),
                    seed,
                    case: u64::MAX,
                    variation: 0,
                    violation: v,
                    trace: res.trace,
                    scenario: r.scenario,
                    twin: t,
                    note: format!("from the regression corpus: {}", name),
                });
            }
        }
    }
    states.extend(std::mem::take(&mut total.states));
    traces.extend(std::mem::take(&mut total.traces));
    samples.sort();
    let samples: Vec<String> = samples.into_iter().step_by(97.min(1 + done as usize / 4)).take(4).map(|s| s.1).collect();
    let mut code = 0;
    let mut violations = 0;
    failures.sort_by_key(|f| (f.case, f.variation));
    if let Some(f) = failures.first() {
        let hang = f.violation.kind == "hang";
        let f = if hang { f.clone() } else { minimise(f.clone(), &known, Duration::from_secs(if thorough { 60 } else { 25 })) };
        let dir = format!("{}/replays", home);
        let _ = std::fs::create_dir_all(&dir);
        let case = if f.case == u64::MAX { "corpus".to_string() } else { f.case.to_string() };
        let path = format!("{}/{}-seed{}-case{}-{}.json", dir, property, seed, case, f.variation);
        std::fs::write(&path, serde_json::to_vec_pretty(&f).expect("json")).expect("write replay");
        println!("{}", f.violation.message);
        println!("  kind {}, step {}, case {} variation {} ({})", f.violation.kind, f.violation.step, case, f.variation, f.note);
        println!("  {}", f.scenario.steps.iter().map(exec::brief).collect::<Vec<_>>().join("; "));
        println!("VIOLATION property={} replay={}", property, path);
        code = 1;
        violations = 1;
    }
    for k in &total.known {
        println!("KNOWN-FINDING: property={} {}", property, k);
    }
    let broken = total.broken.len() as u64;
    for b in total.broken.iter().take(3) {
        eprintln!("could not be carried out: {}", b);
    }
    if code == 0 && (done == 0 || broken * 50 > total.runs.max(1)) {
        eprintln!("{} of {} runs could not be carried out", broken, total.runs);
        code = 3;
    }
    let secs = searched.as_secs_f64().max(0.001);
    let ev = serde_json::json!({
        "property": property,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.runs,
            "distinct_nontrivial": traces.len(),
            "rule": "a case is a seeded scenario (stores, versions, commands, circumstances) run undisturbed, then run again with faults and schedules picked from what that run did; two runs are distinct if the hash over all intercepted operations, their order, processes and results differs, and non-trivial if at least one command of the real program ran",
            "samples": samples,
            "cases": done,
            "nontrivial_runs": total.nontrivial,
            "distinct_store_states": states.len(),
            "state_measure": "names, sizes and completeness of all files in all stores and the target of `current`, hashed after every operation that changed something",
            "runs_per_hour": (total.runs as f64 / secs * 3600.0) as u64,
            "cases_per_hour": (done as f64 / secs * 3600.0) as u64,
            "simulated_seconds": total.sim_ns / 1_000_000_000,
            "intercepted_operations": total.ops,
            "context_switches_between_commands": total.switched,
            "artefact_verifications": total.checks,
            "commands_run": total.commands,
            "command_endings": total.exits,
            "faults_injected": total.faults,
            "s3_runs": total.s3,
            "s3_requests": total.requests,
            "power_losses": total.power_losses,
            "regression_scenarios": regress,
            "runs_not_carried_out": broken,
            "violations_of_other_properties_seen": total.other,
            "real_code": ["artefacta (whole library)", "src/main.rs", "tokio", "rusoto_core/rusoto_s3 (request building, signing, response parsing)", "zstd", "bidiff/bipatch", "tar", "walkdir", "tempfile", "libgit2", "structopt"],
            "simulated": ["file system and page cache (system calls of the C library)", "clocks, sleeping", "randomness", "process start, exit, kill", "S3 service and the HTTP transport below rusoto", "environment and arguments"],
            "stubbed": ["pretty_env_logger (plain output)", "installation of the panic handler (once per address space)"],
            "workers": workers,
        },
        "assumptions": [
            "threads inside one command run as the host schedules them; the program does all its I/O from one of them",
            "the file system orders metadata (journal prefix survives a power loss); data survives only as far as it was synced or happened to be written",
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = format!("{}/evidence", home);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, property), serde_json::to_vec_pretty(&ev).expect("json")).expect("write evidence");
    println!(
        "{}: {} cases, {} runs ({} distinct), {} states, {} faults, {:.1} s simulated, {:.1} s",
        property,
        done,
        total.runs,
        traces.len(),
        states.len(),
        total.faults.values().sum::<u64>(),
        total.sim_ns as f64 / 1e9,
        start.elapsed().as_secs_f64()
    );
    if std::env::var("SIM_OTHER").is_ok() {
        println!("other: {:?}", total.other);
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn worker(
    _w: usize,
    property: &str,
    seed: u64,
    cases: u64,
    cap: Duration,
    more: usize,
    known: &[Known],
    shared: &[AtomicU64; 2],
    out: i32,
    start: Instant,
) {
    loop {
        let i = shared[1].fetch_add(1, Ordering::SeqCst);
        if i >= cases || i > shared[0].load(Ordering::SeqCst) || start.elapsed() > cap {
            return;
        }
        let r = one_case(property, seed, i, known, more);
        if r.failure.is_some() {
            shared[0].fetch_min(i, Ordering::SeqCst);
        }
        let b = serde_json::to_vec(&r).expect("json");
        let mut m = (b.len() as u32).to_le_bytes().to_vec();
        m.extend_from_slice(&b);
        // one writer at a time: writes larger than a pipe buffer may interleave
        unsafe {
            let lock = &shared[0] as *const AtomicU64 as *const u8;
            let _ = lock;
            PIPE_LOCK.with_lock(shared, || {
                let mut at = 0;
                while at < m.len() {
                    let n = libc::write(out, m[at..].as_ptr() as *const libc::c_void, m.len() - at);
                    if n <= 0 {
                        libc::_exit(1);
                    }
                    at += n as usize;
                }
            });
        }
    }
}

struct PipeLock;
static PIPE_LOCK: PipeLock = PipeLock;
impl PipeLock {
    /// A spin lock in the shared page (behind the two counters).
    unsafe fn with_lock(&self, shared: &[AtomicU64; 2], f: impl FnOnce()) {
        let l = &*(shared.as_ptr().add(8));
        while l.compare_exchange(0, 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
            libc::sched_yield();
        }
        f();
        l.store(0, Ordering::SeqCst);
    }
}

// ------------------------------------------------------------ replay & co

pub fn replay(path: &str, verbose: bool) -> i32 {
    let text = std::fs::read(path).expect("read replay file");
    let rep: Replay = serde_json::from_slice(&text).expect("parse replay file");
    let (r, t) = judge_pair(&rep.scenario, &rep.twin, true);
    if verbose {
        for l in &r.log {
            println!("{}", l);
        }
        for p in &r.procs {
            println!("=== {} -> {}\n{}", p.name, p.exit, p.out);
        }
        if let Some(t) = &t {
            for p in &t.procs {
                println!("=== twin: {} -> {}\n{}", p.name, p.exit, p.out);
            }
        }
        println!("{:#?}", r.outcome);
    }
    if let Some(b) = &r.broken {
        println!("broken: {}", b);
    }
    for v in &r.violations {
        println!("[{}] {} (step {}): {}", v.properties.join(","), v.kind, v.step, v.message);
    }
    println!("trace {:016x}, recorded {:016x}", r.trace, rep.trace);
    if r.violations.iter().any(|v| v.kind == rep.violation.kind && v.properties.contains(&rep.property)) {
        println!("VIOLATION property={} replay={}", rep.property, path);
        return 1;
    }
    println!("the violation does not occur");
    0
}

/// Every run twice: the executions must be identical.
pub fn selftest(n: u64) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut bad = 0;
    let mut runs = 0;
    for i in 0..n {
        let prop = format!("C{:02}", 1 + i % 19);
        let mut rng = Rng::new(mix(seed) ^ hash_bytes(i, prop.as_bytes()));
        let c = gen::case(&prop, &mut rng);
        let a = run(&c.base, false, RUN_TIMEOUT);
        let b = run(&c.base, false, RUN_TIMEOUT);
        runs += 2;
        if a != b {
            bad += 1;
            println!("case {} ({}) differs: {:016x} {:016x} {:?} {:?}", i, prop, a.trace, b.trace, a.broken, b.broken);
        }
        if a.broken.is_some() {
            println!("case {} ({}) broken: {:?}", i, prop, a.broken);
            continue;
        }
        let mut r = Rng::new(mix(seed ^ 0xF417) ^ hash_bytes(i * 1000, prop.as_bytes()));
        if let Some(v) = gen::variation(&prop, &mut r, &c.base, &a, if c.sweep { Some(0) } else { None }) {
            let x = run(&v, false, RUN_TIMEOUT);
            let y = run(&v, false, RUN_TIMEOUT);
            runs += 2;
            if x != y {
                bad += 1;
                println!("variation of case {} ({}) differs: {:016x} {:016x} {:?} {:?}", i, prop, x.trace, y.trace, x.broken, y.broken);
            }
        }
    }
    println!("{} runs, {} differences", runs, bad);
    (bad > 0) as i32
}
