//! Carries out a scenario: builds the simulated world, runs the commands, and
//! collects what happened.
use crate::{
    kernel::{self, Class, Exit, Kernel, Machine as KMachine, Proc, V},
    oracle::{EntKind, Oracle, Store, Violation},
    rng::{hash_bytes, mix, Rng},
    s3::{self, S3Server},
    scenario::*,
    simfs::{self, Fs},
    world::{file_content, git_files, World},
};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    ffi::CString,
};

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct ProcInfo {
    pub step: usize,
    pub index: usize,
    pub name: String,
    pub exit: String,
    pub ops: Vec<(u8, bool)>,
    pub fired: Vec<String>,
    pub out: String,
}

/// What a history has led to, without anything incidental.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Outcome {
    pub exits: Vec<String>,
    /// store -> name -> what is there
    pub stores: BTreeMap<String, BTreeMap<String, String>>,
    pub current: Vec<Option<String>>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct RunResult {
    pub violations: Vec<Violation>,
    pub trace: u64,
    pub procs: Vec<ProcInfo>,
    pub fault_counts: BTreeMap<String, u64>,
    pub sim_ns: i64,
    pub states: Vec<u64>,
    pub ops: u64,
    pub switched: u64,
    pub checks: u64,
    pub outcome: Outcome,
    pub requests: BTreeMap<String, u64>,
    pub power_losses: u64,
    pub log: Vec<String>,
    /// the run could not be carried through
    pub broken: Option<String>,
}

/// What a real process does before `main`, once per address space.
pub fn prepare() {
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1).build_global();
    // (per-process caches: filled here, so that no command holds their lock
    // while it waits for its turn)
    let _ = num_cpus::get();
    let _ = git2::Buf::new();
    let _ = real_erreur::install_panic_handler();
    artefacta::sim_hooks::set_s3_client_provider(Some(s3::provider));
    let harness = std::thread::current().id();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info.to_string();
        if kernel::inside() || std::thread::current().id() == harness {
            let text = format!("HARNESS PANIC: {}\n", msg);
            unsafe {
                libc::write(2, text.as_ptr() as *const libc::c_void, text.len());
                libc::_exit(99);
            }
        }
        // (a worker thread of the program hands its panic to the command)
        if kernel::sim().is_some() {
            use std::io::Write;
            let _ = std::io::stderr().write_all(format!("PANIC: {}\n", msg).as_bytes());
        }
    }));
}

const STORE: &str = "/store";
/// A directory in the repository.
const WITHIN: &str = "/docs/api";

fn work_dir(variant: u64) -> String {
    match variant {
        0 => "/work".into(),
        v => format!("/srv/build-{}/work", v),
    }
}

fn cs(s: &str) -> CString {
    CString::new(s).expect("no NUL")
}

fn plant(k: &mut Kernel, w: &mut World, kn: &Knobs, at: Option<V>, key: String, p: &Plant, mtime: i64) {
    let bytes = w.bytes_of(&p.name, &p.what);
    match at {
        Some(v) => {
            let fs = &mut k.fss[v.fs];
            if fs.lookup(v.ino, &simfs::raw(&p.name)).is_ok() && matches!(p.what, What::Dir | What::Fifo | What::Link { .. }) {
                return;
            }
            match &p.what {
                What::Dir => {
                    let d = fs.mkdir(v.ino, &simfs::raw(&p.name), 0o755, mtime).expect("mkdir");
                    fs.put(d, "inside.txt", b"inside", 0o644, mtime);
                }
                What::Fifo => {
                    fs.fifo(v.ino, &simfs::raw(&p.name), mtime).expect("mkfifo");
                }
                What::Link { target } => {
                    fs.symlink(v.ino, &simfs::raw(&p.name), target.as_bytes(), mtime).expect("symlink");
                }
                _ => {
                    fs.put(v.ino, &p.name, &bytes, kn.mode(&p.name), mtime);
                }
            }
        }
        None => {
            if let What::Dir = p.what {
                k.s3.store(&format!("{}/inside.txt", key), b"inside".to_vec());
            } else if !matches!(p.what, What::Link { .. } | What::Fifo) {
                k.s3.store(&key, bytes);
                if kn.multipart != 0 && hash_bytes(kn.multipart, key.as_bytes()) % 3 == 0 {
                    k.s3.make_multipart(&key);
                }
            }
        }
    }
}

fn build(sc: &Scenario, keep_log: bool) -> Kernel {
    let mut w = World::new(sc);
    let kn = &sc.knobs;
    let start = kn.start_s * 1_000_000_000;
    let mut k = Kernel {
        fss: vec![],
        machines: vec![],
        procs: vec![],
        current: kernel::DRIVER,
        group: 0,
        step: 0,
        total_ops: 0,
        switches: vec![],
        switched: 0,
        real_ns: start,
        mono_ns: 1_000_000_000_000,
        tick_ns: kn.tick_ns,
        rng: Rng::derive(kn.incidental, "kernel"),
        entropy: mix(kn.incidental ^ 0xE17),
        net_rng: Rng::derive(kn.incidental, "net"),
        descs: vec![],
        fds: HashMap::new(),
        next_fd: kernel::FD_BASE,
        dirs: HashMap::new(),
        dtype_unknown: kn.dtype_unknown,
        no_cwd: kn.no_cwd,
        mute: kn.mute,
        trace: 0,
        log: vec![],
        keep_log,
        s3: S3Server::new(),
        unprivileged: false,
        oracle: None,
        protected: HashSet::new(),
        seen_changes: 0,
        fault_counts: BTreeMap::new(),
        exit_unobservable: false,
        threads_in_group: 0,
    };
    k.s3.page_size = kn.page_size.max(1);
    k.s3.list_order = kn.list_order;
    k.s3.empty_pages = kn.empty_pages;
    k.s3.bare_etags = kn.bare_etags;
    k.unprivileged = kn.unprivileged;
    k.s3.latency = kn.latency;
    k.s3.chunk = kn.chunk.max(1);
    let remote_fs = match sc.remote {
        Remote::Fs => {
            k.fss.push(Fs::new(90, false));
            Some(V { fs: 0, ino: k.fss[0].root })
        }
        Remote::S3 { .. } => None,
    };
    let (mut local, mut tmp, mut work) = (vec![], vec![], vec![]);
    for (mi, m) in sc.machines.iter().enumerate() {
        let root_fs = k.fss.len();
        let mut fs = Fs::new(100 + 2 * mi as u64, false);
        let store = fs.mkdirs(STORE);
        let wd = work_dir(m.variant);
        let wk = fs.mkdirs(&wd);
        fs.mkdirs("/home");
        let tmp_on = fs.mkdirs("/tmp");
        let remote_on = fs.mkdirs("/remote");
        let home = fs.mkdirs("/home");
        fs.symlink(home, b"linked", STORE.as_bytes(), start).expect("link");
        fs.symlink(home, b"far", b"../remote", start).expect("link");
        k.fss.push(fs);
        let mut tmpfs = Fs::new(101 + 2 * mi as u64, true);
        tmpfs.mkdirs("/user");
        k.fss.push(tmpfs);
        let root = V { fs: root_fs, ino: k.fss[root_fs].root };
        let mut mounts = HashMap::new();
        let tmp_v = V { fs: root_fs + 1, ino: k.fss[root_fs + 1].root };
        mounts.insert(V { fs: root_fs, ino: tmp_on }, tmp_v);
        if let Some(r) = remote_fs {
            mounts.insert(V { fs: root_fs, ino: remote_on }, r);
        }
        k.machines.push(KMachine { root, mounts, readdir_mode: kn.readdir.get(mi).copied().unwrap_or(0) });
        local.push(V { fs: root_fs, ino: store });
        tmp.push(tmp_v);
        work.push(V { fs: root_fs, ino: wk });
        // inputs
        let old = start - 86_400_000_000_000 - (m.variant as i64) * 1_234_567_891_011;
        let inp = k.fss[root_fs].mkdirs(&format!("{}/in", wd));
        for (i, v) in sc.versions.iter().enumerate() {
            match &v.kind {
                Kind::Blob { .. } => {
                    let used = sc.steps.iter().any(|s| match s {
                        Step::Group(g) => g.runs.iter().any(|r| matches!(&r.cmd, Cmd::Add { v: x, .. } if *x == v.name)),
                        _ => false,
                    });
                    if used {
                        let b = w.build_bytes(i, 2);
                        let n = build_name(&v.name);
                        k.fss[root_fs].put(inp, &n, &b, kn.mode(&format!("in/{}", n)), old);
                        for s in &sc.steps {
                            let g = match s {
                                Step::Group(g) => g,
                                _ => continue,
                            };
                            for r in &g.runs {
                                if !matches!(&r.cmd, Cmd::Add { v: x, .. } if *x == v.name) || r.machine != mi {
                                    continue;
                                }
                                let fs = &mut k.fss[root_fs];
                                match r.input {
                                    input::EMPTY => {
                                        let d = fs.mkdirs(&format!("{}/in/empty", wd));
                                        fs.put(d, &n, b"", 0o644, old);
                                    }
                                    input::DIR => {
                                        let d = fs.mkdirs(&format!("{}/in/dir/{}", wd, n));
                                        fs.put(d, "file", b"text", 0o644, old);
                                    }
                                    input::FRAMES => {
                                        let d = fs.mkdirs(&format!("{}/in/frames", wd));
                                        let b = w.build_bytes(i, -2);
                                        k.fss[root_fs].put(d, &n, &b, kn.mode(&format!("frames/{}", n)), old);
                                    }
                                    input::PLAIN if r.has(style::VIA_LINK) => {
                                        let d = fs.mkdirs(&format!("{}/in/link", wd));
                                        let _ = fs.symlink(d, format!("to-{}", n).as_bytes(), format!("../{}", n).as_bytes(), old);
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                }
                Kind::Tree { files, .. } => {
                    let d = k.fss[root_fs].mkdirs(&format!("{}/in/link", wd));
                    let n = tree_dir(&v.name);
                    let _ = k.fss[root_fs].symlink(d, format!("to-{}", n).as_bytes(), format!("../../src/{}", n).as_bytes(), old);
                    let top = format!("{}/src/{}", wd, tree_dir(&v.name));
                    k.fss[root_fs].mkdirs(&top);
                    let mut order: Vec<&TreeFile> = files.iter().collect();
                    order.sort_by_key(|f| (f.twin.is_some(), hash_bytes(m.variant, f.path.as_bytes())));
                    for (n, f) in order.iter().enumerate() {
                        let (d, name) = match f.path.rsplit_once('/') {
                            Some((d, n)) => (format!("{}/{}", top, d), n),
                            None => (top.clone(), &f.path[..]),
                        };
                        let t = old + n as i64 * 7_000_000_000;
                        let fs = &mut k.fss[root_fs];
                        let di = fs.mkdirs(&d);
                        match f.special.as_deref() {
                            None => {
                                let same = f.twin.as_ref().and_then(|o| fs.walk(&format!("{}/{}", top, o)).ok());
                                match same {
                                    Some(ino) => fs.hardlink(ino, di, &simfs::raw(name)).expect("hard link"),
                                    None => {
                                        fs.put(di, name, &file_content(f.seed, f.size), f.mode, t);
                                    }
                                }
                            }
                            Some("fifo") => {
                                let _ = fs.fifo(di, &simfs::raw(name), t);
                            }
                            Some("dir") => {
                                fs.mkdirs(&format!("{}/{}", top, f.path));
                            }
                            Some(s) => {
                                if let Some(t) = s.strip_prefix("link:") {
                                    let _ = fs.symlink(di, &simfs::raw(name), t.as_bytes(), old);
                                }
                            }
                        }
                    }
                }
            }
        }
        if sc.steps.iter().any(|s| match s {
            Step::Group(g) => g.runs.iter().any(|r| matches!(r.cmd, Cmd::AutoPatch { .. })),
            _ => false,
        }) {
            let fs = &mut k.fss[root_fs];
            let top = match kn.repo_kind {
                0 => format!("{}/repo/.git", wd),
                1 => format!("{}/repo.store", wd),
                _ => format!("{}/repo", wd),
            };
            let inner = fs.mkdirs(&format!("{}/repo{}", wd, WITHIN));
            fs.put(inner, "notes.txt", b"notes", 0o644, old);
            if kn.repo_kind == 1 {
                let d = fs.mkdirs(&format!("{}/repo", wd));
                fs.put(d, ".git", b"gitdir: ../repo.store\n", 0o644, old);
            }
            for d in ["objects/info", "objects/pack", "refs/heads", "refs/tags"] {
                fs.mkdirs(&format!("{}/{}", top, d));
            }
            for (p, data) in git_files(&sc.tags, kn.repo_kind > 1) {
                let path = format!("{}/{}", top, p);
                let (d, n) = path.rsplit_once('/').unwrap();
                let d = fs.mkdirs(d);
                fs.put(d, n, &data, 0o644, old);
            }
        }
        // store
        for (n, p) in m.store.iter().enumerate() {
            plant(&mut k, &mut w, kn, Some(V { fs: root_fs, ino: store }), String::new(), p, old + n as i64 * 1_000_000_000);
        }
        if let Some(c) = &m.current {
            k.fss[root_fs].symlink(store, b"current", c.as_bytes(), old).expect("current");
        }
        // everything below the work directory is input
        let mut todo = vec![(wk, false)];
        let git = [&b"repo"[..], b"repo.store"].map(|n| k.fss[root_fs].lookup(wk, n).unwrap_or(0));
        while let Some((d, in_git)) = todo.pop() {
            let kids: Vec<usize> = k.fss[root_fs].dir(d).map(|m| m.values().copied().collect()).unwrap_or_default();
            for i in kids {
                // (git looks at who owns a repository)
                let in_git = in_git || git.contains(&i);
                if !in_git {
                    let h = mix(kn.incidental ^ m.variant.rotate_left(20) ^ (i as u64 % 3));
                    k.fss[root_fs].inodes[i].owner = (1000 + (h % 500) as u32, 100 + (h >> 32) as u32 % 500);
                }
                k.protected.insert(V { fs: root_fs, ino: i });
                if k.fss[root_fs].is_dir(i) {
                    todo.push((i, in_git));
                }
            }
        }
    }
    let old = start - 86_400_000_000_000;
    for (n, p) in sc.remote_files.iter().enumerate() {
        plant(&mut k, &mut w, kn, remote_fs, sc.key(&p.name), p, old + n as i64 * 1_000_000_000);
    }
    if remote_fs.is_none() {
        for (key, what) in &sc.elsewhere {
            let b = w.bytes_of(key, what);
            k.s3.store(key, b);
        }
        for (n, size) in &sc.giants {
            if let Some(o) = k.s3.objects.get_mut(&sc.key(n)) {
                o.giant = Some(*size);
                *k.fault_counts.entry("huge object".into()).or_default() += 1;
            }
        }
    }
    for f in &mut k.fss {
        f.sync_all();
    }
    let n = sc.machines.len();
    let mut o = Oracle::new(w, local, tmp, work, remote_fs);
    o.refresh(&k);
    for m in 0..n {
        o.operator(&k, m, "");
    }
    k.seen_changes = k.changes();
    k.oracle = Some(Box::new(o));
    k
}

/// Where a command is run.
pub fn cwd_of(sc: &Scenario, r: &Run) -> String {
    let wd = work_dir(sc.machines[r.machine].variant);
    match r.cmd {
        Cmd::AutoPatch { .. } if r.has(style::AMBIENT) => format!("{}/repo{}", wd, if r.has(style::WITHIN) { WITHIN } else { "" }),
        _ => wd,
    }
}

/// The build or tree a command is given (below its work directory or absolute).
pub fn input_of(sc: &Scenario, r: &Run) -> Option<String> {
    match &r.cmd {
        Cmd::Add { v, .. } => {
            let n = build_name(v);
            Some(match r.input {
                input::ON_REMOTE => format!("/remote/{}", n),
                input::IN_STORE => format!("{}/{}", STORE, n),
                input::EMPTY => format!("in/empty/{}", n),
                input::DIR => format!("in/dir/{}", n),
                input::FRAMES => format!("in/frames/{}", n),
                _ if r.has(style::VIA_LINK) => format!("in/link/to-{}", n),
                _ => format!("in/{}", n),
            })
        }
        Cmd::AddPackage { v, .. } => {
            let d = tree_dir(v);
            Some(match sc.find(v).map(|i| &sc.versions[i].kind) {
                Some(Kind::Tree { files, single: true }) => {
                    format!("src/{}/{}", d, files.first().map_or("", |f| &f.path[..]))
                }
                _ if r.has(style::VIA_LINK) => format!("in/link/to-{}", d),
                _ => format!("src/{}", d),
            })
        }
        _ => None,
    }
}

fn stores_of(sc: &Scenario, r: &Run) -> (String, String) {
    let slash = if r.has(style::SLASH) { "/" } else { "" };
    let remote = match &sc.remote {
        Remote::Fs if r.has(style::LINKED) => "/home/far".to_string(),
        Remote::Fs => "/remote".to_string(),
        Remote::S3 { root } => format!("s3://{}{}", s3::HOST, if root.is_empty() { String::new() } else { format!("/{}", root) }),
    };
    let local = if r.has(style::LINKED) { "/home/linked" } else { STORE };
    (format!("{}{}", local, slash), format!("{}{}", remote, slash))
}

fn is_single(sc: &Scenario, r: &Run) -> bool {
    match &r.cmd {
        Cmd::AddPackage { v, .. } => !matches!(sc.find(v).map(|i| &sc.versions[i].kind), Some(Kind::Tree { single: false, .. })),
        _ => true,
    }
}

pub fn args_of(sc: &Scenario, r: &Run) -> Vec<String> {
    let wd = work_dir(sc.machines[r.machine].variant);
    let (local, remote) = stores_of(sc, r);
    let mut a: Vec<String> = vec!["artefacta".into()];
    if !r.has(style::ENV) {
        a.extend(["--local".into(), local, "--remote".into(), remote]);
    }
    if r.verbose {
        a.push("--verbose".into());
    }
    let input = input_of(sc, r).map_or(String::new(), |i| {
        let slash = if r.has(style::SLASH) && matches!(r.cmd, Cmd::AddPackage { .. }) && !is_single(sc, r) { "/" } else { "" };
        if i.starts_with('/') || r.has(style::RELATIVE) {
            format!("{}{}", i, slash)
        } else {
            format!("{}/{}{}", wd, i, slash)
        }
    });
    let mut put = |xs: &[&str]| a.extend(xs.iter().map(|s| s.to_string()));
    match &r.cmd {
        Cmd::Install { v } => put(&["install", v]),
        Cmd::Add { upload, from, .. } => {
            put(&["add", &input]);
            if *upload {
                put(&["--upload"]);
            }
            if let Some(f) = from {
                put(&["--calc-patch-from", f]);
            }
        }
        Cmd::AddPackage { v, upload, from } => {
            put(&["add-package", v, &input]);
            if *upload {
                put(&["--upload"]);
            }
            if let Some(f) = from {
                put(&["--calc-patch-from", f]);
            }
        }
        Cmd::CreatePatch { a, b } => put(&["create-patch", a, b]),
        Cmd::AutoPatch { current, prefix } => {
            put(&["auto-patch"]);
            if r.has(style::AMBIENT) {
                put(&["--repo-root", "."]);
            } else {
                put(&["--repo-root", &format!("{}/repo{}", wd, if r.has(style::WITHIN) { WITHIN } else { "" })]);
            }
            if !prefix.is_empty() {
                put(&["--prefix", prefix]);
            }
            if !r.has(style::AMBIENT) {
                put(&[current]);
            }
        }
        Cmd::Sync => put(&["sync"]),
        Cmd::Debug => put(&["debug"]),
        Cmd::Edit { .. } => put(&["edit"]),
    }
    a
}

fn edit(top: String, changes: Vec<Change>) -> Exit {
    use std::io::Write;
    for c in changes {
        match c {
            Change::Grow { path, by } => {
                if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(format!("{}/{}", top, path)) {
                    let _ = f.write_all(&vec![b'+'; by]);
                }
            }
            Change::Shrink { path, to } => {
                if let Ok(f) = std::fs::OpenOptions::new().write(true).open(format!("{}/{}", top, path)) {
                    let _ = f.set_len(to as u64);
                }
            }
            Change::Remove { path } => {
                let _ = std::fs::remove_file(format!("{}/{}", top, path));
            }
            Change::Create { path, size } => {
                let _ = std::fs::write(format!("{}/{}", top, path), vec![b'n'; size]);
            }
            Change::Replace { path, size } => {
                let _ = std::fs::write(format!("{}/{}.new~", top, path), vec![b'r'; size]);
                let _ = std::fs::rename(format!("{}/{}.new~", top, path), format!("{}/{}", top, path));
            }
        }
    }
    Exit::Code(0)
}

fn disk_fs(k: &Kernel, sc: &Scenario, d: Disk) -> Option<usize> {
    match d {
        Disk::Local(m) => k.machines.get(m).map(|m| m.root.fs),
        Disk::Tmp(m) => k.machines.get(m).map(|m| m.root.fs + 1),
        Disk::Remote => match sc.remote {
            Remote::Fs => Some(0),
            _ => None,
        },
    }
}

fn with_oracle<T>(f: impl FnOnce(&mut Kernel, &mut Oracle) -> T) -> T {
    kernel::with(|k| {
        let mut o = k.oracle.take().expect("oracle");
        let r = f(k, &mut o);
        k.oracle = Some(o);
        r
    })
}

/// Runs a scenario in this address space (once only).
pub fn execute(sc: &Scenario, keep_log: bool) -> RunResult {
    let k = build(sc, keep_log);
    let start_mono = k.mono_ns;
    kernel::install(k);
    let mut infos: Vec<ProcInfo> = vec![];
    let mut outcome = Outcome::default();
    let mut power_losses = 0;
    for (si, step) in sc.steps.iter().enumerate() {
        with_oracle(|k, o| {
            o.step = si;
            k.logline(|| format!("--- step {}: {}", si, brief(step)));
        });
        match step {
            Step::Group(g) => {
                if g.runs.is_empty() {
                    continue;
                }
                with_oracle(|k, o| o.begin(k, g));
                let mut procs = vec![];
                kernel::with(|k| {
                    if let Some((d, left)) = g.full {
                        if let Some(f) = disk_fs(k, sc, d) {
                            k.fss[f].cap = Some(k.fss[f].used + left);
                            *k.fault_counts.entry("disk full (bytes left limited)".into()).or_default() += 1;
                        }
                    }
                    for (i, r) in g.runs.iter().enumerate() {
                        let n = k.procs.len() + i;
                        let wd = work_dir(sc.machines[r.machine].variant);
                        let root = k.machines[r.machine].root;
                        let cwd = k.find(r.machine, root, cwd_of(sc, r).as_bytes(), true).expect("cwd");
                        let level = if r.has(style::NO_LEVEL) { "best".to_string() } else { r.level.to_string() };
                        let mut env = vec![
                            ("HOME", "/home".to_string()),
                            ("PATH", "/usr/bin:/bin".to_string()),
                            ("RAYON_NUM_THREADS", "1".to_string()),
                            ("ARTEFACTA_COMPRESSION_LEVEL", level),
                        ];
                        if r.has(style::ENV) {
                            let (local, remote) = stores_of(sc, r);
                            env.push(("ARTEFACTA_LOCAL_STORE", local));
                            env.push(("ARTEFACTA_REMOTE_STORE", remote));
                        }
                        if r.has(style::TMPDIR) {
                            env.push(("TMPDIR", "/tmp/user".to_string()));
                        }
                        if r.has(style::RUST_LOG) {
                            env.push(("RUST_LOG", "artefacta=trace".to_string()));
                        }
                        if let (Cmd::AutoPatch { current, .. }, true) = (&r.cmd, r.has(style::AMBIENT)) {
                            env.push(("CI_COMMIT_REF_NAME", current.clone()));
                        }
                        let args = args_of(sc, r);
                        let skip = 1 + if r.has(style::ENV) { 0 } else { 4 } + r.verbose as usize;
                        let p = Proc {
                            name: format!("step {} {}{}", si, args[skip..].join(" "), if sc.machines.len() > 1 { format!(" (machine {})", r.machine) } else { String::new() }),
                            machine: r.machine,
                            cwd,
                            env: env.iter().map(|(n, v)| (n.as_bytes().to_vec(), cs(v))).collect(),
                            args: args.iter().map(|a| cs(a)).collect(),
                            exit: None,
                            started: false,
                            opn: 0,
                            faults: r.faults.clone(),
                            run: None,
                            net_run: None,
                            fired: vec![],
                            out: vec![],
                            ops: vec![],
                            pid: 1000 + n as i32,
                            umask: if r.has(style::UMASK) { 0o077 } else { 0o022 },
                            threads: 0,
                            editor: matches!(r.cmd, Cmd::Edit { .. }),
                            fetched: BTreeMap::new(),
                            remote_puts: vec![],
                            local_writes: vec![],
                            span: (0, 0),
                        };
                        let body: kernel::Body = match &r.cmd {
                            Cmd::Edit { v, changes } => {
                                let top = format!("{}/src/{}", wd, tree_dir(v));
                                let c = changes.clone();
                                Box::new(move || edit(top, c))
                            }
                            _ => Box::new(|| Exit::Code(simmain::run())),
                        };
                        procs.push((p, body));
                    }
                });
                let ids = kernel::run_group(procs, g.switches.clone());
                with_oracle(|k, o| {
                    for (i, id) in ids.iter().enumerate() {
                        let p = &k.procs[*id];
                        let out = String::from_utf8_lossy(&p.out).to_string();
                        infos.push(ProcInfo {
                            step: si,
                            index: i,
                            name: p.name.clone(),
                            exit: format!("{:?}", p.exit.clone().unwrap_or(Exit::Hang)),
                            ops: p.ops.iter().map(|(c, s)| (*c as u8, *s)).collect(),
                            fired: p.fired.iter().map(|(_, t, path)| format!("{} {}", t, String::from_utf8_lossy(path))).collect(),
                            out: if keep_log { out } else { String::new() },
                        });
                    }
                    o.end(k, &ids);
                    for f in &mut k.fss {
                        f.cap = None;
                    }
                    for id in &ids {
                        k.procs[*id].ops = vec![];
                    }
                    outcome.exits.push(ids.iter().map(|i| format!("{:?}", k.procs[*i].exit)).collect::<Vec<_>>().join(","));
                });
            }
            Step::PowerLoss { machine, remote, seed } => {
                power_losses += 1;
                with_oracle(|k, o| {
                    let mut rng = Rng::new(*seed);
                    let f = k.machines[*machine].root.fs;
                    k.fss[f].power_loss(&mut rng);
                    k.fss[f + 1].power_loss(&mut rng);
                    k.fss[f + 1].mkdirs("/user");
                    let remote = *remote && matches!(sc.remote, Remote::Fs);
                    if remote {
                        k.fss[0].power_loss(&mut rng);
                    }
                    *k.fault_counts.entry("power loss".into()).or_default() += 1;
                    k.real_ns += 60_000_000_000;
                    k.mono_ns += 60_000_000_000;
                    o.after_outage(k, *machine, remote);
                    k.seen_changes = k.changes();
                });
            }
            Step::Evict { machine, name } => with_oracle(|k, o| {
                let st = o.local[*machine];
                let _ = k.fss[st.fs].unlink(st.ino, &simfs::raw(name));
                k.fss[st.fs].sync_all();
                o.operator(k, *machine, name);
                k.seen_changes = k.changes();
            }),
            Step::Put { machine, plant: pl } => with_oracle(|k, o| {
                let at = match machine {
                    Some(m) => Some(o.local[*m]),
                    None => o.remote_fs,
                };
                let key = sc.key(&pl.name);
                let now = k.real_ns;
                plant(k, &mut o.world, &sc.knobs, at, key, pl, now);
                for f in &mut k.fss {
                    f.sync_all();
                }
                for m in 0..sc.machines.len() {
                    o.operator(k, m, &pl.name);
                }
                k.seen_changes = k.changes();
            }),
            Step::Clock { seconds } => kernel::with(|k| {
                // (the kernel accepts no time before 1970)
                k.real_ns = (k.real_ns + seconds * 1_000_000_000).max(1_000_000_000);
                *k.fault_counts.entry("clock jump".into()).or_default() += 1;
            }),
            Step::Idle => kernel::with(|k| {
                for f in &mut k.fss {
                    f.sync_all();
                }
                k.real_ns += 3_600_000_000_000;
                k.mono_ns += 3_600_000_000_000;
            }),
        }
    }
    with_oracle(|k, o| {
        o.refresh(k);
        for (s, snap) in &o.snaps {
            let name = match s {
                Store::Local(m) => format!("local {}", m),
                Store::Remote => "remote".to_string(),
            };
            let mut m = BTreeMap::new();
            for (n, e) in snap {
                let d = match &e.kind {
                    EntKind::File => format!("{} bytes, hash {:016x}", e.size, e.hash),
                    EntKind::Dir => "directory".into(),
                    EntKind::Fifo => "pipe".into(),
                    EntKind::Link(t) => format!("-> {}", String::from_utf8_lossy(t)),
                };
                m.insert(n.clone(), d);
            }
            outcome.stores.insert(name, m);
        }
        for m in 0..sc.machines.len() {
            outcome.current.push(o.current(k, m).map(|c| c.0));
        }
        RunResult {
            violations: o.violations.clone(),
            trace: k.trace,
            procs: infos,
            fault_counts: k.fault_counts.clone(),
            sim_ns: k.mono_ns - start_mono,
            states: {
                let mut s: Vec<u64> = o.states.iter().copied().collect();
                s.sort();
                s
            },
            ops: k.total_ops,
            switched: k.switched,
            checks: o.checks,
            outcome,
            requests: k.s3.requests.clone(),
            power_losses,
            log: std::mem::take(&mut k.log),
            broken: None,
        }
    })
}

pub fn brief(s: &Step) -> String {
    match s {
        Step::Group(g) => g.runs.iter().map(|r| format!("{:?} on {}", r.cmd, r.machine)).collect::<Vec<_>>().join(" || "),
        s => format!("{:?}", s),
    }
}

pub fn class_of(n: u8) -> Class {
    use Class::*;
    const ALL: [Class; 24] = [
        OpenR, Create, Read, Write, Copy, Stat, Opendir, Readdir, Rename, Unlink, Rmdir, Symlink, Link, Readlink, Realpath, Mkdir,
        Chmod, Fsync, Trunc, NetPut, NetGet, NetList, NetOther, Sleep,
    ];
    ALL[n as usize]
}
