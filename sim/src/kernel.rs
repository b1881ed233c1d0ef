//! The simulated operating system: processes, scheduling, clock, faults.
//!
//! Every simulated process is an OS thread running the program's real `main`.
//! Exactly one process runs at a time; control may pass to another one only at
//! an intercepted operation, and which one is decided by the scenario.
use crate::{
    oracle::Oracle,
    rng::{hash_bytes, mix, Rng},
    s3::S3Server,
    simfs::{Fs, Ino, Node, R},
};
use serde::{Deserialize, Serialize};
use std::{
    cell::Cell,
    collections::{BTreeMap, HashMap, HashSet},
    ffi::CString,
    sync::{Arc, Condvar, Mutex, MutexGuard},
};

pub const FD_BASE: i32 = 0x4000_0000;
pub const DRIVER: usize = usize::MAX;
/// an operation count no command needs; more is a hang
pub const OP_CAP: u64 = 60_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Class {
    OpenR,
    Create,
    Read,
    Write,
    Copy,
    Stat,
    Opendir,
    Readdir,
    Rename,
    Unlink,
    Rmdir,
    Symlink,
    Link,
    Readlink,
    Realpath,
    Mkdir,
    Chmod,
    Fsync,
    Trunc,
    NetPut,
    NetGet,
    NetList,
    NetOther,
    /// thread sleeping or waiting
    Sleep,
}

impl Class {
    pub fn mutates(self) -> bool {
        use Class::*;
        matches!(
            self,
            Create | Write | Copy | Rename | Unlink | Rmdir | Symlink | Link | Mkdir | Chmod | Fsync | Trunc | NetPut
        )
    }
    pub fn net(self) -> bool {
        use Class::*;
        matches!(self, NetPut | NetGet | NetList | NetOther)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum NetFault {
    /// the request never arrives
    DropRequest,
    /// the request is carried out but the answer never arrives
    DropResponse,
    Status(u16),
    /// a byte of the request body is altered on the way
    CorruptRequest(u64),
    /// a byte of the response body is altered on the way
    CorruptResponse(u64),
    /// the response body breaks off with a connection error
    Truncate(u64),
    /// the response body ends early without any error
    TruncateSilently(u64),
    /// the request arrives, but its body is cut short (and rejected for it)
    TruncateRequest(u64),
    /// the body of another object arrives
    WrongBody,
    /// something on the way removes the checksum and changes the content
    StripEtag(u64),
    /// the request arrives twice
    Duplicate,
    /// the list breaks off and does not tell how to go on
    NoToken,
    /// slow: this many extra polls
    Delay(u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FaultKind {
    Errno(i32),
    /// this and the next operations of the class fail
    ErrnoRun(i32, u32),
    /// fewer bytes than asked for
    Short,
    /// killed before / after the operation took effect
    Kill,
    KillAfter,
    Net(NetFault),
    /// this and the next requests of the class
    NetRun(NetFault, u32),
    /// wall clock jumps by this many seconds
    Clock(i64),
}

/// Fires at the first operation of class `class` (any, if none) whose number
/// within its process is at least `op`.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault {
    pub op: u64,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub class: Option<Class>,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Exit {
    Code(i32),
    /// ended through `exit`, but the value could not be observed
    Unknown,
    Panic,
    Abort,
    Killed,
    Hang,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct V {
    pub fs: usize,
    pub ino: Ino,
}

#[derive(Clone, Debug)]
pub struct Desc {
    pub v: V,
    pub off: u64,
    pub append: bool,
    pub read: bool,
    pub write: bool,
    pub path: Vec<u8>,
    pub proc: usize,
}

#[derive(Clone, Debug, Default)]
pub struct DirStream {
    pub fd: i32,
    pub entries: Option<Vec<(Vec<u8>, Ino, u8)>>,
    pub pos: usize,
}

#[derive(Clone, Debug)]
pub struct Machine {
    pub root: V,
    pub mounts: HashMap<V, V>,
    pub readdir_mode: u64,
}

#[derive(Clone, Debug)]
pub struct Proc {
    pub name: String,
    pub machine: usize,
    pub cwd: V,
    pub env: Vec<(Vec<u8>, CString)>,
    pub args: Vec<CString>,
    pub exit: Option<Exit>,
    pub started: bool,
    pub opn: u64,
    pub faults: Vec<Fault>,
    pub run: Option<(Class, i32, u32)>,
    pub net_run: Option<(Class, NetFault, u32)>,
    pub fired: Vec<(Class, String, Vec<u8>)>,
    pub out: Vec<u8>,
    pub ops: Vec<(Class, bool)>,
    pub pid: i32,
    pub umask: u32,
    pub threads: u64,
    pub editor: bool,
    /// bytes read from artefacts on the remote, by name
    pub fetched: BTreeMap<String, u64>,
    /// names written on the remote / in local store
    pub remote_puts: Vec<String>,
    pub local_writes: Vec<String>,
    /// when it started and ended, in global operation numbers
    pub span: (u64, u64),
}

pub struct Kernel {
    pub fss: Vec<Fs>,
    pub machines: Vec<Machine>,
    pub procs: Vec<Proc>,
    pub current: usize,
    /// first process of the running group
    pub group: usize,
    pub step: u64,
    pub total_ops: u64,
    /// (step, index in group), ascending
    pub switches: Vec<(u64, usize)>,
    pub switched: u64,
    pub real_ns: i64,
    pub mono_ns: i64,
    pub tick_ns: i64,
    pub rng: Rng,
    pub entropy: u64,
    pub net_rng: Rng,
    pub descs: Vec<Option<Desc>>,
    pub fds: HashMap<i32, usize>,
    pub next_fd: i32,
    pub dirs: HashMap<usize, DirStream>,
    pub dtype_unknown: bool,
    pub no_cwd: bool,
    pub mute: i32,
    pub trace: u64,
    pub log: Vec<String>,
    pub keep_log: bool,
    pub s3: S3Server,
    /// whether permission bits are enforced
    pub unprivileged: bool,
    pub oracle: Option<Box<Oracle>>,
    pub protected: HashSet<V>,
    pub seen_changes: u64,
    pub fault_counts: BTreeMap<String, u64>,
    pub exit_unobservable: bool,
    pub threads_in_group: usize,
}

static KERNEL: Mutex<Option<Kernel>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

thread_local! {
    static PROC: Cell<usize> = const { Cell::new(0) };
    static INK: Cell<u32> = const { Cell::new(0) };
    /// number of the thread within its process, and random draws it has made
    static THREAD: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

/// The simulated process the calling thread belongs to, unless the call comes
/// from inside the simulator.
#[inline]
pub fn sim() -> Option<usize> {
    let p = PROC.with(|p| p.get());
    if p == 0 || INK.with(|k| k.get()) > 0 {
        None
    } else {
        Some(p - 1)
    }
}
pub fn set_proc(p: Option<usize>) {
    PROC.with(|c| c.set(p.map(|p| p + 1).unwrap_or(0)));
}

pub fn set_thread(n: u64) {
    THREAD.with(|t| t.set((n, 0)));
}
/// Randomness as the operating system hands it out: a stream per thread, so
/// that it does not depend on how the host schedules helper threads.
pub fn random(k: &Kernel, p: usize, buf: &mut [u8]) {
    let (n, draw) = THREAD.with(|t| {
        let v = t.get();
        t.set((v.0, v.1 + 1));
        v
    });
    let mut r = Rng::new(mix(k.entropy ^ mix((p as u64) << 32 ^ n << 16 ^ draw)));
    buf.copy_from_slice(&r.bytes(buf.len()));
}

pub struct InKernel {
    errno: i32,
}
pub fn in_kernel() -> InKernel {
    INK.with(|k| k.set(k.get() + 1));
    InKernel { errno: unsafe { *libc::__errno_location() } }
}
impl Drop for InKernel {
    fn drop(&mut self) {
        INK.with(|k| k.set(k.get() - 1));
        // (the simulated program must not see what the simulator's own calls did)
        unsafe { *libc::__errno_location() = self.errno };
    }
}

/// Is the calling thread inside the simulator?
pub fn inside() -> bool {
    INK.with(|k| k.get()) > 0
}

pub fn lock() -> MutexGuard<'static, Option<Kernel>> {
    KERNEL.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn with<T>(f: impl FnOnce(&mut Kernel) -> T) -> T {
    let _g = in_kernel();
    let mut k = lock();
    f(k.as_mut().expect("kernel"))
}
pub fn install(k: Kernel) {
    *lock() = Some(k);
}

fn park_forever() -> ! {
    loop {
        std::thread::park();
    }
}

fn wait_turn<'a>(mut g: MutexGuard<'a, Option<Kernel>>, p: usize) -> MutexGuard<'a, Option<Kernel>> {
    loop {
        {
            let k = g.as_ref().expect("kernel");
            if k.procs[p].exit.is_some() {
                drop(g);
                park_forever();
            }
            if k.current == p {
                return g;
            }
        }
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

impl Kernel {
    pub fn logline(&mut self, s: impl FnOnce() -> String) {
        if self.keep_log && self.log.len() < 20_000 {
            let l = s();
            self.log.push(l);
        }
    }

    fn runnable(&self) -> Vec<usize> {
        (self.group..self.procs.len()).filter(|p| self.procs[*p].exit.is_none()).collect()
    }
    fn hand_over(&mut self, to: usize) {
        self.current = to;
        if to != DRIVER {
            crate::interpose::set_args(&self.procs[to].args);
        }
        CV.notify_all();
    }
    fn next_after_exit(&mut self) {
        let r = self.runnable();
        // never leave the choice to the host: the scenario's next pending
        // switch may name someone, otherwise the lowest goes on
        let to = r.first().copied().unwrap_or(DRIVER);
        self.hand_over(to);
    }
    fn close_all(&mut self, p: usize) {
        for d in self.descs.iter_mut() {
            if matches!(d, Some(x) if x.proc == p) {
                *d = None;
            }
        }
    }
    fn end(&mut self, p: usize, e: Exit) {
        if self.procs[p].exit.is_some() {
            return;
        }
        self.trace = mix(self.trace ^ hash_bytes(p as u64, format!("{:?}", e).as_bytes()));
        self.logline(|| format!("[{}] ends: {:?}", p, e));
        self.procs[p].exit = Some(e);
        self.procs[p].span.1 = self.total_ops;
        self.close_all(p);
        self.next_after_exit();
    }

    fn advance(&mut self) {
        let t = if self.tick_ns > 0 { 1 + self.rng.below(2 * self.tick_ns as usize) as i64 } else { 0 };
        self.real_ns += t;
        self.mono_ns += t.max(1);
    }

    pub fn changes(&self) -> u64 {
        self.fss.iter().map(|f| f.changes).sum::<u64>() + self.s3.changes
    }

    // ---- path resolution ----

    fn cross(&self, m: usize, v: V) -> V {
        self.machines[m].mounts.get(&v).copied().unwrap_or(v)
    }
    fn parent(&self, m: usize, v: V) -> V {
        let fs = &self.fss[v.fs];
        if v.ino == fs.root {
            for (on, mounted) in &self.machines[m].mounts {
                if *mounted == v {
                    return self.parent(m, *on);
                }
            }
            return v;
        }
        V { fs: v.fs, ino: fs.inodes[v.ino].parent }
    }

    /// Resolves `path`; returns the directory, the last component, and what it
    /// names (if it exists).
    pub fn resolve(&self, m: usize, at: V, path: &[u8], follow: bool) -> R<(V, Vec<u8>, Option<V>)> {
        let mut hops = 0;
        self.resolve_from(m, at, path, follow, &mut hops)
    }
    fn resolve_from(&self, m: usize, at: V, path: &[u8], follow: bool, hops: &mut u32) -> R<(V, Vec<u8>, Option<V>)> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let mut cur = if path[0] == b'/' { self.machines[m].root } else { at };
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").collect();
        let want_dir = path.ends_with(b"/") || path.ends_with(b"/.");
        if comps.is_empty() {
            return Ok((cur, b".".to_vec(), Some(cur)));
        }
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            if !self.fss[cur.fs].is_dir(cur.ino) {
                return Err(libc::ENOTDIR);
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if *c == b".." {
                cur = self.parent(m, cur);
                if last {
                    return Ok((cur, b".".to_vec(), Some(cur)));
                }
                continue;
            }
            let found = match self.fss[cur.fs].lookup(cur.ino, c) {
                Ok(i) => self.cross(m, V { fs: cur.fs, ino: i }),
                Err(e) if last && e == libc::ENOENT => return Ok((cur, c.to_vec(), None)),
                Err(e) => return Err(e),
            };
            if let Node::Link(t) = &self.fss[found.fs].inodes[found.ino].node {
                if !last || follow || want_dir {
                    *hops += 1;
                    if *hops > 40 {
                        return Err(libc::ELOOP);
                    }
                    let (d, n, v) = self.resolve_from(m, cur, t, true, hops)?;
                    if last {
                        return Ok((d, n, v));
                    }
                    cur = v.ok_or(libc::ENOENT)?;
                    continue;
                }
            }
            if last {
                if want_dir && !self.fss[found.fs].is_dir(found.ino) {
                    return Err(libc::ENOTDIR);
                }
                return Ok((cur, c.to_vec(), Some(found)));
            }
            cur = found;
        }
        unreachable!()
    }
    pub fn find(&self, m: usize, at: V, path: &[u8], follow: bool) -> R<V> {
        self.resolve(m, at, path, follow)?.2.ok_or(libc::ENOENT)
    }
    /// Absolute path of a directory.
    pub fn path_of(&self, m: usize, v: V) -> Vec<u8> {
        let mut parts: Vec<Vec<u8>> = vec![];
        let mut cur = v;
        let root = self.machines[m].root;
        let mut guard = 0;
        while cur != root && guard < 100 {
            guard += 1;
            let mut at = cur;
            if cur.ino == self.fss[cur.fs].root {
                match self.machines[m].mounts.iter().find(|(_, t)| **t == cur) {
                    Some((on, _)) => at = *on,
                    None => break,
                }
            }
            let p = self.fss[at.fs].inodes[at.ino].parent;
            let name = self.fss[at.fs]
                .dir(p)
                .ok()
                .and_then(|d| d.iter().find(|(_, i)| **i == at.ino).map(|(n, _)| n.clone()))
                .unwrap_or_default();
            parts.push(name);
            cur = V { fs: at.fs, ino: p };
        }
        let mut out = vec![];
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(p);
        }
        if out.is_empty() {
            out.push(b'/');
        }
        out
    }
    pub fn realpath(&self, m: usize, at: V, path: &[u8]) -> R<Vec<u8>> {
        let (dir, name, v) = self.resolve(m, at, path, true)?;
        let v = v.ok_or(libc::ENOENT)?;
        if self.fss[v.fs].is_dir(v.ino) {
            return Ok(self.path_of(m, v));
        }
        let mut p = self.path_of(m, dir);
        if p != b"/" {
            p.push(b'/');
        }
        p.extend_from_slice(&name);
        Ok(p)
    }

    // ---- descriptors ----

    pub fn new_fd(&mut self, d: Desc) -> i32 {
        self.descs.push(Some(d));
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, self.descs.len() - 1);
        fd
    }
    pub fn dup_fd(&mut self, fd: i32) -> R<i32> {
        let d = *self.fds.get(&fd).ok_or(libc::EBADF)?;
        let n = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(n, d);
        Ok(n)
    }
    pub fn desc(&mut self, fd: i32) -> R<&mut Desc> {
        let d = *self.fds.get(&fd).ok_or(libc::EBADF)?;
        self.descs[d].as_mut().ok_or(libc::EBADF)
    }
    pub fn base(&mut self, p: usize, dirfd: i32) -> R<V> {
        if dirfd == libc::AT_FDCWD {
            Ok(self.procs[p].cwd)
        } else {
            Ok(self.desc(dirfd)?.v)
        }
    }

    /// Order in which a directory is listed.
    pub fn list_dir(&self, m: usize, v: V) -> R<Vec<(Vec<u8>, Ino, u8)>> {
        let fs = &self.fss[v.fs];
        let mut names: Vec<(Vec<u8>, Ino)> = fs.dir(v.ino)?.iter().map(|(n, i)| (n.clone(), *i)).collect();
        match self.machines[m].readdir_mode {
            0 => {}
            1 => names.reverse(),
            s => names.sort_by_key(|(n, _)| hash_bytes(s, n)),
        }
        let up = self.parent(m, v);
        let mut out = vec![(b".".to_vec(), v.ino, libc::DT_DIR), (b"..".to_vec(), up.ino, libc::DT_DIR)];
        for (n, i) in names {
            let t = if self.dtype_unknown {
                libc::DT_UNKNOWN
            } else {
                match fs.inodes[i].node {
                    Node::File(_) => libc::DT_REG,
                    Node::Dir(_) => libc::DT_DIR,
                    Node::Link(_) => libc::DT_LNK,
                    Node::Fifo => libc::DT_FIFO,
                }
            };
            out.push((n, i, t));
        }
        Ok(out)
    }

    /// Writing or moving something the simulated programs must leave alone?
    pub fn touch_check(&mut self, p: usize, v: V, what: &str) {
        if self.protected.contains(&v) && !self.procs[p].editor {
            let msg = format!("{}: {} of a protected input (inode {}:{})", self.procs[p].name, what, v.fs, v.ino);
            if let Some(o) = self.oracle.as_mut() {
                o.report("input-altered", msg);
            }
        }
    }
}

/// What the fault machinery decided about the current operation.
pub enum Decision {
    Go,
    Fail(i32),
    Short,
    Net(NetFault),
}

fn decide(k: &mut Kernel, p: usize, class: Class, path: &[u8]) -> (Decision, Option<Exit>, bool) {
    let n = k.procs[p].opn;
    if let Some((c, e, left)) = k.procs[p].run {
        if c == class && left > 0 {
            k.procs[p].run = Some((c, e, left - 1));
            k.procs[p].fired.push((class, format!("errno {}", e), path.to_vec()));
            *k.fault_counts.entry(format!("{:?}:{}", class, errname(e))).or_default() += 1;
            return (Decision::Fail(e), None, false);
        }
    }
    if let Some((c, f, left)) = k.procs[p].net_run.clone() {
        if c == class && left > 0 {
            k.procs[p].net_run = Some((c, f.clone(), left - 1));
            let tag = format!("{:?}:{}", class, netname(&f));
            if !tag.contains("Delay") && !tag.contains("Duplicate") && k.procs[p].fired.len() < 1000 {
                k.procs[p].fired.push((class, tag.clone(), path.to_vec()));
            }
            *k.fault_counts.entry(tag).or_default() += 1;
            return (Decision::Net(f), None, false);
        }
    }
    let pos = k.procs[p].faults.iter().position(|f| f.op <= n && f.class.map_or(true, |c| c == class));
    let f = match pos {
        Some(i) => k.procs[p].faults.remove(i),
        None => return (Decision::Go, None, false),
    };
    let tag = match &f.kind {
        FaultKind::Errno(e) => format!("{:?}:{}", class, errname(*e)),
        FaultKind::ErrnoRun(e, _) => format!("{:?}:{} (repeated)", class, errname(*e)),
        FaultKind::Short => format!("{:?}:short", class),
        FaultKind::Kill | FaultKind::KillAfter => "kill".to_string(),
        FaultKind::Net(f) => format!("{:?}:{}", class, netname(f)),
        FaultKind::NetRun(f, _) => format!("{:?}:{} (repeated)", class, netname(f)),
        FaultKind::Clock(_) => "clock jump".to_string(),
    };
    k.logline(|| format!("[{}] fault {:?} at op {}", p, f, n));
    if let FaultKind::NetRun(f, c) = &f.kind {
        k.procs[p].net_run = Some((class, f.clone(), *c));
    }
    let mut fired = true;
    let out = match f.kind {
        FaultKind::Errno(e) => (Decision::Fail(e), None, false),
        FaultKind::ErrnoRun(e, c) => {
            k.procs[p].run = Some((class, e, c));
            (Decision::Fail(e), None, false)
        }
        FaultKind::Short => (Decision::Short, None, false),
        FaultKind::Kill => (Decision::Go, Some(Exit::Killed), false),
        FaultKind::KillAfter => (Decision::Go, Some(Exit::Killed), true),
        FaultKind::Net(f) | FaultKind::NetRun(f, _) => {
            if class.net() {
                (Decision::Net(f), None, false)
            } else {
                fired = false;
                (Decision::Go, None, false)
            }
        }
        FaultKind::Clock(s) => {
            k.real_ns = (k.real_ns + s * 1_000_000_000).max(1_000_000_000);
            (Decision::Go, None, false)
        }
    };
    if fired {
        *k.fault_counts.entry(tag.clone()).or_default() += 1;
        if !tag.starts_with("clock") && !tag.contains("Delay") && !tag.contains("short") && !tag.contains("Duplicate") {
            k.procs[p].fired.push((class, tag, path.to_vec()));
        }
    }
    out
}

pub fn errname(e: i32) -> String {
    match e {
        libc::EIO => "EIO".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EACCES => "EACCES".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::EROFS => "EROFS".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::EPERM => "EPERM".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::EINVAL => "EINVAL".into(),
        libc::ESTALE => "ESTALE".into(),
        e => format!("errno{}", e),
    }
}
pub fn netname(f: &NetFault) -> String {
    let s = format!("{:?}", f);
    match f {
        NetFault::Status(c) => format!("status {}", c),
        _ => s.split('(').next().unwrap_or("").to_string(),
    }
}

/// Runs one operation of the calling simulated process: a scheduling point, a
/// fault point, the operation itself, then the invariants.
pub fn op<T>(p: usize, class: Class, path: &[u8], f: impl FnOnce(&mut Kernel, usize, &Decision) -> R<T>) -> R<T> {
    let _ink = in_kernel();
    let mut g = wait_turn(lock(), p);
    {
        let k = g.as_mut().expect("kernel");
        k.step += 1;
        k.total_ops += 1;
        k.advance();
        // scheduling
        let mut to = None;
        while let Some((s, t)) = k.switches.first().copied() {
            if s > k.step {
                break;
            }
            k.switches.remove(0);
            to = Some(k.group + t);
        }
        if let Some(t) = to {
            if t < k.procs.len() && t != p && k.procs[t].exit.is_none() {
                k.switched += 1;
                k.hand_over(t);
                g = wait_turn(g, p);
            }
        }
    }
    let k = g.as_mut().expect("kernel");
    k.procs[p].opn += 1;
    if k.procs[p].opn > OP_CAP {
        k.end(p, Exit::Hang);
        drop(g);
        park_forever();
    }
    if k.procs[p].ops.len() < 5000 {
        let store = is_store_path(path);
        k.procs[p].ops.push((class, store));
    }
    let (decision, kill, after) = decide(k, p, class, path);
    if let (Some(e), false) = (&kill, after) {
        let e = e.clone();
        k.end(p, e);
        drop(g);
        park_forever();
    }
    let r = match decision {
        Decision::Fail(e) => Err(e),
        d => f(k, p, &d),
    };
    let errno = r.as_ref().err().copied().unwrap_or(0);
    k.trace = mix(k.trace ^ hash_bytes(((p as u64) << 40) ^ ((class as u64) << 32) ^ errno as u64, path));
    k.logline(|| {
        format!(
            "[{}] #{} {:?} {}{}",
            p,
            k_opn(p, errno),
            class,
            String::from_utf8_lossy(path),
            if errno != 0 { format!(" -> {}", errname(errno)) } else { String::new() }
        )
    });
    let c = k.changes();
    if c != k.seen_changes {
        k.seen_changes = c;
        if let Some(mut o) = k.oracle.take() {
            o.after_op(k, p);
            k.oracle = Some(o);
        }
    }
    if let (Some(e), true) = (kill, after) {
        k.end(p, e);
        drop(g);
        park_forever();
    }
    r
}
fn k_opn(_p: usize, _e: i32) -> String {
    String::new()
}

pub fn is_store_path(path: &[u8]) -> bool {
    path.starts_with(b"/store") || path.starts_with(b"/remote")
}

/// Something the process does that is neither a fault nor a scheduling point.
pub fn quick<T>(p: usize, f: impl FnOnce(&mut Kernel, usize) -> T) -> T {
    let _ink = in_kernel();
    let mut g = lock();
    if g.as_ref().expect("kernel").procs[p].exit.is_some() {
        drop(g);
        park_forever();
    }
    f(g.as_mut().expect("kernel"), p)
}

/// The calling process ends here and now; does not return.
pub fn die(p: usize, e: Exit) -> ! {
    std::mem::forget(in_kernel());
    {
        let mut g = lock();
        let k = g.as_mut().expect("kernel");
        k.end(p, e);
    }
    park_forever()
}

fn finish(p: usize, e: Exit) {
    let _ink = in_kernel();
    let mut g = lock();
    g.as_mut().expect("kernel").end(p, e);
}

pub type Body = Box<dyn FnOnce() -> Exit + Send>;

/// Runs a group of processes to completion under the given switch points.
pub fn run_group(procs: Vec<(Proc, Body)>, switches: Vec<(u64, usize)>) -> Vec<usize> {
    let _ink = in_kernel();
    let mut ids = vec![];
    let mut bodies = vec![];
    {
        let mut g = lock();
        let k = g.as_mut().expect("kernel");
        k.group = k.procs.len();
        k.step = 0;
        k.switches = switches;
        for (mut pr, b) in procs {
            pr.span = (k.total_ops, u64::MAX);
            ids.push(k.procs.len());
            k.procs.push(pr);
            bodies.push(b);
        }
    }
    let entropy = { lock().as_mut().expect("kernel").entropy };
    for (i, b) in ids.iter().zip(bodies) {
        let p = *i;
        let fr = mix(entropy ^ p as u64);
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                {
                    let _ink = in_kernel();
                    let mut g = wait_turn(lock(), p);
                    g.as_mut().expect("kernel").procs[p].started = true;
                }
                fastrand::seed(fr);
                set_thread(0);
                set_proc(Some(p));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                let e = r.unwrap_or(Exit::Panic);
                finish(p, e);
                set_proc(None);
            })
            .expect("thread");
    }
    let mut g = lock();
    {
        let k = g.as_mut().expect("kernel");
        let first = ids[0];
        k.hand_over(first);
    }
    while g.as_ref().expect("kernel").current != DRIVER {
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    ids
}

pub fn file_bytes(k: &Kernel, v: V) -> Option<Arc<Vec<u8>>> {
    k.fss[v.fs].data(v.ino).cloned()
}
