//! Judges a run: invariants after every operation that changed anything, and
//! checks over the recorded history when commands have ended.
use crate::{
    kernel::{Class, Exit, Kernel, V},
    rng::hash_bytes,
    scenario::*,
    simfs::{self, Node},
    world::{same_tag, select_tags, Verdict, World},
};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Violation {
    pub properties: Vec<String>,
    pub kind: String,
    pub step: usize,
    pub message: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EntKind {
    File,
    Dir,
    Fifo,
    Link(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ent {
    pub kind: EntKind,
    pub size: u64,
    pub hash: u64,
    pub good: bool,
    pub planted: bool,
}
pub type Snap = BTreeMap<String, Ent>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Store {
    Local(usize),
    Remote,
}

/// What a command is expected to do, worked out before it starts.
#[derive(Clone, Debug, Default)]
pub struct Expect {
    /// succeeds, if nothing disturbs it
    pub ok: bool,
    /// names that must be good in the local store after a success
    pub local: Vec<String>,
    pub patches: Vec<String>,
    /// names that must be on the remote after a success
    pub remote: Vec<String>,
    /// current version after a success
    pub current: Option<String>,
    /// must end with a failure (its request cannot be met)
    pub must_fail: bool,
    /// exact set of names it has to upload (if it uploads at all)
    pub uploads: Option<BTreeSet<String>>,
    /// most it may fetch
    pub budget: Option<u64>,
}

pub struct Oracle {
    pub world: World,
    pub machines: usize,
    pub local: Vec<V>,
    pub tmp: Vec<V>,
    pub work: Vec<V>,
    pub remote_fs: Option<V>,
    pub violations: Vec<Violation>,
    pub step: usize,
    pub seen: HashMap<Store, BTreeMap<String, (usize, u64)>>,
    pub snaps: HashMap<Store, Snap>,
    pub base: HashMap<Store, Snap>,
    pub base_tmp: Vec<BTreeSet<String>>,
    pub base_work: Vec<BTreeMap<String, (usize, u64, u32)>>,
    pub base_elsewhere: BTreeMap<String, u64>,
    /// what is known to be installed, per machine
    pub installed: Vec<Option<String>>,
    pub allowed: Vec<BTreeSet<String>>,
    pub expects: Vec<Expect>,
    pub group: Option<Group>,
    /// effects reported as done: per store, names; per machine, current
    pub acked: HashMap<Store, BTreeSet<String>>,
    pub acked_current: Vec<Option<String>>,
    /// what `current` may have been since the last acknowledged install
    pub since: Vec<BTreeSet<String>>,
    pub states: HashSet<u64>,
    reported: HashSet<String>,
    pub checks: u64,
    pub last: Option<(Run, bool)>,
    /// packages made, by version and compression level
    packages: HashMap<(String, i32), u64>,
    pub foreign: bool,
    pub damaged: bool,
    pub undisturbed: bool,
}

impl Oracle {
    pub fn new(world: World, local: Vec<V>, tmp: Vec<V>, work: Vec<V>, remote_fs: Option<V>) -> Oracle {
        let n = local.len();
        Oracle {
            world,
            machines: n,
            local,
            tmp,
            work,
            remote_fs,
            violations: vec![],
            step: 0,
            seen: HashMap::new(),
            snaps: HashMap::new(),
            base: HashMap::new(),
            base_tmp: vec![],
            base_work: vec![],
            base_elsewhere: BTreeMap::new(),
            installed: vec![None; n],
            allowed: vec![BTreeSet::new(); n],
            expects: vec![],
            group: None,
            acked: HashMap::new(),
            acked_current: vec![None; n],
            since: vec![BTreeSet::new(); n],
            states: HashSet::new(),
            reported: HashSet::new(),
            checks: 0,
            last: None,
            packages: HashMap::new(),
            foreign: false,
            damaged: false,
            undisturbed: true,
        }
    }

    pub fn violation(&mut self, props: &[&str], kind: &str, message: String) {
        let key = format!("{} {}", kind, message);
        if self.violations.len() >= 20 || !self.reported.insert(key) {
            return;
        }
        let mut p: Vec<String> = props.iter().map(|s| s.to_string()).collect();
        p.sort();
        p.dedup();
        self.violations.push(Violation { properties: p, kind: kind.into(), step: self.step, message });
    }
    /// Reports from the kernel.
    pub fn report(&mut self, kind: &str, message: String) {
        self.violation(&["C12"], kind, message);
    }

    /// Name of the artefact on the remote, if `v` is one.
    pub fn remote_name(&self, k: &Kernel, v: V) -> Option<String> {
        let r = self.remote_fs?;
        if r.fs != v.fs {
            return None;
        }
        k.fss[r.fs].dir(r.ino).ok()?.iter().find(|(_, i)| **i == v.ino).map(|(n, _)| simfs::shown(n))
    }

    fn stores(&self) -> Vec<(Store, Option<V>)> {
        let mut s: Vec<(Store, Option<V>)> = self.local.iter().enumerate().map(|(i, v)| (Store::Local(i), Some(*v))).collect();
        s.push((Store::Remote, self.remote_fs));
        s
    }
    fn concurrent(&self) -> bool {
        self.group.as_ref().map_or(false, |g| g.runs.iter().filter(|r| !matches!(r.cmd, Cmd::Edit { .. })).count() > 1)
    }
    fn is_s3(&self) -> bool {
        self.remote_fs.is_none()
    }

    /// Brings the picture of all stores up to date; returns names that changed.
    pub fn refresh(&mut self, k: &Kernel) -> Vec<(Store, String)> {
        let mut changed = vec![];
        for (id, v) in self.stores() {
            let mut now: BTreeMap<String, (usize, u64)> = BTreeMap::new();
            match v {
                Some(v) => {
                    if let Ok(d) = k.fss[v.fs].dir(v.ino) {
                        for (n, i) in d {
                            now.insert(simfs::shown(n), (*i, k.fss[v.fs].inodes[*i].ver));
                        }
                    }
                }
                None => {
                    let pre = self.world.sc.key("");
                    for (key, o) in &k.s3.objects {
                        if let Some(n) = key.strip_prefix(&pre) {
                            now.insert(n.to_string(), (0, o.ver));
                        }
                    }
                }
            }
            let old = self.seen.remove(&id).unwrap_or_default();
            if old == now {
                self.seen.insert(id, now);
                continue;
            }
            let snap = self.snaps.entry(id).or_default();
            for n in old.keys() {
                if !now.contains_key(n) {
                    snap.remove(n);
                    changed.push((id, n.clone()));
                }
            }
            for (n, x) in &now {
                if old.get(n) == Some(x) {
                    continue;
                }
                let (kind, data): (EntKind, Option<std::sync::Arc<Vec<u8>>>) = match v {
                    Some(v) => match &k.fss[v.fs].inodes[x.0].node {
                        Node::File(d) => (EntKind::File, Some(d.clone())),
                        Node::Dir(_) => (EntKind::Dir, None),
                        Node::Fifo => (EntKind::Fifo, None),
                        Node::Link(t) => (EntKind::Link(t.clone()), None),
                    },
                    None => (EntKind::File, Some(k.s3.objects[&self.world.sc.key(n)].data.clone())),
                };
                let mut e = Ent { kind, size: 0, hash: 0, good: false, planted: false };
                if let Some(d) = data {
                    e.size = match v {
                        Some(_) => d.len() as u64,
                        None => k.s3.objects[&self.world.sc.key(n)].size(),
                    };
                    e.hash = hash_bytes(1, &d);
                    if artefact_suffix(n) {
                        self.checks += 1;
                        match self.world.verify(n, &d) {
                            Verdict::Good => e.good = true,
                            Verdict::Planted => e.planted = true,
                            Verdict::Bad(_) => {}
                        }
                    }
                }
                snap.insert(n.clone(), e);
                changed.push((id, n.clone()));
            }
            self.seen.insert(id, now);
        }
        changed
    }

    fn bad_reason(&mut self, k: &Kernel, id: Store, name: &str) -> String {
        let data = match id {
            Store::Local(m) => {
                let v = self.local[m];
                k.fss[v.fs].lookup(v.ino, &simfs::raw(name)).ok().and_then(|i| k.fss[v.fs].data(i).cloned())
            }
            Store::Remote => match self.remote_fs {
                Some(v) => k.fss[v.fs].lookup(v.ino, &simfs::raw(name)).ok().and_then(|i| k.fss[v.fs].data(i).cloned()),
                None => k.s3.objects.get(&self.world.sc.key(name)).map(|o| o.data.clone()),
            },
        };
        match data {
            Some(d) => match self.world.verify(name, &d) {
                Verdict::Bad(e) => format!("{} ({} bytes)", e, d.len()),
                v => format!("{:?}", v),
            },
            None => "not a file".into(),
        }
    }

    /// Version `current` leads to on machine `m`, and whether it is a complete
    /// build in the store; `None` if there is no `current` at all.
    pub fn current(&self, k: &Kernel, m: usize) -> Option<(String, bool)> {
        let st = self.local[m];
        let i = k.fss[st.fs].lookup(st.ino, b"current").ok()?;
        let t = match &k.fss[st.fs].inodes[i].node {
            Node::Link(t) => t.clone(),
            _ => return Some(("(not a link)".into(), false)),
        };
        match k.resolve(m, st, &t, true) {
            // (an empty file is as good as none)
            Ok((_, _, Some(v))) if k.fss[v.fs].data(v.ino).map_or(false, |d| d.is_empty()) => {
                Some((format!("(dangling: {})", simfs::shown(&t)), false))
            }
            Ok((dir, name, Some(v))) => {
                let n = simfs::shown(&name);
                let version = parse_build(&n).unwrap_or_else(|| format!("({})", n));
                let in_store = dir == st;
                let good = in_store
                    && self.snaps.get(&Store::Local(m)).and_then(|s| s.get(&n)).map_or(false, |e| e.good)
                    && k.fss[v.fs].data(v.ino).is_some();
                Some((version, good))
            }
            _ => {
                let n = simfs::shown(&t);
                Some((format!("(dangling: {})", n), false))
            }
        }
    }

    // ------------------------------------------------------------ invariants

    fn extra<'a>(&self, v: &[&'a str]) -> Vec<&'a str> {
        let mut x = v.to_vec();
        if self.concurrent() {
            x.push("C11");
        }
        x
    }

    pub fn after_op(&mut self, k: &mut Kernel, p: usize) {
        let changed = self.refresh(k);
        let who = k.procs.get(p).map_or(String::new(), |p| p.name.clone());
        for (id, name) in &changed {
            self.check_name(k, *id, name, &who, p);
            let there = self.snaps.get(id).map_or(false, |s| s.get(name).map_or(false, |e| e.kind == EntKind::File));
            if there && artefact_suffix(name) && p < k.procs.len() {
                match id {
                    Store::Local(_) => k.procs[p].local_writes.push(name.clone()),
                    // (requests are recorded by the S3 service)
                    Store::Remote if !self.is_s3() => k.procs[p].remote_puts.push(name.clone()),
                    Store::Remote => {}
                }
            }
        }
        if !changed.is_empty() {
            self.fingerprint(k);
        }
        for n in std::mem::take(&mut self.world.differing) {
            self.violation(&["C13"], "package-differs", format!("{}: {} differs from a package made of the same tree before", who, n));
        }
        for m in 0..self.machines {
            self.check_current(k, m, &who, &["C02"], "current-lost");
        }
        if self.is_s3() {
            let now = self.elsewhere(k);
            if now != self.base_elsewhere {
                let d: Vec<&String> = now.keys().chain(self.base_elsewhere.keys()).filter(|n| now.get(*n) != self.base_elsewhere.get(*n)).collect();
                let msg = format!("{} changed objects outside the store: {:?}", who, d);
                self.violation(&["C07", "C09", "C12"], "outside-store", msg);
                self.base_elsewhere = now;
            }
        }
    }

    fn elsewhere(&self, k: &Kernel) -> BTreeMap<String, u64> {
        let pre = self.world.sc.key("");
        k.s3.objects.iter().filter(|(n, _)| !n.starts_with(&pre)).map(|(n, o)| (n.clone(), o.ver)).collect()
    }

    fn fingerprint(&mut self, k: &Kernel) {
        let mut h = 0u64;
        for (id, s) in &self.snaps {
            let mut x = hash_bytes(7, format!("{:?}", id).as_bytes());
            for (n, e) in s {
                let n = if artefact_suffix(n) || n == "current" { n.as_str() } else { "other" };
                x = hash_bytes(x, n.as_bytes()) ^ e.size.rotate_left(7) ^ (e.good as u64);
            }
            h ^= x;
        }
        for m in 0..self.machines {
            h = hash_bytes(h, format!("{:?}", self.current(k, m)).as_bytes());
        }
        self.states.insert(h);
    }

    fn check_name(&mut self, k: &Kernel, id: Store, name: &str, who: &str, p: usize) {
        let now = self.snaps.get(&id).and_then(|s| s.get(name)).cloned();
        let before = self.base.get(&id).and_then(|s| s.get(name)).cloned();
        if let Some(b) = &before {
            match &now {
                None if name != "current" => {
                    if b.good || b.planted {
                        let props = self.extra(&["C12"]);
                        self.violation(&props, "artefact-lost", format!("{}: {:?}/{} is gone", who, id, name));
                    } else {
                        let mut props = self.extra(&["C12", "C16"]);
                        if artefact_suffix(name) {
                            props.push("C07");
                        }
                        self.violation(&props, "foreign-altered", format!("{}: {:?}/{} is gone", who, id, name));
                    }
                }
                Some(n) if !artefact_suffix(name) && name != "current" && n != b => {
                    let props = self.extra(&["C12", "C16"]);
                    self.violation(&props, "foreign-altered", format!("{}: {:?}/{} was changed", who, id, name));
                }
                Some(n) if artefact_suffix(name) && b.kind != EntKind::File && n != b => {
                    self.violation(&["C12", "C16"], "foreign-altered", format!("{}: {:?}/{} was replaced", who, id, name));
                }
                _ => {}
            }
        }
        let now = match now {
            Some(n) => n,
            None => return,
        };
        if artefact_suffix(name) && before.as_ref() != Some(&now) && now.kind == EntKind::File && !now.good && !now.planted {
            let why = self.bad_reason(k, id, name);
            let mut props = self.extra(&["C01"]);
            if before.as_ref().map_or(false, |b| b.good) {
                props.push("C12");
            }
            if id == Store::Remote {
                props.push("C07");
                if self.is_s3() {
                    props.push("C08");
                }
            } else if self.is_s3() && k.procs.get(p).map_or(false, |p| p.fired.iter().any(|f| f.0.net())) {
                props.push("C08");
            }
            if who.contains("install") && parse_build(name).is_some() && id != Store::Remote {
                props.push("C05");
            }
            if who.contains("add-package") && parse_build(name).is_some() {
                props.push("C13");
            }
            self.violation(&props, "bad-artefact", format!("{}: {:?}/{} is not a complete artefact: {}", who, id, name, why));
        }
        if artefact_suffix(name) && now.kind != EntKind::File && before.is_none() {
            self.violation(&["C01"], "bad-artefact", format!("{}: {:?}/{} is not a file", who, id, name));
        }
    }

    fn check_current(&mut self, k: &Kernel, m: usize, who: &str, props: &[&str], kind: &str) {
        let base = match self.installed[m].clone() {
            Some(b) => b,
            None => return,
        };
        let props = self.extra(props);
        match self.current(k, m) {
            None => self.violation(&props, kind, format!("{}: machine {} has no `current` any more ({} was installed)", who, m, base)),
            Some((v, good)) => {
                if !good {
                    self.violation(&props, kind, format!("{}: `current` of machine {} leads to {}, which is no complete build", who, m, v));
                } else if v != base && !self.allowed[m].contains(&v) {
                    self.violation(
                        &props,
                        kind,
                        format!("{}: `current` of machine {} is {}, neither old ({}) nor new ({:?})", who, m, v, base, self.allowed[m]),
                    );
                }
            }
        }
    }

    // ------------------------------------------------------------ per group

    fn tmp_names(&self, k: &Kernel, m: usize) -> BTreeSet<String> {
        let v = self.tmp[m];
        let mut names: BTreeSet<String> = k.fss[v.fs].dir(v.ino).map(|d| d.keys().map(|n| simfs::shown(n)).collect()).unwrap_or_default();
        if let Ok(user) = k.fss[v.fs].lookup(v.ino, b"user") {
            names.extend(k.fss[v.fs].dir(user).into_iter().flat_map(|d| d.keys().map(|n| format!("user/{}", simfs::shown(n)))));
        }
        names
    }
    fn work_tree(&self, k: &Kernel, m: usize) -> BTreeMap<String, (usize, u64, u32)> {
        let mut out = BTreeMap::new();
        let v = self.work[m];
        let mut todo = vec![(String::new(), v.ino)];
        while let Some((p, d)) = todo.pop() {
            if let Ok(m) = k.fss[v.fs].dir(d) {
                for (n, i) in m {
                    let path = format!("{}/{}", p, simfs::shown(n));
                    let x = &k.fss[v.fs].inodes[*i];
                    out.insert(path.clone(), (*i, x.ver, x.mode));
                    if k.fss[v.fs].is_dir(*i) {
                        todo.push((path, *i));
                    }
                }
            }
        }
        out
    }

    /// A file that the index takes for an artefact.
    fn indexed(e: &Ent) -> bool {
        e.kind == EntKind::File && e.size > 0
    }
    fn builds(s: &Snap) -> BTreeMap<String, u64> {
        s.iter().filter(|(n, e)| Self::indexed(e) && !n.contains('/')).filter_map(|(n, e)| parse_build(n).map(|v| (v, e.size))).collect()
    }
    fn patches(s: &Snap, builds: &BTreeSet<String>) -> BTreeMap<(String, String), u64> {
        s.iter()
            .filter(|(n, e)| Self::indexed(e) && !n.contains('/'))
            .filter_map(|(n, e)| parse_patch(n).map(|v| (v, e.size)))
            .filter(|((a, b), _)| builds.contains(a) && builds.contains(b))
            .collect()
    }

    pub fn begin(&mut self, k: &Kernel, g: &Group) {
        self.refresh(k);
        self.base = self.snaps.clone();
        self.base_tmp = (0..self.machines).map(|m| self.tmp_names(k, m)).collect();
        self.base_work = (0..self.machines).map(|m| self.work_tree(k, m)).collect();
        self.base_elsewhere = self.elsewhere(k);
        self.group = Some(g.clone());
        self.foreign = self.snaps.values().any(|s| {
            s.iter().any(|(n, e)| {
                n != "current" && !(e.good || e.planted && e.size > 0 && (parse_build(n).is_some() || parse_patch(n).is_some()))
            })
        });
        self.damaged = self.snaps.values().any(|s| s.iter().any(|(n, e)| e.planted && artefact_suffix(n)));
        for m in 0..self.machines {
            self.allowed[m].clear();
        }
        for r in &g.runs {
            match &r.cmd {
                Cmd::Install { v } => {
                    self.allowed[r.machine].insert(v.clone());
                }
                Cmd::Edit { v, .. } => {
                    if let Some(i) = self.world.sc.find(v) {
                        self.world.racing.insert(i);
                    }
                }
                _ => {}
            }
        }
        self.expects = g.runs.iter().map(|r| self.expect(k, r)).collect();
    }

    fn expect(&self, k: &Kernel, r: &Run) -> Expect {
        let empty = Snap::new();
        let local = self.snaps.get(&Store::Local(r.machine)).unwrap_or(&empty);
        let remote = self.snaps.get(&Store::Remote).unwrap_or(&empty);
        let lb = Self::builds(local);
        let rb = Self::builds(remote);
        let all: BTreeSet<String> = lb.keys().chain(rb.keys()).cloned().collect();
        let have = |v: &str| all.contains(v);
        let mut x = Expect::default();
        // what an upload has to transfer, given additional local names
        let uploads = |new: &[String]| -> BTreeSet<String> {
            let mut b = all.clone();
            b.extend(new.iter().filter_map(|n| parse_build(n)));
            let mut l = local.clone();
            for n in new {
                l.insert(n.clone(), Ent { kind: EntKind::File, size: 1, hash: 0, good: true, planted: false });
            }
            let names: BTreeSet<String> = Self::builds(&l)
                .keys()
                .map(|v| build_name(v))
                .chain(Self::patches(&l, &b).keys().map(|(a, b)| patch_name(a, b)))
                .collect();
            let there: BTreeSet<String> = remote.iter().filter(|(_, e)| Self::indexed(e)).map(|(n, _)| n.clone()).collect();
            names.difference(&there).cloned().collect()
        };
        match &r.cmd {
            Cmd::Install { v } => {
                x.ok = have(v);
                x.must_fail = !x.ok && !matches!(self.current(k, r.machine), Some((c, true)) if c == *v);
                x.local.push(build_name(v));
                x.current = Some(v.clone());
                x.budget = Some(self.budget(k, r.machine, v));
                x.uploads = Some(BTreeSet::new());
            }
            Cmd::Add { v, upload, from } | Cmd::AddPackage { v, upload, from } => {
                let refused = invalid(v) || matches!(r.input, input::IN_STORE | input::EMPTY | input::DIR);
                x.ok = from.as_ref().map_or(true, |f| have(f) && f != v) && !refused;
                x.must_fail = refused || from.as_ref().map_or(false, |f| !have(f) && f != v);
                // (what is to be added may have been removed before)
                let input = crate::exec::input_of(&self.world.sc, r).map(|i| {
                    if i.starts_with('/') {
                        i
                    } else {
                        format!("{}/{}", crate::exec::cwd_of(&self.world.sc, r), i)
                    }
                });
                if let Some(i) = input {
                    let root = k.machines[r.machine].root;
                    if k.find(r.machine, root, i.as_bytes(), true).is_err() {
                        x.ok = false;
                        // (it may come back in time)
                        let edited = self.group.as_ref().map_or(false, |g| {
                            g.runs.iter().any(|o| o.machine == r.machine && matches!(&o.cmd, Cmd::Edit { v: e, .. } if e == v))
                        });
                        x.must_fail |= !edited;
                    }
                }
                x.local.push(build_name(v));
                let mut new = vec![build_name(v)];
                if let Some(f) = from {
                    x.patches.push(patch_name(f, v));
                    new.push(patch_name(f, v));
                    if !lb.contains_key(f) {
                        // fetched for it
                        new.push(build_name(f));
                    }
                }
                if *upload {
                    x.remote = uploads(&new).into_iter().collect();
                    x.uploads = Some(uploads(&new));
                } else {
                    x.uploads = Some(BTreeSet::new());
                }
            }
            Cmd::CreatePatch { a, b } => {
                x.ok = a != b && have(a) && have(b);
                x.must_fail = !x.ok;
                x.patches.push(patch_name(a, b));
                x.uploads = Some(BTreeSet::new());
            }
            Cmd::AutoPatch { current, prefix } => {
                let cur = format!("{}{}", prefix, current);
                let tags: Vec<String> = self.world.sc.tags.iter().filter(|t| t.is_tag()).map(|t| t.name.clone()).collect();
                let mut ok = have(&cur);
                for t in select_tags(current, &tags) {
                    let t = format!("{}{}", prefix, t);
                    let matching: Vec<&String> = all.iter().filter(|b| same_tag(b, &t)).collect();
                    if all.contains(&t) {
                        x.patches.push(patch_name(&t, &cur));
                    } else if matching.len() == 1 {
                        x.patches.push(patch_name(matching[0], &cur));
                    } else if matching.is_empty() {
                        ok = false;
                    }
                    // several inexact matches: any of them, but always the same
                }
                x.must_fail = !ok;
                x.ok = ok;
                x.uploads = Some(BTreeSet::new());
            }
            Cmd::Sync => {
                x.ok = true;
                x.remote = uploads(&[]).into_iter().collect();
                x.uploads = Some(uploads(&[]));
            }
            Cmd::Debug => {
                x.ok = true;
                x.uploads = Some(BTreeSet::new());
                x.budget = Some(0);
            }
            Cmd::Edit { .. } => {}
        }
        x
    }

    /// The most an install of `v` may fetch from the remote.
    fn budget(&self, k: &Kernel, m: usize, v: &str) -> u64 {
        let empty = Snap::new();
        let local = self.snaps.get(&Store::Local(m)).unwrap_or(&empty);
        let remote = self.snaps.get(&Store::Remote).unwrap_or(&empty);
        let lb = Self::builds(local);
        let rb = Self::builds(remote);
        if lb.contains_key(v) {
            return 0;
        }
        let full = match rb.get(v) {
            Some(s) => *s,
            None => return u64::MAX,
        };
        let from = match self.current(k, m) {
            Some((c, true)) => c,
            _ => return full,
        };
        let all: BTreeSet<String> = lb.keys().chain(rb.keys()).cloned().collect();
        let lp = Self::patches(local, &all);
        let rp = Self::patches(remote, &all);
        // cheapest chain (sizes as the index knows them: local first)
        let mut edges: BTreeMap<String, Vec<(String, u64)>> = BTreeMap::new();
        for (a, b) in lp.keys().chain(rp.keys()).collect::<BTreeSet<_>>() {
            let s = lp.get(&(a.clone(), b.clone())).or_else(|| rp.get(&(a.clone(), b.clone()))).copied().unwrap_or(0);
            edges.entry(a.clone()).or_default().push((b.clone(), s));
        }
        let mut dist: BTreeMap<String, u64> = BTreeMap::new();
        dist.insert(from.clone(), 0);
        let mut done: BTreeSet<String> = BTreeSet::new();
        loop {
            let next = dist.iter().filter(|(n, _)| !done.contains(*n)).min_by_key(|(_, d)| **d).map(|(n, d)| (n.clone(), *d));
            let (n, d) = match next {
                Some(x) => x,
                None => break,
            };
            done.insert(n.clone());
            for (b, s) in edges.get(&n).cloned().unwrap_or_default() {
                let e = dist.entry(b).or_insert(u64::MAX);
                *e = (*e).min(d.saturating_add(s));
            }
        }
        full.min(dist.get(v).copied().unwrap_or(u64::MAX))
    }

    pub fn end(&mut self, k: &Kernel, ids: &[usize]) {
        let g = match self.group.clone() {
            Some(g) => g,
            None => return,
        };
        self.refresh(k);
        let concurrent = self.concurrent();
        let edited = g.runs.iter().any(|r| matches!(r.cmd, Cmd::Edit { .. }));
        let any_kill = ids.iter().any(|i| matches!(k.procs[*i].exit, Some(Exit::Killed)));
        let cap = g.full.is_some();
        let mut all_own = true;
        let mut cleanup_faults = false;
        let expects = std::mem::take(&mut self.expects);
        for (i, id) in ids.iter().enumerate() {
            let p = &k.procs[*id];
            let run = &g.runs[i];
            let x = &expects[i];
            let who = p.name.clone();
            let exit = p.exit.clone().unwrap_or(Exit::Hang);
            let last = || {
                let t = String::from_utf8_lossy(&p.out).to_string();
                let t: Vec<&str> = t.lines().filter(|l| !l.trim().is_empty()).collect();
                t[t.len().saturating_sub(12)..].join(" | ").chars().rev().take(900).collect::<String>().chars().rev().collect::<String>()
            };
            let net_faults = p.fired.iter().any(|f| f.0.net());
            if matches!(run.cmd, Cmd::Edit { .. }) {
                continue;
            }
            match exit {
                Exit::Panic | Exit::Abort | Exit::Hang => {
                    let mut props = vec!["C15"];
                    if p.fired.is_empty() && x.ok && !cap {
                        props.extend(["C04"]);
                        if concurrent {
                            props.push("C11");
                        }
                        if self.foreign {
                            props.push("C16");
                        }
                        if self.damaged && matches!(run.cmd, Cmd::Install { .. }) {
                            props.push("C05");
                        }
                    }
                    let msg = format!("{} ends with {:?} after faults {:?}: {}", who, exit, short(&p.fired), last());
                    self.violation(&props, "abnormal-end", msg);
                    all_own = false;
                    continue;
                }
                Exit::Killed => {
                    all_own = false;
                    continue;
                }
                _ => {}
            }
            if p.fired.iter().any(|f| {
                matches!(f.0, Class::Unlink | Class::Rmdir | Class::Opendir | Class::Readdir | Class::Stat) || f.0 == Class::OpenR
            }) {
                cleanup_faults = true;
            }
            let success = exit == Exit::Code(0);
            // (what can't be printed may count as a failure)
            let mute = k.mute != 0 && matches!(run.cmd, Cmd::Debug);
            let undisturbed = p.fired.is_empty() && !cap && !mute;
            if success {
                self.after_success(k, *id, run, x, &who, net_faults);
            }
            let refs_disturbed = git_refs_disturbed(&p.fired);
            let note = if refs_disturbed { " [reading the git repository's refs failed]" } else { "" };
            if success && x.must_fail && !concurrent {
                let mut props = vec!["C03"];
                if matches!(run.cmd, Cmd::AutoPatch { .. }) {
                    props.push("C14");
                }
                self.violation(&props, "false-success", format!("{} reports success, but what it was asked for is impossible{}: {}", who, note, last()));
            }
            if undisturbed && x.ok && !edited && matches!(exit, Exit::Code(c) if c != 0) {
                let mut props = vec!["C04"];
                if concurrent {
                    props.push("C11");
                }
                if self.foreign || self.damaged {
                    props.push("C16");
                }
                match run.cmd {
                    Cmd::Install { .. } => props.push("C05"),
                    Cmd::AutoPatch { .. } => props.push("C14"),
                    Cmd::AddPackage { .. } => props.push("C13"),
                    Cmd::Sync => props.push("C07"),
                    _ => {}
                }
                if self.is_s3() {
                    props.push("C09");
                }
                let msg = format!("{} fails although nothing disturbed it: {}", who, last());
                self.violation(&props, "unexpected-failure", msg);
            }
            if matches!(run.cmd, Cmd::AutoPatch { .. }) && undisturbed && !concurrent && !success && matches!(exit, Exit::Code(_)) {
                // those it could make have to be there
                let cur = match &run.cmd {
                    Cmd::AutoPatch { current, prefix } => format!("{}{}", prefix, current),
                    _ => unreachable!(),
                };
                let have_cur = [Store::Local(run.machine), Store::Remote]
                    .iter()
                    .any(|s| self.base.get(s).map_or(false, |s| Self::builds(s).contains_key(&cur)));
                if have_cur {
                    for n in &x.patches {
                        if !self.present(Store::Local(run.machine), n) {
                            self.violation(&["C14"], "patch-not-tried", format!("{}: {} could have been made: {}", who, n, last()));
                        }
                    }
                }
            }
            // transfers
            if !concurrent {
                self.transfers(k, *id, run, x, undisturbed, success, &who);
            }
            if matches!(run.cmd, Cmd::Debug) && !concurrent {
                if self.base != self.snaps {
                    self.violation(&["C12"], "debug-changes", format!("{} changed a store", who));
                }
                if success && !mute && self.is_s3() {
                    let text = String::from_utf8_lossy(&p.out).to_string();
                    let remote = self.base.get(&Store::Remote).cloned().unwrap_or_default();
                    for v in Self::builds(&remote).keys() {
                        if !text.contains(&format!("{:?}", v)) {
                            self.violation(&["C09"], "partial-listing", format!("{}: build {} is missing from the index", who, v));
                        }
                    }
                    let pre = self.world.sc.key("");
                    for key in k.s3.objects.keys() {
                        let inside = key.strip_prefix(&pre).map_or(false, |n| !n.contains('/'));
                        if !inside && artefact_suffix(key) && !run.verbose && !run.has(style::RUST_LOG) && text.contains(&format!("\"{}\"", key)) {
                            self.violation(&["C09"], "wide-listing", format!("{}: the index contains {}, which is not in the store", who, key));
                        }
                    }
                }
            }
            self.repeated(k, *id, run, success, undisturbed, g.runs.len() > 1, &who);
        }
        // leftovers
        if all_own && !any_kill && !cleanup_faults {
            self.leftovers(k, &g);
        }
        // what the user does to a file of theirs is no business of the stores
        for m in 0..self.machines {
            let w = self.work[m];
            let theirs: BTreeMap<usize, String> =
                self.work_tree(k, m).into_iter().filter(|(n, x)| (n.starts_with("/in/") || n.starts_with("/src/")) && k.fss[w.fs].data(x.0).is_some()).map(|(n, x)| (x.0, n)).collect();
            for (id, v) in self.stores() {
                if let Some(d) = v.filter(|v| v.fs == w.fs).and_then(|v| k.fss[v.fs].dir(v.ino).ok()) {
                    for (n, i) in d {
                        if let Some(t) = theirs.get(i) {
                            let msg = format!("{:?}/{} is the very same file as {} of machine {} and changes with it", id, simfs::shown(n), t, m);
                            self.violation(&["C01", "C03", "C12"], "shared-file", msg);
                        }
                    }
                }
            }
        }
        // inputs
        if !edited {
            for m in 0..self.machines {
                let now = self.work_tree(k, m);
                if now != self.base_work[m] {
                    let d: Vec<&String> = now
                        .keys()
                        .chain(self.base_work[m].keys())
                        .filter(|n| now.get(*n) != self.base_work[m].get(*n))
                        .take(5)
                        .collect();
                    let msg = format!("inputs on machine {} changed: {:?}", m, d);
                    self.violation(&["C12"], "input-altered", msg);
                }
            }
        }
        // what is installed now
        for m in 0..self.machines {
            let ok: Vec<String> = g
                .runs
                .iter()
                .zip(ids)
                .filter(|(r, i)| r.machine == m && k.procs[**i].exit == Some(Exit::Code(0)))
                .filter_map(|(r, _)| match &r.cmd {
                    Cmd::Install { v } => Some(v.clone()),
                    _ => None,
                })
                .collect();
            // with a disturbed install among them, which one came last is open
            let installs: BTreeSet<&String> = g
                .runs
                .iter()
                .zip(ids)
                .filter(|(r, i)| r.machine == m && k.procs[**i].exit != Some(Exit::Code(0)))
                .filter_map(|(r, _)| match &r.cmd {
                    Cmd::Install { v } => Some(v),
                    _ => None,
                })
                .collect();
            let now = self.current(k, m);
            let targets = self.allowed[m].clone();
            self.since[m].extend(targets);
            if let Some(v) = self.installed[m].clone() {
                self.since[m].insert(v);
            }
            if !ok.is_empty() {
                match &now {
                    Some((v, true)) => {
                        if self.allowed[m].contains(v) {
                            // (a concurrent failed install may also have switched)
                            self.installed[m] = Some(v.clone());
                            if ok.contains(v) && (ok.iter().all(|o| o == v) || !installs.contains(v)) {
                                self.acked_current[m] = Some(v.clone());
                                self.since[m].clear();
                            } else {
                                self.acked_current[m] = None;
                            }
                        }
                    }
                    _ => {
                        let props = self.extra(&["C02", "C03"]);
                        self.violation(&props, "current-lost", format!("machine {}: after a successful install, `current` is {:?}", m, now));
                    }
                }
            } else if self.installed[m].is_some() {
                if let Some((v, true)) = &now {
                    if self.installed[m].as_ref() != Some(v) {
                        // a failed or killed install got this far
                        self.installed[m] = Some(v.clone());
                        self.acked_current[m] = None;
                    }
                }
            }
        }
        self.last = if g.runs.len() == 1 {
            let p = &k.procs[ids[0]];
            let r = g.runs[0].clone();
            let clean = p.exit == Some(Exit::Code(0)) && p.fired.is_empty() && !cap;
            Some((r, clean))
        } else {
            None
        };
        self.group = None;
    }

    /// Is there an object elsewhere in the bucket that could be taken for `n`?
    fn namesake(&self, k: &Kernel, n: &str) -> bool {
        let key = self.world.sc.key(n);
        self.is_s3() && k.s3.objects.keys().any(|o| *o != key && o.ends_with(n))
    }

    fn present(&self, id: Store, n: &str) -> bool {
        self.snaps.get(&id).and_then(|s| s.get(n)).map_or(false, |e| e.kind == EntKind::File && (e.good || (e.planted && e.size > 0)))
    }

    fn after_success(&mut self, k: &Kernel, pid: usize, run: &Run, x: &Expect, who: &str, net_faults: bool) {
        let id = Store::Local(run.machine);
        let mut acked: Vec<(Store, String)> = vec![];
        let cmd_prop = match run.cmd {
            Cmd::Sync => Some("C07"),
            Cmd::AutoPatch { .. } => Some("C14"),
            Cmd::Install { .. } => Some("C05"),
            Cmd::AddPackage { .. } => Some("C13"),
            _ => None,
        };
        let props = |extra: Option<&'static str>| {
            let mut v = vec!["C03"];
            v.extend(cmd_prop);
            v.extend(extra);
            if net_faults {
                v.push("C08");
            }
            if self.concurrent() {
                v.push("C11");
            }
            v
        };
        let mut out = vec![];
        for n in x.local.iter().chain(&x.patches) {
            if self.present(id, n) {
                acked.push((id, n.clone()));
            } else {
                out.push((props(None), format!("{} reports success, but {} is not (complete) in the local store", who, n)));
            }
        }
        for n in &x.remote {
            if self.present(Store::Remote, n) {
                acked.push((Store::Remote, n.clone()));
            } else {
                let mut v = props(Some("C07"));
                if self.namesake(k, n) {
                    v.push("C09");
                }
                out.push((v, format!("{} reports success, but {} is not (complete) on the remote", who, n)));
            }
        }
        if let Some(v) = &x.current {
            let now = self.current(k, run.machine);
            let others: Vec<&String> = self.allowed[run.machine].iter().collect();
            let fine = matches!(&now, Some((c, true)) if c == v || others.iter().any(|o| *o == c));
            if !fine {
                out.push((props(None), format!("{} reports success, but `current` is {:?}", who, now)));
            }
        }
        // anything else it has put into a store
        let stores: Vec<Store> = self.snaps.keys().copied().collect();
        for s in stores {
            if s != id && s != Store::Remote {
                continue;
            }
            if self.concurrent() {
                continue;
            }
            let new: Vec<String> = self.snaps[&s]
                .iter()
                .filter(|(n, e)| e.good && self.base.get(&s).and_then(|b| b.get(*n)).map_or(true, |b| b.hash != e.hash))
                .map(|(n, _)| n.clone())
                .collect();
            acked.extend(new.into_iter().map(|n| (s, n)));
        }
        let fired = &k.procs[pid].fired;
        let refs_disturbed = git_refs_disturbed(fired);
        for (p, m) in out {
            let m = if refs_disturbed { format!("{} [reading the git repository's refs failed]", m) } else { m };
            self.violation(&p, "false-success", m);
        }
        if let Cmd::AddPackage { v, .. } = &run.cmd {
            let i = self.world.sc.find(v);
            let racing = self.concurrent() || i.map_or(true, |i| self.world.racing.contains(&i));
            let hash = self.snaps.get(&id).and_then(|s| s.get(&build_name(v))).map(|e| e.hash);
            // (after a failure it may have been fetched, made with another level)
            let disturbed = !k.procs[pid].fired.is_empty();
            if let (false, Some(h)) = (racing || disturbed, hash) {
                let first = *self.packages.entry((v.clone(), run.effective_level())).or_insert(h);
                if first != h {
                    self.violation(&["C13"], "package-differs", format!("{}: the package differs from one made of the same tree before", who));
                }
            }
        }
        let own = match &run.cmd {
            Cmd::Add { v, .. } | Cmd::AddPackage { v, .. } => Some(format!("{}.tar.zst", v)),
            _ => None,
        };
        for (s, n) in acked {
            // (what was there before is not this command's to vouch for)
            let before = self.base.get(&s).and_then(|b| b.get(&n)).map(|e| e.hash);
            let after = self.snaps.get(&s).and_then(|b| b.get(&n)).map(|e| e.hash);
            if before == after && !(s == id && own.as_ref() == Some(&n)) {
                continue;
            }
            if self.snaps.get(&s).and_then(|x| x.get(&n)).map_or(false, |e| e.good) {
                self.acked.entry(s).or_default().insert(n);
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn transfers(&mut self, k: &Kernel, id: usize, run: &Run, x: &Expect, undisturbed: bool, success: bool, who: &str) {
        let p = &k.procs[id];
        let empty = Snap::new();
        let base_remote = self.base.get(&Store::Remote).unwrap_or(&empty).clone();
        let base_local = self.base.get(&Store::Local(run.machine)).unwrap_or(&empty).clone();
        let now_remote = self.snaps.get(&Store::Remote).unwrap_or(&empty).clone();
        // written on the remote: requests (S3) or changes (file system)
        let mut written: BTreeSet<String> = BTreeSet::new();
        if self.is_s3() {
            let pre = self.world.sc.key("");
            for key in &p.remote_puts {
                match key.strip_prefix(&pre) {
                    Some(n) => {
                        written.insert(n.to_string());
                    }
                    None => {
                        let msg = format!("{} wrote `{}`, which is outside the store", who, key);
                        self.violation(&["C07"], "extra-upload", msg);
                    }
                }
            }
        }
        for (n, e) in &now_remote {
            if base_remote.get(n) != Some(e) && (artefact_suffix(n) || n == "current") {
                written.insert(n.clone());
            }
        }
        if !self.is_s3() {
            // rewriting in place shows as a new inode or version
            let before = &k.procs[id].remote_puts;
            for n in before {
                written.insert(n.clone());
            }
        }
        for n in &written {
            if base_remote.get(n).map_or(false, |e| e.kind == EntKind::File && e.size > 0) {
                let mut props = vec!["C07", "C12"];
                if self.is_s3() {
                    props.push("C09");
                }
                self.violation(&props, "overwrote-remote", format!("{} wrote {} although it was on the remote already", who, n));
            }
        }
        if let Some(up) = &x.uploads {
            for n in &written {
                if !up.contains(n) {
                    let mut props = vec!["C07"];
                    if !base_local.get(n).map_or(false, |e| e.good) {
                        props.push("C16");
                    }
                    self.violation(&props, "extra-upload", format!("{} uploaded {}, expected {:?}", who, n, up));
                }
            }
            if undisturbed && success {
                for n in up {
                    if !written.contains(n) {
                        let mut props = vec!["C07", "C03"];
                        if self.namesake(k, n) {
                            props.push("C09");
                        }
                        self.violation(&props, "missing-upload", format!("{} did not upload {}", who, n));
                    }
                    // content equal to the local file
                    let l = self.snaps.get(&Store::Local(run.machine)).and_then(|s| s.get(n)).map(|e| e.hash);
                    let r = now_remote.get(n).map(|e| e.hash);
                    if l.is_some() && r.is_some() && l != r {
                        self.violation(&["C07", "C08"], "upload-differs", format!("{}: {} on the remote differs from the local file", who, n));
                    }
                }
            }
        }
        // fetched
        if undisturbed && !self.damaged {
            let pre = self.world.sc.key("");
            let fetched: BTreeMap<String, u64> = p
                .fetched
                .iter()
                .map(|(n, b)| (n.strip_prefix(&pre).unwrap_or(n).to_string(), *b))
                .filter(|(n, b)| artefact_suffix(n) && *b > 0)
                // (what it was told to read)
                .filter(|(n, _)| run.input != input::ON_REMOTE || !matches!(&run.cmd, Cmd::Add { v, .. } if build_name(v) == *n))
                .collect();
            for n in fetched.keys() {
                let e = base_local.get(n);
                if e.map_or(false, Self::indexed) {
                    self.violation(&["C06"], "fetched-again", format!("{} fetched {}, which was in the local store", who, n));
                }
            }
            let total: u64 = fetched.values().sum();
            if let Some(b) = x.budget {
                if total > b && !matches!(run.cmd, Cmd::Debug) {
                    self.violation(
                        &["C06"],
                        "overfetch",
                        format!("{} fetched {} bytes ({:?}), {} would have been enough", who, total, fetched, b),
                    );
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn repeated(&mut self, k: &Kernel, id: usize, run: &Run, success: bool, undisturbed: bool, concurrent: bool, who: &str) {
        let same = match &self.last {
            Some((r, true)) => r.cmd == run.cmd && r.machine == run.machine && r.level == run.level && r.style == run.style && r.input == run.input,
            _ => false,
        };
        if !same || concurrent || !undisturbed {
            return;
        }
        if !success {
            self.violation(&["C19", "C04"], "repeat-fails", format!("{} failed when repeated", who));
            return;
        }
        for (s, b) in self.base.clone() {
            let now = &self.snaps[&s];
            let strip = |x: &Snap| -> Vec<(String, EntKind, u64)> {
                x.iter().map(|(n, e)| (n.clone(), e.kind.clone(), e.hash)).collect()
            };
            if strip(&b) != strip(now) {
                let d: Vec<&String> = b
                    .keys()
                    .chain(now.keys())
                    .filter(|n| b.get(*n).map(|e| (&e.kind, e.hash)) != now.get(*n).map(|e| (&e.kind, e.hash)))
                    .collect();
                self.violation(&["C19"], "repeat-changes", format!("repeating {} changed {:?}: {:?}", who, s, d));
            }
        }
        let p = &k.procs[id];
        let quiet = matches!(run.cmd, Cmd::Install { .. } | Cmd::Sync | Cmd::CreatePatch { .. } | Cmd::AutoPatch { .. } | Cmd::Debug);
        let fetched: Vec<&String> = p.fetched.iter().filter(|(n, b)| artefact_suffix(n) && **b > 0).map(|(n, _)| n).collect();
        if quiet && !(fetched.is_empty() && p.remote_puts.is_empty() && p.local_writes.is_empty()) {
            let msg = format!("repeating {} transferred or wrote {:?} {:?} {:?}", who, fetched, p.remote_puts, p.local_writes);
            self.violation(&["C19"], "repeat-transfers", msg);
        }
        if !p.remote_puts.is_empty() {
            let msg = format!("repeating {} uploaded {:?}", who, p.remote_puts);
            self.violation(&["C19", "C07"], "repeat-transfers", msg);
        }
    }

    fn leftovers(&mut self, k: &Kernel, g: &Group) {
        let who: Vec<String> = g.runs.iter().map(|r| r.cmd.name().to_string()).collect();
        let mut found = vec![];
        for (s, now) in &self.snaps {
            for n in now.keys() {
                if n != "current" && !artefact_suffix(n) && !self.base.get(s).map_or(false, |b| b.contains_key(n)) {
                    found.push(format!("{:?}/{}", s, n));
                }
            }
        }
        for m in 0..self.machines {
            for n in self.tmp_names(k, m).difference(&self.base_tmp[m]) {
                found.push(format!("machine {} /tmp/{}", m, n));
            }
        }
        if !found.is_empty() {
            let props = self.extra(&["C10"]);
            self.violation(&props, "leftover", format!("{:?} left behind: {}", who, found.join(", ")));
        }
    }

    // ------------------------------------------------------------ outages

    pub fn after_outage(&mut self, k: &Kernel, machine: usize, remote: bool) {
        // unfinished files may be left; artefacts may not be damaged
        self.refresh(k);
        let mut stores = vec![Store::Local(machine)];
        if remote {
            stores.push(Store::Remote);
        }
        for id in stores {
            let snap = self.snaps.get(&id).cloned().unwrap_or_default();
            for (n, e) in &snap {
                if artefact_suffix(n) && e.kind == EntKind::File && !e.good && !e.planted {
                    let why = self.bad_reason(k, id, n);
                    self.violation(&["C01", "C17"], "bad-after-outage", format!("after a power loss {:?}/{} is damaged: {}", id, n, why));
                }
            }
            for n in self.acked.get(&id).cloned().unwrap_or_default() {
                if !snap.get(&n).map_or(false, |e| e.good) {
                    let why = if snap.contains_key(&n) { self.bad_reason(k, id, &n) } else { "gone".into() };
                    self.violation(
                        &["C17"],
                        "lost-after-outage",
                        format!("{:?}/{} was reported as done before the power loss and is now: {}", id, n, why),
                    );
                }
            }
        }
        if let Some(v) = self.acked_current[machine].clone() {
            let now = self.current(k, machine);
            if now != Some((v.clone(), true)) {
                self.violation(&["C17", "C02"], "current-after-outage", format!("{} was installed; after the power loss `current` is {:?}", v, now));
            }
        } else {
            // an unfinished install may have got through or not
            self.allowed[machine] = self.since[machine].clone();
            self.check_current(k, machine, "power loss", &["C02", "C17"], "current-after-outage");
        }
        // from here on, what survived is what there is
        self.last = None;
        self.since[machine].clear();
        match self.current(k, machine) {
            Some((v, true)) if self.installed[machine].is_some() => self.installed[machine] = Some(v),
            _ => self.installed[machine] = None,
        }
    }

    /// The operator changed a store.
    pub fn operator(&mut self, k: &Kernel, m: usize, name: &str) {
        self.refresh(k);
        if let Some(a) = self.acked.get_mut(&Store::Local(m)) {
            a.remove(name);
        }
        if !matches!(self.current(k, m), Some((_, true))) {
            self.installed[m] = None;
            self.acked_current[m] = None;
        } else if self.installed[m].is_none() {
            self.installed[m] = self.current(k, m).map(|c| c.0);
        }
        self.last = None;
    }
}

/// Was libgit2 hindered from reading the repository's references?
fn git_refs_disturbed(fired: &[(Class, String, Vec<u8>)]) -> bool {
    fired.iter().any(|f| {
        let p = String::from_utf8_lossy(&f.2);
        ["/repo/.git/", "/repo.store/", "/repo/"].iter().any(|g| p.contains(&format!("{}refs", g)) || p.contains(&format!("{}packed-refs", g)))
    })
}

fn short(f: &[(Class, String, Vec<u8>)]) -> Vec<String> {
    f.iter().take(4).map(|(c, t, p)| format!("{:?} {} {}", c, t, String::from_utf8_lossy(p))).collect()
}
