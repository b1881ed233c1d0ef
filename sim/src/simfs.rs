//! In-memory file system with an explicit durable state.
//!
//! Model of durability (a journalling file system with ordered metadata):
//! * metadata operations (create, link, unlink, rename, mkdir, rmdir, symlink)
//!   go to a journal; a power loss keeps a prefix of it;
//! * file data lives in memory until the file is synced; a power loss keeps,
//!   per file, the last synced content plus a prefix of the later writes (the
//!   last one possibly torn) or the right length with unwritten parts zeroed;
//! * syncing a file makes its data durable and commits the whole journal;
//!   syncing a directory commits the journal.

/// Names of files that are not UTF-8: in scenarios and pictures of stores, a
/// byte from 0x80 on that is part of no character is written as U+E080..U+E0FF.
pub fn raw(name: &str) -> Vec<u8> {
    let mut out = vec![];
    for c in name.chars() {
        match c as u32 {
            x @ 0xE080..=0xE0FF => out.push((x - 0xE000) as u8),
            _ => {
                let mut b = [0; 4];
                out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
        }
    }
    out
}

pub fn shown(mut b: &[u8]) -> String {
    let mut out = String::new();
    loop {
        match std::str::from_utf8(b) {
            Ok(s) => {
                out.push_str(s);
                return out;
            }
            Err(e) => {
                let n = e.valid_up_to();
                out.push_str(std::str::from_utf8(&b[..n]).expect("valid"));
                out.push(char::from_u32(0xE000 + b[n] as u32).expect("private use"));
                b = &b[n + 1..];
            }
        }
    }
}

use crate::rng::Rng;
use std::{
    collections::{BTreeMap, HashMap},
    sync::Arc,
};

pub type Ino = usize;
pub type Name = Vec<u8>;
pub type DirMap = BTreeMap<Name, Ino>;

#[derive(Clone, Debug)]
pub enum Node {
    File(Arc<Vec<u8>>),
    Dir(DirMap),
    Link(Vec<u8>),
    Fifo,
}

#[derive(Clone, Debug)]
pub enum DataOp {
    Write(u64, Vec<u8>),
    Trunc(u64),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub mtime: i64,
    pub nlink: u32,
    pub owner: (u32, u32),
    /// bumped whenever the content changes
    pub ver: u64,
    /// for directories: where `..` leads
    pub parent: Ino,
    synced: Arc<Vec<u8>>,
    hist: Vec<DataOp>,
}

#[derive(Clone, Debug)]
enum MetaOp {
    Link(Ino, Name, Ino),
    Unlink(Ino, Name),
    Rename(Ino, Name, Ino, Name, Ino),
}

#[derive(Clone, Debug)]
pub struct Fs {
    pub inodes: Vec<Inode>,
    pub root: Ino,
    pub dev: u64,
    durable: HashMap<Ino, DirMap>,
    journal: Vec<MetaOp>,
    pub cap: Option<u64>,
    pub used: u64,
    pub volatile: bool,
    /// counts every change, so that observers can tell whether to look
    pub changes: u64,
}

pub type R<T> = Result<T, i32>;

impl Fs {
    pub fn new(dev: u64, volatile: bool) -> Fs {
        let mut fs = Fs {
            inodes: Vec::new(),
            root: 0,
            dev,
            durable: HashMap::new(),
            journal: Vec::new(),
            cap: None,
            used: 0,
            volatile,
            changes: 0,
        };
        // inode 0 and 1 are never used
        for _ in 0..3 {
            fs.new_inode(Node::Dir(DirMap::new()), 0o40755, 0);
        }
        fs.root = 2;
        fs.inodes[2].parent = 2;
        fs.durable.insert(2, DirMap::new());
        fs
    }

    fn new_inode(&mut self, node: Node, mode: u32, now: i64) -> Ino {
        self.inodes.push(Inode {
            node,
            mode,
            mtime: now,
            nlink: 1,
            owner: (0, 0),
            ver: 0,
            parent: 0,
            synced: Arc::new(Vec::new()),
            hist: Vec::new(),
        });
        self.inodes.len() - 1
    }

    pub fn dir(&self, ino: Ino) -> R<&DirMap> {
        match &self.inodes[ino].node {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    fn dir_mut(&mut self, ino: Ino) -> R<&mut DirMap> {
        match &mut self.inodes[ino].node {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    pub fn lookup(&self, dir: Ino, name: &[u8]) -> R<Ino> {
        self.dir(dir)?.get(name).copied().ok_or(libc::ENOENT)
    }
    pub fn is_dir(&self, ino: Ino) -> bool {
        matches!(self.inodes[ino].node, Node::Dir(_))
    }
    pub fn data(&self, ino: Ino) -> Option<&Arc<Vec<u8>>> {
        match &self.inodes[ino].node {
            Node::File(d) => Some(d),
            _ => None,
        }
    }

    fn link_new(&mut self, dir: Ino, name: &[u8], ino: Ino) -> R<()> {
        if self.dir(dir)?.contains_key(name) {
            return Err(libc::EEXIST);
        }
        self.dir_mut(dir)?.insert(name.to_vec(), ino);
        self.journal.push(MetaOp::Link(dir, name.to_vec(), ino));
        self.changes += 1;
        Ok(())
    }

    pub fn create_file(&mut self, dir: Ino, name: &[u8], mode: u32, now: i64) -> R<Ino> {
        if self.dir(dir)?.contains_key(name) {
            return Err(libc::EEXIST);
        }
        let ino = self.new_inode(Node::File(Arc::new(Vec::new())), 0o100000 | (mode & 0o7777), now);
        self.link_new(dir, name, ino)?;
        Ok(ino)
    }
    pub fn mkdir(&mut self, dir: Ino, name: &[u8], mode: u32, now: i64) -> R<Ino> {
        if self.dir(dir)?.contains_key(name) {
            return Err(libc::EEXIST);
        }
        let ino = self.new_inode(Node::Dir(DirMap::new()), 0o40000 | (mode & 0o7777), now);
        self.inodes[ino].parent = dir;
        self.link_new(dir, name, ino)?;
        Ok(ino)
    }
    pub fn symlink(&mut self, dir: Ino, name: &[u8], target: &[u8], now: i64) -> R<Ino> {
        if self.dir(dir)?.contains_key(name) {
            return Err(libc::EEXIST);
        }
        let ino = self.new_inode(Node::Link(target.to_vec()), 0o120777, now);
        self.link_new(dir, name, ino)?;
        Ok(ino)
    }
    pub fn fifo(&mut self, dir: Ino, name: &[u8], now: i64) -> R<Ino> {
        let ino = self.new_inode(Node::Fifo, 0o010644, now);
        self.link_new(dir, name, ino)?;
        Ok(ino)
    }
    pub fn hardlink(&mut self, ino: Ino, dir: Ino, name: &[u8]) -> R<()> {
        if self.is_dir(ino) {
            return Err(libc::EPERM);
        }
        self.link_new(dir, name, ino)?;
        self.inodes[ino].nlink += 1;
        Ok(())
    }
    fn drop_link(&mut self, ino: Ino) {
        self.inodes[ino].nlink = self.inodes[ino].nlink.saturating_sub(1);
        if self.inodes[ino].nlink == 0 {
            if let Node::File(d) = &self.inodes[ino].node {
                // (space of still-open files is released early; good enough)
                self.used = self.used.saturating_sub(d.len() as u64);
            }
        }
    }
    pub fn unlink(&mut self, dir: Ino, name: &[u8]) -> R<()> {
        let ino = self.lookup(dir, name)?;
        if self.is_dir(ino) {
            return Err(libc::EISDIR);
        }
        self.dir_mut(dir)?.remove(name);
        self.journal.push(MetaOp::Unlink(dir, name.to_vec()));
        self.drop_link(ino);
        self.changes += 1;
        Ok(())
    }
    pub fn rmdir(&mut self, dir: Ino, name: &[u8]) -> R<()> {
        let ino = self.lookup(dir, name)?;
        if !self.dir(ino)?.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        self.dir_mut(dir)?.remove(name);
        self.journal.push(MetaOp::Unlink(dir, name.to_vec()));
        self.changes += 1;
        Ok(())
    }
    pub fn rename(&mut self, od: Ino, on: &[u8], nd: Ino, nn: &[u8], noreplace: bool) -> R<()> {
        let ino = self.lookup(od, on)?;
        if let Ok(t) = self.lookup(nd, nn) {
            if noreplace {
                return Err(libc::EEXIST);
            }
            if t == ino {
                return Ok(());
            }
            match (self.is_dir(ino), self.is_dir(t)) {
                (true, false) => return Err(libc::ENOTDIR),
                (false, true) => return Err(libc::EISDIR),
                (true, true) if !self.dir(t)?.is_empty() => return Err(libc::ENOTEMPTY),
                _ => {}
            }
            if !self.is_dir(t) {
                self.drop_link(t);
            }
        }
        self.dir_mut(od)?.remove(on);
        self.dir_mut(nd)?.insert(nn.to_vec(), ino);
        if self.is_dir(ino) {
            self.inodes[ino].parent = nd;
        }
        self.journal.push(MetaOp::Rename(od, on.to_vec(), nd, nn.to_vec(), ino));
        self.changes += 1;
        Ok(())
    }

    pub fn read_at(&self, ino: Ino, off: u64, buf: &mut [u8]) -> R<usize> {
        match &self.inodes[ino].node {
            Node::File(d) => {
                let off = off as usize;
                if off >= d.len() {
                    return Ok(0);
                }
                let n = buf.len().min(d.len() - off);
                buf[..n].copy_from_slice(&d[off..off + n]);
                Ok(n)
            }
            Node::Dir(_) => Err(libc::EISDIR),
            Node::Link(_) | Node::Fifo => Err(libc::EINVAL),
        }
    }
    pub fn write_at(&mut self, ino: Ino, off: u64, buf: &[u8], now: i64) -> R<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let len = match &self.inodes[ino].node {
            Node::File(d) => d.len() as u64,
            _ => return Err(libc::EINVAL),
        };
        let end = off + buf.len() as u64;
        let mut buf = buf;
        if end > len {
            if let Some(cap) = self.cap {
                let room = cap.saturating_sub(self.used);
                let grow = end - len;
                if grow > room {
                    let can = (len + room).saturating_sub(off) as usize;
                    if can == 0 {
                        return Err(libc::ENOSPC);
                    }
                    buf = &buf[..can.min(buf.len())];
                }
            }
        }
        let end = off + buf.len() as u64;
        if end > len {
            self.used += end - len;
        }
        let i = &mut self.inodes[ino];
        if let Node::File(d) = &mut i.node {
            let d = Arc::make_mut(d);
            if d.len() < end as usize {
                d.resize(end as usize, 0);
            }
            d[off as usize..end as usize].copy_from_slice(buf);
        }
        i.hist.push(DataOp::Write(off, buf.to_vec()));
        i.ver += 1;
        i.mtime = now;
        self.changes += 1;
        Ok(buf.len())
    }
    pub fn truncate(&mut self, ino: Ino, len: u64, now: i64) -> R<()> {
        let i = &mut self.inodes[ino];
        if let Node::File(d) = &mut i.node {
            let old = d.len() as u64;
            if old == len {
                return Ok(());
            }
            Arc::make_mut(d).resize(len as usize, 0);
            i.hist.push(DataOp::Trunc(len));
            i.ver += 1;
            i.mtime = now;
            self.used = (self.used + len).saturating_sub(old);
            self.changes += 1;
            Ok(())
        } else {
            Err(libc::EINVAL)
        }
    }
    pub fn chmod(&mut self, ino: Ino, mode: u32) {
        let m = &mut self.inodes[ino].mode;
        *m = (*m & !0o7777) | (mode & 0o7777);
    }

    fn apply(durable: &mut HashMap<Ino, DirMap>, op: &MetaOp) {
        match op {
            MetaOp::Link(d, n, i) => {
                durable.entry(*d).or_default().insert(n.clone(), *i);
            }
            MetaOp::Unlink(d, n) => {
                durable.entry(*d).or_default().remove(n);
            }
            MetaOp::Rename(od, on, nd, nn, i) => {
                durable.entry(*od).or_default().remove(on);
                durable.entry(*nd).or_default().insert(nn.clone(), *i);
            }
        }
    }
    fn commit(&mut self) {
        let j = std::mem::take(&mut self.journal);
        for op in &j {
            Self::apply(&mut self.durable, op);
        }
    }
    pub fn fsync(&mut self, ino: Ino) {
        self.commit();
        let i = &mut self.inodes[ino];
        if let Node::File(d) = &i.node {
            i.synced = d.clone();
            i.hist.clear();
        }
    }
    /// Everything becomes durable (a clean unmount, or long enough idling).
    pub fn sync_all(&mut self) {
        self.commit();
        for i in &mut self.inodes {
            if let Node::File(d) = &i.node {
                if !i.hist.is_empty() {
                    i.synced = d.clone();
                    i.hist.clear();
                }
            }
        }
    }

    /// The machine loses power: only what is durable, plus an arbitrary part of
    /// what was on its way, survives.
    pub fn power_loss(&mut self, rng: &mut Rng) {
        self.changes += 1;
        if self.volatile {
            for i in &mut self.inodes {
                if let Node::Dir(d) = &mut i.node {
                    d.clear();
                }
            }
            self.journal.clear();
            self.durable.clear();
            self.durable.insert(self.root, DirMap::new());
            self.used = 0;
            return;
        }
        let keep = match rng.below(4) {
            0 => 0,
            1 => self.journal.len(),
            _ => rng.below(self.journal.len() + 1),
        };
        let j = std::mem::take(&mut self.journal);
        for op in &j[..keep] {
            Self::apply(&mut self.durable, op);
        }
        // how this outage treats unsynced data
        let style = rng.below(4);
        for (ino, i) in self.inodes.iter_mut().enumerate() {
            match &mut i.node {
                Node::Dir(d) => {
                    *d = self.durable.get(&ino).cloned().unwrap_or_default();
                }
                Node::File(d) => {
                    if i.hist.is_empty() {
                        *d = i.synced.clone();
                        continue;
                    }
                    let mut c = (*i.synced).clone();
                    let n = i.hist.len();
                    let k = match style {
                        0 => 0,
                        1 => n,
                        _ => rng.below(n + 1),
                    };
                    let zero = rng.chance(1, 4) && style != 1;
                    for (x, op) in i.hist.iter().enumerate() {
                        match op {
                            DataOp::Trunc(l) if x <= k => c.resize(*l as usize, 0),
                            DataOp::Trunc(_) => {}
                            DataOp::Write(off, b) => {
                                let (off, mut b) = (*off as usize, &b[..]);
                                if x > k {
                                    if zero && c.len() < off + b.len() {
                                        c.resize(off + b.len(), 0);
                                    }
                                    continue;
                                }
                                if x == k {
                                    b = &b[..rng.below(b.len() + 1)];
                                }
                                if c.len() < off + b.len() {
                                    c.resize(off + b.len(), 0);
                                }
                                c[off..off + b.len()].copy_from_slice(b);
                            }
                        }
                    }
                    let c = Arc::new(c);
                    *d = c.clone();
                    i.synced = c;
                    i.hist.clear();
                    i.ver += 1;
                }
                Node::Link(_) | Node::Fifo => {}
            }
        }
        // link counts and parents follow the durable tree
        for i in &mut self.inodes {
            i.nlink = 0;
        }
        let mut used = 0;
        let mut todo = vec![self.root];
        while let Some(d) = todo.pop() {
            let kids: Vec<Ino> = self.dir(d).map(|m| m.values().copied().collect()).unwrap_or_default();
            for k in kids {
                self.inodes[k].nlink += 1;
                if self.is_dir(k) {
                    self.inodes[k].parent = d;
                    todo.push(k);
                } else if let Some(c) = self.data(k) {
                    used += c.len() as u64;
                }
            }
        }
        self.used = used;
    }

    // ---- convenience for the harness (not visible to the simulated code) ----

    pub fn walk(&self, path: &str) -> R<Ino> {
        let mut at = self.root;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            at = self.lookup(at, c.as_bytes())?;
        }
        Ok(at)
    }
    pub fn mkdirs(&mut self, path: &str) -> Ino {
        let mut at = self.root;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            at = match self.lookup(at, c.as_bytes()) {
                Ok(i) => i,
                Err(_) => self.mkdir(at, c.as_bytes(), 0o755, 0).expect("mkdir"),
            };
        }
        at
    }
    pub fn put(&mut self, dir: Ino, name: &str, data: &[u8], mode: u32, mtime: i64) -> Ino {
        let ino = match self.lookup(dir, &raw(name)) {
            Ok(i) => i,
            Err(_) => self.create_file(dir, &raw(name), mode, mtime).expect("create"),
        };
        let old = self.data(ino).map(|d| d.len()).unwrap_or(0) as u64;
        let i = &mut self.inodes[ino];
        i.node = Node::File(Arc::new(data.to_vec()));
        i.hist.push(DataOp::Trunc(0));
        i.hist.push(DataOp::Write(0, data.to_vec()));
        i.ver += 1;
        i.mtime = mtime;
        i.mode = 0o100000 | mode;
        self.used = (self.used + data.len() as u64).saturating_sub(old);
        self.changes += 1;
        ino
    }
}
