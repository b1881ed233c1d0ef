//! What one simulated execution consists of: everything a run depends on is in
//! here, so a scenario file replays exactly.
use crate::kernel::Fault;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub property: String,
    pub knobs: Knobs,
    pub remote: Remote,
    pub versions: Vec<Version>,
    pub machines: Vec<Machine>,
    pub remote_files: Vec<Plant>,
    /// objects elsewhere in the bucket (full keys)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub elsewhere: Vec<(String, What)>,
    /// objects of the store that are too large for anyone to want to fetch
    /// them: name and size
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub giants: Vec<(String, u64)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tags: Vec<Tag>,
    pub steps: Vec<Step>,
}

/// Incidental circumstances: nothing here may change an outcome.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Knobs {
    /// hash seeds, temporary names, network timing, scan orders
    pub incidental: u64,
    pub start_s: i64,
    pub tick_ns: i64,
    pub page_size: usize,
    pub list_order: u64,
    pub latency: u32,
    pub chunk: usize,
    /// the service answers some requests for a list with empty pages
    #[serde(default)]
    pub empty_pages: bool,
    /// the service doesn't quote ETags
    #[serde(default)]
    pub bare_etags: bool,
    /// which objects were uploaded in parts (their ETags say nothing about
    /// their content, so that is left intact on the way)
    #[serde(default)]
    pub multipart: u64,
    /// permission bits of the files in the stores and of the builds to add
    /// (0: all 0644)
    #[serde(default)]
    pub modes: u64,
    /// the commands are not run by root
    #[serde(default)]
    pub unprivileged: bool,
    pub dtype_unknown: bool,
    /// the commands are called from a directory that was removed
    #[serde(default)]
    pub no_cwd: bool,
    /// nothing the commands say can be written (error number)
    #[serde(default)]
    pub mute: i32,
    /// where the repository lies: 0 in `.git`, 1 elsewhere, with `.git` saying
    /// where, 2 in a directory that is nothing else (a bare repository)
    #[serde(default)]
    pub repo_kind: u8,
    /// per machine: 0 sorted, 1 reversed, otherwise shuffled by this
    pub readdir: Vec<u64>,
}

impl Knobs {
    /// Permission bits of the file of that name.
    pub fn mode(&self, name: &str) -> u32 {
        if self.modes == 0 {
            return 0o644;
        }
        let h = crate::rng::hash_bytes(self.modes, name.as_bytes());
        [0o644, 0o644, 0o644, 0o600, 0o444, 0o400, 0o664, 0o755, 0o440, 0o555][(h >> 7) as usize % 10]
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Remote {
    Fs,
    S3 { root: String },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Version {
    pub name: String,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    /// arbitrary bytes (artefacta never looks inside), possibly derived from an
    /// earlier version by `edits` local changes
    Blob { seed: u64, size: usize, parent: Option<usize>, edits: u32 },
    /// a directory (or a single file) to be packaged
    Tree { files: Vec<TreeFile>, single: bool },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TreeFile {
    pub path: String,
    pub seed: u64,
    pub size: usize,
    pub mode: u32,
    /// not a regular file: "dir", "fifo" or "link:<target>"
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub special: Option<String>,
    /// a hard link to this other file, which is the same otherwise
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub twin: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Machine {
    pub store: Vec<Plant>,
    /// target of the `current` link, if there is one
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub current: Option<String>,
    /// where trees lie, and in which order and with which times they were made
    #[serde(default)]
    pub variant: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plant {
    pub name: String,
    pub what: What,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum What {
    Build { v: usize, level: i32 },
    Patch { a: usize, b: usize, level: i32 },
    /// first `permille`/1000 of a patch
    TruncatedPatch { a: usize, b: usize, permille: u32 },
    Garbage { seed: u64, size: usize },
    Empty,
    Text { text: String },
    Dir,
    Fifo,
    Link { target: String },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Tag {
    pub name: String,
    /// 0 loose lightweight, 1 loose annotated, 2 packed, 3 packed annotated,
    /// 4 not a tag but a branch, 5 a branch of a remote, 7 a tag of a tag
    /// (loose), 9 the same, packed
    pub style: u8,
}

impl Tag {
    pub fn is_tag(&self) -> bool {
        self.style != 4 && self.style != 5
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Group(Group),
    PowerLoss { machine: usize, remote: bool, seed: u64 },
    /// a file disappears from a local store (cache eviction by the operator)
    Evict { machine: usize, name: String },
    /// a file or link appears in a local store / on the remote
    Put { machine: Option<usize>, plant: Plant },
    Clock { seconds: i64 },
    /// long idle time: everything reaches the disk
    Idle,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Group {
    pub runs: Vec<Run>,
    /// (step, index in group)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub switches: Vec<(u64, usize)>,
    /// disk full: bytes left on (local store of machine / remote / tmp)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub full: Option<(Disk, u64)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Disk {
    Local(usize),
    Tmp(usize),
    Remote,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Run {
    pub machine: usize,
    pub cmd: Cmd,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    pub level: i32,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub verbose: bool,
    /// how the command is called, see `style`
    #[serde(default, skip_serializing_if = "zero")]
    pub style: u32,
    /// what `add` is given, see `input`
    #[serde(default, skip_serializing_if = "zero")]
    pub input: u32,
}

fn zero(n: &u32) -> bool {
    *n == 0
}

/// Ways of calling a command that make no difference.
pub mod style {
    /// stores are given by environment variables
    pub const ENV: u32 = 1;
    /// stores and directories are given with a slash at the end
    pub const SLASH: u32 = 2;
    /// the local store is given by a link to it
    /// (and so is a remote in the file system)
    pub const LINKED: u32 = 4;
    /// inputs are given relative to the working directory
    pub const RELATIVE: u32 = 8;
    /// temporary files go elsewhere
    pub const TMPDIR: u32 = 16;
    /// the compression level makes no sense, so it is the default
    pub const NO_LEVEL: u32 = 32;
    pub const RUST_LOG: u32 = 64;
    pub const UMASK: u32 = 128;
    /// auto-patch is told where and what to do by its surroundings
    pub const AMBIENT: u32 = 256;
    /// inputs are given by a link to them
    pub const VIA_LINK: u32 = 512;
    /// auto-patch is given a directory within the repository
    pub const WITHIN: u32 = 1024;
    pub const ALL: [u32; 11] = [ENV, SLASH, LINKED, RELATIVE, TMPDIR, NO_LEVEL, RUST_LOG, UMASK, AMBIENT, VIA_LINK, WITHIN];
}

pub mod input {
    pub const PLAIN: u32 = 0;
    /// the file of that name on the (file system) remote
    pub const ON_REMOTE: u32 = 1;
    /// the file of that name in the local store: refused
    pub const IN_STORE: u32 = 2;
    /// refused
    pub const EMPTY: u32 = 3;
    /// refused
    pub const DIR: u32 = 4;
    /// compressed in several pieces
    pub const FRAMES: u32 = 5;
}

impl Run {
    pub fn has(&self, s: u32) -> bool {
        self.style & s != 0
    }
    /// The level this run compresses with.
    pub fn effective_level(&self) -> i32 {
        if self.has(style::NO_LEVEL) {
            14
        } else {
            self.level
        }
    }
}

/// Where the tree of a version lies, below the sources.
pub fn tree_dir(v: &str) -> String {
    v.replace('/', "_")
}

/// Names no version can have.
pub fn invalid(v: &str) -> bool {
    v.contains("---") || v.contains('/') || v.starts_with('-')
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cmd {
    Install { v: String },
    Add { v: String, upload: bool, from: Option<String> },
    AddPackage { v: String, upload: bool, from: Option<String> },
    CreatePatch { a: String, b: String },
    AutoPatch { current: String, prefix: String },
    Sync,
    Debug,
    /// someone else changing files of a tree while it is packaged
    Edit { v: String, changes: Vec<Change> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Change {
    Grow { path: String, by: usize },
    Shrink { path: String, to: usize },
    Remove { path: String },
    Create { path: String, size: usize },
    Replace { path: String, size: usize },
}

impl Cmd {
    pub fn name(&self) -> &'static str {
        match self {
            Cmd::Install { .. } => "install",
            Cmd::Add { .. } => "add",
            Cmd::AddPackage { .. } => "add-package",
            Cmd::CreatePatch { .. } => "create-patch",
            Cmd::AutoPatch { .. } => "auto-patch",
            Cmd::Sync => "sync",
            Cmd::Debug => "debug",
            Cmd::Edit { .. } => "edit",
        }
    }
}

impl Scenario {
    pub fn root(&self) -> &str {
        match &self.remote {
            Remote::Fs => "",
            Remote::S3 { root } => root,
        }
    }
    /// S3 key of a file of the store.
    pub fn key(&self, name: &str) -> String {
        format!("{}/{}", self.root().trim_matches('/'), name)
    }
    pub fn find(&self, name: &str) -> Option<usize> {
        self.versions.iter().position(|v| v.name == name)
    }
}

pub fn build_name(v: &str) -> String {
    format!("{}.tar.zst", v)
}
pub fn patch_name(a: &str, b: &str) -> String {
    if a.contains('-') || b.contains('-') {
        format!("{}---{}.patch.zst", a, b)
    } else {
        format!("{}-{}.patch.zst", a, b)
    }
}
/// The pair of versions a patch file name stands for, if it is one.
/// Not for names that are no UTF-8 (see `simfs::shown`).
fn is_text(name: &str) -> bool {
    !name.chars().any(|c| ('\u{e080}'..='\u{e0ff}').contains(&c))
}

pub fn parse_patch(name: &str) -> Option<(String, String)> {
    let n = name.strip_suffix(".patch.zst").filter(|n| is_text(n))?;
    let parts: Vec<&str> = n.split('-').collect();
    if parts.len() == 2 {
        return Some((parts[0].into(), parts[1].into()));
    }
    // (no version starts with a dash, but it may end with some)
    let (a, b) = n.rsplit_once("---")?;
    if invalid(a) || invalid(b) {
        return None;
    }
    Some((a.into(), b.into()))
}
pub fn parse_build(name: &str) -> Option<String> {
    let n = name.strip_suffix(".tar.zst").filter(|n| is_text(n))?;
    if invalid(n) || n.is_empty() {
        return None;
    }
    Some(n.into())
}
pub fn artefact_suffix(name: &str) -> bool {
    name.ends_with(".tar.zst") || name.ends_with(".patch.zst")
}
