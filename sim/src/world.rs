//! What the artefacts of a scenario have to contain, independent of the code
//! under test.
use crate::{
    rng::{hash_bytes, Rng},
    scenario::*,
};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    io::Read,
    sync::Arc,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Good,
    /// exactly what the scenario put there
    Planted,
    Bad(String),
}

pub struct World {
    pub sc: Scenario,
    contents: Vec<Option<Arc<Vec<u8>>>>,
    /// contents seen for packaged versions
    pub observed: HashMap<usize, Vec<Arc<Vec<u8>>>>,
    /// versions whose tree is edited while being packaged
    pub racing: HashSet<usize>,
    /// packages that differ from one made of the same tree before
    pub differing: Vec<String>,
    /// (name, hash of bytes) of damaged or foreign files put by the scenario
    pub planted: HashSet<(String, u64)>,
    cache: HashMap<(String, u64), Verdict>,
    patches: HashMap<(usize, usize), Vec<u8>>,
    builds: HashMap<(usize, i32), Vec<u8>>,
}

/// Where the instructions of a patch begin.
fn instructions(raw: &[u8]) -> Vec<usize> {
    let number = |at: &mut usize| -> Option<usize> {
        let (mut v, mut shift) = (0usize, 0);
        loop {
            let b = *raw.get(*at)?;
            *at += 1;
            v |= ((b & 0x7f) as usize) << shift;
            if b & 0x80 == 0 {
                return Some(v);
            }
            shift += 7;
        }
    };
    let mut out = vec![];
    let mut at = 8;
    while at < raw.len() {
        out.push(at);
        for _ in 0..2 {
            match number(&mut at) {
                Some(n) => at += n,
                None => return out,
            }
        }
        if number(&mut at).is_none() {
            break;
        }
    }
    if out.is_empty() {
        out.push(raw.len().min(8));
    }
    out
}

pub fn file_content(seed: u64, size: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    match seed % 4 {
        0 => r.bytes(size),
        // (bidiff needs quadratic time for long runs)
        1 if size <= 8192 => vec![if seed >> 16 & 1 == 0 { 0 } else { (seed >> 8) as u8 }; size],
        2 if size > 1024 && seed >> 16 & 3 == 0 => {
            // with a hole
            let mut v = r.bytes(size);
            let from = r.below(size / 512) * 512;
            let to = (from + r.range(1, 8) * 512).min(size);
            v[from..to].fill(0);
            v
        }
        _ => {
            // compressible text-like data
            let words: Vec<Vec<u8>> = (0..40)
                .map(|_| {
                    let n = r.range(2, 9);
                    r.bytes(n).iter().map(|b| b'a' + b % 26).collect()
                })
                .collect();
            let mut v = Vec::with_capacity(size + 16);
            while v.len() < size {
                v.extend_from_slice(r.pick(&words));
                v.push(b' ');
                if r.chance(1, 5) {
                    v.extend_from_slice(format!("{:x}", r.next() & 0xffff).as_bytes());
                }
            }
            v.truncate(size);
            v
        }
    }
}

impl World {
    pub fn new(sc: &Scenario) -> World {
        let mut w = World {
            sc: sc.clone(),
            contents: vec![None; sc.versions.len()],
            observed: HashMap::new(),
            racing: HashSet::new(),
            differing: vec![],
            planted: HashSet::new(),
            cache: HashMap::new(),
            patches: HashMap::new(),
            builds: HashMap::new(),
        };
        for i in 0..sc.versions.len() {
            w.fill(i);
        }
        w
    }

    fn fill(&mut self, i: usize) {
        if let Kind::Blob { seed, size, parent, edits } = self.sc.versions[i].kind.clone() {
            let c = match parent.and_then(|p| self.contents.get(p).cloned().flatten()) {
                None => file_content(seed, size),
                Some(p) => {
                    let mut c = (*p).clone();
                    let mut r = Rng::new(seed);
                    for _ in 0..edits {
                        let at = r.below(c.len() + 1);
                        match r.below(3) {
                            0 => {
                                let n = r.range(1, 40);
                                let b = r.bytes(n);
                                c.splice(at..at, b);
                            }
                            1 => {
                                let to = (at + r.range(1, 60)).min(c.len());
                                c.drain(at..to);
                            }
                            _ => {
                                let to = (at + r.range(1, 80)).min(c.len());
                                for x in &mut c[at..to] {
                                    *x = x.wrapping_add(r.next() as u8 | 1);
                                }
                            }
                        }
                    }
                    if c.len() < size {
                        let n = size - c.len();
                        c.extend(file_content(seed ^ 0x55, n));
                    }
                    c
                }
            };
            self.contents[i] = Some(Arc::new(c));
        }
    }

    /// The contents that count as version `v`.
    pub fn contents(&self, v: usize) -> Vec<Arc<Vec<u8>>> {
        match &self.contents[v] {
            Some(c) => vec![c.clone()],
            None => self.observed.get(&v).cloned().unwrap_or_default(),
        }
    }

    pub fn build_bytes(&mut self, v: usize, level: i32) -> Vec<u8> {
        if let Some(b) = self.builds.get(&(v, level)) {
            return b.clone();
        }
        let c = self.contents[v].clone().expect("only blobs can be planted");
        let b = if level < 0 {
            // in several pieces
            let cut = c.len() / 3;
            let mut b = zstd::stream::encode_all(&c[..cut], 1).expect("zstd");
            b.extend(zstd::stream::encode_all(&c[cut..], 2).expect("zstd"));
            b
        } else {
            zstd::stream::encode_all(&c[..], level).expect("zstd")
        };
        self.builds.insert((v, level), b.clone());
        b
    }
    pub fn patch_bytes(&mut self, a: usize, b: usize, level: i32) -> Vec<u8> {
        if let Some(x) = self.patches.get(&(a, b)) {
            return zstd::stream::encode_all(&x[..], level).expect("zstd");
        }
        let (ca, cb) = (self.contents[a].clone().unwrap(), self.contents[b].clone().unwrap());
        let mut raw = vec![];
        if ca.is_empty() {
            // (bidiff cannot deal with that)
            let mut w = bidiff::enc::Writer::new(&mut raw).expect("patch");
            w.write(&bidiff::Control { add: &[], copy: &cb, seek: 0 }).expect("patch");
        } else {
            bidiff::simple_diff(&ca, &cb, &mut raw).expect("bidiff");
        }
        let x = zstd::stream::encode_all(&raw[..], level).expect("zstd");
        self.patches.insert((a, b), raw);
        x
    }
    pub fn bytes_of(&mut self, name: &str, w: &What) -> Vec<u8> {
        let b = match w {
            What::Build { v, level } => self.build_bytes(*v, *level),
            What::Patch { a, b, level } => self.patch_bytes(*a, *b, *level),
            What::TruncatedPatch { a, b, permille } if *permille >= 1000 => {
                // a stream that ends where the next instruction would begin
                use std::io::Write;
                self.patch_bytes(*a, *b, 1);
                let raw = &self.patches[&(*a, *b)];
                let ends = instructions(raw);
                let n = ends[(*permille - 1000) as usize % ends.len()];
                let mut e = zstd::stream::Encoder::new(vec![], 1).expect("zstd");
                e.write_all(&raw[..n]).and_then(|_| e.flush()).expect("zstd");
                e.get_ref().clone()
            }
            What::TruncatedPatch { a, b, permille } => {
                let x = self.patch_bytes(*a, *b, 1);
                let n = ((x.len() * *permille as usize) / 1000).clamp(1, x.len().saturating_sub(1).max(1));
                x[..n].to_vec()
            }
            What::Garbage { seed, size } => {
                let mut g = Rng::new(*seed).bytes((*size).max(1));
                g[0] |= 1; // never the start of a zstd frame
                g
            }
            What::Empty => vec![],
            What::Text { text } => text.clone().into_bytes(),
            What::Dir | What::Fifo | What::Link { .. } => vec![],
        };
        if !matches!(w, What::Build { .. } | What::Patch { .. }) {
            self.planted.insert((name.to_string(), hash_bytes(1, &b)));
        }
        b
    }

    /// Is `bytes` a complete artefact for this file name?
    pub fn verify(&mut self, name: &str, bytes: &[u8]) -> Verdict {
        let h = hash_bytes(1, bytes);
        if self.planted.contains(&(name.to_string(), h)) {
            return Verdict::Planted;
        }
        let key = (name.to_string(), h);
        if let Some(v) = self.cache.get(&key) {
            return v.clone();
        }
        let v = match self.check(name, bytes) {
            Ok(()) => Verdict::Good,
            Err(e) => Verdict::Bad(e),
        };
        self.cache.insert(key, v.clone());
        v
    }

    fn check(&mut self, name: &str, bytes: &[u8]) -> Result<(), String> {
        if bytes.is_empty() {
            return Err("empty".into());
        }
        if let Some(v) = parse_build(name) {
            let v = self.sc.find(&v).ok_or_else(|| format!("no such version: {}", v))?;
            let c = zstd::stream::decode_all(bytes).map_err(|e| format!("does not decompress: {}", e))?;
            if let Some(want) = &self.contents[v] {
                if **want != c {
                    return Err(format!("wrong content: {} bytes, expected {}", c.len(), want.len()));
                }
                return Ok(());
            }
            let known = self.observed.entry(v).or_default();
            if known.iter().any(|k| **k == c) {
                return Ok(());
            }
            let files = parse_tar(&c)?;
            if !self.racing.contains(&v) {
                compare_tree(&self.sc.versions[v].kind, &files)?;
                if !known.is_empty() {
                    self.differing.push(name.to_string());
                }
            }
            known.push(Arc::new(c));
            return Ok(());
        }
        if let Some((a, b)) = parse_patch(name) {
            let (a, b) = match (self.sc.find(&a), self.sc.find(&b)) {
                (Some(a), Some(b)) => (a, b),
                _ => return Err(format!("no such versions: {} {}", a, b)),
            };
            let raw = zstd::stream::decode_all(bytes).map_err(|e| format!("does not decompress: {}", e))?;
            let want = self.contents(b);
            for old in self.contents(a) {
                let mut out = vec![];
                let r = bipatch::Reader::new(&raw[..], std::io::Cursor::new(&old[..]))
                    .map_err(|e| e.to_string())
                    .and_then(|mut r| r.read_to_end(&mut out).map_err(|e| e.to_string()));
                if r.is_ok() && want.iter().any(|w| **w == out) {
                    return Ok(());
                }
            }
            return Err("does not turn the old build into the new one".into());
        }
        Err("artefact suffix on a name that is no artefact's".into())
    }
}

pub struct TarFile {
    pub mode: u32,
    pub data: Vec<u8>,
}

/// Strict reading of a tar archive: every header checksum, every padding, the
/// end marker; returns the regular files in it.
pub fn parse_tar(c: &[u8]) -> Result<BTreeMap<Vec<u8>, TarFile>, String> {
    if c.len() % 512 != 0 {
        return Err(format!("archive length {} is no multiple of 512", c.len()));
    }
    let mut at = 0;
    let mut long: Option<Vec<u8>> = None;
    let mut out = BTreeMap::new();
    loop {
        if at + 1024 > c.len() {
            return Err("archive without end marker".into());
        }
        let h = &c[at..at + 512];
        if h.iter().all(|b| *b == 0) {
            if c[at..].iter().any(|b| *b != 0) {
                return Err("data after the end marker".into());
            }
            if long.is_some() {
                return Err("long name without a file".into());
            }
            return Ok(out);
        }
        let octal = |f: &[u8]| -> Result<u64, String> {
            if f[0] & 0x80 != 0 {
                return Ok(f[1..].iter().fold(0u64, |a, b| a << 8 | *b as u64));
            }
            let s: String = f.iter().take_while(|b| **b != 0).map(|b| *b as char).collect();
            let s = s.trim();
            if s.is_empty() {
                return Ok(0);
            }
            u64::from_str_radix(s, 8).map_err(|e| format!("bad number `{}`: {}", s, e))
        };
        let want = octal(&h[148..156])?;
        let sum: u64 = h.iter().enumerate().map(|(i, b)| if (148..156).contains(&i) { 32 } else { *b as u64 }).sum();
        if want != sum {
            return Err(format!("header checksum wrong at offset {}", at));
        }
        let size = octal(&h[124..136])? as usize;
        let mode = octal(&h[100..108])? as u32;
        let kind = h[156];
        let cut = |f: &[u8]| f.iter().take_while(|b| **b != 0).copied().collect::<Vec<u8>>();
        let mut name = cut(&h[0..100]);
        if &h[257..262] == b"ustar" && h[262] == 0 && h[345] != 0 {
            let mut p = cut(&h[345..500]);
            p.push(b'/');
            p.extend_from_slice(&name);
            name = p;
        }
        at += 512;
        let padded = (size + 511) / 512 * 512;
        if at + padded > c.len() {
            return Err("entry runs past the end".into());
        }
        let data = &c[at..at + size];
        if c[at + size..at + padded].iter().any(|b| *b != 0) {
            return Err("padding is not zero".into());
        }
        at += padded;
        match kind {
            b'L' => {
                long = Some(data.iter().take_while(|b| **b != 0).copied().collect());
            }
            b'x' => {
                // pax: only `path` matters here
                let mut i = 0;
                while i < data.len() {
                    let sp = data[i..].iter().position(|b| *b == b' ').ok_or("bad pax record")?;
                    let n: usize = std::str::from_utf8(&data[i..i + sp]).ok().and_then(|s| s.parse().ok()).ok_or("bad pax length")?;
                    if n <= sp || i + n > data.len() {
                        return Err("bad pax record".into());
                    }
                    let rec = &data[i + sp + 1..i + n - 1];
                    if let Some(p) = rec.strip_prefix(b"path=") {
                        long = Some(p.to_vec());
                    }
                    i += n;
                }
            }
            b'0' | 0 => {
                let name = long.take().unwrap_or(name);
                let s: &[u8] = name.strip_prefix(b"./").unwrap_or(&name);
                if s.is_empty() || s[0] == b'/' || s.split(|b| *b == b'/').any(|c| c == b"..") {
                    return Err(format!("bad path `{}`", String::from_utf8_lossy(s)));
                }
                if out.insert(s.to_vec(), TarFile { mode: mode & 0o7777, data: data.to_vec() }).is_some() {
                    return Err(format!("`{}` is there twice", String::from_utf8_lossy(s)));
                }
            }
            b'5' => {
                long = None;
            }
            k => return Err(format!("unexpected entry type {}", k)),
        }
    }
}

pub fn compare_tree(kind: &Kind, files: &BTreeMap<Vec<u8>, TarFile>) -> Result<(), String> {
    let want = match kind {
        Kind::Tree { files, .. } => files,
        _ => return Err("not a tree".into()),
    };
    let mut n = 0;
    for f in want.iter().filter(|f| f.special.is_none()) {
        n += 1;
        let g = files.get(&crate::simfs::raw(&f.path)).ok_or_else(|| format!("`{}` is missing", f.path))?;
        if g.data != file_content(f.seed, f.size) {
            return Err(format!("`{}` has wrong content", f.path));
        }
        if g.mode != f.mode & 0o7777 {
            return Err(format!("`{}` has mode {:o} instead of {:o}", f.path, g.mode, f.mode));
        }
    }
    if n != files.len() {
        return Err(format!("{} files instead of {}", files.len(), n));
    }
    Ok(())
}

// ---- a git repository, made by hand ----

fn zlib_stored(data: &[u8]) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let mut chunks = data.chunks(65535).peekable();
    while let Some(c) = chunks.next() {
        out.push(chunks.peek().is_none() as u8);
        out.extend_from_slice(&(c.len() as u16).to_le_bytes());
        out.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
        out.extend_from_slice(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    out.extend_from_slice(&(b << 16 | a).to_be_bytes());
    out
}

/// Files below `.git` of a repository with these tags.
pub fn git_files(tags: &[Tag], bare: bool) -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    let object = |kind: git2::ObjectType, name: &str, data: String, out: &mut Vec<(String, Vec<u8>)>| -> String {
        let id = git2::Oid::hash_object(kind, data.as_bytes()).expect("hash").to_string();
        let mut raw = format!("{} {}\0", name, data.len()).into_bytes();
        raw.extend_from_slice(data.as_bytes());
        let path = format!("objects/{}/{}", &id[..2], &id[2..]);
        if !out.iter().any(|(p, _)| *p == path) {
            out.push((path, zlib_stored(&raw)));
        }
        id
    };
    let mut packed: Vec<(String, String, Option<String>)> = vec![];
    let mut head = String::new();
    for (i, t) in tags.iter().enumerate() {
        let c = format!(
            "tree 4b825dc642cb6eb9a060e54bf8d69288fbee4904\nauthor a <a@b.c> {0} +0000\ncommitter a <a@b.c> {0} +0000\n\nc{1}\n",
            // (they weren't made in order)
            1_500_000_000 + hash_bytes(5, t.name.as_bytes()) % 9_000_000,
            i
        );
        let id = object(git2::ObjectType::Commit, "commit", c, &mut out);
        head = id.clone();
        if t.style == 4 || t.style == 5 {
            let d = if t.style == 4 { "heads" } else { "remotes/origin" };
            out.push((format!("refs/{}/{}", d, t.name), format!("{}\n", id).into_bytes()));
            continue;
        }
        let mut tag = id.clone();
        if t.style % 2 == 1 {
            let d = format!("object {}\ntype commit\ntag {}\ntagger a <a@b.c> 1500000000 +0000\n\nt\n", id, t.name);
            tag = object(git2::ObjectType::Tag, "tag", d, &mut out);
        }
        if t.style > 5 {
            let d = format!("object {}\ntype tag\ntag {}\ntagger a <a@b.c> 1500000000 +0000\n\nt\n", tag, t.name);
            tag = object(git2::ObjectType::Tag, "tag", d, &mut out);
        }
        if t.style < 2 || t.style == 7 {
            out.push((format!("refs/tags/{}", t.name), format!("{}\n", tag).into_bytes()));
        } else {
            packed.push((t.name.clone(), tag.clone(), if tag != id { Some(id) } else { None }));
        }
    }
    packed.sort();
    if !packed.is_empty() {
        let mut s = String::from("# pack-refs with: peeled fully-peeled sorted \n");
        for (n, t, p) in packed {
            s += &format!("{} refs/tags/{}\n", t, n);
            if let Some(p) = p {
                s += &format!("^{}\n", p);
            }
        }
        out.push(("packed-refs".into(), s.into_bytes()));
    }
    if !head.is_empty() {
        out.push(("refs/heads/master".into(), format!("{}\n", head).into_bytes()));
    }
    out.push(("HEAD".into(), b"ref: refs/heads/master\n".to_vec()));
    out.push((
        "config".into(),
        format!("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = {}\n\tlogallrefupdates = true\n", bare).into_bytes(),
    ));
    out
}

// ---- tag selection, written down independently of the code under test ----

fn split(t: &str) -> Vec<String> {
    t.to_lowercase().split(['.', '-']).map(String::from).collect()
}
fn natural(a: &str, b: &str) -> std::cmp::Ordering {
    // compare runs of digits as numbers
    let (a, b) = (split(a).join("."), split(b).join("."));
    let runs = |s: &str| {
        let mut v: Vec<(bool, String)> = vec![];
        for c in s.chars() {
            let d = c.is_ascii_digit();
            match v.last_mut() {
                Some((k, r)) if *k == d => r.push(c),
                _ => v.push((d, c.to_string())),
            }
        }
        v
    };
    let (x, y) = (runs(&a), runs(&b));
    for (p, q) in x.iter().zip(&y) {
        let o = if p.0 && q.0 {
            p.1.parse::<u64>().unwrap_or(0).cmp(&q.1.parse::<u64>().unwrap_or(0))
        } else {
            p.1.cmp(&q.1)
        };
        if o != std::cmp::Ordering::Equal {
            return o;
        }
    }
    x.len().cmp(&y.len())
}
/// For every numeric component of `current`, the newest tag with it lowered by
/// one and the components before it unchanged.
pub fn select_tags(current: &str, tags: &[String]) -> Vec<String> {
    let cur = split(current);
    let mut out: Vec<String> = vec![];
    for i in (0..cur.len()).rev() {
        let n = match cur[i].parse::<u64>().ok().and_then(|n| n.checked_sub(1)) {
            Some(n) => n,
            None => continue,
        };
        let mut want: Vec<String> = cur[..i].to_vec();
        want.push(n.to_string());
        let best = tags.iter().filter(|t| split(t).starts_with(&want)).max_by(|a, b| natural(a, b).then(a.cmp(b)));
        if let Some(b) = best {
            out.push(b.clone());
        }
    }
    out
}
pub fn same_tag(a: &str, b: &str) -> bool {
    split(a) == split(b)
}
