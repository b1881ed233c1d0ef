//! Generates scenarios: a workload per property, and fault and schedule
//! variations of it chosen from what an undisturbed run of it does.
use crate::{
    exec::{class_of, RunResult},
    kernel::{Class, Fault, FaultKind, NetFault},
    rng::{mix, Rng},
    scenario::*,
};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TwinKind {
    /// outcomes must be the same
    Same,
    /// outcomes must be the same apart from files that are no artefacts
    SameArtefacts,
}

pub struct Case {
    pub base: Scenario,
    /// number of disturbed variations to derive from the pilot run
    pub variants: usize,
    /// they go through the places where a single fault matters most, one
    /// after the other, instead of picking some
    pub sweep: bool,
    pub twin: Option<(TwinKind, Scenario)>,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub s3: usize,
    /// install, add, add-package, create-patch, auto-patch, sync, debug
    pub cmds: [usize; 7],
    pub steps: (usize, usize),
    pub foreign: usize,
    pub damaged: usize,
    pub concurrent: usize,
    pub two_machines: usize,
    pub big: usize,
    pub variants: usize,
    /// kill, errno, short, net, full, power, clock, evict
    pub faults: [usize; 8],
    /// repeat commands after a disturbed one
    pub recover: bool,
    /// repeat commands without disturbance
    pub repeat: usize,
    pub upload: usize,
    pub patch_from: usize,
    pub impossible: usize,
    pub edits: usize,
    pub paged: usize,
    pub start_installed: usize,
    pub max_versions: usize,
}

pub fn profile(property: &str) -> Profile {
    let p = Profile {
        s3: 35,
        cmds: [30, 12, 10, 14, 8, 14, 3],
        steps: (1, 3),
        foreign: 10,
        damaged: 5,
        concurrent: 10,
        two_machines: 10,
        big: 4,
        variants: 8,
        faults: [30, 30, 5, 15, 8, 8, 2, 2],
        recover: true,
        repeat: 5,
        upload: 30,
        patch_from: 30,
        impossible: 4,
        edits: 2,
        paged: 10,
        start_installed: 45,
        max_versions: 4,
    };
    match property {
        "C01" => Profile { s3: 20, cmds: [32, 17, 12, 15, 7, 15, 1], big: 16, concurrent: 15, faults: [30, 20, 5, 5, 12, 25, 2, 0], ..p },
        "C02" => Profile {
            cmds: [80, 5, 3, 5, 2, 4, 1],
            start_installed: 85,
            concurrent: 20,
            steps: (1, 3),
            faults: [35, 28, 3, 8, 6, 18, 2, 5],
            ..p
        },
        "C03" => Profile { cmds: [28, 14, 12, 16, 12, 16, 2], faults: [2, 55, 5, 25, 12, 0, 2, 2], impossible: 12, damaged: 8, variants: 10, ..p },
        "C04" => Profile { faults: [30, 30, 2, 18, 8, 12, 4, 4], impossible: 0, damaged: 8, concurrent: 4, ..p },
        "C05" => Profile {
            cmds: [92, 2, 0, 6, 0, 0, 0],
            damaged: 60,
            start_installed: 95,
            steps: (1, 2),
            big: 12,
            concurrent: 2,
            max_versions: 6,
            faults: [5, 55, 5, 35, 2, 0, 0, 8],
            foreign: 4,
            ..p
        },
        "C06" => Profile {
            cmds: [92, 0, 0, 4, 0, 0, 4],
            start_installed: 95,
            damaged: 0,
            foreign: 8,
            steps: (1, 3),
            concurrent: 0,
            variants: 0,
            max_versions: 7,
            recover: false,
            impossible: 2,
            two_machines: 0,
            ..p
        },
        "C07" => Profile {
            cmds: [4, 14, 10, 6, 2, 60, 1],
            upload: 90,
            s3: 55,
            damaged: 0,
            foreign: 40,
            two_machines: 30,
            concurrent: 12,
            max_versions: 6,
            faults: [20, 25, 3, 40, 8, 4, 0, 0],
            repeat: 30,
            ..p
        },
        "C08" => Profile {
            s3: 100,
            cmds: [40, 10, 5, 14, 6, 24, 1],
            upload: 70,
            faults: [4, 3, 0, 93, 0, 0, 0, 0],
            variants: 14,
            foreign: 3,
            concurrent: 5,
            ..p
        },
        "C09" => Profile {
            s3: 100,
            paged: 90,
            cmds: [30, 6, 2, 8, 10, 24, 20],
            faults: [0, 0, 0, 100, 0, 0, 0, 0],
            variants: 4,
            foreign: 20,
            damaged: 0,
            concurrent: 0,
            max_versions: 7,
            ..p
        },
        "C10" => Profile { faults: [0, 62, 6, 20, 12, 0, 0, 0], recover: false, variants: 12, concurrent: 8, impossible: 8, edits: 8, foreign: 4, damaged: 10, ..p },
        "C11" => Profile {
            concurrent: 100,
            two_machines: 40,
            steps: (1, 2),
            variants: 16,
            faults: [4, 4, 0, 2, 0, 0, 2, 0],
            cmds: [34, 14, 14, 18, 3, 15, 2],
            damaged: 0,
            foreign: 3,
            impossible: 0,
            s3: 25,
            edits: 0,
            ..p
        },
        "C12" => Profile { foreign: 50, cmds: [26, 16, 12, 14, 10, 14, 8], faults: [25, 35, 4, 15, 10, 6, 2, 0], repeat: 10, ..p },
        "C13" => Profile { cmds: [3, 2, 90, 2, 0, 3, 0], two_machines: 80, edits: 40, faults: [5, 60, 20, 5, 5, 0, 5, 0], variants: 6, steps: (2, 4), concurrent: 5, s3: 10, ..p },
        "C14" => Profile { cmds: [0, 3, 0, 4, 93, 0, 0], steps: (1, 2), max_versions: 7, damaged: 0, foreign: 10, concurrent: 0, faults: [5, 60, 3, 30, 5, 0, 0, 0], impossible: 0, ..p },
        "C15" => Profile { damaged: 30, foreign: 25, impossible: 12, edits: 8, faults: [1, 55, 12, 24, 6, 0, 3, 4], variants: 14, recover: false, big: 4, ..p },
        "C16" => Profile { foreign: 100, damaged: 0, faults: [50, 40, 0, 10, 0, 0, 0, 0], variants: 2, concurrent: 0, impossible: 4, cmds: [30, 12, 8, 12, 8, 20, 5], two_machines: 10, ..p },
        "C17" => Profile { faults: [3, 8, 0, 2, 2, 85, 0, 0], cmds: [40, 18, 12, 16, 6, 12, 0], s3: 15, concurrent: 8, steps: (1, 3), variants: 10, ..p },
        "C18" => Profile { concurrent: 0, variants: 0, damaged: 0, foreign: 10, recover: false, steps: (2, 4), max_versions: 7, edits: 0, paged: 40, cmds: [34, 8, 8, 12, 14, 16, 4], ..p },
        "C19" => Profile { repeat: 100, variants: 3, faults: [40, 30, 0, 20, 0, 0, 10, 0], concurrent: 0, impossible: 0, damaged: 4, foreign: 8, ..p },
        _ => p,
    }
}

// ------------------------------------------------------------------ workload

fn names(r: &mut Rng, n: usize) -> Vec<String> {
    let style = r.below(13);
    let start = r.range(7, 9);
    let odd = [
        "1+2", "a b", "x%20y", "r&d=1", "\u{e9}t\u{e9}", "v~1", "#1", "q?x", "1@b", "(1)", "\u{540d}", "a_b", "1,2", "w:1", "x;y", "'q'", "\"dq\"", "*",
        "back\\slash", "<x>", "Rel", "rel", "REL", "1.tar", "1.patch", "1", "1.tar.zst", ".1", "1.", "2-", "x--", "a.b-c", "x.part", "current", "$HOME",
    ];
    let salt = r.below(odd.len());
    let step = *r.pick(&[1usize, 2, 3, 4, 6, 8, 9, 11]);
    // names that are easily mistaken for one another
    let alike = style != 8 && r.chance(1, 5);
    let twist = |r: &mut Rng, s: &str| match r.below(12) {
        0 | 1 => format!("v{}", s.trim_start_matches('v')),
        2 => s.trim_start_matches('v').to_string(),
        3 => format!("{}.0", s),
        4 => format!("{}-1", s),
        5 => format!("{}0", s),
        6 => s.to_uppercase(),
        7 => s.to_lowercase(),
        8 => s.replace('.', "_"),
        9 => s.replace('-', "."),
        10 => format!("{}.", s),
        _ => format!("x{}", s),
    };
    let plain: Vec<String> = (0..n)
        .map(|i| match style {
            0 | 1 => format!("{}", start + i),
            2 => format!("1.0.{}", start + i),
            3 => format!("mod-v1.2.{}", start + i),
            4 => format!("IL40.2.{}", start + i),
            5 => format!("build{}-rc{}", start + i, i),
            6 => format!("{:x}", mix(r.next()) >> 36),
            7 => format!("v{}.{}", 1 + i / 3, 9 + i % 3),
            8 => format!("{}-{}", "a-rather-long-name-of-a-product.with.many.parts".repeat(3)[..if salt % 3 == 0 { 63 + salt } else { 40 + salt }].trim_end_matches('-'), start + i),
            12 => ["1", "10", "1.0", "1.0.1", "1.0.10", "v1", "V1", "1-0", "01", "11", "1.00"][(salt + i * 3) % 11].to_string(),
            9 | 10 => odd[(salt + i * step) % odd.len()].to_string(),
            _ => format!("{}{}", start + i, odd[(salt + i * step) % odd.len()]),
        })
        .collect();
    let mut out: Vec<String> = vec![];
    for (i, s) in plain.into_iter().enumerate() {
        let like = if alike && i > 0 && r.chance(2, 3) { Some(r.pick(&out).clone()) } else { None };
        let s = like.map(|l| twist(r, &l)).filter(|t| !t.is_empty() && !invalid(t)).unwrap_or(s);
        out.push(s);
    }
    out.into_iter()
        .fold(vec![], |mut v, x| {
            if !v.contains(&x) {
                v.push(x);
            }
            v
        })
}

fn blob_size(r: &mut Rng, p: &Profile) -> usize {
    if r.chance(p.big, 100) {
        // (more than one buffer in the compressed form, or a lot more)
        return if r.chance(2, 3) { r.range(34_000, 140_000) } else { r.range(200_000, 420_000) };
    }
    match r.below(20) {
        0 => r.below(3),
        1..=3 => r.range(20, 400),
        4..=15 => r.range(400, 9_000),
        _ => r.range(9_000, 50_000),
    }
}

/// Sizes beyond all limits one might come up with.
fn huge_size(r: &mut Rng) -> usize {
    match r.below(6) {
        0 | 1 => r.range(1_000_000, 1_400_000),
        2 => r.range(2_100_000, 4_300_000),
        _ => r.range(5_300_000, 9_000_000),
    }
}

fn tree(r: &mut Rng) -> Kind {
    let single = r.chance(1, 8);
    // (rarely: more files than anyone would list)
    let n = if single {
        1
    } else if r.chance(1, 60) {
        r.range(30, 200)
    } else {
        r.range(0, 9)
    };
    let dirs = ["", "bin/", "lib/", "lib/deep/er/", "a b/", "Data/Managed/", "zz/", ".config/", ".git/", "target/x/"];
    let long = "StandaloneLinux64/What-in-the-actual-Hell/Managed/Unity.RenderPipelines.ShaderGraph.Long";
    let mut files: Vec<TreeFile> = vec![];
    let mut seen = BTreeSet::new();
    for i in 0..n {
        let d = if single { "" } else { *r.pick(&dirs) };
        let base = match r.below(13) {
            12 => format!("caf\u{e0e9}{}", i),
            11 => match r.below(12) {
                0 => format!("f{}.part", i),
                1 => format!("._f{}", i),
                2 => format!("f{}~", i),
                3 => format!("f{}.bak", i),
                4 => format!("#f{}#", i),
                5 => ["Thumbs.db", ".DS_Store", ".gitignore", "current", "core", "1.tar.zst", "1-2.patch.zst"][r.below(7)].to_string(),
                6 => format!("._artefacta-temp-1600000000-0-{}.tar.zst.part", i),
                7 => format!("f{} -> x", i),
                8 => format!("back\\slash{}", i),
                9 => format!("*{}", i),
                10 => format!("-rf{}", i),
                _ => format!("{}.tmp", i),
            },
            0 if !single => format!("{}{}{}.dll", if r.chance(1, 3) { format!("{}/{}/", &long[18..80], long) } else { String::new() }, long, i),
            1 => format!("f{}.tar.zst", i),
            2 => format!("ünï{}", i),
            3 => format!(".hidden{}", i),
            4 => format!("File{}", i),
            5 => format!("file.{}", i),
            _ if n > 9 => format!("file{}", i),
            _ => format!("file{}", r.below(40)),
        };
        let path = format!("{}{}", d, base);
        if !seen.insert(path.clone()) {
            continue;
        }
        let size = match r.below(10) {
            0 => 0,
            1 => 512,
            2 => r.range(510, 514),
            3 => (*r.pick(&[1024usize, 4096, 8192, 16384, 32768, 65536, 131_072]) + r.below(3)).saturating_sub(1),
            4..=7 => r.range(1, 3_000),
            _ if r.chance(1, 100) && n < 10 => r.range(300_000, 2_500_000),
            _ => r.range(3_000, 40_000),
        };
        let mode = *r.pick(&[0o644, 0o644, 0o755, 0o600, 0o555, 0o4755, 0o2755, 0o1644, 0o444]);
        files.push(TreeFile { path, seed: r.next(), size, mode, special: None, twin: None });
    }
    // names that are almost the same
    if !single && r.chance(1, 3) {
        if let Some(f) = files.first().cloned() {
            let (d, n) = f.path.rsplit_once('/').map_or((String::new(), &f.path[..]), |(d, n)| (format!("{}/", d), n));
            let twist: [&dyn Fn() -> String; 5] = [
                &|| n.to_uppercase(),
                &|| format!("{} ", n),
                &|| format!("{}.", n),
                &|| format!("{}-1", n),
                &|| n.replace(|c: char| c.is_ascii_digit(), "0"),
            ];
            if r.chance(1, 4) {
                // names without a text form
                for c in ["\u{e0e8}", "\u{e0e9}"] {
                    let path = format!("{}{}{}", d, n, c);
                    if seen.insert(path.clone()) {
                        files.push(TreeFile { path, seed: r.next(), size: r.range(0, 900), mode: 0o644, special: None, twin: None });
                    }
                }
            }
            for _ in 0..r.range(1, 3) {
                let path = format!("{}{}", d, twist[r.below(5)]());
                if seen.insert(path.clone()) {
                    files.push(TreeFile { path, seed: r.next(), size: r.range(0, 900), mode: 0o644, special: None, twin: None });
                }
            }
        }
    }
    if !single {
        if r.chance(1, 4) && !files.is_empty() {
            // the same file under several names
            for d in ["", "bin/", "zz/"] {
                let f = r.pick(&files).clone();
                let path = format!("{}same{}", d, r.below(20));
                if f.twin.is_none() && r.chance(2, 3) {
                    files.push(TreeFile { path, twin: Some(f.path.clone()), ..f });
                }
            }
        }
        if r.chance(1, 6) {
            files.push(TreeFile { path: "afifo".into(), seed: 0, size: 0, mode: 0o644, special: Some("fifo".into()), twin: None });
        }
        if r.chance(1, 3) {
            files.push(TreeFile { path: "emptydir".into(), seed: 0, size: 0, mode: 0o755, special: Some("dir".into()), twin: None });
        }
        if r.chance(1, 3) {
            let t = *r.pick(&["file1", "nowhere", "bin", ".."]);
            files.push(TreeFile { path: "alink".into(), seed: 0, size: 0, mode: 0o777, special: Some(format!("link:{}", t)), twin: None });
        }
    }
    Kind::Tree { files, single }
}

pub fn knobs(r: &mut Rng, p: &Profile, machines: usize) -> Knobs {
    Knobs {
        incidental: r.next(),
        start_s: 1_600_000_000 + r.below(100_000_000) as i64,
        tick_ns: *r.pick(&[0, 100, 1_000_000, 1_000_000, 20_000_000]),
        page_size: if r.chance(p.paged, 100) { r.range(1, 4) } else { 1000 },
        list_order: if r.chance(1, 2) { 0 } else { r.next() | 1 },
        empty_pages: r.chance(p.paged, 250),
        bare_etags: r.chance(1, 6),
        multipart: if r.chance(1, 6) { r.next() | 1 } else { 0 },
        modes: if r.chance(1, 2) { r.next() | 1 } else { 0 },
        unprivileged: r.chance(1, 2),
        latency: *r.pick(&[0, 0, 2, 9]),
        chunk: *r.pick(&[1 << 16, 1 << 16, 700, 4096]),
        dtype_unknown: r.chance(1, 10),
        no_cwd: r.chance(1, 40),
        mute: if r.chance(1, 25) { *r.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE]) } else { 0 },
        repo_kind: *r.pick(&[0, 0, 0, 0, 0, 0, 1, 2]),
        readdir: (0..machines)
            .map(|_| match r.below(4) {
                0 => 0,
                1 => 1,
                _ => r.next() | 2,
            })
            .collect(),
    }
}

/// What exists where, as far as the generator can tell.
struct Model {
    local: Vec<BTreeSet<usize>>,
    remote: BTreeSet<usize>,
    current: Vec<Option<usize>>,
}

fn foreign(r: &mut Rng, sc: &Scenario, remote_s3: bool) -> Plant {
    let v = |r: &mut Rng| sc.versions[r.below(sc.versions.len())].name.clone();
    let what_small = |r: &mut Rng| match r.below(3) {
        0 => What::Text { text: "not an artefact\n".into() },
        1 => What::Empty,
        _ => What::Garbage { seed: r.next(), size: 64 },
    };
    loop {
        let p = match r.below(22) {
            21 => Plant { name: r.pick(&["pipe", "queue.tar.zst", "a-b.patch.zst"]).to_string(), what: What::Fifo },
            16 | 17 => Plant { name: format!("caf\u{e0e9}-{}", r.below(9)), what: what_small(r) },
            18 => Plant { name: format!("\u{e0ff}\u{e0fe}{}.{}.zst", v(r), r.pick(&["tar", "patch"])), what: what_small(r) },
            0 => Plant { name: format!("._artefacta-temp-{}{}.tar.zst.part", 1_600_000_000 + r.below(1000), v(r)), what: What::Garbage { seed: r.next(), size: 300 } },
            1 => Plant { name: "README.md".into(), what: What::Text { text: "hello".into() } },
            2 => Plant { name: "notes".into(), what: What::Dir },
            3 => Plant { name: "latest".into(), what: What::Link { target: "nowhere".into() } },
            4 => Plant { name: format!("{}-old.tar.zst", v(r)), what: What::Empty },
            5 => {
                // an empty file under the name of a build that exists elsewhere
                Plant { name: build_name(&v(r)), what: What::Empty }
            }
            6 => {
                let (a, b) = (v(r), v(r));
                if a == b {
                    continue;
                }
                Plant { name: patch_name(&a, &b), what: What::Empty }
            }
            7 => Plant { name: "a---b---c.tar.zst".into(), what: what_small(r) },
            8 => Plant { name: "x-y-z.patch.zst".into(), what: what_small(r) },
            9 => Plant { name: "noversion.patch.zst".into(), what: what_small(r) },
            10 => Plant { name: format!("gone1-{}.patch.zst", v(r).replace('-', "_")), what: What::Garbage { seed: r.next(), size: 90 } },
            11 => Plant { name: "gone1---gone-2.patch.zst".into(), what: What::Garbage { seed: r.next(), size: 90 } },
            19 => {
                let n = format!("{}{}", v(r), r.pick(&[".tar.zst.bak", ".tar.zst~", ".tar.gz", ".TAR.ZST", ".tar", ".zst", ".tar.zst.old", ".tar.zst.part", ".tar.zstd"]));
                Plant { name: n, what: what_small(r) }
            }
            20 => {
                let (a, b) = (v(r), v(r));
                let n = format!("{}---{}{}", a, b, r.pick(&[".patch.zst.bak", ".patch.zst~", ".patch.xz", ".patch", ".patch.zst.old", ".tar.zst.patch", ".PATCH.ZST"]));
                Plant { name: n, what: what_small(r) }
            }
            12 => Plant { name: "dir.tar.zst".into(), what: What::Dir },
            13 => Plant { name: "old-current".into(), what: What::Link { target: format!("/store/{}", build_name(&v(r))) } },
            14 => Plant { name: "linked.tar.zst".into(), what: What::Link { target: "nowhere.tar.zst".into() } },
            _ => Plant { name: format!(".tmp{}", r.below(1000)), what: what_small(r) },
        };
        let no_text = p.name.chars().any(|c| ('\u{e080}'..='\u{e0ff}').contains(&c));
        if remote_s3 && (no_text || matches!(p.what, What::Link { .. } | What::Fifo)) {
            continue;
        }
        return p;
    }
}

fn has(plants: &[Plant], name: &str) -> bool {
    plants.iter().any(|p| p.name == name)
}

pub fn scenario(property: &str, r: &mut Rng) -> Scenario {
    let p = profile(property);
    let wants_auto = p.cmds[4] > 50 || r.chance(p.cmds[4], 40);
    let n = r.range(2, p.max_versions.max(2));
    let machines = if r.chance(p.two_machines, 100) { 2 } else { 1 };
    let mut prefix = String::new();
    let mut tags: Vec<Tag> = vec![];
    let mut auto_current = String::new();
    let mut versions: Vec<Version> = vec![];
    let mut vnames = names(r, n);
    // more builds than anyone would count by hand
    let crowd = !wants_auto && r.chance(
            1,
            match property {
                "C07" => 12,
                "C06" | "C09" => 20,
                _ => 60,
            },
        );
    if crowd {
        let (n, lead) = (r.range(17, 45), *r.pick(&["", "v", "1.", "a-"]));
        vnames = (0..n).map(|i| format!("{}{}", lead, 3 + i)).collect();
    }
    if wants_auto {
        // versions named after tags
        let (mut major, mut minor, mut micro) = (r.range(1, 11), r.range(0, 11), r.range(0, 11));
        match r.below(18) {
            0 => major += 70_000,
            1 => minor += 2_020_060,
            2 => micro += 299_990,
            3 => micro += 4_294_967_280,
            4 => micro += 20_200_629_120_000,
            _ => {}
        }
        let sep = *r.pick(&[".", ".", "-"]);
        let lead = *r.pick(&["", "v", "IL", "rel-"]);
        prefix = r.pick(&["", "", "game-", "m.", lead]).to_string();
        auto_current = match r.below(10) {
            0 if minor > 0 => format!("{}{}{}{}", lead, major, sep, minor),
            1 => format!("{}{}{}{}{}{}{}{}", lead, major, sep, minor, sep, micro, sep, r.range(0, 11)),
            _ => format!("{}{}{}{}{}{}", lead, major, sep, minor, sep, micro),
        };
        let mut cand: Vec<(usize, usize, usize)> = vec![];
        for a in [major.saturating_sub(1), major] {
            for b in [minor.saturating_sub(1), minor, minor + 1] {
                for c in [0, micro.saturating_sub(1), micro, 9, 10] {
                    cand.push((a, b, c));
                }
            }
        }
        cand.sort();
        cand.dedup();
        r.shuffle(&mut cand);
        let style = *r.pick(&[0u8, 1, 2, 3, 7, 9, 4]);
        let k = r.range(1, 8);
        let mut tagn: Vec<String> =
            cand.iter().map(|(a, b, c)| format!("{}{}{}{}{}{}", lead, a, sep, b, sep, c)).filter(|t| *t != auto_current).take(k).collect();
        // make sure there is usually something to select
        if micro > 0 && r.chance(3, 4) {
            tagn.push(format!("{}{}{}{}{}{}", lead, major, sep, minor, sep, micro - 1));
        }
        if minor > 0 && r.chance(1, 2) {
            tagn.push(format!("{}{}{}{}{}{}", lead, major, sep, minor - 1, sep, *r.pick(&[0, 9, 10, 11])));
        }
        if r.chance(1, 3) {
            // more or fewer components, numbers that are long, other spellings
            let mixed = r.chance(1, 2);
            for t in &mut tagn {
                match r.below(9) {
                    0 | 1 => *t = format!("{}{}{}", t, sep, r.range(0, 12)),
                    2 => *t = format!("{}{}{}", t, sep, 20_200_629_120_000u64 + r.below(9) as u64 * 1_000_000_007),
                    3 => {
                        if let Some(i) = t.rfind(sep) {
                            t.truncate(i);
                        }
                    }
                    4 | 5 if mixed => *t = t.replacen(sep, if sep == "." { "-" } else { "." }, r.range(1, 2)),
                    6 if mixed => *t = t.to_uppercase(),
                    _ => {}
                }
            }
            tagn.retain(|t| *t != auto_current);
        }
        tagn.sort();
        tagn.dedup();
        for t in &tagn {
            let s = if style == 4 { *r.pick(&[0u8, 1, 2, 3, 7, 9]) } else { style };
            tags.push(Tag { name: t.clone(), style: s });
        }
        if r.chance(1, 4) {
            for _ in 0..r.range(1, 3) {
                let name = match r.below(3) {
                    0 => format!("{}{}{}{}{}{}", lead, major, sep, minor.saturating_sub(1), sep, 700 + r.below(9)),
                    1 => format!("{}{}{}{}{}{}", lead, major, sep, minor, sep, micro.saturating_sub(1)),
                    _ => format!("{}{}{}{}", lead, major.saturating_sub(1), sep, 800),
                };
                if !tags.iter().any(|t| t.name == name) && name != auto_current {
                    tags.push(Tag { name, style: r.range(4, 5) as u8 });
                }
            }
        }
        vnames = vec![format!("{}{}", prefix, auto_current)];
        let odd = r.chance(1, 4);
        for t in &tagn {
            if r.chance(7, 8) {
                let mut name = format!("{}{}", prefix, t);
                if odd && r.chance(1, 3) {
                    // a build whose name only matches loosely
                    let alt = if r.chance(1, 2) { name.to_uppercase() } else { name.replace(sep, if sep == "." { "-" } else { "." }) };
                    if r.chance(1, 2) {
                        vnames.push(alt.clone());
                    } else {
                        name = alt;
                    }
                }
                vnames.push(name);
            }
        }
        let mut seen = BTreeSet::new();
        vnames.retain(|v| seen.insert(v.clone()) && !v.contains("---"));
    }
    let huge = if wants_auto || crowd || property == "C06" {
        None
    } else if p.s3 < 100 && r.chance(1, if matches!(property, "C04" | "C05") { 50 } else { 110 }) || p.s3 == 100 && r.chance(1, 30) { Some(r.below(vnames.len().min(3))) } else { None };
    if huge.is_some() {
        vnames.truncate(3);
    }
    for (i, name) in vnames.iter().enumerate() {
        if huge == Some(i) {
            versions.push(Version { name: name.clone(), kind: Kind::Blob { seed: if r.chance(3, 4) { r.next() & !3 } else { r.next() }, size: huge_size(r), parent: None, edits: 0 } });
            continue;
        }
        let size = if crowd { r.range(20, 900) } else { blob_size(r, &p) };
        let parent = if huge.is_some() {
            None
        } else if i > 0 && r.chance(5, 6) { Some(if r.chance(4, 5) { i - 1 } else { r.below(i) }) } else { None };
        versions.push(Version { name: name.clone(), kind: Kind::Blob { seed: r.next(), size, parent, edits: r.range(1, 12) as u32 } });
    }
    if matches!(property, "C18" | "C06") && versions.len() > 3 && r.chance(1, 3) {
        // equal content, so that patches from and to them have equal sizes
        let (a, b) = (r.range(1, versions.len() - 1), r.range(1, versions.len() - 1));
        let (a, b) = (a.min(b), a.max(b));
        versions[b].kind = versions[a].kind.clone();
    }
    let blobs: Vec<usize> = (0..versions.len()).collect();
    let mut trees: Vec<usize> = vec![];
    if p.cmds[2] > 0 {
        let want = if p.cmds[2] > 50 { r.range(1, 3) } else { r.range(0, 2) };
        for i in 0..want {
            let mut nm = match r.below(3) {
                0 => format!("{}", 100 + i),
                1 => format!("pkg-1.{}", i),
                _ => format!("tree{}", i),
            };
            if r.chance(p.impossible, 400) {
                nm = match r.below(5) {
                    0 => format!("../up{}", i),
                    1 => format!("/store/{}", i),
                    2 => format!("user/x{}", i),
                    _ => format!("bad---name{}", i),
                };
            }
            while versions.iter().any(|v| v.name == nm) {
                nm.push('x');
            }
            trees.push(versions.len());
            versions.push(Version { name: nm, kind: tree(r) });
        }
    }
    let remote = if r.chance(p.s3, 100) {
        let mut root = r.pick(&["store", "store", "a/b", "deep/er/path", "test", ""]).to_string();
        if r.chance(1, 5) {
            // what the names of builds begin with
            root = format!("{}{}", r.pick(&["", "a/"]), versions[0].name.chars().next().filter(|c| c.is_ascii_alphanumeric()).unwrap_or('v'));
        }
        Remote::S3 { root }
    } else {
        Remote::Fs
    };
    let is_s3 = matches!(remote, Remote::S3 { .. });
    let mut sc = Scenario {
        property: property.to_string(),
        knobs: knobs(r, &p, machines),
        remote,
        versions,
        machines: vec![],
        remote_files: vec![],
        elsewhere: vec![],
        giants: vec![],
        tags,
        steps: vec![],
    };
    let mut model = Model { local: vec![BTreeSet::new(); machines], remote: BTreeSet::new(), current: vec![None; machines] };
    // builds
    let remote_share = *r.pick(&[9usize, 7, 7, 4]);
    let local_share = *r.pick(&[2usize, 4, 4, 7]);
    for v in &blobs {
        if r.chance(remote_share, 10) || p.s3 == 100 && huge == Some(*v) {
            sc.remote_files.push(Plant { name: build_name(&sc.versions[*v].name), what: What::Build { v: *v, level: build_level(r) } });
            model.remote.insert(*v);
        }
    }
    for m in 0..machines {
        let mut store = vec![];
        for v in &blobs {
            if r.chance(local_share, 10) {
                store.push(Plant { name: build_name(&sc.versions[*v].name), what: What::Build { v: *v, level: build_level(r) } });
                model.local[m].insert(*v);
            }
        }
        if !store.is_empty() && r.chance(p.start_installed, 100) {
            let l: Vec<usize> = model.local[m].iter().copied().collect();
            let c = *r.pick(&l);
            model.current[m] = Some(c);
        }
        let current = model.current[m].map(|c| {
            let b = build_name(&sc.versions[c].name);
            if r.chance(5, 6) {
                format!("/store/{}", b)
            } else {
                b
            }
        });
        let (current, store) = match sc.versions.iter().find(|v| !has(&store, &build_name(&v.name)) && r.chance(p.foreign, 1000)) {
            // installed once, but what is there now is an empty file
            Some(v) if model.current[m].is_none() => {
                let n = build_name(&v.name);
                let mut store = store;
                store.push(Plant { name: n.clone(), what: What::Empty });
                (Some(if r.chance(5, 6) { format!("/store/{}", n) } else { n }), store)
            }
            _ => (current, store),
        };
        let (current, store) = match sc.versions.iter().find(|v| !has(&store, &build_name(&v.name)) && r.chance(p.foreign + p.start_installed, 1500)) {
            // installed once, but that build has been removed since
            Some(v) if current.is_none() && !matches!(v.kind, Kind::Tree { .. }) => {
                let n = build_name(if r.chance(1, 6) { "removed-1" } else { &v.name });
                (Some(if r.chance(5, 6) { format!("/store/{}", n) } else { n }), store)
            }
            _ => (current, store),
        };
        let variant = if m == 0 && r.chance(1, 2) { 0 } else { r.range(1, 9) as u64 };
        sc.machines.push(Machine { store, current, variant });
    }
    // patches
    let dense = r.chance(1, 3) || property == "C06";
    for a in &blobs {
        for b in &blobs {
            if a == b || huge == Some(*a) || huge == Some(*b) {
                continue;
            }
            let near = *b == *a + 1;
            let share = match (near, dense) {
                (false, _) if crowd => 1,
                (true, true) => 80,
                (true, false) => 45,
                (false, true) => 22,
                (false, false) => 6,
            };
            if !r.chance(share, 100) {
                continue;
            }
            let name = patch_name(&sc.versions[*a].name, &sc.versions[*b].name);
            let what = What::Patch { a: *a, b: *b, level: r.range(1, 3) as i32 };
            let damaged = |r: &mut Rng, w: &What| -> What {
                if !r.chance(p.damaged, 100) {
                    return w.clone();
                }
                match r.below(5) {
                    0 => What::Garbage { seed: r.next(), size: r.range(1, 200) },
                    1 => What::Text { text: "oops".into() },
                    2 => What::TruncatedPatch { a: *a, b: *b, permille: 1000 + r.below(20) as u32 },
                    _ => What::TruncatedPatch { a: *a, b: *b, permille: r.range(0, 999) as u32 },
                }
            };
            if r.chance(7, 10) {
                let w = damaged(r, &what);
                sc.remote_files.push(Plant { name: name.clone(), what: w });
            }
            for m in 0..machines {
                if r.chance(3, 10) {
                    let w = damaged(r, &what);
                    sc.machines[m].store.push(Plant { name: name.clone(), what: w });
                }
            }
        }
    }
    // two ways of exactly the same cost
    let mut diamond = None;
    if matches!(property, "C18" | "C06" | "C19") && !wants_auto && huge.is_none() && blobs.len() > 3 && r.chance(1, 6) {
        let mut four = blobs.clone();
        r.shuffle(&mut four);
        four.truncate(4);
        four.sort();
        let (a, b, c, d) = (four[0], four[1], four[2], four[3]);
        sc.versions[a].kind = Kind::Blob { seed: r.next() & !3, size: r.range(2_000, 9_000), parent: None, edits: 0 };
        let mid = Kind::Blob { seed: r.next(), size: 4_000, parent: Some(a), edits: r.range(1, 4) as u32 };
        sc.versions[b].kind = mid.clone();
        sc.versions[c].kind = mid;
        sc.versions[d].kind = Kind::Blob { seed: r.next(), size: 5_000, parent: Some(b), edits: r.range(1, 4) as u32 };
        let among = |n: &str| {
            let is = |x: &str| four.iter().any(|v| sc.versions[*v].name == x);
            parse_build(n).map_or(false, |v| is(&v)) || parse_patch(n).map_or(false, |(x, y)| is(&x) && is(&y))
        };
        sc.remote_files.retain(|p| !among(&p.name));
        sc.machines[0].store.retain(|p| !among(&p.name));
        for v in &four {
            sc.remote_files.push(Plant { name: build_name(&sc.versions[*v].name), what: What::Build { v: *v, level: 1 } });
            model.remote.insert(*v);
            model.local[0].remove(v);
        }
        let ways = [(a, b), (a, c), (b, d), (c, d)];
        for (x, y) in &ways {
            let p = Plant { name: patch_name(&sc.versions[*x].name, &sc.versions[*y].name), what: What::Patch { a: *x, b: *y, level: 1 } };
            if r.chance(1, 4) {
                sc.machines[0].store.push(p.clone());
            }
            sc.remote_files.push(p);
        }
        let n = build_name(&sc.versions[a].name);
        sc.machines[0].store.push(Plant { name: n.clone(), what: What::Build { v: a, level: 1 } });
        sc.machines[0].current = Some(format!("/store/{}", n));
        model.local[0].insert(a);
        model.current[0] = Some(a);
        diamond = Some(d);
    }
    // a way of many steps, one of which may not work
    let long = match property {
        "C05" => 8,
        "C02" | "C06" | "C18" | "C19" => 14,
        _ => 40,
    };
    if diamond.is_none() && !wants_auto && huge.is_none() && !crowd && blobs.len() > 3 && r.chance(1, long) {
        let chain = blobs[..r.range(4, blobs.len())].to_vec();
        let (first, last) = (chain[0], chain[chain.len() - 1]);
        let seed = r.next() & !3;
        for (i, v) in chain.iter().enumerate() {
            sc.versions[*v].kind = if i == 0 {
                Kind::Blob { seed, size: r.range(3_000, 12_000), parent: None, edits: 0 }
            } else {
                Kind::Blob { seed: r.next(), size: 4_000, parent: Some(chain[i - 1]), edits: r.range(1, 3) as u32 }
            };
        }
        let among = |n: &str| {
            let is = |x: &str| chain.iter().any(|v| sc.versions[*v].name == x);
            parse_build(n).map_or(false, |v| is(&v)) || parse_patch(n).map_or(false, |(x, y)| is(&x) || is(&y))
        };
        sc.remote_files.retain(|p| !among(&p.name));
        sc.machines[0].store.retain(|p| !among(&p.name));
        for v in &chain {
            model.local[0].remove(v);
            model.remote.remove(v);
            // (patches count only between builds that exist)
            if *v != first || r.chance(1, 2) {
                sc.remote_files.push(Plant { name: build_name(&sc.versions[*v].name), what: What::Build { v: *v, level: 1 } });
                model.remote.insert(*v);
            }
        }
        let broken = if r.chance(p.damaged, 100) { Some(r.below(chain.len() - 1)) } else { None };
        for (i, w) in chain.windows(2).enumerate() {
            let (a, b) = (w[0], w[1]);
            let what = match broken {
                Some(x) if x == i => match r.below(3) {
                    0 => What::Garbage { seed: r.next(), size: r.range(1, 100) },
                    _ => What::TruncatedPatch { a, b, permille: r.range(100, 950) as u32 },
                },
                _ => What::Patch { a, b, level: 1 },
            };
            let p = Plant { name: patch_name(&sc.versions[a].name, &sc.versions[b].name), what };
            if r.chance(1, 4) {
                sc.machines[0].store.push(p);
            } else {
                sc.remote_files.push(p);
            }
        }
        let n = build_name(&sc.versions[first].name);
        sc.machines[0].store.push(Plant { name: n.clone(), what: What::Build { v: first, level: 1 } });
        sc.machines[0].current = Some(format!("/store/{}", n));
        model.local[0].insert(first);
        model.current[0] = Some(first);
        diamond = Some(last);
    }
    // foreign files
    if r.chance(p.foreign, 100) {
        for _ in 0..r.range(1, 4) {
            let to_remote = r.chance(4, 10);
            let f = foreign(r, &sc, to_remote && is_s3);
            if to_remote {
                // an empty remote object under a name the local store has would
                // be neither there nor missing
                let locally = sc.machines.iter().any(|m| has(&m.store, &f.name));
                if !has(&sc.remote_files, &f.name) && !(locally && artefact_suffix(&f.name)) {
                    sc.remote_files.push(f);
                }
            } else {
                let m = r.below(machines);
                if !has(&sc.machines[m].store, &f.name) {
                    sc.machines[m].store.push(f);
                }
            }
        }
    }
    // elsewhere in the bucket
    if is_s3 && r.chance(if property == "C09" { 85 } else { 30 }, 100) {
        let root = sc.root().to_string();
        for _ in 0..r.range(1, 4) {
            let v = r.below(sc.versions.len());
            let nm = match r.below(4) {
                0 => "77.tar.zst".to_string(),
                1 => "77-78.patch.zst".to_string(),
                _ => build_name(&sc.versions[v].name),
            };
            let above = match root.rfind('/') {
                Some(i) => &root[..=i],
                None => "",
            };
            let key = match r.below(7) {
                5 | 6 if !root.is_empty() && !r.chance(1, 4) => format!("{}{}", above, nm),
                0 => format!("{}-other/{}", if root.is_empty() { "x" } else { &root }, nm),
                1 => format!("{}2/{}", if root.is_empty() { "x" } else { &root }, nm),
                2 => format!("unrelated/{}", nm),
                3 if !root.is_empty() => format!("{}{}", root, nm),
                _ => format!("{}old/{}", if root.is_empty() { "q" } else { &root }, nm),
            };
            let what = if r.chance(1, 2) { What::Garbage { seed: r.next(), size: 40 } } else { What::Text { text: "elsewhere".into() } };
            sc.elsewhere.push((key, what));
        }
        if r.chance(1, 2) {
            // nested below the store
            let v = r.below(sc.versions.len());
            let nm = build_name(&sc.versions[v].name);
            let name = format!("archive/{}", nm);
            sc.remote_files.push(Plant { name, what: What::Garbage { seed: r.next(), size: 40 } });
        }
    }
    // commands
    let steps = if r.chance(1, 16) { r.range(p.steps.1, p.steps.1 + 4) } else { r.range(p.steps.0, p.steps.1) };
    let mut last: Option<Run> = None;
    if let Some(d) = diamond {
        let cmd = Cmd::Install { v: sc.versions[d].name.clone() };
        model.local[0].insert(d);
        model.current[0] = Some(d);
        sc.steps.push(Step::Group(Group { runs: vec![Run { machine: 0, cmd, faults: vec![], level: 1, verbose: false, style: 0, input: 0 }], ..Group::default() }));
    }
    for _ in 0..steps {
        if let Some(l) = &last {
            if r.chance(p.repeat, 200) {
                sc.steps.push(Step::Group(Group { runs: vec![l.clone()], ..Group::default() }));
                continue;
            }
        }
        let width = if r.chance(p.concurrent, 100) { r.range(2, 3) } else { 1 };
        let mut runs = vec![];
        for _ in 0..width {
            let m = r.below(machines);
            let run = command(r, &p, &mut sc, &mut model, m, &blobs, &trees, &prefix, &auto_current, width > 1);
            if let Some(run) = run {
                runs.push(run);
            }
        }
        if runs.is_empty() {
            continue;
        }
        if width == 1 && r.chance(p.edits, 100) {
            if let Cmd::AddPackage { v, .. } = runs[0].cmd.clone() {
                let m = runs[0].machine;
                let variant_ok = sc.find(&v).map(|i| &sc.versions[i].kind).cloned();
                if let Some(Kind::Tree { files, .. }) = variant_ok {
                    let files: Vec<TreeFile> = {
                        let twins: BTreeSet<String> = files.iter().filter_map(|f| f.twin.clone()).collect();
                        files.into_iter().filter(|f| f.special.is_none() && f.twin.is_none() && !twins.contains(&f.path)).collect()
                    };
                    if !files.is_empty() {
                        let mut changes = vec![];
                        for _ in 0..r.range(1, 3) {
                            let f = r.pick(&files).clone();
                            changes.push(match r.below(6) {
                                0 | 1 => Change::Grow { path: f.path, by: r.range(1, 3000) },
                                2 | 3 => Change::Shrink { path: f.path, to: r.below(f.size.max(1)) },
                                4 => Change::Remove { path: f.path },
                                _ if r.chance(1, 2) => Change::Replace { path: f.path, size: r.below(2000) },
                                _ => Change::Create { path: format!("new{}", r.below(5)), size: r.below(2000) },
                            });
                        }
                        runs.push(Run { machine: m, cmd: Cmd::Edit { v, changes }, faults: vec![], level: 1, verbose: false, style: 0, input: 0 });
                    }
                }
            }
        }
        let edited = runs.iter().any(|r| matches!(r.cmd, Cmd::Edit { .. }));
        let switches = if runs.len() > 1 { switches(r, runs.len(), 400) } else { vec![] };
        last = if runs.len() == 1 { Some(runs[0].clone()) } else { None };
        sc.steps.push(Step::Group(Group { runs, switches, full: None }));
        if edited {
            last = None;
        }
        if let (Some(l), true) = (&last, r.chance(p.repeat, 100)) {
            sc.steps.push(Step::Group(Group { runs: vec![l.clone()], ..Group::default() }));
        }
        if r.chance(p.faults[7], 100) {
            // somebody tidies up the local store
            let m = r.below(machines);
            let l: Vec<usize> = model.local[m].iter().copied().filter(|v| model.remote.contains(v) || Some(*v) != model.current[m]).collect();
            if !l.is_empty() {
                let v = *r.pick(&l);
                model.local[m].remove(&v);
                sc.steps.push(Step::Evict { machine: m, name: build_name(&sc.versions[v].name) });
            }
        }
        if r.chance(p.faults[6], 100) {
            sc.steps.push(Step::Clock { seconds: *r.pick(&[-86400, -1, 1, 3600, -3_000_000_000]) });
        }
    }
    // a different tag set cannot be told apart by name on machines without a
    // repository; everything else needs no repository
    sc
}

fn build_level(r: &mut Rng) -> i32 {
    if r.chance(1, 12) {
        -1
    } else {
        r.range(1, 3) as i32
    }
}

fn switches(r: &mut Rng, n: usize, horizon: usize) -> Vec<(u64, usize)> {
    let mut s: Vec<(u64, usize)> = match r.below(5) {
        // few switches at arbitrary points
        0 | 1 => (0..r.range(1, 4)).map(|_| (r.range(1, horizon) as u64, r.below(n))).collect(),
        // switch early, so that start-ups overlap
        2 => (0..r.range(1, 4)).map(|_| (r.range(1, 60) as u64, r.below(n))).collect(),
        // fine-grained
        3 => {
            let from = r.range(1, horizon);
            (0..r.range(5, 40)).map(|i| ((from + i) as u64, r.below(n))).collect()
        }
        // round robin with a step
        _ => {
            let step = r.range(1, 12);
            (1..horizon / step).map(|i| ((i * step) as u64, i % n)).collect()
        }
    };
    s.sort();
    s
}

#[allow(clippy::too_many_arguments)]
fn command(
    r: &mut Rng,
    p: &Profile,
    sc: &mut Scenario,
    model: &mut Model,
    m: usize,
    blobs: &[usize],
    trees: &[usize],
    prefix: &str,
    auto_current: &str,
    concurrent: bool,
) -> Option<Run> {
    let mut weights = p.cmds;
    if trees.is_empty() {
        weights[2] = 0;
    }
    if auto_current.is_empty() || concurrent {
        weights[4] = 0;
    }
    let total: usize = weights.iter().sum();
    if total == 0 {
        return None;
    }
    let mut x = r.below(total);
    let mut c = 0;
    for (i, w) in weights.iter().enumerate() {
        if x < *w {
            c = i;
            break;
        }
        x -= w;
    }
    let avail: Vec<usize> = blobs.iter().copied().filter(|v| model.local[m].contains(v) || model.remote.contains(v)).collect();
    let huge = sc.versions.iter().position(|v| matches!(v.kind, Kind::Blob { size, .. } if size >= 1_000_000));
    let any = |r: &mut Rng| -> usize {
        match huge {
            Some(h) if r.chance(1, 2) => h,
            _ => *r.pick(blobs),
        }
    };
    let pick = |r: &mut Rng, model: &Model| -> usize {
        if avail.is_empty() || r.chance(p.impossible, 100) {
            any(r)
        } else if let (Some(h), true) = (huge.filter(|h| avail.contains(h)), r.chance(1, 2)) {
            h
        } else {
            // prefer what is not installed
            let v = *r.pick(&avail);
            if model.current[m] == Some(v) {
                *r.pick(&avail)
            } else {
                v
            }
        }
    };
    let name = |v: usize| sc.versions[v].name.clone();
    let from = |r: &mut Rng, model: &Model, not: usize| -> Option<String> {
        if !r.chance(p.patch_from, 100) {
            return None;
        }
        let f = pick(r, model);
        if f == not {
            return None;
        }
        Some(name(f))
    };
    let cmd = match c {
        0 => {
            let v = pick(r, model);
            if avail.contains(&v) {
                model.local[m].insert(v);
                model.current[m] = Some(v);
            }
            Cmd::Install { v: name(v) }
        }
        1 => {
            let v = any(r);
            let from = from(r, model, v);
            let upload = r.chance(p.upload, 100);
            model.local[m].insert(v);
            if upload {
                model.remote.insert(v);
            }
            Cmd::Add { v: name(v), upload, from }
        }
        2 => {
            let v = *r.pick(trees);
            let from = from(r, model, v);
            let upload = r.chance(p.upload, 100);
            Cmd::AddPackage { v: name(v), upload, from }
        }
        3 => {
            let (a, b) = (pick(r, model), pick(r, model));
            if a == b && !r.chance(p.impossible, 100) {
                let o: Vec<usize> = avail.iter().copied().filter(|x| *x != a).collect();
                if o.is_empty() {
                    return None;
                }
                let b = *r.pick(&o);
                Cmd::CreatePatch { a: name(a), b: name(b) }
            } else {
                Cmd::CreatePatch { a: name(a), b: name(b) }
            }
        }
        4 => Cmd::AutoPatch { current: auto_current.to_string(), prefix: prefix.to_string() },
        5 => {
            let l: Vec<usize> = model.local[m].iter().copied().collect();
            model.remote.extend(l);
            Cmd::Sync
        }
        _ => Cmd::Debug,
    };
    let mut style = 0;
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            style |= *r.pick(&style::ALL);
        }
    }
    let mut input = input::PLAIN;
    if let (Cmd::Add { v, .. }, true) = (&cmd, r.chance(1, 8)) {
        input = *r.pick(&[input::FRAMES, input::ON_REMOTE, input::FRAMES, input::EMPTY, input::DIR, input::IN_STORE]);
        let refused = !matches!(input, input::FRAMES | input::ON_REMOTE);
        if refused && p.impossible == 0 || input == input::ON_REMOTE && (concurrent || sc.remote != Remote::Fs || !has(&sc.remote_files, &build_name(v))) {
            input = input::PLAIN;
        }
    }
    Some(Run { machine: m, cmd, faults: vec![], level: if r.chance(1, 8) { *r.pick(&[0, -4, -30, 6]) } else { *r.pick(&[1, 1, 1, 2, 3]) }, verbose: r.chance(1, 8), style, input })
}

// ------------------------------------------------------------------ faults

pub fn errnos(c: Class) -> &'static [i32] {
    use libc::*;
    match c {
        Class::OpenR => &[EMFILE, EACCES, EIO, ENFILE],
        Class::Create => &[ENOSPC, EACCES, EROFS, EMFILE],
        Class::Read => &[EIO],
        Class::Write => &[ENOSPC, EIO, EDQUOT],
        Class::Copy => &[ENOSPC, EIO],
        Class::Stat => &[EIO, EACCES],
        Class::Opendir => &[EMFILE, EACCES, EIO],
        Class::Readdir => &[EIO],
        Class::Rename => &[EIO, ENOSPC, EACCES],
        Class::Unlink | Class::Rmdir => &[EIO, EPERM],
        Class::Symlink | Class::Link => &[ENOSPC, EACCES],
        Class::Readlink => &[EIO, EACCES],
        Class::Realpath => &[EACCES, EIO],
        Class::Mkdir => &[ENOSPC, EACCES],
        Class::Chmod => &[EPERM, EIO],
        Class::Fsync => &[EIO, ENOSPC],
        Class::Trunc => &[ENOSPC],
        _ => &[EIO],
    }
}

fn net_fault(r: &mut Rng, c: Class) -> NetFault {
    let n = r.next() >> 8;
    match c {
        Class::NetPut => match r.below(14) {
            0 | 1 => NetFault::DropRequest,
            2 | 3 => NetFault::DropResponse,
            4..=6 => NetFault::CorruptRequest(n),
            7 => NetFault::TruncateRequest(n),
            8 => NetFault::Duplicate,
            9 => NetFault::Delay(r.range(1, 30) as u32),
            _ => NetFault::Status(*r.pick(&[500, 503, 403, 400, 429, 409, 412, 404, 408, 413, 307, 502])),
        },
        Class::NetGet => match r.below(16) {
            0 => NetFault::DropRequest,
            1 => NetFault::DropResponse,
            2..=5 => NetFault::CorruptResponse(n),
            6 | 7 => NetFault::Truncate(n),
            8..=10 => NetFault::TruncateSilently(n),
            11 => NetFault::WrongBody,
            12 => if r.chance(1, 3) { NetFault::StripEtag(n) } else { NetFault::WrongBody },
            13 => NetFault::Delay(r.range(1, 30) as u32),
            _ => NetFault::Status(*r.pick(&[500, 503, 403, 404, 400, 429, 307, 416, 304, 410])),
        },
        Class::NetList => match r.below(8) {
            0 => NetFault::DropRequest,
            1 => NetFault::DropResponse,
            2 => NetFault::Truncate(n),
            3 => if r.chance(1, 2) { NetFault::TruncateSilently(n) } else { NetFault::NoToken },
            4 => NetFault::Delay(r.range(1, 30) as u32),
            5 => NetFault::Duplicate,
            _ => NetFault::Status(*r.pick(&[500, 503, 403, 400, 404, 301, 429, 502])),
        },
        _ => match r.below(3) {
            0 => NetFault::Delay(3),
            _ => NetFault::DropResponse,
        },
    }
}

/// The groups of a scenario that consist of real commands.
fn groups(sc: &Scenario) -> Vec<usize> {
    sc.steps.iter().enumerate().filter(|(_, s)| matches!(s, Step::Group(g) if !g.runs.is_empty())).map(|(i, _)| i).collect()
}

/// One disturbed variation of a scenario, chosen with the help of what its
/// undisturbed run did.
/// The `n`th of the places where a file or directory entry
/// gets its final state.
fn nth_place(pilot: &RunResult, n: usize) -> Option<(usize, u64, Class)> {
    let mut all: Vec<(usize, u64, Class)> = vec![];
    for (i, p) in pilot.procs.iter().enumerate() {
        let m: Vec<(u64, Class)> =
            p.ops.iter().enumerate().map(|(i, (c, _))| (i as u64 + 1, class_of(*c))).filter(|(_, c)| c.mutates() && !c.net()).collect();
        for (j, (op, c)) in m.iter().enumerate() {
            let next = m.get(j + 1).map(|x| x.1);
            if !matches!(c, Class::Write | Class::Copy) || next != Some(*c) {
                all.push((i, *op, *c));
            }
        }
    }
    if all.is_empty() {
        return None;
    }
    // (a stride that visits all of them, far from each other at first)
    let mut stride = all.len() * 5 / 13 + 1;
    let gcd = |mut a: usize, mut b: usize| {
        while b > 0 {
            let t = a % b;
            a = b;
            b = t;
        }
        a
    };
    while gcd(stride, all.len()) != 1 {
        stride += 1;
    }
    Some(all[n * stride % all.len()])
}

pub fn variation(property: &str, r: &mut Rng, base: &Scenario, pilot: &RunResult, nth: Option<usize>) -> Option<Scenario> {
    let p = profile(property);
    let mut sc = base.clone();
    let place = nth.and_then(|n| nth_place(pilot, n));
    let gs = groups(&sc);
    if gs.is_empty() {
        return None;
    }
    let n_faults = match r.below(10) {
        _ if place.is_some() => 1,
        0..=6 => 1,
        7 | 8 => 2,
        _ => 3,
    };
    // other schedules for concurrent groups
    let concurrent: Vec<usize> = gs.iter().copied().filter(|g| matches!(&sc.steps[*g], Step::Group(x) if x.runs.len() > 1)).collect();
    for g in &concurrent {
        let total: usize = pilot.procs.iter().filter(|i| i.step == *g).map(|i| i.ops.len()).sum();
        if let Step::Group(x) = &mut sc.steps[*g] {
            if r.chance(4, 5) {
                if r.chance(2, 5) {
                    // switch right after an operation that changes something
                    let info = pilot.procs.iter().filter(|i| i.step == *g).max_by_key(|i| i.ops.len());
                    let spots: Vec<u64> = info
                        .map(|i| i.ops.iter().enumerate().filter(|(_, o)| class_of(o.0).mutates()).map(|(n, _)| n as u64 + 1).collect())
                        .unwrap_or_default();
                    if !spots.is_empty() {
                        let mut s: Vec<(u64, usize)> = (0..r.range(1, 3)).map(|_| (*r.pick(&spots) + r.below(2) as u64, r.below(x.runs.len()))).collect();
                        if r.chance(1, 2) {
                            s.push((r.range(1, total.max(2)) as u64, r.below(x.runs.len())));
                        }
                        s.sort();
                        x.switches = s;
                    }
                } else {
                    x.switches = switches(r, x.runs.len(), total.max(20));
                }
            }
            if r.chance(1, 3) {
                x.runs.rotate_left(1);
            }
        }
    }
    let fault_chance = if property == "C11" { 25 } else { 100 };
    let mut hit: Vec<usize> = vec![];
    for _ in 0..n_faults {
        if !r.chance(fault_chance, 100) {
            continue;
        }
        let total: usize = p.faults.iter().take(7).sum();
        if total == 0 {
            break;
        }
        let mut x = r.below(total);
        let mut kind = 0;
        for (i, w) in p.faults.iter().take(7).enumerate() {
            if x < *w {
                kind = i;
                break;
            }
            x -= w;
        }
        if place.is_some() {
            kind = if r.below(p.faults[0] + p.faults[1]) < p.faults[0] { 0 } else { 1 };
        }
        let infos: Vec<&crate::exec::ProcInfo> = pilot
            .procs
            .iter()
            .filter(|i| matches!(&base.steps[i.step], Step::Group(g) if !matches!(g.runs[i.index].cmd, Cmd::Edit { .. })))
            .filter(|i| !i.ops.is_empty())
            .collect();
        if infos.is_empty() {
            return None;
        }
        let mut info = infos[r.below(infos.len())];
        let place = match place {
            Some((i, op, c)) if infos.iter().any(|x| std::ptr::eq(*x, &pilot.procs[i])) => {
                info = &pilot.procs[i];
                Some((op, c))
            }
            _ => None,
        };
        let g = info.step;
        let choose = |r: &mut Rng, want: &dyn Fn(Class, bool) -> bool| -> Option<(u64, Class)> {
            let c: Vec<(u64, Class)> =
                info.ops.iter().enumerate().map(|(i, (c, s))| (i as u64 + 1, class_of(*c), *s)).filter(|(_, c, s)| want(*c, *s)).map(|(i, c, _)| (i, c)).collect();
            if c.is_empty() {
                return None;
            }
            // one class first, so that rare operations get their share
            let mut classes: Vec<Class> = c.iter().map(|x| x.1).collect();
            classes.sort();
            classes.dedup();
            if r.chance(1, 2) {
                let k = *r.pick(&classes);
                let c: Vec<(u64, Class)> = c.into_iter().filter(|x| x.1 == k).collect();
                // (what is written last is often handled by code of its own)
                return Some(if r.chance(1, 5) { c[c.len() - 1 - r.below(c.len().min(3))] } else { *r.pick(&c) });
            }
            Some(*r.pick(&c))
        };
        // what is written before a file is complete
        let last_write = |r: &mut Rng| -> Option<(u64, Class)> {
            let m: Vec<(u64, Class)> =
                info.ops.iter().enumerate().map(|(i, (c, _))| (i as u64 + 1, class_of(*c))).filter(|(_, c)| c.mutates()).collect();
            let c: Vec<(u64, Class)> = m.windows(2).filter(|w| w[0].1 == Class::Write && w[1].1 != Class::Write).map(|w| w[0]).collect();
            if c.is_empty() {
                return None;
            }
            Some(*r.pick(&c))
        };
        let fault = match kind {
            0 => {
                let spot = if place.is_some() { place } else if r.chance(7, 10) { choose(r, &|c, _| c.mutates()) } else { choose(r, &|_, _| true) };
                spot.map(|(op, c)| Fault { op, class: Some(c), kind: if r.chance(1, 2) { FaultKind::Kill } else { FaultKind::KillAfter } })
            }
            1 => {
                let spot = match r.below(10) {
                    _ if place.is_some() => place,
                    _ if r.chance(1, 6) => last_write(r),
                    0..=4 => choose(r, &|c, _| c.mutates() && !c.net()),
                    5..=7 => choose(r, &|c, s| s && !c.net() && c != Class::Sleep),
                    _ => choose(r, &|c, _| !c.net() && c != Class::Sleep),
                };
                spot.map(|(op, c)| {
                    let e = *r.pick(errnos(c));
                    let kind = if r.chance(1, 8) { FaultKind::ErrnoRun(e, r.range(1, 30) as u32) } else { FaultKind::Errno(e) };
                    Fault { op, class: Some(c), kind }
                })
            }
            2 => choose(r, &|c, _| matches!(c, Class::Read | Class::Write | Class::Copy)).map(|(op, c)| Fault { op, class: Some(c), kind: FaultKind::Short }),
            3 => {
                let spot = if r.chance(8, 10) { choose(r, &|c, _| matches!(c, Class::NetPut | Class::NetGet | Class::NetList)) } else { choose(r, &|c, _| c.net()) };
                spot.map(|(op, c)| {
                    let f = net_fault(r, c);
                    let kind = match r.below(8) {
                        0 => FaultKind::NetRun(f, r.range(1, 4) as u32),
                        // from now on until the end
                        1 => FaultKind::NetRun(f, 1_000_000),
                        _ => FaultKind::Net(f),
                    };
                    Fault { op, class: Some(c), kind }
                })
            }
            4 => {
                let m = match &base.steps[g] {
                    Step::Group(x) => x.runs[info.index].machine,
                    _ => 0,
                };
                let d = match r.below(6) {
                    0 => Disk::Tmp(m),
                    1 | 2 => Disk::Remote,
                    _ => Disk::Local(m),
                };
                let left = match r.below(4) {
                    0 => 0,
                    1 => r.range(1, 200),
                    2 => r.range(200, 4000),
                    _ => r.range(4000, 100_000),
                };
                if let Step::Group(x) = &mut sc.steps[g] {
                    x.full = Some((d, left as u64));
                }
                hit.push(g);
                None
            }
            5 => {
                // power loss during or after a command
                let during = r.chance(if property == "C17" { 20 } else { 60 }, 100);
                let spot = if during { choose(r, &|c, _| c.mutates()) } else { None };
                let m = match &base.steps[g] {
                    Step::Group(x) => x.runs[info.index].machine,
                    _ => 0,
                };
                if let (Some((op, c)), Step::Group(x)) = (spot, &mut sc.steps[g]) {
                    if x.runs.len() == 1 {
                        x.runs[0].faults.push(Fault { op, class: Some(c), kind: FaultKind::KillAfter });
                    }
                }
                let remote = sc.machines.len() == 1 && r.chance(2, 3) || r.chance(1, 3);
                let at = g + 1;
                sc.steps.insert(at, Step::PowerLoss { machine: m, remote, seed: r.next() });
                hit.push(g);
                // (indices have shifted; one outage is enough)
                break;
            }
            _ => choose(r, &|_, _| true).map(|(op, _)| Fault { op, class: None, kind: FaultKind::Clock(*r.pick(&[-1, 1, -3600, 86400, -1_650_000_000])) }),
        };
        if let Some(f) = fault {
            if let Step::Group(x) = &mut sc.steps[g] {
                // the concurrent runs may have been rotated; any of them will do
                let i = info.index.min(x.runs.len() - 1);
                if !matches!(x.runs[i].cmd, Cmd::Edit { .. }) {
                    x.runs[i].faults.push(f);
                }
                hit.push(g);
            }
        }
    }
    if hit.is_empty() && concurrent.is_empty() {
        return None;
    }
    // the same command dying again and again, on a clock that stands still
    if r.chance(1, 4) {
        let at = hit.iter().copied().find(|g| {
            matches!(&sc.steps[*g], Step::Group(x)
                if x.runs.len() == 1 && x.runs[0].faults.iter().any(|f| matches!(f.kind, FaultKind::Kill | FaultKind::KillAfter)))
        });
        if let Some(g) = at {
            sc.knobs.tick_ns = 0;
            for _ in 0..r.range(1, 5) {
                let mut s = sc.steps[g].clone();
                if let Step::Group(x) = &mut s {
                    for f in &mut x.runs[0].faults {
                        if r.chance(1, 3) {
                            f.op += r.below(3) as u64;
                        }
                    }
                }
                sc.steps.insert(g, s);
                for h in &mut hit {
                    if *h > g {
                        *h += 1;
                    }
                }
            }
        }
    }
    // afterwards: the same commands once more, undisturbed
    if p.recover && r.chance(85, 100) {
        hit.sort();
        hit.dedup();
        let mut again: Vec<Run> = vec![];
        for g in &hit {
            if let Step::Group(x) = &sc.steps[*g] {
                for run in &x.runs {
                    if !matches!(run.cmd, Cmd::Edit { .. }) {
                        let mut run = run.clone();
                        run.faults.clear();
                        again.push(run);
                    }
                }
            }
        }
        if r.chance(1, 5) {
            sc.steps.push(Step::Clock { seconds: *r.pick(&[-7200, 1, 5]) });
        }
        for run in again {
            sc.steps.push(Step::Group(Group { runs: vec![run.clone()], ..Group::default() }));
            if r.chance(p.repeat, 300) {
                sc.steps.push(Step::Group(Group { runs: vec![run], ..Group::default() }));
            }
        }
        if p.faults[5] > 20 && r.chance(1, 3) {
            let m = r.below(sc.machines.len());
            sc.steps.push(Step::PowerLoss { machine: m, remote: sc.machines.len() == 1 && r.chance(1, 2), seed: r.next() });
            let again: Option<Step> = sc.steps.iter().rev().find(|s| matches!(s, Step::Group(g) if g.runs.iter().all(|r| r.faults.is_empty()) && g.runs.len() == 1)).cloned();
            if let Some(s) = again {
                sc.steps.push(s);
            }
        }
    }
    Some(sc)
}

/// Makes something on the remote very large that no command of the scenario
/// has any use for.
fn giant(sc: &mut Scenario, r: &mut Rng) {
    if !matches!(sc.remote, Remote::S3 { .. }) || sc.machines.len() > 1 {
        return;
    }
    let mut wanted: Vec<String> = vec![];
    for s in &sc.steps {
        match s {
            Step::Group(g) if g.runs.len() == 1 => match &g.runs[0].cmd {
                Cmd::Install { v } => wanted.push(v.clone()),
                Cmd::Sync | Cmd::Debug => {}
                _ => return,
            },
            Step::Clock { .. } | Step::Idle => {}
            _ => return,
        }
    }
    let local = &sc.machines[0].store;
    let all = || local.iter().chain(&sc.remote_files);
    if all().any(|p| artefact_suffix(&p.name) && !matches!(p.what, What::Build { .. } | What::Patch { .. })) {
        return;
    }
    let is_local = |n: &str| local.iter().any(|p| p.name == n);
    let is_there = |v: &str| all().any(|p| p.name == build_name(v));
    let size = (1u64 << *r.pick(&[31, 32, 33, 40])) * *r.pick(&[1, 1, 3, 256]) + r.below(40) as u64;
    let patches: Vec<(String, String, String)> = all()
        .filter_map(|p| parse_patch(&p.name).map(|(a, b)| (p.name.clone(), a, b)))
        .filter(|(_, a, b)| is_there(a) && is_there(b))
        .collect();
    if r.chance(1, 2) {
        // a patch, while the build itself is there
        let c: Vec<&String> = patches.iter().map(|p| &p.0).filter(|n| !is_local(n)).collect();
        if wanted.iter().all(|v| is_there(v)) && !c.is_empty() {
            let n = (*r.pick(&c)).clone();
            sc.giants.push((n, size));
        }
        return;
    }
    // a build, while there are patches leading to it from the installed one
    let from = match sc.machines[0].current.as_deref().and_then(|c| parse_build(c.rsplit('/').next().unwrap_or(c))) {
        Some(v) if is_local(&build_name(&v)) => v,
        _ => return,
    };
    let mut reached: BTreeSet<String> = BTreeSet::from([from.clone()]);
    while let Some((_, _, b)) = patches.iter().find(|(_, a, b)| reached.contains(a) && !reached.contains(b)) {
        reached.insert(b.clone());
    }
    let c: Vec<String> = reached.into_iter().filter(|v| !is_local(&build_name(v))).collect();
    if c.is_empty() {
        return;
    }
    let v = r.pick(&c).clone();
    sc.steps.retain(|s| matches!(s, Step::Group(g) if matches!(g.runs[0].cmd, Cmd::Install { .. })));
    sc.steps.truncate(3);
    for (i, s) in sc.steps.iter_mut().enumerate() {
        if let Step::Group(g) = s {
            g.runs[0].cmd = Cmd::Install { v: if i == 1 { from.clone() } else { v.clone() } };
        }
    }
    sc.giants.push((build_name(&v), size));
}

/// Nothing relative can be found from a directory that was removed.
fn absolute(sc: &mut Scenario) {
    if sc.knobs.no_cwd {
        for s in &mut sc.steps {
            if let Step::Group(g) = s {
                for r in &mut g.runs {
                    r.style &= !(style::RELATIVE | style::AMBIENT);
                }
            }
        }
    }
}

pub fn case(property: &str, r: &mut Rng) -> Case {
    let p = profile(property);
    let mut base = scenario(property, r);
    absolute(&mut base);
    if property == "C06" && r.chance(1, 4) {
        giant(&mut base, r);
    }
    // (what a race between a command and an editor leads to may differ)
    let raced = base.steps.iter().any(|s| match s {
        Step::Group(g) => g.runs.iter().any(|r| matches!(r.cmd, Cmd::Edit { .. })),
        _ => false,
    });
    let twin = match property {
        _ if raced => None,
        "C18" => {
            let mut t = base.clone();
            t.knobs = Knobs { mute: base.knobs.mute, ..knobs(r, &p, base.machines.len()) };
            if r.chance(1, 4) {
                let at = r.below(t.steps.len() + 1);
                t.steps.insert(at, Step::Clock { seconds: *r.pick(&[-86400, -1, 5, 100_000, -1_590_000_000]) });
            }
            Some((TwinKind::Same, t))
        }
        "C16" => {
            let mut t = base.clone();
            let known = |p: &Plant| matches!(p.what, What::Build { .. } | What::Patch { .. } | What::TruncatedPatch { .. });
            for m in &mut t.machines {
                m.store.retain(known);
            }
            t.remote_files.retain(known);
            Some((TwinKind::SameArtefacts, t))
        }
        _ => None,
    };
    let twin = twin.map(|(kind, mut t)| {
        absolute(&mut t);
        (kind, t)
    });
    let sweep = p.faults[0] + p.faults[1] >= 35 && property != "C11" && r.chance(1, 8);
    Case { base, variants: p.variants * if sweep { 3 } else { 1 }, sweep, twin }
}
