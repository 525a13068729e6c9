//! C19: unusable inputs and requests are answered with errors.
use super::common::*;
use super::p_write::{cols, tree_name, tree_spec};
use crate::engine::*;
use crate::model::*;
use crate::refroot::read::RFile;
use crate::{bail, ensure};
use oxyroot::RootFile;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::{Mutex, OnceLock};

/// ROOT-written files that come with the repository.
pub const SAMPLES: [&str; 12] = [
    "oxyroot/examples/from_uproot/data/HZZ.root",
    "oxyroot/examples/from_uproot/data/simple.root",
    "oxyroot/examples/from_uproot/data/small-evnt-tree-fullsplit.root",
    "oxyroot/examples/from_uproot/data/tree_with_jagged_array.root",
    "oxyroot/tests/7_userinfo/tree_with_user_info_with_map.root",
    "oxyroot/tests/stl_containers/stl_containers.root",
    "oxyroot/tests_data/doc/struct_sd.root",
    "oxyroot/tests_data/from_groot/g4-like.root",
    "oxyroot/tests_data/from_uproot/sample-6.10.05-lz4.root",
    "oxyroot/tests_data/from_uproot/sample-6.10.05-lzma.root",
    "oxyroot/tests_data/from_uproot/sample-6.10.05-zlib.root",
    "oxyroot/tests_data/g4/g4-ntuples.root",
];

pub fn repo() -> String {
    std::env::var("OXY_REPO").unwrap_or_else(|_| "/repo".into())
}

/// The bytes of a sample file (None when the tree under test does not have it).
pub fn sample(i: usize) -> Option<&'static [u8]> {
    static C: OnceLock<Mutex<HashMap<usize, Option<&'static [u8]>>>> = OnceLock::new();
    *C.get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry(i)
        .or_insert_with(|| std::fs::read(format!("{}/{}", repo(), SAMPLES[i % SAMPLES.len()])).ok().map(|b| &*b.leak()))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Cut {
    /// inside the header
    Head(u16),
    /// inside the first record
    Dir(u16),
    /// inside the key list
    Keys(u16),
    /// anywhere, in 1/65536 of the file
    Any(u16),
    /// this many bytes before the end
    Tail(u16),
    Whole,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Input {
    Absent { depth: u8 },
    BelowAFile,
    Directory,
    Device(bool),
    Bytes { magic: bool, data: Vec<u8>, pad: u16, fill: u8 },
    /// a valid file cut off
    Written { spec: TreeSpec, cut: Cut },
    Sample { i: u8, cut: Cut },
    /// a valid file with another file magic
    Magic { spec: TreeSpec, magic: [u8; 4] },
    /// a file whose writer disappeared without closing it
    Unclosed { specs: Vec<TreeSpec> },
    /// a valid file with one field of its header or directory replaced
    Field { spec: TreeSpec, field: u8, value: i32 },
}

/// Fields of the header and (from 100 on) of the directory's record: name, offset, bytes.
const FIELDS: [(&str, usize, usize); 13] = [
    ("version", 4, 4),
    ("begin", 8, 4),
    ("end", 12, 4),
    ("seek-free", 16, 4),
    ("nbytes-free", 20, 4),
    ("nbytes-name", 28, 4),
    ("seek-info", 37, 4),
    ("nbytes-info", 41, 4),
    ("dir-version", 100, 2),
    ("dir-nbytes-keys", 110, 4),
    ("dir-nbytes-name", 114, 4),
    ("dir-seek-dir", 118, 4),
    ("dir-seek-keys", 126, 4),
];

#[derive(Serialize, Deserialize, Clone, Debug)]
struct OpenCase {
    input: Input,
    name: Vec<u8>,
}

struct Marks {
    begin: usize,
    dir_end: usize,
    keys: (usize, usize),
}

fn marks(f: &RFile) -> Marks {
    let d = &f.recs[0];
    let k = f.recs.iter().find(|r| r.pos == f.dir.seekkeys);
    Marks {
        begin: f.hdr.begin as usize,
        dir_end: (d.pos + d.nbytes as i64) as usize,
        keys: k.map_or((0, 0), |k| (k.pos as usize, (k.pos + k.nbytes as i64) as usize)),
    }
}

impl Cut {
    fn at(&self, len: usize, m: &Marks) -> usize {
        let within = |a: usize, b: usize, x: u16| a + x as usize * (b - a) / 65536;
        match self {
            Cut::Head(x) => within(0, m.begin, *x),
            Cut::Dir(x) => within(m.begin, m.dir_end, *x),
            Cut::Keys(x) => within(m.keys.0, m.keys.1, *x),
            Cut::Any(x) => within(0, len, *x),
            Cut::Tail(x) => len.saturating_sub(*x as usize),
            Cut::Whole => len,
        }
    }
}

/// Open must return (Ok or Err) without panicking; Ok(true) when it was opened.
fn try_open(p: &Path) -> Result<Result<RootFile, String>, Fail> {
    match guard(|| RootFile::open(p)) {
        Ok(Ok(f)) => Ok(Ok(f)),
        Ok(Err(e)) => Ok(Err(guard(|| format!("{e} {e:?}")).map_err(|p| Fail::new(format!("printing the error panicked: {p}")))?)),
        Err(p) => Err(Fail::new(format!("open panicked: {p}"))),
    }
}

fn run_open(c: &OpenCase, env: &Env) -> Res {
    let mut info = Info::default();
    let name: Vec<u8> = c.name.iter().copied().filter(|b| *b != b'/' && *b != 0).collect();
    let mut path = if name.is_empty() || name == b"." || name == b".." { env.path() } else { env.dir.join(std::ffi::OsStr::from_bytes(&name)) };
    let io = |e: std::io::Error| Fail::new(format!("scratch: {e}"));
    // what was put there, whether it must be refused, whether it must be accepted
    let mut bytes: Option<Vec<u8>> = None;
    let (mut refuse, mut accept) = (true, false);
    let label;
    match &c.input {
        Input::Absent { depth } => {
            for _ in 0..*depth {
                path = path.join("sub");
            }
            label = "absent";
        }
        Input::BelowAFile => {
            std::fs::write(&path, b"root").map_err(io)?;
            path = path.join("sub.root");
            label = "below-a-file";
        }
        Input::Directory => {
            std::fs::create_dir(&path).map_err(io)?;
            label = "directory";
        }
        Input::Device(zero) => {
            path = PathBuf::from(if *zero { "/dev/zero" } else { "/dev/null" });
            label = "device";
        }
        Input::Bytes { magic, data, pad, fill } => {
            let mut b = if *magic { b"root".to_vec() } else { vec![] };
            b.extend(data);
            b.extend(std::iter::repeat(*fill).take(*pad as usize));
            // only the magic makes a file claim to be a ROOT file
            refuse = b.len() < 64 || !b.starts_with(b"root");
            label = if b.is_empty() { "empty" } else if b.starts_with(b"root") { "junk-after-magic" } else { "junk" };
            bytes = Some(b);
        }
        Input::Written { spec, cut } => {
            let p = env.path();
            write_file(&p, std::slice::from_ref(spec))?;
            let mut b = std::fs::read(&p).map_err(io)?;
            let f = RFile::parse(b.clone()).map_err(|e| Fail::new(format!("written file: {e}")))?;
            let m = marks(&f);
            let at = cut.at(b.len(), &m);
            refuse = at < m.dir_end.max(m.keys.1);
            accept = at == b.len();
            b.truncate(at);
            label = if accept { "whole" } else if at < m.begin { "cut-in-header" } else if at < m.dir_end { "cut-in-directory" } else if refuse { "cut-before-keys-end" } else { "cut-after-keys" };
            bytes = Some(b);
        }
        Input::Sample { i, cut } => {
            let Some(b) = sample(*i as usize % SAMPLES.len()) else {
                info.label("sample-missing");
                return Ok(info);
            };
            let f = RFile::parse(b.to_vec()).map_err(|e| Fail::new(format!("sample {i}: {e}")))?;
            let m = marks(&f);
            let at = cut.at(b.len(), &m);
            // the keys may lie before the data in a file updated by ROOT
            refuse = at < m.dir_end || at < m.keys.1;
            accept = at == b.len();
            label = if accept { "sample-whole" } else if at < m.begin { "sample-cut-in-header" } else if at < m.dir_end { "sample-cut-in-directory" } else if refuse { "sample-cut-before-keys-end" } else { "sample-cut-after-keys" };
            bytes = Some(b[..at].to_vec());
        }
        Input::Magic { spec, magic } => {
            let p = env.path();
            write_file(&p, std::slice::from_ref(spec))?;
            let mut b = std::fs::read(&p).map_err(io)?;
            b[..4].copy_from_slice(magic);
            refuse = magic != b"root";
            accept = !refuse;
            label = "other-magic";
            bytes = Some(b);
        }
        Input::Unclosed { specs } => {
            guard(|| {
                let mut f = RootFile::create(&path).map_err(|e| e.to_string())?;
                for s in specs.iter().filter(|s| !s.name.contains('/')) {
                    build_tree(s).write(&mut f).map_err(|e| e.to_string())?;
                }
                Ok::<(), String>(())
            })
            .and_then(|r| r)
            .map_err(|e| Fail::new(format!("writing without closing: {e}")))?;
            label = "never-closed";
            bytes = Some(std::fs::read(&path).map_err(io)?);
        }
        Input::Field { spec, field, value } => {
            let p = env.path();
            write_file(&p, std::slice::from_ref(spec))?;
            let mut b = std::fs::read(&p).map_err(io)?;
            let f = RFile::parse(b.clone()).map_err(|e| Fail::new(format!("written file: {e}")))?;
            let (name, off, n) = FIELDS[*field as usize % FIELDS.len()];
            let at = if off < 100 { off } else { f.hdr.begin as usize + f.hdr.nbytesname as usize + off - 100 };
            b[at..at + n].copy_from_slice(&value.to_be_bytes()[4 - n..]);
            // without a list of keys nothing can be found
            refuse = name == "dir-seek-keys" && (*value <= 0 || *value as usize >= b.len());
            label = name;
            bytes = Some(b);
        }
    }
    if let Some(b) = &bytes {
        std::fs::write(&path, b).map_err(io)?;
    }
    info.label(label);
    let r = try_open(&path)?;
    info.checks += 1;
    match &r {
        Ok(_) => ensure!(!refuse, "an unusable file ({label}) was opened without an error"),
        Err(e) => ensure!(!accept, "a valid file ({label}) was refused: {e}"),
    }
    info.label(if r.is_ok() { "opened" } else { "refused" });
    if let Ok(mut f) = r {
        // opened all the same: what can be asked for answers or fails, without a panic
        let names: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
        for n in names.iter().take(4) {
            if label != "junk-after-magic" && !matches!(c.input, Input::Field { .. }) {
                match guard(|| f.get_tree(n)) {
                    Ok(Ok(t)) => {
                        guard(|| t.branches().count()).map_err(|p| Fail::new(format!("listing the branches of {n:?} panicked: {p}")))?;
                    }
                    Ok(Err(_)) => {}
                    Err(p) => bail!("get_tree({n:?}) panicked: {p}"),
                }
                info.checks += 1;
            }
        }
        let e = guard(|| f.get_tree("no such tree")).map_err(|p| Fail::new(format!("asking for a missing tree panicked: {p}")))?;
        ensure!(e.is_err(), "a missing tree was returned");
        if let (Input::Written { spec, .. }, true) = (&c.input, accept) {
            let t = get_tree(&mut f, &spec.name)?;
            info.checks += check_tree(&t, spec, Mode::Checked)?;
        }
    }
    if let Some(b) = &bytes {
        let now = std::fs::read(&path).map_err(io)?;
        ensure!(now == *b, "opening changed the file");
        info.checks += 1;
    }
    info.nontrivial = true;
    Ok(info)
}

fn cut() -> impl Strategy<Value = Cut> {
    prop_oneof![
        3 => any::<u16>().prop_map(Cut::Head),
        3 => any::<u16>().prop_map(Cut::Dir),
        3 => any::<u16>().prop_map(Cut::Keys),
        4 => any::<u16>().prop_map(Cut::Any),
        2 => (0u16..400).prop_map(Cut::Tail),
        1 => Just(Cut::Whole),
    ]
}
fn small_tree() -> BoxedStrategy<TreeSpec> {
    tree_spec(4, 6000).boxed()
}

fn gen_open(_: Tier) -> BoxedStrategy<OpenCase> {
    let byte = prop_oneof![3 => Just(0u8), 2 => 0u8..8, 3 => any::<u8>(), 1 => Just(255u8)];
    // a header-like start after the magic: version, begin, end, ...
    let hdr = (any::<u32>(), prop_oneof![Just(100u32), 0u32..400, any::<u32>()], prop::collection::vec(prop_oneof![0u32..600, any::<u32>()], 0..20))
        .prop_map(|(v, b, w)| {
            let mut o = (v % 2_000_000).to_be_bytes().to_vec();
            o.extend(b.to_be_bytes());
            w.iter().for_each(|x| o.extend(x.to_be_bytes()));
            o
        });
    let junk = (any::<bool>(), prop_oneof![2 => prop::collection::vec(byte, 0..300), 2 => hdr], prop_oneof![2 => Just(0u16), 1 => 0u16..2000], any::<u8>())
        .prop_map(|(magic, data, pad, fill)| Input::Bytes { magic, data, pad, fill });
    let magic = prop_oneof![Just(*b"ROOT"), Just(*b"roof"), Just(*b"toor"), Just([0; 4]), Just(*b"root"), any::<[u8; 4]>()];
    let input = prop_oneof![
        1 => (0u8..4).prop_map(|depth| Input::Absent { depth }),
        1 => Just(Input::BelowAFile),
        1 => Just(Input::Directory),
        1 => any::<bool>().prop_map(Input::Device),
        6 => junk,
        8 => (small_tree(), cut()).prop_map(|(spec, cut)| Input::Written { spec, cut }),
        6 => (any::<u8>(), cut()).prop_map(|(i, cut)| Input::Sample { i: i % SAMPLES.len() as u8, cut }),
        2 => (small_tree(), magic).prop_map(|(spec, magic)| Input::Magic { spec, magic }),
        2 => prop::collection::vec(small_tree(), 0..3).prop_map(|specs| Input::Unclosed { specs }),
        4 => (small_tree(), any::<u8>(), prop_oneof![2 => Just(0), 2 => -3i32..0, 2 => 1i32..4000, 1 => any::<i32>()]).prop_map(|(spec, field, value)| Input::Field { spec, field, value }),
    ];
    let name = prop_oneof![6 => "[a-z]{1,8}\\.root".prop_map(|s: String| s.into_bytes()), 1 => "[a-zé€ ]{1,12}".prop_map(|s: String| s.into_bytes()), 1 => prop::collection::vec(1u8..=255, 1..20)];
    (input, name).prop_map(|(input, name)| OpenCase { input, name }).boxed()
}

// ------------------------------------------------------------------ requests

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Req {
    /// a tree that is there (index)
    Tree(u8),
    /// a name near an existing one, or any
    Missing(u8, u8, String),
    /// the key that is not a tree's
    NonTree,
    /// a cycle that does not exist
    Cycle(u8, u16),
    /// a column that is not there
    Column(u8, String),
    /// a wrong type for the first column
    Type(u8),
    Write(TreeSpec),
    Close,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct ReadCase {
    trees: Vec<TreeSpec>,
    /// make the last tree's key one of a list
    nontree: bool,
    name: Vec<u8>,
    reqs: Vec<Req>,
}

/// Turn the key-list entry `name` into one naming the streamer list.
fn make_nontree(data: &mut [u8], name: &str) -> Result<(), Fail> {
    let f = RFile::parse(data.to_vec()).map_err(Fail::new)?;
    let kl = f.recs.iter().find(|r| r.pos == f.dir.seekkeys).ok_or("no key list")?;
    let si = f.recs.iter().find(|r| r.pos == f.hdr.seekinfo).ok_or("no streamer list")?;
    // entries follow the count, in order, each as long as its key header
    let mut p = kl.pos as usize + kl.keylen as usize + 4;
    for k in &f.keys {
        if k.name == name {
            let be = |v: i32| v.to_be_bytes();
            data[p..p + 4].copy_from_slice(&be(si.nbytes));
            data[p + 6..p + 10].copy_from_slice(&be(si.objlen));
            data[p + 14..p + 16].copy_from_slice(&si.keylen.to_be_bytes());
            data[p + 18..p + 22].copy_from_slice(&be(si.pos as i32));
            // the class name: "TTree" becomes "TList"
            if &data[p + 26..p + 32] != b"\x05TTree" {
                bail!("unexpected key layout");
            }
            data[p + 27..p + 32].copy_from_slice(b"TList");
            return Ok(());
        }
        p += k.hdrlen;
    }
    bail!("no key {name:?}")
}

fn expect_err<T>(r: Result<Result<T, String>, String>, what: &str) -> Result<(), Fail> {
    match r {
        Ok(Ok(_)) => Err(Fail::new(format!("{what} succeeded"))),
        Ok(Err(_)) => Ok(()),
        Err(p) => Err(Fail::new(format!("{what} panicked: {p}"))),
    }
}
fn shown<T, E: std::fmt::Debug + std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{e} {e:?}"))
}

fn run_read(c: &ReadCase, env: &Env) -> Res {
    let mut info = Info::default();
    let name: Vec<u8> = c.name.iter().copied().filter(|b| *b != b'/' && *b != 0).collect();
    let path = if name.is_empty() || name == b"." || name == b".." { env.path() } else { env.dir.join(std::ffi::OsStr::from_bytes(&name)) };
    let tmp = env.path();
    // one tree per name
    let mut trees: Vec<TreeSpec> = vec![];
    for t in &c.trees {
        if !trees.iter().any(|u| u.name == t.name) {
            trees.push(t.clone());
        }
    }
    write_file(&tmp, &trees)?;
    let mut data = std::fs::read(&tmp).map_err(|e| Fail::new(e.to_string()))?;
    let mut nontree = None;
    if c.nontree && !trees.is_empty() {
        let t = trees.pop().unwrap();
        make_nontree(&mut data, &t.name)?;
        nontree = Some(t.name);
    }
    std::fs::write(&path, &data).map_err(|e| Fail::new(format!("scratch: {e}")))?;
    let mut f = open(&path)?;
    let mut closed = false;
    let mut bad = 0;
    for (i, r) in c.reqs.iter().enumerate() {
        let what = format!("request {i} ({})", format!("{r:?}").chars().take(120).collect::<String>());
        if closed {
            // a file that accepted being closed has no further duties, except not to panic
            guard(|| f.get_tree("x").is_ok()).map_err(|p| Fail::new(format!("{what} after close panicked: {p}")))?;
            continue;
        }
        info.checks += 1;
        info.label(format!("request:{}", format!("{r:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")));
        match r {
            Req::Tree(k) => {
                if trees.is_empty() {
                    continue;
                }
                let t = &trees[*k as usize % trees.len()];
                let tr = get_tree(&mut f, &t.name).map_err(|e| Fail::new(format!("{what}: {}", e.msg)))?;
                info.checks += check_tree(&tr, t, Mode::Checked)?;
            }
            Req::Missing(k, how, s) => {
                let base = trees.get(*k as usize % trees.len().max(1)).map(|t| t.name.clone()).unwrap_or_default();
                let n = match how % 6 {
                    0 => s.clone(),
                    1 => format!("{base}{s}"),
                    2 => format!("{s}{base}"),
                    3 => base.chars().skip(1).collect(),
                    4 => base.to_uppercase(),
                    _ => format!("{s}/{base}"),
                };
                let is_there = |n: &str| trees.iter().any(|t| t.name == n) || nontree.as_deref() == Some(n);
                if is_there(&n) || n.rsplit_once(';').map_or(false, |(a, _)| is_there(a)) {
                    continue;
                }
                expect_err(guard(|| shown(f.get_tree(&n))), &format!("{what}: asking for the missing tree {n:?}"))?;
                bad += 1;
            }
            Req::NonTree => {
                let Some(n) = &nontree else { continue };
                ensure!(f.keys_name().any(|k| k == n), "{what}: the key {n:?} is not listed");
                expect_err(guard(|| shown(f.get_tree(n))), &format!("{what}: asking for the tree {n:?}, which is a list"))?;
                bad += 1;
            }
            Req::Cycle(k, cy) => {
                if trees.is_empty() {
                    continue;
                }
                let n = format!("{};{}", trees[*k as usize % trees.len()].name, 2 + cy % 30000);
                if trees.iter().any(|t| t.name == n) || n.matches(';').count() > 1 {
                    continue;
                }
                expect_err(guard(|| shown(f.get_tree(&n))), &format!("{what}: asking for the missing cycle {n:?}"))?;
                bad += 1;
            }
            Req::Column(k, s) => {
                if trees.is_empty() {
                    continue;
                }
                let t = &trees[*k as usize % trees.len()];
                if t.cols.iter().any(|c| c.name == *s) {
                    continue;
                }
                let tr = get_tree(&mut f, &t.name)?;
                let found = guard(|| tr.branch(s).map(|b| b.name().to_string())).map_err(|p| Fail::new(format!("{what}: panicked: {p}")))?;
                ensure!(found.is_none(), "{what}: a column {found:?} was returned for the missing name {s:?}");
                bad += 1;
            }
            Req::Type(k) => {
                if trees.is_empty() {
                    continue;
                }
                let t = &trees[*k as usize % trees.len()];
                let tr = get_tree(&mut f, &t.name)?;
                for c in t.cols.iter().take(2) {
                    let Some(b) = tr.branch(&c.name) else { bail!("{what}: column {:?} is missing", c.name) };
                    if c.ty == Ty::S(P::F32) {
                        expect_err(guard(|| b.as_iter::<i16>().map(|_| ()).map_err(|e| format!("{e} {e:?}"))), &format!("{what}: reading {} as i16", c.ty.cpp()))?;
                    } else {
                        expect_err(guard(|| b.as_iter::<f32>().map(|_| ()).map_err(|e| format!("{e} {e:?}"))), &format!("{what}: reading {} as f32", c.ty.cpp()))?;
                    }
                    bad += 1;
                }
            }
            Req::Write(spec) => {
                let mut w = build_tree(spec);
                expect_err(guard(|| shown(w.write(&mut f))), &format!("{what}: writing to a file opened for reading"))?;
                bad += 1;
            }
            Req::Close => {
                let r = guard(|| f.close()).map_err(|p| Fail::new(format!("{what}: panicked: {p}")))?;
                closed = r.is_ok();
                bad += 1;
            }
        }
        let now = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
        ensure!(now == data, "{what}: the file on disk changed");
    }
    // still usable
    if !closed {
        for t in &trees {
            let tr = get_tree(&mut f, &t.name)?;
            info.checks += check_tree(&tr, t, Mode::Checked)?;
        }
    }
    drop(f);
    let now = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
    ensure!(now == data, "the file on disk changed");
    info.label_if(std::str::from_utf8(&name).is_err(), "path-not-utf8");
    info.nontrivial = bad >= 1;
    Ok(info)
}

fn gen_read(_: Tier) -> BoxedStrategy<ReadCase> {
    let s = || prop_oneof![3 => "[a-zA-Z]{0,6}", 1 => "[a-z;/. 0-9-]{0,8}", 1 => tree_name()];
    let req = prop_oneof![
        3 => any::<u8>().prop_map(Req::Tree),
        4 => (any::<u8>(), any::<u8>(), s()).prop_map(|(a, b, c)| Req::Missing(a, b, c)),
        2 => Just(Req::NonTree),
        1 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Req::Cycle(a, b)),
        2 => (any::<u8>(), s()).prop_map(|(a, b)| Req::Column(a, b)),
        1 => any::<u8>().prop_map(Req::Type),
        3 => tree_spec(3, 3000).prop_map(Req::Write),
        1 => Just(Req::Close),
    ];
    let name = prop_oneof![6 => "[a-z]{1,8}\\.root".prop_map(|s: String| s.into_bytes()), 1 => "[a-zé€ ]{1,12}".prop_map(|s: String| s.into_bytes()), 1 => prop::collection::vec(1u8..=255, 1..20)];
    (prop::collection::vec(small_tree(), 0..4), any::<bool>(), name, prop::collection::vec(req, 1..12))
        .prop_map(|(trees, nontree, name, reqs)| ReadCase { trees, nontree, name, reqs })
        .boxed()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum WReq {
    Write(TreeSpec),
    /// a name with a slash in it
    Slash(TreeSpec, u8),
    Get(String),
    /// the tree just written
    GetLast,
    /// create the file's path as if it were a directory, or in a missing one
    CreateBad(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct WriteCase {
    reqs: Vec<WReq>,
    /// requests made after the file was closed
    after: Vec<WReq>,
    close_again: bool,
}

fn run_write(c: &WriteCase, env: &Env) -> Res {
    let mut info = Info::default();
    let path = env.path();
    let mut f = RootFile::create(&path).map_err(|e| Fail::new(format!("create: {e}")))?;
    let mut kept: Vec<TreeSpec> = vec![];
    let mut order: Vec<String> = vec![];
    let mut bad = 0;
    let slash = |t: &TreeSpec, k: u8| -> TreeSpec {
        let mut t = t.clone();
        let cs: Vec<char> = t.name.chars().collect();
        let at = k as usize % (cs.len() + 1);
        t.name = cs[..at].iter().chain(['/'].iter()).chain(cs[at..].iter()).collect();
        t
    };
    for (i, r) in c.reqs.iter().enumerate() {
        let what = format!("request {i} ({})", format!("{r:?}").chars().take(120).collect::<String>());
        info.checks += 1;
        info.label(format!("request:{}", format!("{r:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")));
        match r {
            WReq::Write(t) => {
                let mut w = build_tree(t);
                guard(|| w.write(&mut f)).map_err(|p| Fail::new(format!("{what}: panicked: {p}")))?.map_err(|e| Fail::new(format!("{what}: {e}")))?;
                kept.retain(|u| u.name != t.name);
                kept.push(t.clone());
                if !order.contains(&t.name) {
                    order.push(t.name.clone());
                }
            }
            WReq::Slash(t, k) => {
                let mut w = build_tree(&slash(t, *k));
                expect_err(guard(|| shown(w.write(&mut f))), &format!("{what}: writing a tree with a slash in its name"))?;
                bad += 1;
            }
            WReq::Get(n) => {
                expect_err(guard(|| shown(f.get_tree(n))), &format!("{what}: reading from a file opened for writing"))?;
                bad += 1;
            }
            WReq::GetLast => {
                let n = kept.last().map_or("t".to_string(), |t| t.name.clone());
                expect_err(guard(|| shown(f.get_tree(&n))), &format!("{what}: reading from a file opened for writing"))?;
                bad += 1;
            }
            WReq::CreateBad(k) => {
                let p = match k % 3 {
                    0 => env.dir.clone(),
                    1 => env.dir.join("missing").join("x.root"),
                    _ => path.join("x.root"),
                };
                expect_err(guard(|| shown(RootFile::create(&p).map(|_| ()))), &format!("{what}: creating {p:?}"))?;
                bad += 1;
            }
        }
    }
    guard(|| f.close()).map_err(|p| Fail::new(format!("close panicked: {p}")))?.map_err(|e| Fail::new(format!("close: {e}")))?;
    let done = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
    for (i, r) in c.after.iter().enumerate() {
        let what = format!("request {i} after close ({})", format!("{r:?}").chars().take(120).collect::<String>());
        info.checks += 1;
        match r {
            WReq::Write(t) | WReq::Slash(t, _) => {
                let mut w = build_tree(t);
                expect_err(guard(|| shown(w.write(&mut f))), &what)?;
            }
            WReq::Get(n) => expect_err(guard(|| shown(f.get_tree(n))), &what)?,
            WReq::GetLast => expect_err(guard(|| shown(f.get_tree(kept.last().map_or("t", |t| &t.name)))), &what)?,
            WReq::CreateBad(_) => continue,
        }
        bad += 1;
        info.label("request-after-close");
    }
    if c.close_again {
        guard(|| f.close().is_ok()).map_err(|p| Fail::new(format!("closing again panicked: {p}")))?;
        info.label("closed-again");
        bad += 1;
    }
    drop(f);
    let now = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
    ensure!(now == done, "the file changed after it was closed");
    let mut f = open(&path)?;
    let mut listed: Vec<String> = vec![];
    for n in f.keys_name() {
        if !listed.iter().any(|x| x == n) {
            listed.push(n.to_string());
        }
    }
    ensure!(listed == order, "the file lists {listed:?}, trees written were {order:?}");
    for t in &kept {
        let tr = get_tree(&mut f, &t.name)?;
        info.checks += check_tree(&tr, t, Mode::Checked)?;
    }
    info.nontrivial = bad >= 1;
    Ok(info)
}

fn gen_write(_: Tier) -> BoxedStrategy<WriteCase> {
    let spec = || (prop_oneof![3 => "[a-c]{1,2}", 1 => tree_name()], cols(3, 4000)).prop_map(|(name, cols)| TreeSpec { name, cols });
    let req = move || {
        prop_oneof![
            4 => spec().prop_map(WReq::Write),
            3 => (spec(), any::<u8>()).prop_map(|(t, k)| WReq::Slash(t, k)),
            2 => "[a-c]{1,2}".prop_map(WReq::Get),
            2 => Just(WReq::GetLast),
            1 => any::<u8>().prop_map(WReq::CreateBad),
        ]
    };
    (prop::collection::vec(req(), 0..10), prop::collection::vec(req(), 0..4), any::<bool>()).prop_map(|(reqs, after, close_again)| WriteCase { reqs, after, close_again }).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C19",
        assumptions: &["files are cut off, not altered in place; whether junk that starts with the ROOT magic is refused is not decided, only that opening it returns"],
        subs: vec![
            Box::new(Sub::<OpenCase> {
                name: "open",
                rule: "absent paths, directories, devices, junk with and without the magic, generated and sample files cut at every kind of place; each must be refused (or, cut after its key list, answered) without a panic and left unchanged. Every case is non-trivial.",
                quick: 20000,
                thorough: 150_000,
                fixed: |_| {
                    let c = Col { name: "x".into(), ty: Ty::V(P::I16), runs: vec![Run { n: 3, sz: 2 }], pat: Pat::Rand, seed: 1 };
                    let spec = TreeSpec { name: "t".into(), cols: vec![c] };
                    let mut v = vec![];
                    for i in 0..120u32 {
                        for (k, cut) in [Cut::Head as fn(u16) -> Cut, Cut::Dir, Cut::Keys].iter().enumerate() {
                            v.push(OpenCase { input: Input::Written { spec: spec.clone(), cut: cut((i * 546 + k as u32) as u16) }, name: b"a.root".to_vec() });
                        }
                    }
                    for i in 0..SAMPLES.len() as u8 {
                        v.push(OpenCase { input: Input::Sample { i, cut: Cut::Whole }, name: b"a.root".to_vec() });
                    }
                    v
                },
                gen: gen_open,
                run: run_open,
                shards: 8,
            }),
            Box::new(Sub::<ReadCase> {
                name: "read-mode",
                rule: "files of 0-3 trees opened for reading, optionally with a key that is not a tree's; 1-11 requests mixing valid ones with missing trees, cycles and columns, wrong types, writes and closes; errors where due, file unchanged, valid requests still answered. Non-trivial: at least one request that must fail.",
                quick: 3000,
                thorough: 60_000,
                fixed: |_| vec![],
                gen: gen_read,
                run: run_read,
                shards: 8,
            }),
            Box::new(Sub::<WriteCase> {
                name: "write-mode",
                rule: "a file being written: 0-9 requests mixing valid writes with refused names, reads and impossible creations, then requests after close; the finished file must hold exactly the accepted trees. Non-trivial: at least one request that must fail.",
                quick: 3000,
                thorough: 60_000,
                fixed: |_| vec![],
                gen: gen_write,
                run: run_write,
                shards: 8,
            }),
        ],
    }]
}
