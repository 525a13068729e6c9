//! C16: reading is repeatable and free of side effects.
use super::common::*;
use super::foreign::*;
use super::p_foreign::store_file;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use oxyroot::{ReaderTree, RootFile};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Src {
    /// written by the independent writer
    Foreign(FFile),
    /// written by the library
    Own(Vec<TreeSpec>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Open,
    Close(u8),
    Fetch(u8, u8),
    Start(u8, u8, Mode),
    Next(u8, u16),
    Rest(u8),
    Drop(u8),
    Look(u8),
    Keys(u8),
    Missing(u8),
    /// The file gets another name, or a copy of it takes over and it is removed or something else takes its place.
    Move(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    src: Src,
    ops: Vec<Op>,
}

#[derive(Clone, Copy)]
enum Kind {
    F(K),
    O(Ty),
}

struct ColM {
    name: String,
    kind: Kind,
    want: Vec<Vec<u8>>,
}
struct TreeM {
    name: String,
    cols: Vec<ColM>,
    entries: i64,
}

fn models(s: &Src) -> Vec<TreeM> {
    match s {
        Src::Foreign(f) => f
            .trees
            .iter()
            .map(|t| TreeM {
                name: t.name.clone(),
                entries: t.n as i64,
                cols: t.flat().iter().map(|c| ColM { name: branch_name(c), kind: Kind::F(c.kind), want: c.want(t.n as usize) }).collect(),
            })
            .collect(),
        Src::Own(v) => v
            .iter()
            .map(|t| TreeM {
                name: t.name.clone(),
                entries: t.entries() as i64,
                cols: t.cols.iter().map(|c| ColM { name: c.name.clone(), kind: Kind::O(c.ty), want: c.entries() }).collect(),
            })
            .collect(),
    }
}

fn store(s: &Src, env: &Env) -> Result<PathBuf, Fail> {
    match s {
        Src::Foreign(f) => Ok(store_file(f, env)?.0),
        Src::Own(v) => {
            let p = env.path();
            write_file(&p, v)?;
            Ok(p)
        }
    }
}

fn start<'a>(t: &'a ReaderTree, c: &ColM, mode: Mode) -> Result<Box<dyn Iterator<Item = Vec<u8>> + 'a>, Fail> {
    let b = t.branch(&c.name).ok_or_else(|| Fail::new(format!("column {:?} not found", c.name)))?;
    let r = guard(|| match c.kind {
        Kind::F(k) => iter_foreign(b, k, mode),
        Kind::O(ty) => iter_bytes(b, ty, mode),
    });
    match r {
        Ok(Ok(i)) => Ok(i),
        Ok(Err(e)) | Err(e) => Err(Fail::new(format!("starting to read column {:?}: {e}", c.name))),
    }
}

struct It {
    it: Box<dyn Iterator<Item = Vec<u8>>>,
    tree: usize,
    col: usize,
    pos: usize,
    ended: bool,
}

fn step(x: &mut It, m: &[TreeM], k: usize, what: &str) -> Result<u64, Fail> {
    let c = &m[x.tree].cols[x.col];
    for i in 0..k {
        let got = guard(|| x.it.next()).map_err(|e| Fail::new(format!("{what}: column {:?}, entry {}: panic {e}", c.name, x.pos)))?;
        let want = c.want.get(x.pos);
        match (&got, want) {
            (Some(g), Some(w)) => {
                ensure!(g == w, "{what}: column {:?}: entry {} differs: {g:02x?} read, {w:02x?} stored", c.name, x.pos);
                x.pos += 1;
            }
            (None, Some(_)) => crate::bail!("{what}: column {:?} ended after {} entries of {}", c.name, x.pos, c.want.len()),
            (Some(g), None) if x.ended => crate::bail!("{what}: column {:?} had ended, and then gave {g:02x?}", c.name),
            (Some(g), None) => crate::bail!("{what}: column {:?} gave {g:02x?} after its {} entries", c.name, c.want.len()),
            (None, None) => {
                x.ended = true;
                // ended stays ended, but need not be asked for ever
                if i + 3 < k {
                    return step(x, m, 3, what).map(|n| n + i as u64);
                }
            }
        }
    }
    Ok(k as u64)
}

fn shape(t: &ReaderTree) -> Result<Vec<(String, String, i64)>, Fail> {
    guard(|| t.branches_r().iter().map(|b| (b.name().to_string(), if b.branches().next().is_some() { String::new() } else { b.item_type_name() }, b.entries())).collect())
        .map_err(|e| Fail::new(format!("listing columns: panic {e}")))
}

fn run(c: &Case, env: &Env) -> Res {
    let mut info = Info::default();
    let p = store(&c.src, env)?;
    let bytes = std::fs::read(&p).map_err(|e| Fail::new(e.to_string()))?;
    let m = models(&c.src);
    // trees outlive the iterators borrowing from them, and are freed at the end
    let mut trees: Vec<(usize, *mut ReaderTree)> = vec![];
    let mut its: Vec<It> = vec![];
    let mut p = p;
    let r = history(c, &mut p, env, &m, &mut trees, &mut its, &mut info);
    drop(its);
    for t in trees {
        // SAFETY: made by Box::into_raw, and no iterator is left
        unsafe { drop(Box::from_raw(t.1)) };
    }
    r?;
    let after = std::fs::read(&p).map_err(|e| Fail::new(e.to_string()))?;
    ensure!(after == bytes, "the file has changed by being read");
    let _ = std::fs::remove_file(&p);
    Ok(info)
}

fn history(c: &Case, p: &mut PathBuf, env: &Env, m: &[TreeM], trees: &mut Vec<(usize, *mut ReaderTree)>, its: &mut Vec<It>, info: &mut Info) -> Result<(), Fail> {
    let mut files: Vec<RootFile> = vec![open(p)?];
    let mut moved = 0;
    let mut left: Vec<PathBuf> = vec![];
    let names: Vec<String> = m.iter().map(|t| t.name.clone()).collect();
    let mut shapes: Vec<Option<Vec<(String, String, i64)>>> = m.iter().map(|_| None).collect();
    let (mut switched, mut last) = (0, usize::MAX);
    let mut seen = std::collections::BTreeMap::new();
    let fetch = |files: &mut Vec<RootFile>, shapes: &mut Vec<Option<Vec<(String, String, i64)>>>, trees: &mut Vec<(usize, *mut ReaderTree)>, h: usize, t: usize| -> Result<u64, Fail> {
        let i = h % files.len();
        let tree = get_tree(&mut files[i], &m[t].name)?;
        ensure!(tree.entries() == m[t].entries, "tree reports {} entries, it has {}", tree.entries(), m[t].entries);
        let s = shape(&tree)?;
        if let Some(w) = &shapes[t] {
            ensure!(*w == s, "the tree lists {s:?}, and had listed {w:?} before");
        }
        shapes[t] = Some(s);
        trees.push((t, Box::into_raw(Box::new(tree))));
        Ok(2)
    };
    info.checks += fetch(&mut files, &mut shapes, trees, 0, 0)?;
    for (k, op) in c.ops.iter().enumerate() {
        let what = format!("step {k} {op:?}");
        match *op {
            Op::Open if files.len() < 4 => files.push(open(p)?),
            Op::Open => {}
            // the trees fetched from it stay usable
            Op::Close(i) => {
                if files.len() > 1 {
                    let i = i as usize % files.len();
                    files.remove(i);
                }
            }
            Op::Fetch(h, t) => {
                if trees.len() < 10 {
                    info.checks += fetch(&mut files, &mut shapes, trees, h as usize, t as usize % m.len())?;
                }
            }
            Op::Start(t, col, mode) => {
                let (t, ptr) = trees[t as usize % trees.len()];
                if m[t].cols.is_empty() || its.len() > 12 {
                    continue;
                }
                let col = col as usize % m[t].cols.len();
                // SAFETY: the tree is freed after the iterators
                let tree: &'static ReaderTree = unsafe { &*ptr };
                let it = start(tree, &m[t].cols[col], mode)?;
                *seen.entry((t, col)).or_insert(0) += 1;
                its.push(It { it, tree: t, col, pos: 0, ended: false });
            }
            Op::Next(..) | Op::Drop(_) | Op::Rest(_) if its.is_empty() => {}
            Op::Next(i, n) => {
                let i = i as usize % its.len();
                if last != i && its[i].pos > 0 {
                    switched += 1;
                }
                last = i;
                info.checks += step(&mut its[i], m, n as usize, &what)?;
            }
            Op::Rest(i) => {
                let i = i as usize % its.len();
                let left = m[its[i].tree].cols[its[i].col].want.len() - its[i].pos;
                info.checks += step(&mut its[i], m, left + 4, &what)?;
            }
            Op::Drop(i) => {
                let i = i as usize % its.len();
                its.remove(i);
            }
            Op::Look(t) => {
                let (t, ptr) = trees[t as usize % trees.len()];
                // SAFETY: as above
                let s = shape(unsafe { &*ptr })?;
                ensure!(shapes[t].as_ref() == Some(&s), "{what}: the tree lists {s:?}, and had listed {:?} before", shapes[t]);
                info.checks += 1;
            }
            Op::Keys(h) => {
                let i = h as usize % files.len();
                let k: Vec<String> = files[i].keys_name().map(|s| s.to_string()).collect();
                ensure!(k == names, "{what}: keys {k:?}, stored {names:?}");
                info.checks += 1;
            }
            Op::Move(k) => {
                let to = env.path();
                let io = |r: std::io::Result<()>| r.expect("scratch file");
                if k % 3 == 0 {
                    io(std::fs::rename(&*p, &to));
                } else {
                    std::fs::copy(&*p, &to).expect("scratch file");
                    if k % 3 == 1 {
                        io(std::fs::remove_file(&*p));
                    } else {
                        let junk = p.with_extension("junk");
                        io(std::fs::write(&junk, b"nothing of the kind"));
                        io(std::fs::rename(&junk, &*p));
                        left.push(p.clone());
                    }
                }
                *p = to;
                moved += 1;
            }
            Op::Missing(h) => {
                let i = h as usize % files.len();
                let r = guard(|| files[i].get_tree("no such tree").is_err()).map_err(|e| Fail::new(format!("{what}: panic {e}")))?;
                ensure!(r, "{what}: a tree that is not there was returned");
                info.checks += 1;
            }
        }
    }
    // everything still open is read to the end
    for x in its.iter_mut() {
        let left = m[x.tree].cols[x.col].want.len() - x.pos;
        info.checks += step(x, m, left + 3, "reading the rest")?;
    }
    for p in left {
        let _ = std::fs::remove_file(p);
    }
    let again = seen.values().any(|&n| n > 1);
    info.nontrivial = switched > 1 && seen.len() + again as usize > 1;
    info.label(if again { "same-column-again" } else { "columns-once" });
    info.label(match switched { 0 => "switches:0", 1..=4 => "switches:1-4", _ => "switches:5+" });
    info.label(match &c.src { Src::Foreign(_) => "foreign", Src::Own(_) => "own" });
    info.label_if(trees.len() > 1, "several-fetches");
    info.label_if(moved > 0, "file-moved-or-replaced");
    Ok(())
}

fn own() -> impl Strategy<Value = Src> {
    prop::collection::vec(prop::collection::vec(any_ty().prop_flat_map(|ty| col_of(Just(ty), 20_000)), 1..5), 1..3).prop_map(named)
}

/// Trees t0, t1, ... of columns c0, c1, ...
fn named(v: Vec<Vec<Col>>) -> Src {
    Src::Own(
        v.into_iter()
            .enumerate()
            .map(|(i, mut cols)| {
                for (k, c) in cols.iter_mut().enumerate() {
                    c.name = format!("c{k}");
                }
                TreeSpec { name: format!("t{i}"), cols }
            })
            .collect(),
    )
}

fn foreign() -> impl Strategy<Value = Src> {
    ffile(true, 150, 3).prop_map(|mut f| {
        // the cost of LZMA is kept for C08
        for t in f.trees.iter_mut() {
            for c in t.all_cols() {
                c.store.truncate(1);
            }
        }
        Src::Foreign(f)
    })
}

fn mode() -> impl Strategy<Value = Mode> {
    prop_oneof![Just(Mode::Checked), Just(Mode::Unchecked), Just(Mode::Buffer)]
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        1 => Just(Op::Open),
        1 => any::<u8>().prop_map(Op::Close),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Fetch(a, b)),
        6 => (any::<u8>(), any::<u8>(), mode()).prop_map(|(a, b, m)| Op::Start(a, b, m)),
        12 => (any::<u8>(), prop_oneof![3 => 1u16..4, 2 => 1u16..40, 1 => 1u16..2000]).prop_map(|(a, b)| Op::Next(a, b)),
        2 => any::<u8>().prop_map(Op::Rest),
        1 => any::<u8>().prop_map(Op::Drop),
        1 => any::<u8>().prop_map(Op::Look),
        1 => any::<u8>().prop_map(Op::Keys),
        1 => any::<u8>().prop_map(Op::Missing),
        1 => any::<u8>().prop_map(Op::Move),
    ]
}

fn gen(_: Tier) -> BoxedStrategy<Case> {
    (prop_oneof![1 => own(), 2 => foreign()], prop::collection::vec(op(), 2..40)).prop_map(|(src, ops)| Case { src, ops }).boxed()
}

// ---------------------------------------------------------------- at the same time

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Par {
    src: Src,
    threads: u8,
    mode: Mode,
}

fn run_par(c: &Par, env: &Env) -> Res {
    let mut info = Info::default();
    let p = store(&c.src, env)?;
    let m = models(&c.src);
    let barrier = std::sync::Barrier::new(c.threads as usize);
    let r: Vec<Result<u64, Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..c.threads as usize)
            .map(|k| {
                let (p, m, barrier) = (&p, &m, &barrier);
                s.spawn(move || -> Result<u64, Fail> {
                    let f = open(p);
                    barrier.wait();
                    let mut f = f?;
                    let mut n = 0;
                    for t in m {
                        let tree = get_tree(&mut f, &t.name)?;
                        for i in 0..t.cols.len() {
                            let col = &t.cols[(i + k) % t.cols.len()];
                            let it = start(&tree, col, c.mode)?;
                            let got: Vec<Vec<u8>> =
                                guard(|| it.take(col.want.len() + 3).collect()).map_err(|e| Fail::new(format!("thread {k}, column {:?}: panic {e}", col.name)))?;
                            diff(&format!("thread {k}, column {:?}", col.name), &col.want, &got)?;
                            n += col.want.len() as u64 + 1;
                        }
                    }
                    Ok(n)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::new("a reading thread panicked")))).collect()
    });
    for x in r {
        info.checks += x?;
    }
    info.nontrivial = m.iter().any(|t| t.entries > 0 && !t.cols.is_empty());
    info.label(format!("threads:{}", c.threads));
    let _ = std::fs::remove_file(&p);
    Ok(info)
}

fn gen_par(_: Tier) -> BoxedStrategy<Par> {
    (prop_oneof![1 => own(), 2 => foreign()], 2u8..7, mode()).prop_map(|(src, threads, mode)| Par { src, threads, mode }).boxed()
}

// ---------------------------------------------------------------- few open files

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Few {
    src: Src,
    /// how many files the process may have open
    limit: u8,
    mode: Mode,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    path: Option<PathBuf>,
}

fn read_all_at_once(c: &Few, p: &Path) -> Result<u64, Fail> {
    let m = models(&c.src);
    let mut f = open(p)?;
    let mut trees = vec![];
    for t in &m {
        trees.push(get_tree(&mut f, &t.name)?);
    }
    let mut its = vec![];
    for (tree, t) in trees.iter().zip(&m) {
        for col in &t.cols {
            its.push((col, start(tree, col, c.mode)?));
        }
    }
    let longest = m.iter().flat_map(|t| &t.cols).map(|c| c.want.len()).max().unwrap_or(0);
    let mut n = 0;
    for k in 0..longest + 1 {
        for (col, it) in its.iter_mut() {
            if k > col.want.len() {
                continue;
            }
            let got = guard(|| it.next()).map_err(|e| Fail::new(format!("column {:?}, entry {k}: panic {e}", col.name)))?;
            ensure!(got.as_ref() == col.want.get(k), "column {:?}: entry {k}: {got:02x?} read, {:02x?} stored", col.name, col.want.get(k));
            n += 1;
        }
    }
    Ok(n)
}

/// In a process of its own: read a file with a limited number of open files.
pub fn child_few(job: &str) -> i32 {
    let c: Few = serde_json::from_str(&std::fs::read_to_string(job).expect("job")).expect("job");
    super::p_layout::limit_files(c.limit as u64);
    let r = read_all_at_once(&c, c.path.as_ref().expect("path"));
    println!("{}", serde_json::to_string(&r.map_err(|f| f.msg)).unwrap());
    0
}

fn run_few(c: &Few, env: &Env) -> Res {
    let mut info = Info::default();
    let p = store(&c.src, env)?;
    let mut job = c.clone();
    job.path = Some(p.clone());
    let jobfile = env.dir.join("few.json");
    std::fs::write(&jobfile, serde_json::to_string(&job).unwrap()).map_err(|e| Fail::new(e.to_string()))?;
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["few", jobfile.to_str().unwrap()])
        .stderr(std::process::Stdio::null())
        .output()
        .map_err(|e| Fail::new(e.to_string()))?;
    let r: Option<Result<u64, String>> = String::from_utf8_lossy(&out.stdout).lines().find_map(|l| serde_json::from_str(l).ok());
    let columns: usize = models(&c.src).iter().map(|t| t.cols.len()).sum();
    match r {
        Some(Ok(n)) => info.checks += n,
        Some(Err(e)) => crate::bail!("{columns} columns read at once with {} files open at most: {e}", c.limit),
        None => crate::bail!("{columns} columns read at once with {} files open at most: the process ended with {}", c.limit, out.status),
    }
    info.nontrivial = columns > c.limit as usize;
    info.label(match columns { 0..=19 => "columns:0-19", 20..=99 => "columns:20-99", _ => "columns:100+" });
    let _ = std::fs::remove_file(&p);
    Ok(info)
}

fn gen_few(_: Tier) -> BoxedStrategy<Few> {
    let many = prop::collection::vec(prop::collection::vec(any_ty().prop_flat_map(|ty| col_of(Just(ty), 300)), 10..120), 1..3).prop_map(named);
    (prop_oneof![3 => many.boxed(), 1 => foreign().boxed()], 16u8..40, mode()).prop_map(|(src, limit, mode)| Few { src, limit, mode, path: None }).boxed()
}

fn fixed_few(_: Tier) -> Vec<Few> {
    let col = |ty: Ty, n: u32| Col { name: String::new(), ty, runs: vec![Run { n, sz: 3 }], pat: Pat::Ramp, seed: 1 };
    [1usize, 15, 16, 17, 255, 256, 1100, 3000]
        .iter()
        .map(|&n| {
            let cols = (0..n).map(|i| col([Ty::S(P::I32), Ty::Str, Ty::V(P::F64)][i % 3], 3)).collect();
            Few { src: named(vec![cols]), limit: 16, mode: Mode::Checked, path: None }
        })
        .collect()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C16",
        assumptions: &["Threads reading at the same time each open the file for themselves: the library's handles are not shared between threads."],
        subs: vec![
            Box::new(Sub::<Case> {
                name: "history",
                rule: "random files (of the library and of the independent writer) and histories of opening, fetching trees, renaming, removing or replacing the file (the open handles keep it), starting iterators of the three kinds, advancing them in any interleaving, past their end too, dropping them, listing and asking for absent trees; every entry compared with the generated one, and the file's bytes with the earlier ones; non-trivial when at least two switches between started iterators happen over several columns or the same one again; distinct by serialised case",
                quick: 6000,
                thorough: 60000,
                fixed: |_| vec![],
                gen,
                run,
                shards: SHARDS,
            }),
            Box::new(Sub::<Par> {
                name: "threads",
                rule: "random files read by two to six threads at once, each through its own handle, columns in different orders; non-trivial when there are entries; distinct by serialised case",
                quick: 1200,
                thorough: 6000,
                fixed: |_| vec![],
                gen: gen_par,
                run: run_par,
                shards: 2,
            }),
            Box::new(Sub::<Few> {
                name: "few-files",
                rule: "random files of up to 240 (fixed cases: 3000) columns, all of them read at once, entry by entry, by a process that may have 16 to 39 files open; every entry compared with the generated one; non-trivial when there are more columns than files; distinct by serialised case",
                quick: 150,
                thorough: 3000,
                fixed: fixed_few,
                gen: gen_few,
                run: run_few,
                shards: SHARDS,
            }),
        ],
    }]
}
