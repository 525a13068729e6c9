//! C08, C09: files written by another implementation.
use super::common::*;
use super::foreign::*;
use crate::engine::*;
use crate::model::*;
use crate::refroot::comp::Algo;
use crate::refroot::read::{Infos, RFile};
use crate::refroot::write;
use crate::ensure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::sync::OnceLock;

/// Descriptions of ROOT's own classes, taken from a file written by the library.
fn base_infos(env: &Env) -> &'static Infos {
    // not Sync: parsed once per thread
    thread_local! { static I: OnceLock<&'static Infos> = const { OnceLock::new() }; }
    I.with(|i| {
        *i.get_or_init(|| {
            let p = env.path();
            let mut cols = vec![];
            for p in PRIMS {
                cols.push(Ty::S(p));
            }
            cols.push(Ty::Str);
            cols.push(Ty::V(P::I32));
            let cols = cols
                .into_iter()
                .enumerate()
                .map(|(i, ty)| Col { name: format!("v{i}"), ty, runs: vec![Run { n: 2, sz: 1 }], pat: Pat::Zero, seed: 0 })
                .collect();
            let t = TreeSpec { name: "t".into(), cols };
            write_file(&p, &[t]).expect("reference file");
            let f = RFile::open(p.to_str().unwrap()).expect("reference file parses");
            Box::leak(Box::new(f.infos.clone()))
        })
    })
}

/// Development aid: the independent writer against the independent parser.
fn self_check(f: &FFile, p: &Path, env: &Env) {
    if std::env::var("OXY_SELFCHECK").is_err() {
        return;
    }
    let mut r = RFile::open(p.to_str().unwrap()).expect("own parser");
    r.infos.list.extend(base_infos(env).list.iter().cloned());
    for (k, t) in r.keys.clone().iter().zip(&f.trees) {
        if t.flat().iter().any(|c| c.vers != 13) || t.evers != 10 || t.tvers != 0 {
            continue;
        }
        let d = r.tree(k).unwrap_or_else(|e| panic!("own parser, tree: {e} {f:?}"));
        assert!(d.leaf_addrs_ok);
        assert_eq!(d.entries, t.n as i64);
        fn leaves(v: &[crate::refroot::read::BranchData], out: &mut Vec<(String, Vec<Vec<u8>>)>) {
            for b in v {
                if b.children.is_empty() {
                    out.push((b.name.clone(), b.data.clone()));
                }
                leaves(&b.children, out);
            }
        }
        let mut got = vec![];
        leaves(&d.branches, &mut got);
        got.retain(|g| !g.0.rsplit('.').next().unwrap().starts_with("n_"));
        for c in t.flat().iter() {
            let g = got.iter().find(|g| g.0 == branch_name(c)).expect("column");
            if c.kind == K::MTString || c.kind == K::MStr || c.kind.variable() || !c.offsets {
                diff("own parser", &c.stored(t.n as usize), &g.1).unwrap();
            }
        }
    }
}

pub fn store_file(f: &FFile, env: &Env) -> Result<(std::path::PathBuf, write::Image), Fail> {
    let p = env.path();
    let img = write::build(&file_s(f));
    img.save(&p).expect("scratch file");
    self_check(f, &p, env);
    Ok((p, img))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Stored {
    file: FFile,
    mode: Mode,
}

fn labels(f: &FFile, info: &mut Info) {
    for t in &f.trees {
        for c in t.flat().iter() {
            info.label(c.kind.short());
            let parts = c.partition(t.n as usize);
            info.label(match parts.len() { 0 => "no-basket", 1 => "one-basket", 2..=9 => "few-baskets", _ => "10+baskets" });
            info.label_if(parts.contains(&0), "empty-basket");
            info.label_if(c.embed && !parts.is_empty(), "embedded");
            info.label_if(c.embed && parts.len() > 1, "embedded-after-disk");
            info.label_if(c.embed && c.nulls > 0, "null-slots");
            info.label_if(c.vers < 10, "old-branch");
        }
        info.label_if(t.n == 0, "no-entries");
        info.label_if(t.tvers != 0, "old-tree");
    }
    info.label_if(f.big, "wide");
}

fn run_read(c: &Stored, env: &Env) -> Res {
    let mut info = Info::default();
    let (p, _) = store_file(&c.file, env)?;
    let mut f = open(&p)?;
    for t in &c.file.trees {
        let tree = get_tree(&mut f, &t.name)?;
        info.checks += check_ftree(&tree, t, c.mode)?;
    }
    labels(&c.file, &mut info);
    info.nontrivial = c.file.trees.iter().any(|t| t.n > 0 && t.flat().iter().any(|c| c.partition(t.n as usize).len() > 1 || c.embed));
    Ok(info)
}

fn run_compressed(c: &Stored, env: &Env) -> Res {
    let mut info = Info::default();
    let (p, img) = store_file(&c.file, env)?;
    let mut f = open(&p)?;
    for t in &c.file.trees {
        let tree = get_tree(&mut f, &t.name)?;
        info.checks += check_ftree(&tree, t, c.mode)?;
        // the same content stored raw lists the same columns
        let names: Vec<(String, String)> = tree.branches_r().iter().map(|b| (b.name().to_string(), b.class().to_string())).collect();
        let s = file_s(&c.file);
        let mut want = vec![];
        fn walk(b: &write::BranchS, out: &mut Vec<(String, String)>) {
            out.push((b.name.clone(), if b.elem.is_some() { "TBranchElement".into() } else { "TBranch".into() }));
            b.children.iter().for_each(|c| walk(c, out));
        }
        for ts in s.trees.iter().filter(|x| x.name == t.name) {
            ts.branches.iter().for_each(|b| walk(b, &mut want));
        }
        ensure!(names == want, "columns listed {names:?}, stored {want:?}");
    }
    labels(&c.file, &mut info);
    let mut algos = std::collections::BTreeSet::new();
    for t in &c.file.trees {
        for x in t.flat().iter().flat_map(|c| &c.store).chain([&t.store, &c.file.info_store]) {
            algos.insert(match x.0 {
                Algo::None => "raw",
                Algo::Zlib(_) => "zlib",
                Algo::Lzma(_) => "lzma",
                Algo::Lz4(_) => "lz4",
            });
            info.label_if(x.0 != Algo::None && x.1 < 3000, "small-blocks");
        }
        info.label_if(t.store.0 != Algo::None, "compressed-tree-record");
        info.label_if(t.store.0 != Algo::None && t.store.1 < 3000, "multi-block-tree-record");
    }
    info.label_if(algos.len() > 2, "mixed-algorithms");
    for a in algos {
        info.label(a);
    }
    info.nontrivial = img.stored > 0;
    info.label(match img.stored { 0 => "compressed-records:0", 1 => "compressed-records:1", 2..=9 => "compressed-records:2-9", _ => "compressed-records:10+" });
    Ok(info)
}

fn mode() -> impl Strategy<Value = Mode> {
    prop_oneof![3 => Just(Mode::Checked), 1 => Just(Mode::Unchecked), 1 => Just(Mode::Buffer)]
}

fn gen_plain(t: Tier) -> BoxedStrategy<Stored> {
    let n = if t == Tier::Quick { 200 } else { 800 };
    (ffile(false, n, 5), mode()).prop_map(|(file, mode)| Stored { file, mode }).boxed()
}
fn gen_comp(t: Tier) -> BoxedStrategy<Stored> {
    let n = if t == Tier::Quick { 200 } else { 800 };
    (ffile(true, n, 4), mode()).prop_map(|(file, mode)| Stored { file, mode }).boxed()
}

fn one(n: u32, cols: Vec<FCol>, members: Vec<FCol>, store: (Algo, u32)) -> Stored {
    Stored {
        file: FFile {
            trees: vec![FTree { name: "events".into(), n, cols, members, store, clusters: 0, far: false, evers: 10, groups: vec![], dot: false, objs: vec![], rot: 0, tvers: 0 }],
            seed: 1,
            tree_place: 2,
            info_store: store,
            big: false,
            far_at: 0,
            far_keys: false,
            far_infos: false,
        },
        mode: Mode::Checked,
    }
}

/// A file of one tree with these columns, its tree and class-description records stored like this.
pub fn one_file(n: u32, cols: Vec<FCol>, store: (Algo, u32)) -> FFile {
    one(n, cols, vec![], store).file
}

fn all_kinds() -> (Vec<K>, Vec<K>) {
    let mut a = vec![K::Str, K::TStr];
    let mut m = vec![K::MTString, K::MStr, K::MVecStr];
    for p in PRIMS {
        a.extend([K::S(p), K::A(p, 3), K::A2(p, 2, 4), K::J(p), K::J2(p, 2)]);
        m.extend([K::MS(p), K::MA(p, 3), K::MA2(p, 4, 2), K::MJ(p)]);
        if p != P::Bool {
            a.push(K::TVec(p));
            m.push(K::MVec(p));
        }
    }
    (a, m)
}

fn fixed_plain(_: Tier) -> Vec<Stored> {
    let mut v = vec![];
    let (a, m) = all_kinds();
    let named = |k: &K, i: usize| FCol::simple(&format!("c{i}"), *k);
    for (embed, parts) in [(false, vec![]), (true, vec![]), (true, vec![2u32]), (false, vec![3, 0, 1]), (true, vec![0, 4]), (false, vec![1])] {
        for kinds in [&a, &m] {
            for (i, k) in kinds.iter().enumerate() {
                for n in [1u32, 3, 7] {
                    let mut c = named(k, i);
                    c.embed = embed;
                    c.parts = parts.clone();
                    if k.member() {
                        v.push(one(n, vec![], vec![c], (Algo::None, 0)));
                    } else {
                        v.push(one(n, vec![c], vec![], (Algo::None, 0)));
                    }
                }
            }
        }
    }
    v.push(one(0, a.iter().enumerate().map(|(i, k)| named(k, i)).collect(), m.iter().enumerate().map(|(i, k)| named(k, i + 100)).collect(), (Algo::None, 0)));
    v
}

/// More columns, buffers, entries or elements than a byte (or two) can count.
fn fixed_many(t: Tier) -> Vec<Stored> {
    let mut v = fixed_plain(t);
    let (a, m) = all_kinds();
    for kinds in [&a, &m] {
        for (i, k) in kinds.iter().enumerate() {
            let mut put = |n: u32, f: &dyn Fn(&mut FCol)| {
                let mut c = FCol::simple(&format!("c{i}"), *k);
                f(&mut c);
                v.push(if k.member() { one(n, vec![], vec![c], (Algo::None, 0)) } else { one(n, vec![c], vec![], (Algo::None, 0)) });
            };
            put(600, &|c| c.parts = vec![1; 290]);
            put(700, &|c| {
                c.parts = vec![2; 300];
                c.embed = true;
            });
            put(66_000, &|c| c.parts = vec![]);
            put(4, &|c| c.sizes = vec![0, 300, 2, 66_000]);
        }
    }
    // one kind with very many buffers, and trees of very many columns
    let mut c = FCol::simple("c", K::S(P::I16));
    c.parts = vec![1; 66_000];
    v.push(one(66_100, vec![c], vec![], (Algo::None, 0)));
    let many = |kinds: &[K], n: usize| (0..n).map(|i| FCol::simple(&format!("c{i}"), kinds[i % kinds.len()])).collect::<Vec<_>>();
    let plain: Vec<K> = a.iter().filter(|k| !matches!(k, K::J(_) | K::J2(..))).cloned().collect();
    v.push(one(3, many(&plain, 300), vec![], (Algo::None, 0)));
    v.push(one(3, many(&a, 300), vec![], (Algo::None, 0)));
    v.push(one(3, vec![], many(&m, 300), (Algo::None, 0)));
    v
}

fn fixed_comp(_: Tier) -> Vec<Stored> {
    let mut v = vec![];
    let kinds = [K::S(P::I32), K::J(P::F64), K::Str, K::MVec(P::I16)];
    let mut algos = vec![];
    for l in 1..=9 {
        algos.push(Algo::Zlib(l));
        algos.push(Algo::Lz4(l));
    }
    for l in 1..=6 {
        algos.push(Algo::Lzma(l));
    }
    for a in algos {
        for block in [0xff_ffff, 700, 33] {
            if matches!(a, Algo::Lzma(_)) && block == 33 {
                continue;
            }
            let mut cols = vec![];
            let mut mem = vec![];
            for (i, k) in kinds.iter().enumerate() {
                let mut c = FCol::simple(&format!("c{i}"), *k);
                c.pat = Pat::Ramp;
                c.parts = vec![60, 40];
                c.store = vec![(a, block)];
                if k.member() { mem.push(c) } else { cols.push(c) }
            }
            v.push(one(200, cols, mem, (a, block)));
        }
    }
    // more than one full-size block
    let mut big = FCol::simple("big", K::A(P::U8, 9000));
    big.pat = Pat::Zero;
    for a in [Algo::Zlib(1), Algo::Lz4(1), Algo::Lzma(1)] {
        let mut c = big.clone();
        c.store = vec![(a, 0xff_ffff)];
        v.push(one(1900, vec![c], vec![], (Algo::None, 0)));
    }
    v
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C08",
            assumptions: &[
                "Files come from an independent ROOT writer in the harness; compression is done with the flate2, xz2 and lz4 crates and checked against the repository's own sample files.",
                "Zstandard and the pre-2005 'CS' format are unsupported by the library and are not generated.",
            ],
            subs: vec![Box::new(Sub::<Stored> {
                name: "stored",
                rule: "a tree of plain, counted, string, container and split-object columns whose tree, description and basket records are each stored raw or compressed with a random algorithm, level and block size; non-trivial when at least one record is really stored compressed; distinct by serialised case",
                quick: 6000,
                thorough: 120000,
                fixed: fixed_comp,
                gen: gen_comp,
                run: run_compressed,
                shards: SHARDS,
            })],
        },
        Property {
            id: "C09",
            assumptions: &[
                "Files come from an independent ROOT writer in the harness, validated against the harness's independent parser; tree versions 16 to 20, branch versions 6 to 13 and element versions 8 to 10.",
                "A tree branch has one leaf; leaf lists with several leaves per branch are not generated.",
            ],
            subs: vec![Box::new(Sub::<Stored> {
                name: "baskets",
                rule: "a tree of plain, counted, string, container and split-object columns, each with its own partition into baskets (empty ones included, the last one embedded or not, null slots, spare table slots, table versions, shuffled placement); non-trivial when some column has several baskets or an embedded one; distinct by serialised case",
                quick: 40000,
                thorough: 250000,
                fixed: fixed_many,
                gen: gen_plain,
                run: run_read,
                shards: SHARDS,
            })],
        },
    ]
}
