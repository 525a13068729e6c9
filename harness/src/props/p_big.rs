//! C21: files whose records lie beyond 2 GB.
use super::common::*;
use super::foreign::*;
use super::p_foreign::store_file;
use crate::engine::*;
use crate::model::*;
use crate::refroot::comp::Algo;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Far {
    file: FFile,
    mode: Mode,
}

fn run_far(c: &Far, env: &Env) -> Res {
    let mut info = Info::default();
    let (p, img) = store_file(&c.file, env)?;
    let mut f = open(&p)?;
    let keys: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    let want: Vec<String> = c.file.trees.iter().map(|t| t.name.clone()).collect();
    crate::ensure!(keys == want, "trees listed {keys:?}, stored {want:?}");
    for t in &c.file.trees {
        let tree = get_tree(&mut f, &t.name)?;
        info.checks += check_ftree(&tree, t, c.mode)? + 1;
    }
    if std::env::var_os("OXY_KEEP").is_none() {
        let _ = std::fs::remove_file(&p);
    }
    info.nontrivial = img.end > i32::MAX as u64;
    let x = c.file.far_at;
    info.label(match x {
        0 => "none-far",
        1..=1_999_999_999 => "before-2e9",
        2_000_000_000..=2_147_483_647 => "2e9..2^31",
        2_147_483_648..=4_294_967_295 => "2^31..2^32",
        _ => "beyond-2^32",
    });
    info.label_if(x < 1 << 31 && img.end > 1 << 31, "straddles-2^31");
    info.label_if(x < 1 << 32 && img.end > 1 << 32, "straddles-2^32");
    info.label_if(x < 2_000_000_000 && img.end > 2_000_000_000, "straddles-2e9");
    for t in &c.file.trees {
        info.label_if(t.far, "far-tree");
        let all = t.flat();
        let n = all.iter().filter(|c| c.far).count();
        info.label(match n { 0 => "no-far-column", x if x == all.len() => "all-columns-far", _ => "some-columns-far" });
    }
    info.label_if(c.file.far_keys, "far-keys");
    info.label_if(c.file.far_infos, "far-descriptions");
    info.label_if(c.file.big, "all-wide");
    Ok(info)
}

fn far_at() -> impl Strategy<Value = u64> {
    let near = |x: u64| (0u64..3000).prop_map(move |d| x - d);
    prop_oneof![
        3 => near(1 << 31),
        2 => near(2_000_000_000),
        2 => near(1 << 32),
        1 => near((1 << 32) + (1 << 31)),
        1 => near(1 << 33),
        1 => (1u64 << 31)..(1u64 << 32),
        1 => (1u64 << 32)..(1u64 << 40),
    ]
}

fn gen_far(_: Tier) -> BoxedStrategy<Far> {
    let tree = || (ftree(Opt { compress: true, max_n: 120, ncols: 3 }), any::<bool>(), prop::collection::vec(prop::bool::weighted(0.6), 6));
    (
        prop::collection::vec(tree(), 1..3),
        (far_at(), prop::bool::weighted(0.4), prop::bool::weighted(0.4), prop::bool::weighted(0.3)),
        (any::<u64>(), 0u8..3),
        prop_oneof![3 => Just(Mode::Checked), 1 => Just(Mode::Unchecked), 1 => Just(Mode::Buffer)],
    )
        .prop_map(|(ts, (far_at, far_keys, far_infos, big), (seed, tree_place), mode)| {
            let trees = ts
                .into_iter()
                .enumerate()
                .map(|(i, (mut t, far, fc))| {
                    t.name = format!("t{i}");
                    t.far = far;
                    for (c, f) in t.all_cols().into_iter().zip(fc) {
                        c.far = f;
                        // keep the cost of compression for C08
                        c.store.truncate(1);
                        for s in c.store.iter_mut() {
                            if matches!(s.0, Algo::Lzma(_)) {
                                s.0 = Algo::Zlib(1);
                            }
                        }
                    }
                    t.store = (Algo::None, 0);
                    // one description serves every tree
                    if i > 0 {
                        t.plain();
                    }
                    t
                })
                .collect();
            Far { file: FFile { trees, seed: seed % 10_000, tree_place, info_store: (Algo::None, 0), big, far_at, far_keys, far_infos }, mode }
        })
        .boxed()
}

fn fixed_far(_: Tier) -> Vec<Far> {
    let mut v = vec![];
    for far_at in [2_000_000_000u64, 2_000_000_000 - 200, (1 << 31) - 1, 1 << 31, (1 << 31) - 300, (1 << 32) - 100, 1 << 32, (1 << 32) + 77, 3 << 31, 1 << 40] {
        for w in 0..16u8 {
            let mut c = FCol::simple("a", K::S(P::I32));
            c.parts = vec![7, 5];
            c.embed = w == 3;
            let mut d = FCol::simple("b", K::Str);
            d.parts = vec![4];
            c.far = w & 1 > 0;
            d.far = w & 1 > 0;
            let mut m = FCol::simple("m", K::MVec(P::F64));
            m.far = w & 1 > 0;
            let t = FTree { name: "t0".into(), n: 20, cols: vec![c, d], members: vec![m], store: (Algo::None, 0), clusters: 0, far: w & 2 > 0, evers: 10, groups: vec![], dot: false, objs: vec![], rot: 0, tvers: 0 };
            v.push(Far {
                file: FFile { trees: vec![t], seed: 3, tree_place: 2, info_store: (Algo::None, 0), big: false, far_at, far_keys: w & 4 > 0, far_infos: w & 8 > 0 },
                mode: Mode::Checked,
            });
        }
    }
    v
}

// ---------------------------------------------------------------- written across the mark

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Across {
    /// the byte `back` bytes before the end of the file lies at this position
    mark: u64,
    back: u64,
    /// entries of the bulk column
    bulk: u32,
    /// columns written in lock step with it
    cols: Vec<Col>,
    before: Vec<TreeSpec>,
    after: Vec<TreeSpec>,
    seed: u64,
    /// decode it with the independent reader as well
    decode: bool,
}

const BLOCK: usize = 1 << 16;
/// entry `i` of the bulk column: text that says where it is
fn bulk_entry(seed: u64, i: usize, len: usize) -> Vec<u8> {
    let mut m = Mix(seed ^ (i as u64) << 20);
    let block: Vec<u8> = (0..BLOCK).map(|_| 32 + (m.next() % 90) as u8).collect();
    let mut v = Vec::with_capacity(len);
    let mut k = 0u32;
    while v.len() < len {
        let n = BLOCK.min(len - v.len());
        v.extend_from_slice(&block[..n]);
        if n > 12 {
            let at = v.len() - n;
            v[at..at + 10].copy_from_slice(format!("{k:010}").as_bytes());
        }
        k += 1;
    }
    v
}

/// entries of the bulk column: all but the last of one size
fn bulk_lens(n: usize, total: u64) -> Vec<usize> {
    let each = total / n as u64;
    let mut v = vec![each as usize; n];
    v[n - 1] += (total - each * n as u64) as usize;
    v
}

fn write_across(p: &std::path::Path, c: &Across, lens: &[usize]) -> Result<(), Fail> {
    let r = guard(|| -> Result<(), String> {
        let mut f = oxyroot::RootFile::create(p).map_err(|e| format!("create: {e}"))?;
        for t in &c.before {
            build_tree(t).write(&mut f).map_err(|e| format!("write tree {:?}: {e}", t.name))?;
        }
        let mut t = oxyroot::WriterTree::new("bulk");
        let (seed, ls) = (c.seed, lens.to_vec());
        t.new_branch("bulk", ls.into_iter().enumerate().map(move |(i, n)| String::from_utf8(bulk_entry(seed, i, n)).unwrap()));
        for c in &c.cols {
            add_branch(&mut t, c);
        }
        t.write(&mut f).map_err(|e| format!("write the large tree: {e}"))?;
        for t in &c.after {
            build_tree(t).write(&mut f).map_err(|e| format!("write tree {:?}: {e}", t.name))?;
        }
        f.close().map_err(|e| format!("close: {e}"))
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(Fail::new(format!("writing failed: {e}"))),
        Err(p) => Err(Fail::new(format!("writing panicked: {p}"))),
    }
}

fn run_across(c: &Across, env: &Env) -> Res {
    let mut info = Info::default();
    let n = c.bulk as usize;
    // the same content with little bulk, to know how much is needed
    let dry = env.path();
    let small = if n > 1000 { 16_100u64 } else { 40_000 } * n as u64;
    write_across(&dry, c, &bulk_lens(n, small))?;
    let l0 = std::fs::metadata(&dry).map_err(|e| Fail::new(e.to_string()))?.len();
    let _ = std::fs::remove_file(&dry);
    let back = c.back.min(l0 - small);
    let lens = bulk_lens(n, c.mark + back - l0 + small);
    let p = env.path();
    write_across(&p, c, &lens)?;
    let len = std::fs::metadata(&p).map_err(|e| Fail::new(e.to_string()))?.len();
    {
        let mut f = open(&p)?;
        let keys: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
        let mut want: Vec<String> = c.before.iter().map(|t| t.name.clone()).collect();
        want.push("bulk".into());
        want.extend(c.after.iter().map(|t| t.name.clone()));
        crate::ensure!(keys == want, "trees listed {keys:?}, written {want:?}");
        for t in c.before.iter().chain(&c.after) {
            info.checks += check_tree(&get_tree(&mut f, &t.name)?, t, Mode::Checked)?;
        }
        let t = get_tree(&mut f, "bulk")?;
        let longest = c.cols.iter().map(|c| c.len()).max().unwrap_or(0).max(n);
        crate::ensure!(t.entries() == longest as i64, "tree reports {} entries, it has {longest}", t.entries());
        for c in &c.cols {
            info.checks += check_col(&t, c, Mode::Checked)?;
        }
        let b = t.branch("bulk").ok_or_else(|| Fail::new("the bulk column is not found"))?;
        let r = guard(|| -> Result<usize, String> {
            let mut k = 0;
            for v in b.as_iter::<String>().map_err(|e| format!("refused: {e}"))?.take(n + 2) {
                if k < n && v.as_bytes() != bulk_entry(c.seed, k, lens[k]) {
                    return Err(format!("entry {k} of {} bytes differs from the {} written", v.len(), lens[k]));
                }
                k += 1;
            }
            Ok(k)
        })
        .map_err(|e| format!("panic: {e}"));
        match r {
            Ok(Ok(k)) => crate::ensure!(k == n, "bulk column: {k} entries read, {n} written"),
            Ok(Err(e)) | Err(e) => crate::bail!("reading the bulk column: {e}"),
        }
        info.checks += n as u64 + 3;
        if c.decode {
            // record structure, as the independent reader sees it
            let data = std::fs::read(&p).map_err(|e| Fail::new(e.to_string()))?;
            let (f, k) = super::p_layout::check_layout(data, &want)?;
            info.checks += k;
            for (k, t) in f.keys.iter().zip(c.before.iter().map(Some).chain([None]).chain(c.after.iter().map(Some))) {
                if let Some(t) = t {
                    info.checks += super::p_layout::check_decoded(&f, k, t)?;
                }
            }
            info.label("decoded-independently");
            info.label(match f.recs.iter().find(|r| r.pos as u64 + r.nbytes as u64 >= c.mark) {
                Some(r) if r.pos as u64 <= c.mark => format!("mark-in:{}", r.class),
                Some(r) => format!("mark-before:{}", r.class),
                None => "mark-after-the-end".into(),
            });
        }
    }
    let _ = std::fs::remove_file(&p);
    info.nontrivial = len > 2_000_000_000;
    info.label(match c.mark { 2_000_000_000 => "2e9", 2_147_483_648 => "2^31", 4_294_967_296 => "2^32", _ => "other-mark" });
    info.label(format!("end-{}", if len > c.mark { "beyond" } else { "at-or-before" }));
    info.label(if n > 32_767 { "more-than-2^15-buffers" } else { "few-buffers" });
    info.label_if(!c.before.is_empty(), "trees-before");
    info.label_if(!c.after.is_empty(), "trees-after");
    Ok(info)
}

fn side_tree(i: usize) -> impl Strategy<Value = TreeSpec> {
    prop::collection::vec(any_ty().prop_flat_map(|ty| col_of(Just(ty), 3000)), 1..4).prop_map(move |mut cols| {
        for (k, c) in cols.iter_mut().enumerate() {
            c.name = format!("c{k}");
        }
        TreeSpec { name: format!("t{i}"), cols }
    })
}

fn gen_across(t: Tier) -> BoxedStrategy<Across> {
    let marks = if t == Tier::Quick { vec![2_000_000_000u64, 1 << 31] } else { vec![2_000_000_000, 1 << 31, 1 << 31, 1 << 32] };
    (
        prop::sample::select(marks),
        prop_oneof![2 => 0u64..400, 3 => 0u64..6000, 3 => 0u64..60_000, 1 => 0u64..1_000_000],
        60u32..90,
        prop::collection::vec(any_ty().prop_flat_map(|ty| col_of(Just(ty), 60_000)), 0..4),
        prop::collection::vec(side_tree(0), 0..2),
        (prop::collection::vec(side_tree(1), 0..2), any::<u64>()),
    )
        .prop_map(|(mark, back, bulk, mut cols, before, (after, seed))| {
            for (k, c) in cols.iter_mut().enumerate() {
                c.name = format!("c{k}");
            }
            Across { mark, back, bulk, cols, before, after, seed: seed % 1000, decode: mark < 1 << 32 }
        })
        .boxed()
}

fn fixed_across(t: Tier) -> Vec<Across> {
    let side = |n: &str| TreeSpec {
        name: n.into(),
        cols: vec![
            Col { name: "a".into(), ty: Ty::S(P::I32), runs: vec![Run { n: 9000, sz: 1 }], pat: Pat::Ramp, seed: 1 },
            Col { name: "b".into(), ty: Ty::V(P::F64), runs: vec![Run { n: 30, sz: 300 }], pat: Pat::Rand, seed: 2 },
            Col { name: "s".into(), ty: Ty::Str, runs: vec![Run { n: 300, sz: 200 }], pat: Pat::Rand, seed: 3 },
        ],
    };
    let base = Across { mark: 1 << 31, back: 70_000, bulk: 70, cols: vec![], before: vec![side("first")], after: vec![side("last")], seed: 1, decode: true };
    let mut v = vec![base.clone(), Across { bulk: 33_500, ..base.clone() }];
    // the mark inside the records written by closing the file
    v.push(Across { mark: 2_000_000_000, back: 30, after: vec![], ..base.clone() });
    if t == Tier::Thorough {
        for back in [0, 1, 40, 80, 100, 150, 300, 5000, 20_000] {
            v.push(Across { mark: 2_000_000_000, back, after: vec![], ..base.clone() });
        }
        v.push(Across { bulk: 66_500, mark: 1 << 32, ..base });
    }
    v
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C21",
        assumptions: &[
            "Large files are sparse: an independent ROOT writer in the harness places records beyond the mark and declares the hole free, as ROOT does with deleted records.",
                "Few files are really written across the mark (some 2 GB each); which record the mark falls into is varied.",
        ],
        subs: vec![Box::new(Sub::<Across> {
            name: "across",
            rule: "files really written beyond 2 GB: a bulk column sized so that the position 2e9, 2^31 or 2^32 falls on a chosen byte of the last records, other columns in lock step with it, other trees before and after; read back, and decoded by the independent reader; non-trivial when the file ends beyond 2e9; distinct by serialised case",
            quick: 2,
            thorough: 36,
            fixed: fixed_across,
            gen: gen_across,
            run: run_across,
            shards: 3,
        }), Box::new(Sub::<Far> {
            name: "far",
            rule: "one or two trees of every column kind in a sparse file, with any subset of columns, tree records, key list and descriptions placed at or across 2e9, 2^31, 2^32 or further, wide fields where needed or everywhere; non-trivial when the file ends beyond 2^31; distinct by serialised case",
            quick: 4000,
            thorough: 60000,
            fixed: fixed_far,
            gen: gen_far,
            run: run_far,
            shards: SHARDS,
        })],
    }]
}
