//! C01-C05: what the library writes it reads back.
use super::common::*;
use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use oxyroot::{RootFile, StateCallBack, WriterTree};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn mode() -> impl Strategy<Value = Mode> {
    prop_oneof![3 => Just(Mode::Checked), 1 => Just(Mode::Unchecked), 1 => Just(Mode::Buffer)]
}

// ------------------------------------------------------------------ C01, C02

#[derive(Serialize, Deserialize, Clone, Debug)]
struct OneCol {
    col: Col,
    mode: Mode,
}

fn run_one_col(c: &OneCol, env: &Env) -> Res {
    let mut info = Info::default();
    let path = env.path();
    let t = TreeSpec { name: "t".into(), cols: vec![c.col.clone()] };
    write_file(&path, std::slice::from_ref(&t))?;
    let mut f = open(&path)?;
    let tree = get_tree(&mut f, "t")?;
    info.checks += check_tree(&tree, &t, c.mode)?;
    let n = c.col.len();
    let nb = c.col.approx_baskets();
    info.nontrivial = n > 0 && c.col.pat != Pat::Zero;
    info.label(format!("type:{}", c.col.ty.short()));
    info.label(match n {
        0 => "entries:0",
        1 => "entries:1",
        2..=99 => "entries:2-99",
        100..=999 => "entries:100-999",
        _ => "entries:1000+",
    });
    info.label(match nb {
        1 => "buffers:1",
        2 => "buffers:2",
        3..=10 => "buffers:3-10",
        _ => "buffers:11+",
    });
    info.label(format!("values:{:?}", c.col.pat));
    if c.col.ty.fixed().is_none() {
        let szs: Vec<usize> = c.col.runs.iter().map(|r| r.sz as usize).collect();
        info.label_if(szs.iter().any(|&s| s == 0), "has-empty-entry");
        info.label_if(szs.iter().any(|&s| c.col.ty.stored(s) >= 32768), "has-oversized-entry");
        info.label_if(c.col.ty == Ty::Str && szs.iter().any(|&s| (253..=256).contains(&s)), "string-len-escape");
        info.label_if(szs.iter().any(|&s| s > 1000) && n > 1000, "large-and-many-small");
        info.label_if(szs.iter().collect::<std::collections::HashSet<_>>().len() > 1, "mixed-sizes");
    }
    Ok(info)
}

fn fixed_c01(_: Tier) -> Vec<OneCol> {
    let mut v = vec![];
    let mut push = |ty: Ty, n: usize, pat: Pat| {
        v.push(OneCol { col: Col { name: "c".into(), ty, runs: vec![Run { n: n as u32, sz: 0 }], pat, seed: 7 }, mode: Mode::Checked })
    };
    for p in PRIMS {
        for n in [0, 1, 2, 1001] {
            push(Ty::S(p), n, Pat::Special);
        }
        let per = 32768 / p.size();
        for n in [per - 2, per - 1, per, per + 1, 2 * per - 2, 2 * per - 1, 2 * per] {
            push(Ty::S(p), n, Pat::Rand);
        }
        for n in SMALL_N {
            push(Ty::A(p, n), 37, Pat::Special);
            push(Ty::A(p, n), 1 + 40_000 / (n as usize * p.size()), Pat::Ramp);
        }
    }
    for p in BIG_P {
        for n in BIG_N {
            push(Ty::A(p, n), 13, Pat::Rand);
            push(Ty::A(p, n), 0, Pat::Rand);
        }
    }
    // more buffers than a byte can count
    push(Ty::A(P::U8, 9000), 3 * 258 + 1, Pat::Rand);
    push(Ty::A(P::F64, 9000), 257, Pat::Ramp);
    v
}

fn fixed_c02(_: Tier) -> Vec<OneCol> {
    let mut v = vec![];
    let mut push = |ty: Ty, runs: &[(u32, u32)], pat: Pat| {
        v.push(OneCol {
            col: Col { name: "c".into(), ty, runs: runs.iter().map(|&(n, sz)| Run { n, sz }).collect(), pat, seed: 3 },
            mode: Mode::Checked,
        })
    };
    let mut tys = vec![Ty::Str];
    tys.extend(NUMS.iter().map(|&p| Ty::V(p)));
    for &ty in &tys {
        for runs in [
            &[][..],
            &[(1, 0)],
            &[(1, 1)],
            &[(3, 0)],
            &[(1, 0), (1, 5), (1, 0)],
            &[(1, 253), (1, 254), (1, 255), (1, 256)],
            &[(1, 1200), (1100, 1)],
            &[(998, 1), (4, 2)],
            &[(1005, 0)],
            &[(2005, 0), (2, 3000)],
            &[(1, 40000), (2, 1)],
            &[(2, 1), (1, 40000), (2, 1)],
            &[(3, 40000)],
            &[(4100, 2)],
        ] {
            push(ty, runs, Pat::Special);
        }
    }
    // entries whose byte count needs its upper bits
    push(Ty::V(P::U8), &[(1, (1 << 24) - 10), (1, 1), (1, 1 << 24), (1, 2)], Pat::Rand);
    push(Ty::V(P::F64), &[(1, 3), (1, 2_200_000), (1, 0)], Pat::Ramp);
    push(Ty::Str, &[(1, (1 << 24) + 5), (2, 300)], Pat::Rand);
    // more buffers than a byte can count
    push(Ty::Str, &[(260, 32770)], Pat::Ramp);
    push(Ty::V(P::I32), &[(258, 8200), (3, 1)], Pat::Rand);
    for k in 32755..32775 {
        push(Ty::Str, &[(1, k - 5), (2, 3)], Pat::Ramp);
    }
    for k in 16370..16385 {
        push(Ty::Str, &[(4, k - 5)], Pat::Ramp);
    }
    v
}

// ------------------------------------------------------------------ C03

#[derive(Serialize, Deserialize, Clone, Debug)]
struct ManyCols {
    tree: TreeSpec,
    /// reading order: keys by which the columns are sorted
    order: Vec<u16>,
    mode: Mode,
}

fn run_many_cols(c: &ManyCols, env: &Env) -> Res {
    let mut info = Info::default();
    let path = env.path();
    write_file(&path, std::slice::from_ref(&c.tree))?;
    let mut f = open(&path)?;
    let tree = get_tree(&mut f, &c.tree.name)?;
    info.checks += check_tree(&tree, &c.tree, c.mode)?;
    // again in another order, through the listed branches
    let mut idx: Vec<usize> = (0..c.tree.cols.len()).collect();
    idx.sort_by_key(|&i| c.order.get(i).copied().unwrap_or(0));
    let listed: Vec<_> = tree.branches().collect();
    for i in idx {
        let col = &c.tree.cols[i];
        let want = col.entries();
        let got = read_bytes(listed[i], col.ty, Mode::Checked, want.len() + 3)?;
        diff(&format!("column {:?} read in another order", col.name), &want, &got)?;
        info.checks += want.len() as u64 + 1;
    }
    let lens: Vec<usize> = c.tree.cols.iter().map(|c| c.len()).collect();
    let distinct: std::collections::HashSet<_> = lens.iter().collect();
    info.nontrivial = c.tree.cols.len() >= 2 && lens.iter().any(|&l| l > 0);
    info.label(format!("columns:{}", match lens.len() { 0 => "0", 1 => "1", 2..=4 => "2-4", 5..=12 => "5-12", _ => "13+" }));
    info.label_if(distinct.len() > 1, "different-lengths");
    info.label_if(lens.iter().any(|&l| l == 0) && lens.iter().any(|&l| l > 0), "an-empty-column");
    info.label_if(c.tree.cols.iter().any(|c| c.approx_baskets() > 1), "several-buffers");
    let kinds: std::collections::HashSet<_> = c.tree.cols.iter().map(|c| c.ty).collect();
    info.label_if(kinds.len() < c.tree.cols.len(), "repeated-type");
    let vk: Vec<_> = c.tree.cols.iter().filter(|c| matches!(c.ty, Ty::V(_))).map(|c| c.ty).collect();
    info.label_if(vk.len() >= 2, "two-vector-columns");
    Ok(info)
}

/// A name that differs very little from another one.
pub fn near_name(of: &str, k: u8) -> Option<String> {
    let flip = |c: char| if c.is_uppercase() { c.to_lowercase().to_string() } else { c.to_uppercase().to_string() };
    Some(match k {
        0 => format!("{of}."),
        1 => format!("{of}_"),
        2 => format!("{of} "),
        3 => format!(".{of}"),
        4 => format!("{of}0"),
        5 => of.chars().take(1).map(flip).chain(of.chars().skip(1).map(|c| c.to_string())).collect(),
        6 => of.chars().rev().collect(),
        7 if of.chars().count() > 1 => of.chars().skip(1).collect(),
        8 if of.chars().count() > 1 => of.chars().take(of.chars().count() - 1).collect(),
        9 => format!("{of}.{of}"),
        // no brackets: they denote array dimensions in names and titles
        10 => format!("{of}:"),
        11 => format!("a{of}"),
        _ => return None,
    })
}

/// Columns of one tree with distinct names.
pub fn cols(max: usize, budget: usize) -> BoxedStrategy<Vec<Col>> {
    let ncols = prop_oneof![1 => 0usize..=1, 6 => 2usize..=5.min(max), 2 => 2usize..=max];
    ncols
        .prop_flat_map(move |n| prop::collection::vec((name(), col_of(any_ty(), budget / n.max(1)), any::<bool>(), 0u8..40), n))
        .prop_map(|v| {
            let mut used = std::collections::HashSet::new();
            let mut out: Vec<Col> = vec![];
            let common = v.first().map(|x| x.1.len()).unwrap_or(0);
            for (i, (name, mut col, same, near)) in v.into_iter().enumerate() {
                let mut name = match out.last() {
                    Some(c) => near_name(&c.name, near).unwrap_or(name),
                    None => name,
                };
                while !used.insert(name.clone()) {
                    name = format!("{name}{i}");
                }
                col.name = name;
                // often all columns have the same length, as in ordinary trees
                if same && col.ty.fixed().is_some() {
                    col.runs = vec![Run { n: (common as u32).min(20_000), sz: 0 }];
                }
                out.push(col);
            }
            out
        })
        .boxed()
}

pub fn tree_spec(max: usize, budget: usize) -> BoxedStrategy<TreeSpec> {
    (tree_name(), cols(max, budget)).prop_map(|(name, cols)| TreeSpec { name, cols }).boxed()
}

/// Tree names without a slash and without the cycle separator.
pub fn tree_name() -> impl Strategy<Value = String> {
    prop_oneof![
        5 => "[a-zA-Z_][a-zA-Z0-9_]{0,10}",
        1 => "[a-zA-Z0-9 .:;,+*\\-()\\[\\]<>=!?#@]{1,20}",
        1 => "[a-z]{250,260}",
        1 => "[a-zé€𝄞]{1,8}",
    ]
}

fn fixed_c03(_: Tier) -> Vec<ManyCols> {
    let mut v = vec![];
    // no column, one empty column, all types together with equal and with different lengths
    let one = |cols: Vec<Col>| ManyCols { order: (0..cols.len()).rev().map(|i| i as u16).collect(), tree: TreeSpec { name: "t".into(), cols }, mode: Mode::Checked };
    v.push(one(vec![]));
    let mk = |i: usize, ty: Ty, n: u32, sz: u32| Col { name: format!("c{i}"), ty, runs: vec![Run { n, sz }], pat: Pat::Special, seed: i as u64 };
    v.push(one(vec![mk(0, Ty::S(P::I32), 0, 0), mk(1, Ty::Str, 0, 0)]));
    let mut tys: Vec<Ty> = PRIMS.iter().map(|&p| Ty::S(p)).collect();
    tys.extend(PRIMS.iter().map(|&p| Ty::A(p, 3)));
    tys.push(Ty::Str);
    tys.extend(NUMS.iter().map(|&p| Ty::V(p)));
    tys.push(Ty::Str);
    tys.push(Ty::V(P::I32));
    v.push(one(tys.iter().enumerate().map(|(i, &t)| mk(i, t, 50, 3)).collect()));
    v.push(one(tys.iter().enumerate().map(|(i, &t)| mk(i, t, (i as u32 * 37) % 101, (i % 7) as u32)).collect()));
    v.push(one(tys.iter().rev().enumerate().map(|(i, &t)| mk(i, t, 3000, (i % 9) as u32)).collect()));
    // many columns of one type
    v.push(one((0..60).map(|i| mk(i, Ty::V(P::F64), 20, (i % 4) as u32)).collect()));
    v.push(one((0..60).map(|i| mk(i, Ty::S(P::U16), i as u32, 0)).collect()));
    // more columns than a byte can count
    v.push(one((0..300).map(|i| mk(i, tys[i % tys.len()], 4 + (i as u32 % 3), 2)).collect()));
    v.push(one((0..600).map(|i| mk(i, Ty::S(P::I32), 1 + (i as u32 % 2), 0)).collect()));
    v
}

// ------------------------------------------------------------------ C04

#[derive(Serialize, Deserialize, Clone, Debug)]
struct ManyTrees {
    names: Vec<String>,
    /// (index into names, columns, name contains a slash)
    ops: Vec<(u16, Vec<Col>, bool)>,
    /// which of the trees (over and over) are asked to be written once more straight away
    #[serde(default)]
    twice: Vec<bool>,
}

fn run_many_trees(c: &ManyTrees, env: &Env) -> Res {
    let mut info = Info::default();
    let path = env.path();
    let mut order: Vec<String> = vec![];
    let mut last: HashMap<String, TreeSpec> = HashMap::new();
    let mut refused = 0;
    let mut replaced = 0;
    let mut twice = 0;
    {
        let mut f = RootFile::create(&path).map_err(|e| Fail::new(format!("create: {e}")))?;
        for (k, (i, cols, slash)) in c.ops.iter().enumerate() {
            let base = &c.names[*i as usize % c.names.len()];
            let name = if *slash { format!("{base}/x") } else { base.clone() };
            let t = TreeSpec { name: name.clone(), cols: cols.clone() };
            let mut w = build_tree(&t);
            let r = guard(|| w.write(&mut f)).map_err(|p| Fail::new(format!("writing tree {name:?} panicked: {p}")))?;
            if c.twice.get(k % c.twice.len().max(1)) == Some(&true) {
                // its columns have been used up, there is nothing left to write
                let r = guard(|| w.write(&mut f)).map_err(|p| Fail::new(format!("writing tree {name:?} a second time panicked: {p}")))?;
                ensure!(r.is_err(), "writing tree {name:?} a second time was accepted");
                twice += 1;
            }
            match (r, *slash) {
                (Ok(()), false) => {
                    if last.insert(name.clone(), t).is_some() {
                        replaced += 1;
                    } else {
                        order.push(name);
                    }
                }
                (Err(_), true) => refused += 1,
                (Ok(()), true) => bail!("a tree named {name:?} was accepted"),
                (Err(e), false) => bail!("writing tree {name:?} failed: {e}"),
            }
        }
        guard(|| f.close()).map_err(Fail::new)?.map_err(|e| Fail::new(format!("close: {e}")))?;
    }
    let mut f = open(&path)?;
    let mut listed: Vec<String> = vec![];
    for n in f.keys_name() {
        if !listed.iter().any(|x| x == n) {
            listed.push(n.to_string());
        }
    }
    ensure!(listed == order, "file lists {listed:?}, trees written were {order:?}");
    info.checks += 1;
    for n in order.iter().rev().chain(order.iter()) {
        let t = get_tree(&mut f, n)?;
        info.checks += check_tree(&t, &last[n], Mode::Checked)?;
    }
    info.nontrivial = order.len() + replaced >= 2;
    info.label_if(replaced > 0, "replaced-tree");
    info.label_if(replaced > 1, "replaced-twice");
    info.label_if(refused > 0, "refused-name");
    info.label_if(twice > 0, "written-twice");
    info.label_if(order.len() > 1, "several-names");
    info.label_if(c.ops.is_empty(), "no-tree");
    Ok(info)
}

fn gen_many_trees(t: Tier) -> BoxedStrategy<ManyTrees> {
    let max = if t == Tier::Quick { 7 } else { 14 };
    (
        (prop::collection::vec(tree_name(), 1..5), prop::collection::vec((any::<u8>(), 0u8..40), 0..3)).prop_map(|(mut v, near)| {
            for (i, k) in near {
                v.extend(near_name(&v[i as usize % v.len()], k));
            }
            v
        }),
        prop::collection::vec((any::<u8>(), cols(4, 30_000), prop::bool::weighted(0.1)), 0..=max),
        prop::collection::vec(prop::bool::weighted(0.2), 0..4),
    )
        .prop_map(|(mut names, ops, twice)| {
            names.sort();
            names.dedup();
            // order of first use matters, not the pool's order
            let n = names.len();
            names.rotate_left(ops.len() % n);
            ManyTrees { names, ops: ops.into_iter().map(|(i, c, s)| (i as u16 % n as u16, c, s)).collect(), twice }
        })
        .boxed()
}

fn fixed_c04(_: Tier) -> Vec<ManyTrees> {
    let col = |seed: u64| vec![Col { name: "x".into(), ty: Ty::S(P::I32), runs: vec![Run { n: 5 + seed as u32, sz: 0 }], pat: Pat::Rand, seed }];
    let h = |names: &[&str], ops: &[(u16, bool)]| ManyTrees {
        names: names.iter().map(|s| s.to_string()).collect(),
        ops: ops.iter().enumerate().map(|(k, &(i, s))| (i, col(k as u64), s)).collect(),
        twice: vec![],
    };
    let many: Vec<String> = (0..300).map(|i| format!("t{i}")).collect();
    vec![
        h(&["a"], &[]),
        h(&["a"], &[(0, false), (0, false), (0, false)]),
        h(&["b", "a"], &[(0, false), (1, false), (0, false), (1, false), (0, true), (1, false)]),
        h(&["t", "tt", "ttt"], &[(2, false), (1, false), (0, false), (1, false)]),
        h(&["t"], &vec![(0, false); 40]),
        h(&["a", "b", "c", "d"], &(0..32).map(|i| (i % 4, false)).collect::<Vec<_>>()),
        // more than a byte can count
        h(&["t"], &vec![(0, false); 300]),
        h(&many.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &(0..310).map(|i| (i % 300, false)).collect::<Vec<_>>()),
    ]
}

// ------------------------------------------------------------------ C05

#[derive(Serialize, Deserialize, Clone, Debug)]
struct LockStep {
    cols: Vec<Col>,
    callbacks: u8,
    /// feed the first column's items through the callback instead of its own source
    fed: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Before(u8),
    Branch(u8, String),
    Pull(usize, usize),
}

fn run_lock_step(c: &LockStep, env: &Env) -> Res {
    let mut info = Info::default();
    let log: Rc<RefCell<Vec<Ev>>> = Rc::new(RefCell::new(vec![]));
    let path = env.path();
    let fed_src: Rc<RefCell<Vec<Vec<u8>>>> = Rc::new(RefCell::new(vec![]));
    let mut f = RootFile::create(&path).map_err(|e| Fail::new(format!("create: {e}")))?;
    let mut tree = WriterTree::new("t");
    for (i, col) in c.cols.iter().enumerate() {
        let log = log.clone();
        let len = col.len();
        add_branch_with(&mut tree, &col.name, col.ty, col.entries(), Box::new(move |k| {
            if k < len {
                log.borrow_mut().push(Ev::Pull(i, k));
            }
        }));
    }
    // a column whose next item is produced by the callback announcing it
    let fed_name = "fed_by_callback".to_string();
    let n_fed = c.cols.iter().map(|c| c.len()).max().unwrap_or(0);
    if c.fed {
        let src = fed_src.clone();
        tree.new_branch(&fed_name, std::iter::from_fn(move || src.borrow_mut().pop().map(|b| i64::de(&b))));
    }
    for cb in 0..c.callbacks {
        let log = log.clone();
        let src = fed_src.clone();
        let fed = c.fed && cb == 0;
        let fed_name = fed_name.clone();
        let mut fed_k = 0u64;
        tree.add_callback(Box::new(move |s: StateCallBack| match s {
            StateCallBack::Before => log.borrow_mut().push(Ev::Before(cb)),
            StateCallBack::Branch(n) => {
                if fed && n == fed_name && (fed_k as usize) < n_fed {
                    src.borrow_mut().push((fed_k * 3).to_be_bytes().to_vec());
                    fed_k += 1;
                }
                log.borrow_mut().push(Ev::Branch(cb, n));
            }
            StateCallBack::After => {}
        }));
    }
    guard(|| tree.write(&mut f)).map_err(|p| Fail::new(format!("write panicked: {p}")))?.map_err(|e| Fail::new(format!("write: {e}")))?;
    guard(|| f.close()).map_err(Fail::new)?.map_err(|e| Fail::new(format!("close: {e}")))?;
    // the model
    let mut want = vec![];
    let rounds = n_fed + 1;
    let mut names: Vec<(String, usize)> = c.cols.iter().map(|c| (c.name.clone(), c.len())).collect();
    if c.fed {
        names.push((fed_name.clone(), 0));
    }
    for r in 0..rounds {
        for cb in 0..c.callbacks {
            want.push(Ev::Before(cb));
        }
        for (i, (n, len)) in names.iter().enumerate() {
            for cb in 0..c.callbacks {
                want.push(Ev::Branch(cb, n.clone()));
            }
            if r < *len {
                want.push(Ev::Pull(i, r));
            }
        }
    }
    let got = log.borrow();
    for (k, (w, g)) in want.iter().zip(got.iter()).enumerate() {
        ensure!(w == g, "event {k}: expected {w:?}, observed {g:?}");
    }
    ensure!(want.len() == got.len(), "{} events expected, {} observed (next expected {:?}, next observed {:?})", want.len(), got.len(), want.get(got.len()), got.get(want.len()));
    info.checks += want.len() as u64;
    // nothing that was produced is lost
    let mut f = open(&path)?;
    let t = get_tree(&mut f, "t")?;
    for col in &c.cols {
        info.checks += check_col(&t, col, Mode::Checked)?;
    }
    if c.fed && c.callbacks > 0 {
        let want: Vec<Vec<u8>> = (0..n_fed as u64).map(|k| (k * 3).to_be_bytes().to_vec()).collect();
        info.checks += check_col_ents(&t, &fed_name, Ty::S(P::I64), &want, Mode::Checked)?;
    }
    let lens: Vec<usize> = c.cols.iter().map(|c| c.len()).collect();
    info.nontrivial = c.cols.len() >= 2 && n_fed > 0;
    info.label(format!("callbacks:{}", c.callbacks));
    info.label_if(lens.iter().any(|l| *l != n_fed), "different-lengths");
    info.label_if(c.fed && c.callbacks > 0, "column-fed-by-callback");
    info.label_if(c.cols.iter().any(|c| c.approx_baskets() > 1), "several-buffers");
    Ok(info)
}

/// More columns, rounds or callbacks than a byte (or two) can count.
fn fixed_lock_step(_: Tier) -> Vec<LockStep> {
    let col = |i: usize, n: u32| Col { name: format!("c{i}"), ty: [Ty::S(P::I32), Ty::Str, Ty::V(P::U8)][i % 3], runs: vec![Run { n, sz: 1 }], pat: Pat::Rand, seed: i as u64 };
    let mut v = vec![];
    for fed in [false, true] {
        v.push(LockStep { cols: (0..300).map(|i| col(i, 2 + i as u32 % 2)).collect(), callbacks: 2, fed });
        v.push(LockStep { cols: vec![col(0, 70_000), col(1, 66_000), col(3, 3)], callbacks: 1, fed });
        v.push(LockStep { cols: vec![col(0, 3), col(1, 2)], callbacks: 200, fed });
        v.push(LockStep { cols: vec![], callbacks: 2, fed });
    }
    v
}

fn gen_lock_step(_: Tier) -> BoxedStrategy<LockStep> {
    (cols(6, 120_000), 0u8..=3, any::<bool>()).prop_map(|(cols, callbacks, fed)| LockStep { cols, callbacks, fed }).boxed()
}

pub fn properties() -> Vec<Property> {
    const TB: &[&str] = &["the values handed to the library are produced by the harness' own big-endian encoder", "x86-64 passes NaN payloads through floating-point registers unchanged"];
    vec![
        Property {
            id: "C01",
            assumptions: TB,
            subs: vec![Box::new(Sub::<OneCol> {
                name: "fixed",
                rule: "one column of any primitive or fixed-array type; entry counts small, uniform and around the flush points of the 32 KiB buffers, up to 14 buffers; values zero/ff/ramp/random/special bit patterns. Non-trivial: at least one entry and values not all zero.",
                quick: 12000,
                thorough: 100000,
                fixed: fixed_c01,
                gen: |t| (col_of(fixed_ty(), if t == Tier::Quick { 450_000 } else { 1_500_000 }), mode()).prop_map(|(col, mode)| OneCol { col, mode }).boxed(),
                run: run_one_col,
                shards: 8,
            })],
        },
        Property {
            id: "C02",
            assumptions: TB,
            subs: vec![Box::new(Sub::<OneCol> {
                name: "variable",
                rule: "one string or vector column given as runs of (count, entry size): sizes 0, small, around 254/255, around 16 and 32 KiB, larger than a buffer; counts 1 to 4000 (offset-table growth at 1000). Non-trivial: at least one entry and values not all zero.",
                quick: 15000,
                thorough: 120000,
                fixed: fixed_c02,
                gen: |t| (col_of(var_ty(), if t == Tier::Quick { 300_000 } else { 1_500_000 }), mode()).prop_map(|(col, mode)| OneCol { col, mode }).boxed(),
                run: run_one_col,
                shards: 8,
            })],
        },
        Property {
            id: "C03",
            assumptions: TB,
            subs: vec![Box::new(Sub::<ManyCols> {
                name: "columns",
                rule: "trees of 0 to 14 columns (24 thorough) of independent types, names, lengths and contents, read in two orders. Non-trivial: two or more columns, one of them non-empty.",
                quick: 1500,
                thorough: 15000,
                fixed: fixed_c03,
                gen: |t| {
                    let (m, b) = if t == Tier::Quick { (14, 200_000) } else { (24, 800_000) };
                    (tree_spec(m, b), prop::collection::vec(any::<u16>(), 0..14), mode()).prop_map(|(tree, order, mode)| ManyCols { tree, order, mode }).boxed()
                },
                run: run_many_cols,
                shards: 8,
            })],
        },
        Property {
            id: "C04",
            assumptions: &["tree names are not empty"],
            subs: vec![Box::new(Sub::<ManyTrees> {
                name: "history",
                rule: "histories of up to 7 (14) tree writes over a pool of up to 4 names with repeats, some refused (slash in the name), against a map model. Non-trivial: at least two accepted writes.",
                quick: 2500,
                thorough: 15000,
                fixed: fixed_c04,
                gen: gen_many_trees,
                run: run_many_trees,
                shards: 8,
            })],
        },
        Property {
            id: "C05",
            assumptions: &["column sources stay ended once they have ended"],
            subs: vec![Box::new(Sub::<LockStep> {
                name: "events",
                rule: "trees of 0-6 columns with any lengths, 0-3 callbacks, optionally a column fed by a callback; every pull and callback is logged and compared with the lock-step model, then contents are read back. Non-trivial: two or more columns with entries.",
                quick: 2500,
                thorough: 15000,
                fixed: fixed_lock_step,
                gen: gen_lock_step,
                run: run_lock_step,
                shards: 8,
            })],
        },
    ]
}
