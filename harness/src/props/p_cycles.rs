//! C25: several versions of a name.
use super::common::*;
use super::foreign::*;
use super::p_write::{cols, near_name, tree_name};
use crate::engine::*;
use crate::model::*;
use crate::refroot::write;
use crate::{bail, ensure};
use oxyroot::RootFile;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// What is asked of a file; numbers choose among what there is.
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Ask {
    /// the newest version of a name
    Newest(u8),
    /// the same, said with the number that means any version
    Any(u8),
    /// one version, its number preceded by this many zeros
    Version(u8, u8),
    /// a number of which the name has no version
    NoVersion(u8, u16),
    /// something that is no number
    NoNumber(u8, String),
    /// a name there is no version of
    NoName(u8, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Foreign {
    names: Vec<String>,
    /// name, cycle and content; in the order of their keys
    versions: Vec<(u8, u16, FTree)>,
    /// trees whose keys have a name that is not the tree's own
    renamed: bool,
    /// a list under the first name, as cycle 1
    list: bool,
    asks: Vec<Ask>,
    seed: u64,
    tree_place: u8,
    big: bool,
    mode: Mode,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Written {
    names: Vec<String>,
    writes: Vec<(u8, Vec<Col>)>,
    asks: Vec<Ask>,
}

/// The versions of a file: name, cycle and the index of the content, if that is a tree's.
struct Stock<'a> {
    names: &'a [String],
    versions: Vec<(String, u16, Option<usize>)>,
}

impl Stock<'_> {
    fn name(&self, k: u8) -> &str {
        &self.names[k as usize % self.names.len()]
    }
    fn newest(&self, name: &str) -> Option<usize> {
        self.versions.iter().filter(|v| v.0 == name).max_by_key(|v| v.1).and_then(|v| v.2)
    }
    fn version(&self, name: &str, cycle: u16) -> Option<usize> {
        self.versions.iter().find(|v| v.0 == name && v.1 == cycle).and_then(|v| v.2)
    }
    fn listed(&self, name: &str) -> bool {
        self.versions.iter().any(|v| v.0 == name)
    }
    fn question(&self, a: &Ask) -> Option<String> {
        Some(match a {
            Ask::Newest(k) => self.name(*k).to_string(),
            Ask::Any(k) => format!("{};9999", self.name(*k)),
            Ask::Version(k, z) => {
                let v = &self.versions.get(*k as usize % self.versions.len().max(1))?;
                format!("{};{}{}", v.0, "0".repeat(*z as usize % 4), v.1)
            }
            Ask::NoVersion(k, c) => format!("{};{}", self.name(*k), 1 + c % 32767),
            Ask::NoNumber(k, s) => format!("{};{s}", self.name(*k)),
            Ask::NoName(k, s) => near_name(self.name(*k), *s)?,
        })
    }
    /// The tree that answers a question; None where the question's meaning is open.
    fn answer(&self, q: &str) -> Option<Option<usize>> {
        // a key of that very name, whatever the name says
        if self.listed(q) {
            return Some(self.newest(q));
        }
        let parts: Vec<&str> = q.split(';').collect();
        match parts[..] {
            [_] => Some(None),
            [name, cycle] => {
                if cycle.is_empty() || cycle.starts_with(['*', '+', ' ']) || cycle.ends_with(' ') {
                    return None;
                }
                if !cycle.bytes().all(|b| b.is_ascii_digit()) {
                    return Some(None);
                }
                match cycle.trim_start_matches('0') {
                    "" => None,
                    "9999" => Some(self.newest(name)),
                    c => Some(c.parse::<u16>().ok().and_then(|c| self.version(name, c))),
                }
            }
            _ => None,
        }
    }
}

fn ask(f: &mut RootFile, stock: &Stock, a: &Ask, info: &mut Info, check: &mut dyn FnMut(&oxyroot::ReaderTree, usize) -> Result<u64, Fail>) -> Result<(), Fail> {
    let asked = stock.question(a).and_then(|q| stock.answer(&q).map(|w| (q, w)));
    let Some((q, want)) = asked else {
        info.label("unasked");
        return Ok(());
    };
    let r = guard(|| f.get_tree(&q).map_err(|e| e.to_string())).map_err(|p| Fail::new(format!("get_tree({q:?}) panicked: {p}")))?;
    info.checks += 1;
    match (r, want) {
        (Ok(t), Some(i)) => {
            info.checks += check(&t, i).map_err(|e| Fail::new(format!("asked for {q:?}: {}", e.msg)))?;
            info.label(match a {
                Ask::Newest(_) => "asked:newest",
                Ask::Any(_) => "asked:any",
                _ => "asked:version",
            });
        }
        (Err(_), None) => info.label("asked:missing"),
        (Ok(_), None) => bail!("get_tree({q:?}) answered with a tree; stored: {:?}", stock.versions),
        (Err(e), Some(_)) => bail!("get_tree({q:?}) failed: {e}; stored: {:?}", stock.versions),
    }
    Ok(())
}

fn listed(f: &RootFile, want: &[String], ordered: bool) -> Result<(), Fail> {
    let mut got: Vec<String> = f.keys_name().map(|s| s.to_string()).collect();
    let mut want = want.to_vec();
    if !ordered {
        got.sort();
        want.sort();
    }
    ensure!(got == want, "keys listed {got:?}, stored {want:?}");
    Ok(())
}

fn several(stock: &Stock) -> bool {
    stock.versions.iter().enumerate().any(|(i, v)| stock.versions[..i].iter().any(|w| w.0 == v.0))
}

fn run_foreign(c: &Foreign, env: &Env) -> Res {
    let mut info = Info::default();
    let mut file = FFile { trees: vec![], seed: c.seed, tree_place: c.tree_place, info_store: (crate::refroot::comp::Algo::None, 0), big: c.big, far_at: 0, far_keys: false, far_infos: false };
    let mut stock = Stock { names: &c.names, versions: vec![] };
    let mut cycles = vec![];
    let list = c.list && !c.names.is_empty();
    for (k, cy, t) in &c.versions {
        let name = stock.name(*k).to_string();
        let cy = 1 + (cy.max(&1) - 1) % 32767;
        // one version of a number; the number that means any is never given to one
        if cy == 9999 || stock.versions.iter().any(|v| v.0 == name && v.1 == cy) || list && cy == 1 {
            continue;
        }
        let i = file.trees.len();
        let mut t = t.clone();
        t.name = if c.renamed { format!("own{i}") } else { name.clone() };
        // one description serves all trees of a file
        if i > 0 {
            t.members.clear();
            t.groups.clear();
            t.objs.clear();
        }
        let mut mark = FCol::simple(&format!("version{i}"), K::S(P::I32));
        mark.seed = i as u64;
        t.cols.push(mark);
        file.trees.push(t);
        cycles.push((name.clone(), cy));
        stock.versions.push((name, cy, Some(i)));
    }
    let mut s = file_s(&file);
    for (t, (name, cy)) in s.trees.iter_mut().zip(&cycles) {
        t.cycle = *cy as i16;
        t.key = Some(name.clone());
    }
    if list {
        let n = stock.name(0).to_string();
        let pl = write::empty_list(&n);
        s.others.push(("TList".into(), n.clone(), "".into(), pl, (crate::refroot::comp::Algo::None, 0)));
        stock.versions.push((n, 1, None));
    }
    let p = env.path();
    write::build(&s).save(&p).expect("scratch file");
    let mut f = open(&p)?;
    listed(&f, &stock.versions.iter().map(|v| v.0.clone()).collect::<Vec<_>>(), !list)?;
    for a in &c.asks {
        ask(&mut f, &stock, a, &mut info, &mut |t, i| check_ftree(t, &file.trees[i], c.mode))?;
    }
    info.nontrivial = several(&stock);
    info.label_if(c.renamed && !file.trees.is_empty(), "own-name-differs");
    info.label_if(list, "list-of-the-name");
    info.label_if(stock.versions.iter().any(|v| v.1 > 255), "cycle>255");
    info.label_if(stock.versions.windows(2).any(|w| w[0].0 == w[1].0 && w[0].1 < w[1].1), "rising");
    info.label_if(stock.versions.windows(2).any(|w| w[0].0 == w[1].0 && w[0].1 > w[1].1), "falling");
    Ok(info)
}

fn run_written(c: &Written, env: &Env) -> Res {
    let mut info = Info::default();
    let path = env.path();
    let mut stock = Stock { names: &c.names, versions: vec![] };
    let mut specs: Vec<TreeSpec> = vec![];
    let mut f = RootFile::create(&path).map_err(|e| Fail::new(format!("create: {e}")))?;
    for (k, cols) in &c.writes {
        let name = stock.name(*k).to_string();
        let i = specs.len();
        let mut cols = cols.clone();
        cols.retain(|c| !c.name.starts_with("version"));
        cols.push(Col { name: format!("version{i}"), ty: Ty::S(P::I32), runs: vec![Run { n: 1, sz: 1 }], pat: Pat::Ramp, seed: i as u64 });
        let t = TreeSpec { name: name.clone(), cols };
        match guard(|| build_tree(&t).write(&mut f)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => bail!("writing tree {name:?} failed: {e}"),
            Err(p) => bail!("writing tree {name:?} panicked: {p}"),
        }
        let cy = 1 + stock.versions.iter().filter(|v| v.0 == name).count() as u16;
        stock.versions.push((name, cy, Some(i)));
        specs.push(t);
    }
    guard(|| f.close()).map_err(Fail::new)?.map_err(|e| Fail::new(format!("close: {e}")))?;
    let mut f = open(&path)?;
    listed(&f, &stock.versions.iter().map(|v| v.0.clone()).collect::<Vec<_>>(), false)?;
    for a in &c.asks {
        ask(&mut f, &stock, a, &mut info, &mut |t, i| check_tree(t, &specs[i], Mode::Checked))?;
    }
    info.nontrivial = several(&stock);
    info.label_if(stock.versions.iter().any(|v| v.1 > 2), "three-versions");
    info.label_if(stock.versions.iter().any(|v| v.1 > 255), "cycle>255");
    Ok(info)
}

fn names() -> impl Strategy<Value = Vec<String>> {
    (prop::collection::vec(tree_name(), 1..4), prop::collection::vec((any::<u8>(), 0u8..12), 0..2), prop::bool::weighted(0.2)).prop_map(|(mut v, near, sep)| {
        for (i, k) in near {
            v.extend(near_name(&v[i as usize % v.len()], k));
        }
        if sep {
            // the name of another with a number
            v.push(format!("{};2", v[0]));
        }
        let mut seen = vec![];
        v.retain(|n| {
            let new = !seen.contains(n);
            seen.push(n.clone());
            new
        });
        v
    })
}

fn asks() -> impl Strategy<Value = Vec<Ask>> {
    prop::collection::vec(
        prop_oneof![
            3 => any::<u8>().prop_map(Ask::Newest),
            1 => any::<u8>().prop_map(Ask::Any),
            5 => (any::<u8>(), prop_oneof![4 => Just(0u8), 1 => 0u8..4]).prop_map(|(k, z)| Ask::Version(k, z)),
            2 => (any::<u8>(), prop_oneof![0u16..8, any::<u16>()]).prop_map(|(k, c)| Ask::NoVersion(k, c)),
            1 => (any::<u8>(), prop::sample::select(vec!["x", "-1", "1x", "x1", "1.0", "65536", "99999999999", "1e1", "0x1"])).prop_map(|(k, s)| Ask::NoNumber(k, s.to_string())),
            1 => (any::<u8>(), 0u8..12).prop_map(|(k, s)| Ask::NoName(k, s)),
        ],
        1..12,
    )
}

fn gen_foreign(_: Tier) -> BoxedStrategy<Foreign> {
    let cycle = prop_oneof![4 => 1u16..5, 2 => 1u16..300, 1 => 32700u16..32768, 1 => 9990u16..10010, 1 => any::<u16>()];
    let tree = ftree(Opt { compress: false, max_n: 20, ncols: 1 });
    (
        names(),
        prop::collection::vec((any::<u8>(), cycle, tree), 0..7),
        (any::<bool>(), prop::bool::weighted(0.2), any::<u64>(), 0u8..3, prop::bool::weighted(0.2)),
        asks(),
        super::p_write::mode(),
    )
        .prop_map(|(names, versions, (renamed, list, seed, tree_place, big), asks, mode)| Foreign { names, versions, renamed, list, asks, seed: seed % 10_000, tree_place, big, mode })
        .boxed()
}

fn gen_written(t: Tier) -> BoxedStrategy<Written> {
    let max = if t == Tier::Quick { 8 } else { 20 };
    (names(), prop::collection::vec((any::<u8>(), cols(2, 3000)), 0..max), asks()).prop_map(|(names, writes, asks)| Written { names, writes, asks }).boxed()
}

fn every_ask(n: usize) -> Vec<Ask> {
    let mut v: Vec<Ask> = (0..n).map(|i| Ask::Version(i as u8, 0)).collect();
    v.extend([Ask::Newest(0), Ask::Any(0), Ask::NoVersion(0, 500), Ask::NoName(0, 0)]);
    v
}

fn fixed_written(_: Tier) -> Vec<Written> {
    [1usize, 2, 3, 10, 100, 255, 256, 257, 300]
        .iter()
        .map(|&n| {
            let mut asks = every_ask(n.min(256));
            // versions beyond what the choice of a version can say
            asks.extend((250..n as u16 + 3).map(|c| Ask::NoVersion(0, c)));
            Written { names: vec!["t".into()], writes: vec![(0, vec![]); n], asks }
        })
        .collect()
}

fn fixed_foreign(_: Tier) -> Vec<Foreign> {
    let tree = |n: u32| FTree { name: "".into(), n, cols: vec![], members: vec![], store: (crate::refroot::comp::Algo::None, 0), clusters: 0, far: false, evers: 10, groups: vec![], dot: false, objs: vec![], rot: 0, tvers: 0 };
    let mut v = vec![];
    for cycles in [vec![1u16, 2, 3], vec![3, 2, 1], vec![2, 3, 1], vec![1, 256, 257], vec![257, 256, 1], vec![9998, 10000], vec![10000, 9998], vec![9, 10, 100], vec![32767, 32766, 1], vec![5]] {
        for renamed in [false, true] {
            for list in [false, true] {
                v.push(Foreign {
                    names: vec!["t".into(), "u".into()],
                    versions: cycles.iter().enumerate().flat_map(|(i, &c)| [(0u8, c, tree(i as u32)), (1, c, tree(7))]).collect(),
                    renamed,
                    list,
                    asks: every_ask(2 * cycles.len()),
                    seed: 1,
                    tree_place: 2,
                    big: false,
                    mode: Mode::Checked,
                });
            }
        }
    }
    v
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C25",
        assumptions: &[
            "A cycle is asked for by its decimal number; \";*\", an empty number, 0 and signs are not asked for, nor names with two separators unless a key has that very name.",
            "No version has the number 9999, which means any version.",
        ],
        subs: vec![
            Box::new(Sub::<Foreign> {
                name: "foreign",
                rule: "files of another implementation with 0-6 trees over 1-5 names, near ones and ones with a separator included, cycles 1 to 32767 in any order, the tree's own name possibly not that of its key, possibly a list of the same name; 1-11 requests for the newest, any, one, a missing version, no number or a missing name. Non-trivial: some name has two versions.",
                quick: 20000,
                thorough: 200000,
                fixed: fixed_foreign,
                gen: gen_foreign,
                run: run_foreign,
                shards: SHARDS,
            }),
            Box::new(Sub::<Written> {
                name: "written",
                rule: "0-7 (thorough 0-19, fixed cases up to 300) trees written by the library over 1-5 names; the k-th write of a name is its version k; the same requests. Non-trivial: some name was written twice.",
                quick: 4000,
                thorough: 100000,
                fixed: fixed_written,
                gen: gen_written,
                run: run_written,
                shards: SHARDS,
            }),
        ],
    }]
}
