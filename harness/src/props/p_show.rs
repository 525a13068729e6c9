//! C17: listing, lookup and display of the branches of a tree.
use super::common::*;
use super::foreign::*;
use super::p_foreign::store_file;
use crate::engine::*;
use crate::ensure;
use crate::model::P;
use crate::refroot::write::BranchS;
use oxyroot::{Branch, ReaderTree};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ------------------------------------------------------- display in a child process

const END: &str = "\u{1}END";
const PANIC: &str = "\u{1}PANIC";

/// Child side: shows one tree per line `FILE\tTREE`.
pub fn child_show() -> i32 {
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let Some((file, tree)) = l.split_once('\t') else { break };
        let r = guard(|| {
            let mut f = oxyroot::RootFile::open(file).expect("open");
            f.get_tree(tree).expect("tree").show();
        });
        if let Err(e) = r {
            println!("{PANIC} {e}");
        }
        println!("{END}");
        let _ = std::io::stdout().flush();
    }
    0
}

struct Shower {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Shower {
    fn new() -> Shower {
        let mut child = Command::new(std::env::current_exe().expect("exe"))
            .arg("show")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("child");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Shower { child, to, from }
    }
    fn show(&mut self, file: &Path, tree: &str) -> Result<Vec<String>, String> {
        let io = |e: std::io::Error| format!("the showing process died: {e}");
        writeln!(self.to, "{}\t{tree}", file.display()).and_then(|_| self.to.flush()).map_err(io)?;
        let mut out = vec![];
        loop {
            let mut l = String::new();
            if self.from.read_line(&mut l).map_err(io)? == 0 {
                return Err("the showing process died".into());
            }
            let l = l.trim_end_matches('\n').to_string();
            if l == END {
                return Ok(out);
            }
            if l.starts_with(PANIC) {
                return Err(l[1..].into());
            }
            out.push(l);
        }
    }
}
impl Drop for Shower {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn show(file: &Path, tree: &str) -> Result<Vec<String>, String> {
    thread_local! { static S: RefCell<Option<Shower>> = const { RefCell::new(None) }; }
    S.with(|s| {
        let mut s = s.borrow_mut();
        let r = s.get_or_insert_with(Shower::new).show(file, tree);
        if r.is_err() {
            *s = None;
        }
        r
    })
}

// ------------------------------------------------------------------- expectation

/// one stored branch
struct Want {
    name: String,
    class: &'static str,
    cpp: String,
    rust: String,
    children: Vec<Want>,
}

/// classes: as stored, as advertised, in Rust
const CLASSES: &[(&str, &str, &str)] = &[
    ("Hit", "Hit", "Hit"),
    ("Dataset", "Dataset", "Dataset"),
    ("Belongings", "Belongings", "Belongings"),
    ("HeatMap", "HeatMap", "HeatMap"),
    ("bitmap", "bitmap", "bitmap"),
    ("Pointset", "Pointset", "Pointset"),
    ("shorty", "shorty", "shorty"),
    ("long_shot", "long_shot", "long_shot"),
    ("my::Printer", "my::Printer", "my::Printer"),
    ("string_id", "string_id", "string_id"),
    ("vector3", "vector3", "vector3"),
    ("floating", "floating", "floating"),
    ("Bool_u8", "Bool_u8", "Bool_u8"),
    ("doubles", "doubles", "doubles"),
    ("charm", "charm", "charm"),
    ("Uint32_t", "Uint32_t", "Uint32_t"),
    ("i32", "i32", "i32"),
    ("AVeryLongClassNameThatDoesNotFitIntoTheColumn", "AVeryLongClassNameThatDoesNotFitIntoTheColumn", "AVeryLongClassNameThatDoesNotFitIntoTheColumn"),
    ("ExactlyThirtyCharactersLong_30", "ExactlyThirtyCharactersLong_30", "ExactlyThirtyCharactersLong_30"),
];

pub fn rust_of(k: K) -> String {
    match k {
        K::S(p) | K::MS(p) => p.rust().into(),
        K::A(p, n) | K::MA(p, n) => format!("[{};{n}]", p.rust()),
        K::A2(p, a, b) | K::MA2(p, a, b) => format!("[{};{}]", p.rust(), a * b),
        K::J(p) | K::J2(p, _) | K::MJ(p) => format!("Slice<{}>", p.rust()),
        K::Str | K::TStr | K::MStr => "String".into(),
        K::MTString => "TString".into(),
        K::TVec(p) | K::MVec(p) => format!("Vec<{}>", p.rust()),
        K::MVecStr => "Vec<String>".into(),
    }
}

fn want(v: &[BranchS], rust: &HashMap<String, String>) -> Vec<Want> {
    v.iter()
        .map(|b| Want {
            name: b.name.clone(),
            class: if b.elem.is_some() { "TBranchElement" } else { "TBranch" },
            cpp: b.cpp.clone(),
            rust: rust.get(&b.cpp).cloned().unwrap_or_else(|| b.cpp.clone()),
            children: want(&b.children, rust),
        })
        .collect()
}
fn pre<'a>(v: &'a [Want], out: &mut Vec<&'a Want>) {
    for w in v {
        out.push(w);
        pre(&w.children, out);
    }
}
fn depth(v: &[Want]) -> usize {
    v.iter().map(|w| 1 + depth(&w.children)).max().unwrap_or(0)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Show {
    file: FFile,
    /// names looked up although no branch has them, mutations of existing ones
    probe: Vec<(u16, u8)>,
}

/// A name near an existing one.
fn mutate(names: &[String], k: u16, how: u8) -> String {
    let at = |i: usize| names.get(i % names.len().max(1)).cloned().unwrap_or_default();
    let s = at(k as usize);
    let cut = |s: &str, n: usize| s.chars().take(n).collect::<String>();
    match how % 16 {
        0 => String::new(),
        1 => format!("{s}."),
        2 => format!(".{s}"),
        3 => s.trim_end_matches('.').into(),
        4 => cut(&s, s.chars().count().saturating_sub(1)),
        5 => s.rsplit('.').next().unwrap_or("").into(),
        6 => s.split('.').next().unwrap_or("").into(),
        7 => s.to_uppercase(),
        8 => format!("{s}{s}"),
        9 => format!("{}.{s}", at(k as usize + 1)),
        10 => s.split('[').next().unwrap_or("").into(),
        11 => format!(" {s}"),
        12 => format!("{s}\0"),
        13 => s.replacen('.', "/", 1),
        14 => format!("{}{}", at(k as usize + 1), s),
        _ => "nothing".into(),
    }
}

fn same_branch(g: &Branch, w: &Want, n: i64, path: &str) -> Result<(), Fail> {
    ensure!(g.name() == w.name, "{path}: branch {:?} listed where {:?} is stored", g.name(), w.name);
    ensure!(g.class() == w.class, "{path}: branch {:?} of class {:?}, stored as {:?}", w.name, g.class(), w.class);
    ensure!(g.entries() == n, "{path}: branch {:?} reports {} entries of {n}", w.name, g.entries());
    let ty = guard(|| (g.item_type_name(), g.interpretation())).map_err(|e| Fail::new(format!("{path}: type of branch {:?}: panic {e}", w.name)))?;
    ensure!(ty.0 == w.cpp, "{path}: branch {:?} advertised as {:?}, it is {:?}", w.name, ty.0, w.cpp);
    ensure!(ty.1 == w.rust, "{path}: branch {:?} ({:?}) to be read as {:?}, expected {:?}", w.name, w.cpp, ty.1, w.rust);
    Ok(())
}

/// names below are found, no other one is
fn lookups<'a>(what: &str, all: &[&'a Branch], names: &[String], probe: &[(u16, u8)], find: &dyn Fn(&str) -> Option<&'a Branch>, checks: &mut u64) -> Result<(), Fail> {
    let mut count: HashMap<&str, usize> = HashMap::new();
    for b in all {
        *count.entry(b.name()).or_default() += 1;
    }
    for b in all {
        let nm = b.name();
        *checks += 1;
        match guard(|| find(nm)).map_err(|e| Fail::new(format!("{what}.branch({nm:?}): panic {e}")))? {
            None => crate::bail!("{what}.branch({nm:?}) finds nothing, the branch is listed"),
            Some(g) => {
                ensure!(g.name() == nm, "{what}.branch({nm:?}) returns a branch named {:?}", g.name());
                ensure!(all.iter().any(|x| std::ptr::eq(*x, g)), "{what}.branch({nm:?}) returns a branch that is not listed");
                ensure!(count[nm] > 1 || std::ptr::eq(g, *b), "{what}.branch({nm:?}) returns another branch");
            }
        }
    }
    // names of the whole tree and mutations of them
    let extra = probe.iter().map(|&(k, h)| mutate(names, k, h));
    for nm in names.iter().cloned().chain(extra) {
        if count.contains_key(nm.as_str()) {
            continue;
        }
        *checks += 1;
        if let Some(g) = guard(|| find(&nm)).map_err(|e| Fail::new(format!("{what}.branch({nm:?}): panic {e}")))? {
            crate::bail!("{what}.branch({nm:?}) returns branch {:?}, none has that name", g.name());
        }
    }
    Ok(())
}

fn check_below(b: &Branch, w: &Want, n: i64, names: &[String], probe: &[(u16, u8)], checks: &mut u64) -> Result<(), Fail> {
    let what = format!("branch {:?}", w.name);
    let direct: Vec<&Branch> = b.branches().collect();
    ensure!(direct.len() == w.children.len(), "{what} lists {} sub-branches, {} are stored", direct.len(), w.children.len());
    let mut ws = vec![];
    pre(&w.children, &mut ws);
    let all = b.branches_r();
    ensure!(all.len() == ws.len(), "{what} lists {} branches below it, {} are stored", all.len(), ws.len());
    for (g, w) in all.iter().zip(&ws) {
        same_branch(g, w, n, &what)?;
    }
    let mut at = 0;
    for (d, w) in direct.iter().zip(&w.children) {
        ensure!(std::ptr::eq(*d, all[at]), "{what}: sub-branch {:?} differs between the flat and the recursive listing", w.name);
        let mut sub = vec![];
        pre(&w.children, &mut sub);
        at += 1 + sub.len();
    }
    lookups(&what, &all, names, probe, &|n| b.branch(n), checks)?;
    for (d, w) in direct.iter().zip(&w.children) {
        check_below(d, w, n, names, probe, checks)?;
    }
    Ok(())
}

fn check_display(lines: &[String], ws: &[&Want]) -> Result<(), Fail> {
    ensure!(lines.len() == ws.len() + 2, "the overview has {} lines, expected 2 and one for each of {} branches: {lines:?}", lines.len(), ws.len());
    let cells = |l: &str| -> Vec<String> { l.split(" | ").map(|c| c.trim().to_string()).collect() };
    ensure!(cells(&lines[0]) == ["name", "typename", "interpretation"], "heading {:?}", lines[0]);
    ensure!(lines[1].chars().all(|c| c == '-' || c == '+'), "rule {:?}", lines[1]);
    for (l, w) in lines[2..].iter().zip(ws) {
        let ty: String = w.cpp.chars().take(30).collect();
        ensure!(cells(l) == [w.name.as_str(), ty.as_str(), w.rust.as_str()], "overview line {l:?}, expected {:?} | {ty:?} | {:?}", w.name, w.rust);
        // what is aligned starts where the heading has it
        if w.name.chars().count() <= 30 {
            let cols: Vec<usize> = [l, &lines[0]].iter().map(|l| l.split(" | ").next().unwrap().chars().count()).collect();
            ensure!(cols[0] == cols[1], "overview line {l:?} is not aligned with the heading");
        }
    }
    Ok(())
}

fn run(c: &Show, env: &Env) -> Res {
    let mut info = Info::default();
    let (p, _) = store_file(&c.file, env)?;
    let mut f = open(&p)?;
    let s = file_s(&c.file);
    let mut rust: HashMap<String, String> = CLASSES.iter().map(|c| (c.1.to_string(), c.2.to_string())).collect();
    for (t, ts) in c.file.trees.iter().zip(&s.trees) {
        for col in t.flat() {
            rust.insert(col.kind.cpp(), rust_of(col.kind));
        }
        rust.insert("uint32_t".into(), "u32".into());
        rust.insert("int32_t".into(), "i32".into());
        let tree: ReaderTree = get_tree(&mut f, &t.name)?;
        let n = t.n as i64;
        let ws = want(&ts.branches, &rust);
        let mut flat = vec![];
        pre(&ws, &mut flat);
        let names: Vec<String> = flat.iter().map(|w| w.name.clone()).collect();
        let all = tree.branches_r();
        ensure!(all.len() == flat.len(), "{} branches listed, {} stored: {:?} {names:?}", all.len(), flat.len(), all.iter().map(|b| b.name()).collect::<Vec<_>>());
        for (g, w) in all.iter().zip(&flat) {
            same_branch(g, w, n, "tree")?;
        }
        let distinct: HashSet<*const Branch> = all.iter().map(|b| *b as *const Branch).collect();
        ensure!(distinct.len() == all.len(), "a branch is listed twice");
        let tops: Vec<&Branch> = tree.branches().collect();
        ensure!(tops.len() == ws.len(), "{} top-level branches listed, {} stored", tops.len(), ws.len());
        for (g, w) in tops.iter().zip(&ws) {
            same_branch(g, w, n, "top level")?;
            ensure!(distinct.contains(&(*g as *const Branch)), "top-level branch {:?} is missing from the recursive listing", w.name);
        }
        info.checks += 4 * flat.len() as u64;
        lookups("tree", &all, &names, &c.probe, &|n| tree.branch(n), &mut info.checks)?;
        for (g, w) in tops.iter().zip(&ws) {
            check_below(g, w, n, &names, &c.probe, &mut info.checks)?;
        }
        let lines = show(&p, &t.name).map_err(|e| Fail::new(format!("overview: {e}")))?;
        check_display(&lines, &flat)?;
        info.checks += lines.len() as u64;
        info.label(format!("depth-{}", depth(&ws)));
        info.label(match flat.len() { 0 => "no-branches", 1..=5 => "few-branches", 6..=20 => "6-20-branches", _ => "21+branches" });
        info.label_if(names.iter().collect::<HashSet<_>>().len() < names.len(), "repeated-name");
        info.label_if(names.iter().any(|n| n.is_empty()), "empty-name");
        info.label_if(t.n == 0, "no-entries");
        info.label_if(flat.iter().any(|w| w.cpp.chars().count() > 30), "long-type");
        info.label_if(flat.iter().any(|w| w.name.chars().count() > 30), "long-name");
        for w in &flat {
            info.label_if(!w.children.is_empty(), format!("class-{}", w.cpp.trim_end_matches(|c: char| c.is_numeric())));
        }
        info.nontrivial |= depth(&ws) > 1 && flat.len() > 2;
    }
    Ok(info)
}

// -------------------------------------------------------------------- generation

const NAMES: &[&str] = &[
    "x", "y", "evt", "evt.x", "x.y", "pos.x", "set", "map", "int", "s1", "o", "", "n_x", "été", "a b", "x.", ".x", "m0", "a_rather_long_name_of_a_branch_beyond_the_column",
    "thirty_characters_long_name_30",
];

fn rename_group(g: &mut Group, salt: u64, used: &mut HashMap<String, String>) {
    let old = g.class.clone();
    let n = used.len();
    g.class = used
        .entry(old)
        .or_insert_with(|| {
            let c = CLASSES[(salt as usize).wrapping_mul(7).wrapping_add(n * 5) % CLASSES.len()].0;
            if n < CLASSES.len() { c.to_string() } else { format!("{c}_{n}") }
        })
        .clone();
    for x in g.groups.iter_mut() {
        rename_group(x, salt, used);
    }
}

/// Distinct classes need distinct names.
fn rename(t: &mut FTree, salt: u64, which: &[u8]) {
    let mut used = HashMap::new();
    for g in t.groups.iter_mut().chain(t.objs.iter_mut()) {
        rename_group(g, salt, &mut used);
    }
    for (i, c) in t.cols.iter_mut().enumerate() {
        if !which.is_empty() {
            c.name = NAMES[which[i % which.len()] as usize % NAMES.len()].into();
        }
    }
}

fn case() -> impl Strategy<Value = Show> {
    (
        ftree(Opt { compress: false, max_n: 8, ncols: 4 }),
        0u8..4,
        any::<u64>(),
        prop::collection::vec(any::<u8>(), 0..5),
        prop::collection::vec((any::<u16>(), any::<u8>()), 4..24),
        0u64..100,
    )
        .prop_map(|(mut t, wrap, salt, which, probe, seed)| {
            for c in t.all_cols() {
                c.parts.truncate(2);
            }
            // wrap the groups into one more level
            for k in 0..wrap {
                if t.groups.is_empty() {
                    break;
                }
                let inner = std::mem::take(&mut t.groups);
                t.groups.push(Group { name: format!("w{k}"), class: format!("Wrap{k}"), base: k % 2 == 1, members: vec![], groups: inner });
            }
            rename(&mut t, salt, &which);
            Show { file: FFile { trees: vec![t], seed, tree_place: (seed % 3) as u8, info_store: (crate::refroot::comp::Algo::None, 0), big: false, far_at: 0, far_keys: false, far_infos: false }, probe }
        })
}

/// More branches at one level than a byte can count, and more levels than the generator makes.
fn fixed(_: Tier) -> Vec<Show> {
    let col = |i: usize, k: K| FCol::simple(&format!("c{i}"), k);
    let mem = |n: usize| (0..n).map(|i| col(i, [K::MS(P::I32), K::MStr, K::MJ(P::F32), K::MA(P::U8, 2)][i % 4])).collect::<Vec<_>>();
    let group = |i: usize, members: Vec<FCol>, groups: Vec<Group>| Group { name: format!("g{i}"), class: format!("Class{i}"), base: i % 5 == 1, members, groups };
    let mut deep = group(0, mem(2), vec![]);
    for k in 1..20 {
        deep = Group { base: false, ..group(k, mem(1), vec![deep]) };
    }
    let show = |cols: Vec<FCol>, members: Vec<FCol>, groups: Vec<Group>, objs: Vec<Group>| {
        let mut f = super::p_foreign::one_file(3, cols, (crate::refroot::comp::Algo::None, 0));
        let t = &mut f.trees[0];
        (t.members, t.groups, t.objs) = (members, groups, objs);
        Show { file: f, probe: (0..20u16).map(|i| (i * 3000, i as u8)).collect() }
    };
    vec![
        show((0..300).map(|i| col(i, [K::S(P::I16), K::Str, K::A(P::F64, 2)][i % 3])).collect(), vec![], vec![], vec![]),
        show(vec![col(500, K::S(P::I8))], mem(300), vec![], vec![]),
        show(vec![], mem(2), (0..280).map(|i| group(i, mem(1), vec![])).collect(), vec![]),
        show(vec![], mem(1), vec![], (0..280).map(|i| Group { base: false, ..group(i, mem(2), vec![]) }).collect()),
        show(vec![col(500, K::S(P::I8))], mem(2), vec![deep], vec![]),
    ]
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C17",
        assumptions: &["The files are written by the harness' own ROOT writer.", "Names hold no brackets other than the dimensions ROOT puts there; class names are not templates."],
        subs: vec![Box::new(Sub::<Show> {
            name: "hierarchy",
            rule: "trees of plain columns and split objects nested up to seven deep (sub-objects, base classes, several top-level objects, repeated and dotted names, class names containing the words of types); the listings, every lookup from the tree and from every branch (of listed names, of names from elsewhere and of mutated ones), every type and the printed overview are compared with what was stored; non-trivial when the tree has a split object and more than two branches; distinct by serialised case",
            quick: 80000,
            thorough: 1500000,
            fixed,
            gen: |_| case().boxed(),
            run,
            shards: SHARDS,
        })],
    }]
}
