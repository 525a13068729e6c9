//! C13, C14: the derive macros. Programs with random structures are generated and compiled
//! against the library; they read trees as rows, and write rows as trees, on request.
use super::common::*;
use super::foreign::*;
use super::p_foreign::store_file;
use crate::engine::*;
use crate::model::*;
use crate::refroot::comp::Algo;
use crate::refroot::read::RFile;
use crate::{bail, ensure};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdout, Command, Stdio};
use std::sync::{Mutex, OnceLock};

// ---------------------------------------------------------------- shapes

/// Type of a field read from (or written to) one column.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum L {
    S(P),
    A(P, u32),
    Str,
    V(P),
    /// counted array, read as a slice
    J(P),
    /// vector of strings
    VS,
}

impl L {
    fn rust(self, style: bool) -> String {
        match self {
            L::S(p) => p.rust().into(),
            L::A(p, n) => format!("[{}; {n}]", p.rust()),
            L::Str => if style { "::std::string::String" } else { "String" }.into(),
            L::V(p) => format!("{}Vec<{}>", if style { "std::vec::" } else { "" }, p.rust()),
            L::J(p) => format!("oxyroot::Slice<{}>", p.rust()),
            L::VS => "Vec<String>".into(),
        }
    }
    fn ty(self) -> Option<Ty> {
        match self {
            L::S(p) => Some(Ty::S(p)),
            L::A(p, n) => Some(Ty::A(p, n)),
            L::Str => Some(Ty::Str),
            L::V(p) => Some(Ty::V(p)),
            _ => None,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum F {
    Leaf(L),
    /// a structure of the shape
    Nested(usize),
    /// a vector of a slicable structure
    Sliced(usize),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
struct Field {
    ident: String,
    ty: F,
    rename: Option<String>,
    prefix: Option<String>,
    absolute: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
struct Struct {
    name: String,
    prefix: Option<String>,
    slicable: bool,
    fields: Vec<Field>,
}

/// Structures, each using earlier ones only; the last one is the row.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
struct Shape {
    structs: Vec<Struct>,
    /// also derives the writer
    write: bool,
    style: bool,
}

/// What a row is made of, in order.
#[derive(Clone, Debug)]
enum Node {
    Leaf(String, L),
    Sliced(Vec<(String, P)>),
}

fn plain_ident(i: &str) -> &str {
    i.strip_prefix("r#").unwrap_or(i)
}

impl Shape {
    fn row(&self) -> &Struct {
        self.structs.last().unwrap()
    }
    /// The columns designated, by the documented rules of the naming attributes.
    fn nodes(&self) -> Vec<Node> {
        let mut out = vec![];
        self.walk(self.structs.len() - 1, None, &mut out);
        out
    }
    fn designated(s: &Struct, f: &Field, parent: Option<&str>) -> String {
        // an absolute name stands for itself; only the field's own prefix comes before it
        if let Some(a) = &f.absolute {
            return format!("{}{a}", f.prefix.as_deref().unwrap_or(""));
        }
        // a field's prefix replaces that of the structure
        let pre = f.prefix.as_deref().or(s.prefix.as_deref()).unwrap_or("");
        let name = f.rename.as_deref().unwrap_or(plain_ident(&f.ident));
        match parent {
            Some(p) => format!("{p}.{pre}{name}"),
            None => format!("{pre}{name}"),
        }
    }
    fn walk(&self, k: usize, parent: Option<&str>, out: &mut Vec<Node>) {
        let s = &self.structs[k];
        for f in &s.fields {
            let name = Self::designated(s, f, parent);
            match f.ty {
                F::Leaf(l) => out.push(Node::Leaf(name, l)),
                F::Nested(j) => self.walk(j, Some(&name), out),
                F::Sliced(j) => {
                    let e = &self.structs[j];
                    let cols = e
                        .fields
                        .iter()
                        .map(|x| match x.ty {
                            F::Leaf(L::S(p)) => (Self::designated(e, x, Some(&name)), p),
                            _ => unreachable!(),
                        })
                        .collect();
                    out.push(Node::Sliced(cols))
                }
            }
        }
    }
    /// columns by name, in order of first use; None if a name would need two types
    fn columns(&self) -> Option<Vec<(String, L)>> {
        let mut out: Vec<(String, L)> = vec![];
        let mut add = |n: String, l: L| -> bool {
            match out.iter().find(|x| x.0 == n) {
                Some(x) => x.1 == l,
                None => {
                    out.push((n, l));
                    true
                }
            }
        };
        for n in self.nodes() {
            let ok = match n {
                Node::Leaf(n, l) => add(n, l),
                Node::Sliced(c) => c.into_iter().all(|(n, p)| add(n, L::J(p))),
            };
            if !ok {
                return None;
            }
        }
        Some(out)
    }
    fn depth(&self) -> usize {
        fn d(s: &Shape, k: usize) -> usize {
            s.structs[k].fields.iter().map(|f| match f.ty { F::Leaf(_) => 0, F::Nested(j) | F::Sliced(j) => 1 + d(s, j) }).max().unwrap_or(0)
        }
        d(self, self.structs.len() - 1)
    }
    fn source(&self, k: usize) -> String {
        let mut o = format!("mod s{k} {{\n");
        for s in &self.structs {
            o += &format!("    #[derive(oxyroot::ReadFromTree{})]\n", if self.write { ", oxyroot::WriteToTree" } else { "" });
            let mut at = vec![];
            if let Some(p) = &s.prefix {
                at.push(format!("branch_prefix = {p:?}"));
            }
            if s.slicable {
                at.push("slicable".into());
            }
            if !at.is_empty() {
                o += &format!("    #[oxyroot({})]\n", at.join(", "));
            }
            o += &format!("    pub struct {} {{\n", s.name);
            let (mut dump, mut make) = (String::new(), String::new());
            for f in &s.fields {
                let mut at = vec![];
                for (k, v) in [("rename", &f.rename), ("branch_prefix", &f.prefix), ("absolute_name", &f.absolute)] {
                    if let Some(v) = v {
                        at.push(format!("{k} = {v:?}"));
                    }
                }
                let ty = match f.ty {
                    F::Leaf(l) => l.rust(self.style),
                    F::Nested(j) => self.structs[j].name.clone(),
                    F::Sliced(j) => {
                        at.push(format!("slicable = {:?}", self.structs[j].name));
                        format!("Vec<{}>", self.structs[j].name)
                    }
                };
                if self.style {
                    o += "        /// a field\n";
                    at.iter().for_each(|a| o += &format!("        #[oxyroot({a})]\n"));
                } else if !at.is_empty() {
                    o += &format!("        #[oxyroot({})]\n", at.join(", "));
                }
                o += &format!("        {}{}: {ty},\n", if self.style { "" } else { "pub " }, f.ident);
                dump += &match f.ty {
                    F::Sliced(_) => format!("oxyderive::dump_all(&self.{}, o);", f.ident),
                    _ => format!("oxyderive::Dump::dump(&self.{}, o);", f.ident),
                };
                make += &format!("{}: oxyderive::Make::make(r),", f.ident);
            }
            o += "    }\n";
            o += &format!("    impl oxyderive::Dump for {} {{ fn dump(&self, o: &mut Vec<u8>) {{ let _ = &o; {dump} }} }}\n", s.name);
            if self.write {
                o += &format!("    impl oxyderive::Make for {0} {{ fn make(r: &mut &[u8]) -> Self {{ let _ = &r; {0} {{ {make} }} }} }}\n", s.name);
            }
        }
        let row = &self.row().name;
        o += &format!(
            "    pub fn read(tree: &oxyroot::ReaderTree, cap: usize) -> Result<oxyderive::Rows, String> {{
        use oxyroot::ReadFromTree;
        let it = {row}::from_tree(tree).map_err(|e| e.to_string())?;
        Ok(oxyderive::rows(it, cap))
    }}\n"
        );
        if self.write {
            o += &format!(
                "    pub fn add(tree: &mut oxyroot::WriterTree, b: &[u8], n: usize) -> Result<(), String> {{
        use oxyroot::WriteToTree;
        {row}::to_tree(oxyderive::make_rows::<{row}>(b, n).into_iter(), tree).map_err(|e| e.to_string())
    }}\n"
            );
        }
        o + "}\n"
    }
}

fn program(shapes: &[&Shape]) -> String {
    let mut o = String::from("#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case)]\n");
    let mut ops = String::new();
    for (k, s) in shapes.iter().enumerate() {
        o += &s.source(k);
        let add = if s.write { format!("s{k}::add") } else { "oxyderive::no_add".into() };
        ops += &format!("    oxyderive::Ops {{ read: s{k}::read, add: {add} }},\n");
    }
    o + &format!("fn main() {{\n    oxyderive::serve(&[\n{ops}    ]);\n}}\n")
}

// ---------------------------------------------------------------- generation of shapes

const IDENTS: [&str; 36] = [
    "a", "b", "x", "y", "z", "e", "px", "energy", "i", "v", "it", "tree", "s", "xi", "ii", "xii", "func", "branch_name", "r#type", "r#match", "r#fn", "n", "t0",
    "_q", "A", "b_a", "data", "name", "current", "r#use", "slice_x", "item_x", "column", "parent", "p", "q",
];
const NAMES: [&str; 16] = [
    "Point", "Hit", "Channel", "Sender", "Receiver", "Slice", "Inner", "Event", "Track", "Row", "Cell", "S0", "Tree", "Branch", "Entry", "Wire",
];
const RENAMES: [&str; 10] = ["b", "x.y", "x", "Energy", "p.x", "0", "a b", "evt.x", "é", "a"];
const PREFIXES: [&str; 6] = ["branch_", "q.", "P", "x.", "m_", "a"];
const ABSOLUTES: [&str; 6] = ["abs", "top.x", "zweig", "a", "x", "p.q.r"];

fn pick<T: Copy>(m: &mut Mix, v: &[T]) -> T {
    v[m.below(v.len() as u64) as usize]
}

fn leaf(m: &mut Mix, write: bool, foreign: bool) -> L {
    let ap = [1u32, 2, 3, 5, 8, 16, 17, 32];
    match m.below(if write || !foreign { 8 } else { 10 }) {
        0..=3 => L::S(pick(m, &PRIMS)),
        4 => L::A(pick(m, &PRIMS), pick(m, &ap)),
        5 => L::Str,
        6 | 7 => L::V(pick(m, &NUMS)),
        8 => L::J(pick(m, &PRIMS)),
        _ => L::VS,
    }
}

/// `size` bounds the number of structures and fields.
fn shape(m: &mut Mix, size: u64, write: bool) -> Shape {
    loop {
        let ns = 1 + m.below(2 + size.min(3));
        let foreign = !write && m.below(2) == 0;
        let attrs = !write && m.below(5) > 0;
        let mut names = NAMES.to_vec();
        let mut structs: Vec<Struct> = vec![];
        for k in 0..ns as usize {
            let last = k + 1 == ns as usize;
            let name = names.remove(m.below(names.len() as u64) as usize).to_string();
            let slicable = foreign && !last && m.below(2) == 0;
            // vectors of structures need a structure which is slicable and nothing else inside
            let nf = 1 + m.below(1 + size.min(4));
            let mut idents = IDENTS.to_vec();
            let mut fields = vec![];
            for fi in 0..nf {
                let ident = idents.remove(m.below(idents.len() as u64) as usize).to_string();
                let ty = if slicable {
                    F::Leaf(L::S(pick(m, &PRIMS)))
                } else if k > 0 && m.below(5) < if fi == 0 { 4 } else { 2 } {
                    let j = if m.below(2) == 0 { k - 1 } else { m.below(k as u64) as usize };
                    if structs[j].slicable && m.below(4) > 0 {
                        F::Sliced(j)
                    } else {
                        F::Nested(j)
                    }
                } else {
                    F::Leaf(leaf(m, write, foreign))
                };
                let opt = |m: &mut Mix, v: &[&str], of: u64| (attrs && m.below(of) == 0).then(|| pick(m, v).to_string());
                fields.push(Field { ident, ty, rename: opt(m, &RENAMES, 4), prefix: opt(m, &PREFIXES, 5), absolute: opt(m, &ABSOLUTES, 7) });
            }
            let prefix = (attrs && m.below(4) == 0).then(|| pick(m, &PREFIXES).to_string());
            structs.push(Struct { name, prefix, slicable, fields });
        }
        let s = Shape { structs, write, style: m.below(3) == 0 };
        let Some(c) = s.columns() else { continue };
        // names of counters and of object branches are kept apart
        let clash = c.iter().any(|x| c.iter().any(|y| y.0 == counter_of(&x.0) || x.0.strip_prefix(&format!("{}.", y.0)).map_or(false, |r| r.is_empty())));
        // only members are vectors of strings
        let vs = c.iter().any(|x| x.1 == L::VS && c.iter().any(|y| y.0.starts_with(&format!("{}.", x.0)) || x.0.starts_with(&format!("{}.", y.0))));
        if c.is_empty() || c.len() > 40 || clash || vs {
            continue;
        }
        return s;
    }
}

fn counter_of(name: &str) -> String {
    counter_name(&FCol::simple(name, K::J(P::I32)))
}

const BINS: usize = 8;

/// The shapes of a run, small ones first.
fn shapes(write: bool) -> &'static [Shape] {
    static R: OnceLock<Vec<Shape>> = OnceLock::new();
    static W: OnceLock<Vec<Shape>> = OnceLock::new();
    let make = || {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
        let n: u64 = std::env::var("OXY_SHAPES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 1600 } else { 240 });
        let mut m = Mix(seed.wrapping_mul(0x9e37_79b9) ^ if write { 0x77 } else { 0x11 });
        let mut v: Vec<Shape> = vec![];
        while v.len() < n as usize {
            let size = v.len() as u64 * 5 / n;
            let s = shape(&mut m, size, write);
            if !v.contains(&s) {
                v.push(s);
            }
        }
        v.sort_by_key(|s| s.structs.iter().map(|s| 2 + s.fields.len()).sum::<usize>());
        v
    };
    if write {
        W.get_or_init(make)
    } else {
        R.get_or_init(make)
    }
}

fn thorough() -> bool {
    std::env::args().nth(3).as_deref() == Some("thorough")
}

// ---------------------------------------------------------------- compilation

fn target() -> PathBuf {
    let t = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/harness/target", verif()));
    PathBuf::from(t).join("derive")
}
fn verif() -> String {
    std::env::var("OXY_VERIF").unwrap_or_else(|_| "/verif".into())
}

type Prog = Result<(PathBuf, usize), String>;

/// Compile programs; the path of each that compiled, or the compiler's complaint.
fn compile(pkg: &str, sources: &[String]) -> Vec<Result<PathBuf, String>> {
    let t = target();
    let dir = t.join(pkg);
    let _ = std::fs::create_dir_all(dir.join("src"));
    let lock = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(t.join(".gen-lock")).expect("lock file");
    lock.lock().expect("lock");
    let base = PathBuf::from(verif()).join("harness/derive");
    let mut toml = std::fs::read_to_string(base.join("Cargo.toml")).expect("Cargo.toml of the support crate");
    toml = toml.replace("name = \"oxyderive\"", &format!("name = \"{pkg}\"\nautobins = false"));
    toml = toml.replace("[dependencies]\n", &format!("[dependencies]\noxyderive = {{ path = {:?} }}\n", base.to_str().unwrap()));
    for (k, s) in sources.iter().enumerate() {
        toml += &format!("\n[[bin]]\nname = \"{pkg}_{k}\"\npath = \"src/p{k}.rs\"\n");
        std::fs::write(dir.join(format!("src/p{k}.rs")), s).expect("source");
    }
    std::fs::write(dir.join("Cargo.toml"), toml).expect("Cargo.toml");
    std::fs::copy(base.join("Cargo.lock"), dir.join("Cargo.lock")).expect("Cargo.lock of the support crate");
    for k in 0..sources.len() {
        let _ = std::fs::remove_file(t.join(format!("debug/{pkg}_{k}")));
    }
    let out = Command::new("cargo")
        .args(["build", "--offline", "--keep-going", "--bins"])
        .current_dir(&dir)
        .env("CARGO_TARGET_DIR", &t)
        .env("CARGO_INCREMENTAL", "0")
        .stdin(Stdio::null())
        .output()
        .expect("cargo");
    let log = String::from_utf8_lossy(&out.stderr).into_owned();
    let keep = scratch_root().join("programs");
    let _ = std::fs::create_dir_all(&keep);
    let log = log.find("error").map(|p| log[p..].chars().take(1500).collect()).unwrap_or(log);
    (0..sources.len())
        .map(|k| {
            let from = t.join(format!("debug/{pkg}_{k}"));
            let to = keep.join(format!("{pkg}_{k}"));
            match out.status.success() || from.exists() {
                true => std::fs::copy(&from, &to).map(|_| to).map_err(|e| e.to_string()),
                false => Err(log.clone()),
            }
        })
        .collect()
}

struct Built {
    map: HashMap<Shape, Prog>,
}

fn build_all(write: bool) -> Built {
    let all = shapes(write);
    let mut bins: Vec<Vec<&Shape>> = vec![vec![]; BINS];
    for (i, s) in all.iter().enumerate() {
        bins[i % BINS].push(s);
    }
    bins.retain(|b| !b.is_empty());
    let src: Vec<String> = bins.iter().map(|b| program(b)).collect();
    let res = compile(if write { "gen_w" } else { "gen_r" }, &src);
    let mut map = HashMap::new();
    let mut bad = vec![];
    for (b, r) in bins.iter().zip(res) {
        for (k, s) in b.iter().enumerate() {
            map.insert((*s).clone(), r.clone().map(|p| (p, k)));
        }
        if r.is_err() {
            bad.extend(b.iter().copied());
        }
    }
    if !bad.is_empty() {
        // which of them is it?
        let src: Vec<String> = bad.iter().map(|s| program(&[s])).collect();
        let res = compile(if write { "sep_w" } else { "sep_r" }, &src);
        if bad.len() == all.len() && res.iter().all(|r| r.is_err()) {
            eprintln!("no generated program compiles: {}", res[0].as_ref().unwrap_err());
            std::process::exit(3);
        }
        for (s, r) in bad.iter().zip(res) {
            map.insert((*s).clone(), r.map(|p| (p, 0)));
        }
    }
    Built { map }
}

fn program_for(s: &Shape) -> Prog {
    static R: OnceLock<Built> = OnceLock::new();
    static W: OnceLock<Built> = OnceLock::new();
    static ONE: Mutex<BTreeMap<String, Prog>> = Mutex::new(BTreeMap::new());
    if shapes(s.write).contains(s) && std::env::args().nth(1).as_deref() != Some("replay") {
        let b = if s.write { W.get_or_init(|| build_all(true)) } else { R.get_or_init(|| build_all(false)) };
        return b.map[s].clone();
    }
    let js = serde_json::to_string(s).unwrap();
    let mut one = ONE.lock().unwrap();
    let k = one.len();
    one.entry(js).or_insert_with(|| compile(&format!("one{k}"), &[program(&[s])]).remove(0).map(|p| (p, 0))).clone()
}

struct Server {
    child: Child,
    out: BufReader<ChildStdout>,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

enum Answer {
    Done(Vec<u8>),
    Error(String),
}

fn ask(prog: &Path, line: &str) -> Result<Answer, Fail> {
    thread_local! { static SERVERS: RefCell<HashMap<PathBuf, Server>> = RefCell::new(HashMap::new()); }
    SERVERS.with(|m| {
        let mut m = m.borrow_mut();
        let s = m.entry(prog.into()).or_insert_with(|| {
            let mut child = Command::new(prog).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("start program");
            let out = BufReader::new(child.stdout.take().unwrap());
            Server { child, out }
        });
        let mut go = || -> std::io::Result<(u8, Vec<u8>)> {
            let i = s.child.stdin.as_mut().unwrap();
            i.write_all(format!("{line}\n").as_bytes())?;
            i.flush()?;
            let mut h = [0u8; 5];
            s.out.read_exact(&mut h)?;
            let mut b = vec![0; u32::from_le_bytes(h[1..].try_into().unwrap()) as usize];
            s.out.read_exact(&mut b)?;
            Ok((h[0], b))
        };
        match go() {
            Ok((0, b)) => Ok(Answer::Done(b)),
            Ok((1, b)) => Ok(Answer::Error(String::from_utf8_lossy(&b).into_owned())),
            Ok((_, b)) => Err(Fail::new(format!("panic: {}", String::from_utf8_lossy(&b)))),
            Err(e) => {
                m.remove(prog);
                Err(Fail::new(format!("the program died: {e}")))
            }
        }
    })
}

// ---------------------------------------------------------------- C13

/// How one column is stored.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Content {
    pick: u8,
    sizes: Vec<u32>,
    pat: Pat,
    seed: u64,
    parts: Vec<u32>,
    embed: bool,
    /// entries more than the others (where columns may differ)
    more: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Read13 {
    shape: Shape,
    n: u32,
    cols: Vec<Content>,
    /// stored by the independent writer (always, if the library cannot write the columns)
    foreign: bool,
    /// further columns, with names close to the designated ones
    others: Vec<u8>,
    /// this designated column is absent
    absent: Option<u8>,
    rot: u8,
}

/// A name close to a designated one.
fn near(name: &str, how: u8) -> String {
    let last = name.rsplit('.').next().unwrap();
    match how % 8 {
        0 => last.to_string(),
        1 => format!("branch_{name}"),
        2 => format!("p.{name}"),
        3 => name.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or(format!("{name}x")),
        4 => last.rsplit('_').next().unwrap().to_string(),
        5 => name.replace('.', "_"),
        6 => format!("{name}.{last}"),
        _ => name.split_once('.').map(|x| x.1.to_string()).unwrap_or(format!("x{name}")),
    }
}

/// One list of sizes for columns which are sliced together.
fn together(nodes: &[Node]) -> BTreeMap<String, usize> {
    let mut id: BTreeMap<String, usize> = BTreeMap::new();
    let mut next = 0;
    for n in nodes {
        if let Node::Sliced(c) = n {
            let known: Vec<usize> = c.iter().filter_map(|x| id.get(&x.0).copied()).collect();
            next += 1;
            let new = *known.first().unwrap_or(&next);
            for v in id.values_mut() {
                if known.contains(v) {
                    *v = new;
                }
            }
            for x in c {
                id.insert(x.0.clone(), new);
            }
        }
    }
    id
}

/// A stored tree and its columns' entries.
struct Stored13 {
    path: PathBuf,
    entries: BTreeMap<String, Vec<Vec<u8>>>,
    nearby: usize,
    lengths: bool,
    object: bool,
}

fn store13(c: &Read13, env: &Env) -> Result<Stored13, Fail> {
    let cols = c.shape.columns().expect("columns");
    let groups = together(&c.shape.nodes());
    let mut list: Vec<(String, L)> = cols.clone();
    // columns which are not designated, of the same types
    let mut nearby = 0;
    for (i, &o) in c.others.iter().enumerate() {
        let (name, l) = &cols[(i + o as usize / 8) % cols.len()];
        let nm = near(name, o);
        let taken = |n: &str| list.iter().any(|x| x.0 == n || (x.1 == L::VS || *l == L::VS) && (x.0.starts_with(&format!("{n}.")) || n.starts_with(&format!("{}.", x.0))) || counter_of(&x.0) == n || format!("{}.", x.0) == n || format!("{n}.") == x.0);
        if nm.is_empty() || nm.ends_with('.') || taken(&nm) || taken(&counter_of(&nm)) {
            continue;
        }
        list.push((nm, *l));
        nearby += 1;
    }
    if let Some(a) = c.absent {
        list.retain(|x| x.0 != cols[a as usize % cols.len()].0);
    }
    let k = list.len().max(1);
    list.rotate_left(c.rot as usize % k);
    let con = |i: usize| &c.cols[i % c.cols.len()];
    let mut out = Stored13 { path: PathBuf::new(), entries: BTreeMap::new(), nearby, lengths: false, object: false };
    let foreign = c.foreign || cols.iter().any(|x| x.1.ty().is_none());
    if !foreign {
        let mut spec = TreeSpec { name: "events".into(), cols: vec![] };
        for (i, (name, l)) in list.iter().enumerate() {
            let x = con(i);
            let n = c.n as usize + x.more as usize;
            out.lengths |= x.more > 0;
            let runs = (0..n).map(|j| Run { n: 1, sz: x.sizes[j % x.sizes.len()] }).collect();
            let col = Col { name: name.clone(), ty: l.ty().unwrap(), runs, pat: x.pat, seed: x.seed + i as u64 };
            out.entries.insert(name.clone(), col.entries());
            spec.cols.push(col);
        }
        out.path = env.path();
        write_file(&out.path, &[spec])?;
        return Ok(out);
    }
    let mut t = FTree {
        name: "events".into(),
        n: c.n,
        cols: vec![],
        members: vec![],
        store: (Algo::None, 0),
        clusters: 0,
        far: false,
        evers: 10,
        groups: vec![],
        dot: false,
        objs: vec![],
        rot: c.rot / 3,
        tvers: 0,
    };
    for (i, (name, l)) in list.iter().enumerate() {
        let x = con(i);
        // columns sliced together have the same sizes
        let sizes = match groups.get(name) {
            Some(g) => con(*g).sizes.clone(),
            None => x.sizes.clone(),
        };
        // an object cannot have the name of a column
        let inside = list.iter().any(|y| y.0.starts_with(&format!("{name}.")) || name.starts_with(&format!("{}.", y.0)));
        let member = x.pick & 1 == 1 && !inside;
        let kind = match (*l, member) {
            (L::S(p), false) => K::S(p),
            (L::S(p), true) => K::MS(p),
            (L::A(p, n), _) if n % 2 == 0 && x.pick & 2 == 2 => K::A2(p, 2, n / 2),
            (L::A(p, n), _) => K::A(p, n),
            (L::Str, false) => if x.pick & 2 == 2 { K::Str } else { K::TStr },
            (L::Str, true) => if x.pick & 2 == 2 { K::MStr } else { K::MTString },
            (L::V(p), false) => K::TVec(p),
            (L::V(p), true) => K::MVec(p),
            (L::J(p), false) => K::J(p),
            (L::J(p), true) => K::MJ(p),
            (L::VS, _) => K::MVecStr,
        };
        let mut col = FCol { kind, sizes, pat: x.pat, seed: x.seed + i as u64, parts: x.parts.clone(), embed: x.embed, ..FCol::simple(name, kind) };
        if !kind.member() {
            t.cols.push(col);
        } else {
            out.object = true;
            let class = format!("Class{i}");
            let mut path: Vec<&str> = name.split('.').collect();
            col.name = path.pop().unwrap().into();
            if path.is_empty() {
                t.members.push(col);
                continue;
            }
            // a member of a sub-object, or of an object whose name ends with a dot
            let top = x.pick & 4 == 4;
            let first = if top { format!("{}.", path[0]) } else { path[0].into() };
            let mut v = if top { &mut t.objs } else { &mut t.groups };
            path.remove(0);
            let mut nm = first;
            let mut d = 0;
            loop {
                let k = match v.iter().position(|g| g.name == nm) {
                    Some(k) => k,
                    None => {
                        v.push(Group { class: format!("{class}{d}"), name: nm, base: false, members: vec![], groups: vec![] });
                        v.len() - 1
                    }
                };
                if path.is_empty() {
                    v[k].members.push(col);
                    break;
                }
                nm = path.remove(0).into();
                d += 1;
                v = &mut v[k].groups;
            }
        }
    }
    for col in t.flat() {
        out.entries.insert(branch_name(&col), col.want(c.n as usize));
    }
    let f = FFile { trees: vec![t], seed: 1, tree_place: 0, info_store: (Algo::None, 0), big: false, far_at: 0, far_keys: false, far_infos: false };
    out.path = store_file(&f, env)?.0;
    Ok(out)
}

fn put(o: &mut Vec<u8>, b: &[u8]) {
    o.extend((b.len() as u32).to_le_bytes());
    o.extend(b);
}

/// The rows, by the zip of the designated columns.
fn rows13(shape: &Shape, entries: &BTreeMap<String, Vec<Vec<u8>>>) -> Vec<Vec<u8>> {
    let nodes = shape.nodes();
    let n = shape.columns().unwrap().iter().map(|c| entries[&c.0].len()).min().unwrap();
    (0..n)
        .map(|i| {
            let mut o = vec![];
            for node in &nodes {
                match node {
                    Node::Leaf(c, _) => put(&mut o, &entries[c][i]),
                    Node::Sliced(cols) => {
                        let k = entries[&cols[0].0][i].len() / cols[0].1.size();
                        o.extend((k as u32).to_le_bytes());
                        for j in 0..k {
                            for (c, p) in cols {
                                put(&mut o, &entries[c][i][j * p.size()..(j + 1) * p.size()]);
                            }
                        }
                    }
                }
            }
            o
        })
        .collect()
}

/// Rows read by a derived reader, to be compared with `want`.
fn check_rows(s: &Shape, prog: &(PathBuf, usize), path: &Path, tree: &str, want: &[Vec<u8>]) -> Result<u64, Fail> {
    let line = format!("R\t{}\t{}\t{tree}\t{}", prog.1, path.display(), want.len() + 3);
    let got = match ask(&prog.0, &line)? {
        Answer::Done(b) => b,
        Answer::Error(e) => bail!("reading rows of {:?} failed: {e}", s.columns().unwrap()),
    };
    let n = u32::from_le_bytes(got[..4].try_into().unwrap()) as usize;
    ensure!(n == want.len(), "{n} rows read, the shortest column of {:?} has {}", s.columns().unwrap(), want.len());
    let mut r = &got[4..];
    for (i, w) in want.iter().enumerate() {
        let g = &r[..w.len().min(r.len())];
        ensure!(g == &w[..], "row {i} of {:?}: expected {:02x?}, read {:02x?}", s.nodes(), &w[..w.len().min(120)], &g[..g.len().min(120)]);
        r = &r[w.len()..];
    }
    ensure!(r.is_empty(), "rows have {} bytes too many", r.len());
    Ok(want.len() as u64 + 1)
}

fn shape_labels(s: &Shape, info: &mut Info) {
    info.label(format!("depth-{}", s.depth()));
    for st in &s.structs {
        info.label_if(st.prefix.is_some(), "structure-prefix");
        for f in &st.fields {
            info.label_if(f.rename.is_some(), "rename");
            info.label_if(f.prefix.is_some(), "field-prefix");
            info.label_if(f.prefix.is_some() && st.prefix.is_some(), "both-prefixes");
            info.label_if(f.absolute.is_some(), "absolute");
            info.label_if(f.absolute.is_some() && f.rename.is_some(), "absolute+rename");
            info.label_if(f.absolute.is_some() && !matches!(f.ty, F::Leaf(_)), "absolute-structure");
            info.label_if(f.ident.starts_with("r#"), "raw-identifier");
            info.label(match f.ty {
                F::Leaf(L::S(_)) => "scalar",
                F::Leaf(L::A(..)) => "array",
                F::Leaf(L::Str) => "string",
                F::Leaf(L::V(_)) => "vector",
                F::Leaf(L::J(_)) => "slice",
                F::Leaf(L::VS) => "vector-string",
                F::Nested(_) => "nested",
                F::Sliced(_) => "sliced",
            });
        }
    }
}

fn prog_of(s: &Shape) -> Result<(PathBuf, usize), Fail> {
    program_for(s).map_err(|e| Fail::new(format!("the program with these structures does not compile:\n{}\n{e}", s.source(0))))
}

fn run13(c: &Read13, env: &Env) -> Res {
    let mut info = Info::default();
    let prog = prog_of(&c.shape)?;
    let st = store13(c, env)?;
    shape_labels(&c.shape, &mut info);
    if let Some(a) = c.absent {
        let cols = c.shape.columns().unwrap();
        let name = &cols[a as usize % cols.len()].0;
        let line = format!("R\t{}\t{}\tevents\t5", prog.1, st.path.display());
        match ask(&prog.0, &line)? {
            Answer::Error(e) if e.starts_with("from_tree") => {}
            Answer::Error(e) => bail!("{e}"),
            Answer::Done(_) => bail!("column {name:?} does not exist, and rows were read"),
        }
        info.label("absent-column");
        info.checks = 1;
        return Ok(info);
    }
    let want = rows13(&c.shape, &st.entries);
    info.checks = check_rows(&c.shape, &prog, &st.path, "events", &want)?;
    info.label_if(st.nearby > 0, "nearby-columns");
    info.label_if(st.lengths, "lengths-differ");
    info.label_if(st.object, "object-members");
    info.label_if(want.is_empty(), "no-rows");
    info.nontrivial = want.len() > 1 && c.shape.columns().unwrap().len() > 1;
    Ok(info)
}

fn content() -> impl Strategy<Value = Content> {
    (0u8..8, sizes(), pat(), 0u64..1000, parts(), prop::bool::weighted(0.2), prop_oneof![3 => Just(0u8), 1 => 0u8..4])
        .prop_map(|(pick, sizes, pat, seed, parts, embed, more)| Content { pick, sizes, pat, seed, parts, embed, more })
}

fn rows_n(tier: Tier) -> BoxedStrategy<u32> {
    let _ = tier;
    prop_oneof![1 => Just(0u32), 4 => 1u32..6, 4 => 1u32..40, 1 => 40u32..200, 1 => prop_oneof![8 => 200u32..300, 2 => 300u32..1500, 1 => 4000u32..6000]].boxed()
}

fn gen13(tier: Tier) -> BoxedStrategy<Read13> {
    let all = shapes(false);
    (
        0..all.len(),
        rows_n(tier),
        prop::collection::vec(content(), 1..6),
        any::<bool>(),
        prop::collection::vec(any::<u8>(), 0..8),
        prop::option::weighted(0.12, any::<u8>()),
        any::<u8>(),
    )
        .prop_map(move |(k, n, cols, foreign, others, absent, rot)| Read13 { shape: all[k].clone(), n, cols, foreign, others, absent, rot })
        .boxed()
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        subs: vec![Box::new(Sub {
            name: "derived-rows",
            rule: "generated programs with derived structures (nested, sliced, every naming attribute; compiled at the start of the run) x tree contents by two writers; non-trivial: at least two columns and two rows",
            quick: 24000,
            thorough: 400_000,
            fixed: |_| vec![],
            gen: gen13,
            run: run13,
            shards: 8,
        })],
        assumptions: &[
            "structures with named fields and no type parameters, at most five per program, nested up to four levels",
            "columns that are sliced together have equally many elements in every row",
        ],
    }
}

// ---------------------------------------------------------------- C14

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Part {
    /// rows written through the derived writer
    Derived { shape: Shape, n: u32, cols: Vec<Content> },
    /// a column added on its own
    Plain { name: String, ty: Ty, n: u32, x: Content },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Write14 {
    parts: Vec<Part>,
}

fn col_of14(name: &str, ty: Ty, n: u32, x: &Content, i: usize) -> Col {
    let runs = (0..n as usize).map(|j| Run { n: 1, sz: x.sizes[j % x.sizes.len()] }).collect();
    Col { name: name.into(), ty, runs, pat: x.pat, seed: x.seed + i as u64 }
}

fn run14(c: &Write14, env: &Env) -> Res {
    let mut info = Info::default();
    // all shapes of a tree must be in one program: the others are left out
    let mut prog: Option<PathBuf> = None;
    let mut spec = TreeSpec { name: "events".into(), cols: vec![] };
    let mut job = vec![];
    put(&mut job, b"events");
    let mut parts = vec![];
    let mut derived = vec![];
    let mut nparts = 0u32;
    for p in &c.parts {
        match p {
            Part::Derived { shape, n, cols } => {
                let at = prog_of(shape)?;
                let names = shape.columns().unwrap();
                if prog.as_ref().map_or(false, |p| *p != at.0) || names.iter().any(|x| spec.cols.iter().any(|y| y.name == x.0)) {
                    continue;
                }
                // the columns are in the order of the fields
                let mut entries = BTreeMap::new();
                for (i, (name, l)) in names.iter().enumerate() {
                    let col = col_of14(name, l.ty().unwrap(), *n, &cols[i % cols.len()], i);
                    entries.insert(name.clone(), col.entries());
                    spec.cols.push(col);
                }
                let rows = rows13(shape, &entries);
                for v in [0, at.1 as u32, *n] {
                    parts.extend(v.to_le_bytes());
                }
                put(&mut parts, &rows.concat());
                derived.push((shape, at.clone(), rows));
                prog = Some(at.0);
            }
            Part::Plain { name, ty, n, x } => {
                if spec.cols.iter().any(|y| y.name == *name) {
                    continue;
                }
                let col = col_of14(name, *ty, *n, x, 0);
                parts.extend(1u32.to_le_bytes());
                put(&mut parts, name.as_bytes());
                put(&mut parts, ty.rust().as_bytes());
                parts.extend(n.to_le_bytes());
                for e in col.entries() {
                    put(&mut parts, &e);
                }
                spec.cols.push(col);
            }
        }
        nparts += 1;
    }
    let Some(prog) = prog else { return Ok(info) };
    job.extend(nparts.to_le_bytes());
    job.extend(parts);
    let jp = env.path();
    let out = env.path();
    std::fs::write(&jp, &job).expect("job");
    match ask(&prog, &format!("W\t{}\t{}", out.display(), jp.display()))? {
        Answer::Done(_) => {}
        Answer::Error(e) => bail!("writing failed: {e}"),
    }
    // the library's reader and the independent one
    let mut f = open(&out)?;
    let tree = get_tree(&mut f, "events")?;
    info.checks += check_tree(&tree, &spec, Mode::Checked)?;
    let stored = |p: &Path| -> Result<_, Fail> {
        let r = RFile::open(p.to_str().unwrap()).map_err(|e| Fail::new(format!("independent parser: {e}")))?;
        let k = r.keys.iter().find(|k| k.class == "TTree").cloned().ok_or_else(|| Fail::new("no tree"))?;
        r.tree(&k).map_err(|e| Fail::new(format!("independent parser, tree: {e}")))
    };
    let a = stored(&out)?;
    // column by column
    let alone = env.path();
    write_file(&alone, std::slice::from_ref(&spec))?;
    let b = stored(&alone)?;
    ensure!(a.entries == b.entries, "{} entries, {} when written column by column", a.entries, b.entries);
    ensure!(a.branches.len() == b.branches.len(), "{} columns, {} when written column by column", a.branches.len(), b.branches.len());
    for (x, y) in a.branches.iter().zip(&b.branches) {
        ensure!(x.name == y.name, "column {:?}, {:?} when written column by column", x.name, y.name);
        ensure!(x.data == y.data, "column {:?} holds other entries than when written on its own", x.name);
        info.checks += x.data.len() as u64;
    }
    let (la, lb) = (std::fs::metadata(&out).unwrap().len(), std::fs::metadata(&alone).unwrap().len());
    let (da, db) = (out.to_str().unwrap().len() as u64, alone.to_str().unwrap().len() as u64);
    ensure!(da != db || la == lb, "file of {la} bytes, {lb} bytes when written column by column");
    for (shape, at, rows) in &derived {
        info.checks += check_rows(shape, at, &out, "events", rows)?;
        shape_labels(shape, &mut info);
        info.label_if(rows.is_empty(), "no-rows");
        info.nontrivial |= rows.len() > 1;
    }
    info.label_if(derived.len() > 1, "two-structures");
    info.label_if(nparts as usize > derived.len(), "with-plain-columns");
    Ok(info)
}

fn gen14(tier: Tier) -> BoxedStrategy<Write14> {
    let all = shapes(true);
    let part = move || {
        (0..all.len(), rows_n(tier), prop::collection::vec(content(), 1..6)).prop_map(move |(k, n, cols)| (k, n, cols))
    };
    let plain_ty = prop_oneof![5 => prim().prop_map(Ty::S), 1 => Just(Ty::Str), 1 => Just(Ty::V(P::I32))];
    let plain = ("[a-f]{3}", plain_ty, rows_n(tier), content()).prop_map(|(name, ty, n, x)| Part::Plain { name, ty, n, x });
    (part(), prop::option::weighted(0.3, part()), prop::collection::vec((plain, any::<bool>()), 0..3))
        .prop_map(move |((k, n, cols), second, plains)| {
            let mut parts = vec![Part::Derived { shape: all[k].clone(), n, cols }];
            if let Some((k2, n, cols)) = second {
                // of the same program
                let k2 = (k2 / BINS * BINS + k % BINS).min(all.len() - 1);
                parts.push(Part::Derived { shape: all[k2].clone(), n, cols });
            }
            for (p, front) in plains {
                if front {
                    parts.insert(0, p)
                } else {
                    parts.push(p)
                }
            }
            Write14 { parts }
        })
        .boxed()
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        subs: vec![Box::new(Sub {
            name: "derived-writer",
            rule: "generated programs with derived structures (compiled at the start of the run) x rows, one or two structures per tree next to plain columns; non-trivial: two rows or more",
            quick: 10000,
            thorough: 250_000,
            fixed: |_| vec![],
            gen: gen14,
            run: run14,
            shards: 8,
        })],
        assumptions: &["structures with named fields and no type parameters, at most five per program, nested up to four levels", "fields of types the library writes"],
    }
}
