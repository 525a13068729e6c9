//! C18: what the command-line tools print.
use super::common::*;
use super::foreign::*;
use super::p_cont::*;
use super::p_foreign::store_file;
use super::p_write::{tree_name, tree_spec};
use super::types::*;
use crate::engine::*;
use crate::model::*;
use crate::refroot::comp::Algo;
use crate::refroot::read::RFile;
use crate::refroot::write::{build, BranchS};
use crate::{ensure, with_prim};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

// ------------------------------------------------------------- debug representation

fn dbg_prims(p: P, b: &[u8]) -> Vec<String> {
    with_prim!(p, T => de_vec::<T>(b).iter().map(|x| format!("{x:?}")).collect())
}
fn dbg_list(v: Vec<String>) -> String {
    format!("[{}]", v.join(", "))
}
fn dbg_text(b: &[u8]) -> String {
    format!("{:?}", std::str::from_utf8(b).expect("text"))
}
fn dbg_words(b: &[u8]) -> Vec<String> {
    let mut v = vec![];
    let mut b = b;
    while !b.is_empty() {
        let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
        v.push(dbg_text(&b[4..4 + n]));
        b = &b[4 + n..];
    }
    v
}
fn dbg_ty(ty: Ty, b: &[u8]) -> String {
    match ty {
        Ty::S(p) => dbg_prims(p, b).remove(0),
        Ty::A(p, _) | Ty::V(p) => dbg_list(dbg_prims(p, b)),
        Ty::Str => dbg_text(b),
    }
}
fn dbg_kind(k: K, b: &[u8]) -> String {
    match k {
        K::S(p) | K::MS(p) => dbg_ty(Ty::S(p), b),
        K::A(p, _) | K::MA(p, _) | K::A2(p, ..) | K::MA2(p, ..) | K::J(p) | K::J2(p, _) | K::MJ(p) | K::TVec(p) | K::MVec(p) => dbg_ty(Ty::V(p), b),
        K::Str | K::TStr | K::MStr | K::MTString => dbg_text(b),
        K::MVecStr => dbg_list(dbg_words(b)),
    }
}
fn dbg_val(t: &CT, v: &Val) -> String {
    match (t, v) {
        (CT::P(p), Val::P(b)) => dbg_ty(Ty::S(*p), b),
        (CT::Str, Val::Str(s)) => format!("{s:?}"),
        (CT::Vec(t), Val::Seq(v)) => dbg_list(v.iter().map(|x| dbg_val(t, x)).collect()),
        (CT::Set(t), Val::Seq(v)) => format!("{{{}}}", v.iter().map(|x| dbg_val(t, x)).collect::<Vec<_>>().join(", ")),
        (CT::Map(k, t), Val::Map(v)) => format!("{{{}}}", v.iter().map(|x| format!("{}: {}", dbg_val(k, &x.0), dbg_val(t, &x.1))).collect::<Vec<_>>().join(", ")),
        _ => unreachable!(),
    }
}

/// A printed value with the members of sets and maps in a fixed order.
fn sorted(s: &str) -> Option<String> {
    fn value(s: &mut &str) -> Option<String> {
        let c = s.chars().next()?;
        if c == '[' || c == '{' {
            let close = if c == '[' { ']' } else { '}' };
            *s = &s[1..];
            let mut v = vec![];
            if let Some(r) = s.strip_prefix(close) {
                *s = r;
                return Some(format!("{c}{close}"));
            }
            loop {
                let mut x = value(s)?;
                if let Some(r) = s.strip_prefix(": ") {
                    *s = r;
                    x = format!("{x}: {}", value(s)?);
                }
                v.push(x);
                if let Some(r) = s.strip_prefix(", ") {
                    *s = r;
                    continue;
                }
                *s = s.strip_prefix(close)?;
                break;
            }
            if c == '{' {
                v.sort();
            }
            return Some(format!("{c}{}{close}", v.join(", ")));
        }
        if c == '"' {
            let mut esc = false;
            for (i, c) in s.char_indices().skip(1) {
                match c {
                    _ if esc => esc = false,
                    '\\' => esc = true,
                    '"' => {
                        let r = s[..=i].to_string();
                        *s = &s[i + 1..];
                        return Some(r);
                    }
                    _ => {}
                }
            }
            return None;
        }
        let end = s.find([',', ']', '}', ':']).unwrap_or(s.len());
        let r = s[..end].to_string();
        *s = &s[end..];
        (!r.is_empty()).then_some(r)
    }
    let mut r = s;
    let v = value(&mut r)?;
    r.is_empty().then_some(v)
}

// -------------------------------------------------------------------- expected output

struct Line {
    name: String,
    cpp: String,
    rust: String,
    /// printed entries; None for what the tools do not dump
    vals: Option<Vec<String>>,
}
struct Shown {
    title: String,
    n: usize,
    lines: Vec<Line>,
}

enum Piece {
    Text(String),
    /// up to the end of the line
    Val(String),
    /// any lines
    Noise,
}

fn overview(t: &Shown) -> Piece {
    let mut s = format!("{:<30} | {:<30} | {:<30}\n", "name", "typename", "interpretation");
    let rule = "-".repeat(31);
    s.push_str(&format!("{rule}+{rule}+{rule}\n"));
    for l in &t.lines {
        let ty: String = l.cpp.chars().take(30).collect();
        s.push_str(&format!("{:<30} | {ty:<30} | {:<30}\n", l.name, l.rust));
    }
    Piece::Text(s)
}

fn compare(what: &str, out: &str, want: &[Piece]) -> Result<u64, Fail> {
    let mut n = 0;
    let mut rest = out;
    let mut it = want.iter().peekable();
    while let Some(p) = it.next() {
        n += 1;
        match p {
            Piece::Text(t) => match rest.strip_prefix(t.as_str()) {
                Some(r) => rest = r,
                None => {
                    let k = rest.bytes().zip(t.bytes()).take_while(|(a, b)| a == b).count();
                    let from = (0..=k).rev().find(|&i| rest.is_char_boundary(i) && t.is_char_boundary(i) && k - i >= 20).unwrap_or(0);
                    crate::bail!("{what}: printed {:?}, expected {:?} (after {} bytes)", cut(&rest[from..]), cut(&t[from..]), out.len() - rest.len() + from)
                }
            },
            Piece::Val(v) => {
                let (l, r) = rest.split_once('\n').unwrap_or((rest, ""));
                ensure!(l == v || sorted(l).is_some_and(|l| Some(l) == sorted(v)), "{what}: value {:?} printed, expected {:?}", cut(l), cut(v));
                rest = r;
            }
            Piece::Noise => {
                let next = match it.peek() {
                    Some(Piece::Text(t)) => Some(t.clone()),
                    _ => None,
                };
                loop {
                    if rest.is_empty() || next.as_ref().is_some_and(|t| rest.starts_with(t.as_str())) {
                        break;
                    }
                    rest = rest.split_once('\n').map(|x| x.1).unwrap_or("");
                }
            }
        }
    }
    ensure!(rest.is_empty(), "{what}: printed {:?} beyond what is expected", cut(rest));
    Ok(n)
}
fn cut(s: &str) -> String {
    s.chars().take(120).collect()
}

// --------------------------------------------------------------------------- files

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Src {
    Written(Vec<TreeSpec>),
    Foreign(FFile, Vec<(String, String, String)>),
    Cont(CFile),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Tools {
    src: Src,
    /// spelling of the option, and of the path
    opt: u8,
    absent: u8,
}

fn foreign_lines(v: &[BranchS], cols: &HashMap<String, (K, Vec<Vec<u8>>)>, out: &mut Vec<Line>) {
    for b in v {
        let (rust, vals) = if !b.children.is_empty() {
            (b.cpp.clone(), None)
        } else if let Some((k, w)) = cols.get(&b.name) {
            (super::p_show::rust_of(*k), Some(w.iter().map(|w| dbg_kind(*k, w)).collect()))
        } else {
            // a counter
            let p = if b.cpp == "uint32_t" { P::U32 } else { P::I32 };
            (p.rust().to_string(), Some(b.data.iter().map(|w| dbg_ty(Ty::S(p), w)).collect()))
        };
        out.push(Line { name: b.name.clone(), cpp: b.cpp.clone(), rust, vals });
        foreign_lines(&b.children, cols, out);
    }
}

/// Store the file; what is shown of each tree.
fn store(c: &Src, env: &Env) -> Result<(PathBuf, HashMap<String, Shown>), Fail> {
    let mut m = HashMap::new();
    let p = match c {
        Src::Written(ts) => {
            let p = env.path();
            write_file(&p, ts)?;
            for t in ts {
                let lines = t
                    .cols
                    .iter()
                    .map(|c| Line { name: c.name.clone(), cpp: c.ty.cpp(), rust: c.ty.rust(), vals: Some(c.entries().iter().map(|e| dbg_ty(c.ty, e)).collect()) })
                    .collect();
                m.insert(t.name.clone(), Shown { title: String::new(), n: t.entries(), lines });
            }
            p
        }
        Src::Foreign(f, others) => {
            let mut s = file_s(f);
            for (k, o) in others.iter().enumerate() {
                let body: Vec<u8> = (0..(k * 37 % 90 + 1) as u8).collect();
                s.others.push((o.0.clone(), o.1.clone(), o.2.clone(), body, (Algo::None, 0)));
            }
            let p = if others.is_empty() {
                store_file(f, env)?.0
            } else {
                let p = env.path();
                build(&s).save(&p).expect("scratch file");
                p
            };
            for (t, ts) in f.trees.iter().zip(&s.trees) {
                let cols = t.flat().iter().map(|c| (branch_name(c), (c.kind, c.want(t.n as usize)))).collect();
                let mut lines = vec![];
                foreign_lines(&ts.branches, &cols, &mut lines);
                m.insert(t.name.clone(), Shown { title: ts.title.clone(), n: t.n as usize, lines });
            }
            p
        }
        Src::Cont(f) => {
            let p = env.path();
            let s = cont_file(f);
            build(&s).save(&p).expect("scratch file");
            let mut lines = vec![];
            let line = |b: &BranchS| {
                let c = &f.cols[b.name[1..].parse::<usize>().unwrap()];
                let rust = if tstring(c.alt) { c.ct.rust().replace("String", "TString") } else { c.ct.rust() };
                Line { name: b.name.clone(), cpp: c.ct.cpp(c.alt), rust, vals: Some(c.values(f.n as usize).iter().map(|v| dbg_val(&c.ct, v)).collect()) }
            };
            for b in &s.trees[0].branches {
                if b.children.is_empty() {
                    lines.push(line(b));
                } else {
                    let cl = b.elem.as_ref().unwrap().class_name.clone();
                    lines.push(Line { name: b.name.clone(), cpp: cl.clone(), rust: cl, vals: None });
                    lines.extend(b.children.iter().map(line));
                }
            }
            m.insert("t".into(), Shown { title: s.trees[0].title.clone(), n: f.n as usize, lines });
            p
        }
    };
    Ok((p, m))
}

fn tool(name: &str) -> PathBuf {
    let exe = std::env::current_exe().expect("exe");
    exe.parent().unwrap().parent().unwrap().join("tools/debug").join(name)
}

/// Run a tool; its output, and whether it reported success.
fn run_tool(name: &str, file: &Path, opt: u8) -> Result<(String, bool, String), Fail> {
    let mut c = Command::new(tool(name));
    c.env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").stdin(Stdio::null());
    match opt % 3 {
        0 => c.arg("-f").arg(file),
        1 => c.arg("--file").arg(file),
        _ => {
            let mut a = std::ffi::OsString::from("--file=");
            a.push(file);
            c.arg(a)
        }
    };
    let o = c.output().unwrap_or_else(|e| panic!("running {name}: {e}"));
    let out = String::from_utf8(o.stdout).map_err(|_| Fail::new(format!("{name} printed something that is not text")))?;
    Ok((out, o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned()))
}

fn run(c: &Tools, env: &Env) -> Res {
    let mut info = Info::default();
    let (p, trees) = store(&c.src, env)?;
    // the keys as an independent parser finds them
    let keys = RFile::open(p.to_str().unwrap()).map_err(|e| Fail::new(format!("file {p:?} is not well-formed: {e}")))?.keys;
    let head = || Piece::Text(format!("=== {p:?} ===\n"));

    let mut want = vec![head()];
    for k in &keys {
        want.push(Piece::Text(format!("> {} name='{}' (title='{}')\n", k.class, k.name, k.title)));
        match trees.get(&k.name) {
            Some(t) if k.class == "TTree" => {
                ensure!(k.title == t.title, "tree {:?} is titled {:?}, stored as {:?}", k.name, k.title, t.title);
                want.push(Piece::Text(format!("> Data in {}:\n", k.name)));
                want.push(overview(t));
            }
            _ => want.push(Piece::Noise),
        }
    }
    let (out, ok, err) = run_tool("oxyroot-ls", &p, c.opt)?;
    ensure!(ok, "oxyroot-ls failed: {}", cut(&err));
    info.checks += compare("oxyroot-ls", &out, &want)?;

    let mut want = vec![head()];
    for k in &keys {
        match trees.get(&k.name) {
            Some(t) if k.class == "TTree" => {
                want.push(Piece::Text(format!(">>> tree: {:?}\n", k.name)));
                want.push(overview(t));
                for i in 0..t.n {
                    for l in &t.lines {
                        if let Some(v) = &l.vals {
                            want.push(Piece::Text(format!("[{i}][{}]: ", l.name)));
                            want.push(Piece::Val(v.get(i).cloned().unwrap_or_else(|| "None".into())));
                        }
                    }
                }
            }
            _ if matches!(want.last(), Some(Piece::Noise)) => {}
            _ => want.push(Piece::Noise),
        }
    }
    let (out, ok, err) = run_tool("oxyroot-dump", &p, c.opt / 3)?;
    ensure!(ok, "oxyroot-dump failed: {}", cut(&err));
    info.checks += compare("oxyroot-dump", &out, &want)?;

    if c.absent < 60 {
        let gone = match c.absent % 3 {
            0 => p.with_extension("gone"),
            1 => p.with_file_name("no-such-folder").join("f.root"),
            _ => p.with_file_name(""),
        };
        if !gone.exists() {
            for t in ["oxyroot-ls", "oxyroot-dump"] {
                let (_, ok, _) = run_tool(t, &gone, c.opt)?;
                ensure!(!ok, "{t} reports success on {gone:?}, which does not exist");
                info.checks += 1;
            }
            info.label("absent-file");
        }
    }
    info.label(match &c.src {
        Src::Written(_) => "written",
        Src::Foreign(..) => "foreign",
        Src::Cont(_) => "containers",
    });
    info.label_if(keys.iter().any(|k| k.class != "TTree"), "other-keys");
    info.label_if(keys.is_empty(), "no-keys");
    info.label_if(trees.len() > 1, "several-trees");
    info.label_if(trees.values().any(|t| t.lines.iter().any(|l| l.vals.as_ref().is_some_and(|v| v.len() < t.n))), "shorter-column");
    for t in trees.values() {
        for l in &t.lines {
            info.label_if(l.vals.is_none(), "object");
            info.label_if(l.rust.starts_with("HashMap"), "map");
            info.label_if(l.rust.contains("HashSet"), "set");
            info.label_if(l.rust.starts_with("Slice"), "slice");
            info.label_if(l.rust.starts_with('['), "array");
            info.label_if(l.rust.contains("64"), "64-bit");
        }
    }
    info.nontrivial = trees.values().any(|t| t.n > 0 && t.lines.iter().filter(|l| l.vals.is_some()).count() > 1);
    Ok(info)
}

// ---------------------------------------------------------------------- generation

/// what the dump tool knows how to print
fn dumpable(t: &CT) -> bool {
    let atom = |t: &CT| matches!(t, CT::P(_) | CT::Str);
    let flat = |t: &CT| match t {
        CT::Vec(x) => atom(x) || matches!(&**x, CT::Vec(y) if atom(y)) || matches!(&**x, CT::Set(y) if atom(y)),
        CT::Set(x) => atom(x),
        _ => atom(t),
    };
    match t {
        CT::Map(_, v) => flat(v),
        t => flat(t),
    }
}

fn others() -> impl Strategy<Value = Vec<(String, String, String)>> {
    let class = prop::sample::select(vec!["TH1F", "TNamed", "TObjString", "TDirectoryFile", "MyThing"]);
    prop_oneof![
        2 => Just(vec![]),
        1 => prop::collection::vec((class, prop::sample::select(vec!["h", "h2", "dir", "a b", "été"]), prop::sample::select(vec!["", "a title", "x (title='y')"])), 1..4)
            .prop_map(|v| v.into_iter().enumerate().map(|(i, x)| (x.0.to_string(), format!("{}{i}", x.1), x.2.to_string())).collect()),
    ]
}

fn gen(t: Tier) -> BoxedStrategy<Tools> {
    let n = if t == Tier::Quick { 20 } else { 60 };
    let src = prop_oneof![
        3 => (prop::collection::vec((tree_spec(5, 400), tree_name()), 0..3)).prop_map(|v| {
            let mut out: Vec<TreeSpec> = vec![];
            for (mut t, name) in v {
                t.name = name;
                // the latest tree of a name is C04's matter
                if !t.name.contains('/') && !out.iter().any(|x| x.name == t.name) {
                    out.push(t);
                }
            }
            Src::Written(out)
        }),
        4 => (ffile(true, n, 3), ftree(Opt { compress: false, max_n: 6, ncols: 2 }), prop::bool::weighted(0.3), others()).prop_map(|(mut f, mut t, two, o)| {
            if two && !f.trees[0].has_obj() {
                t.name = "second".into();
                f.trees.push(t);
            }
            Src::Foreign(f, o)
        }),
        3 => cfile(n, 3).prop_map(|mut f| {
            f.cols.retain(|c| dumpable(&c.ct));
            Src::Cont(f)
        }),
    ];
    (src, any::<u8>(), any::<u8>()).prop_map(|(src, opt, absent)| Tools { src, opt, absent }).boxed()
}

fn fixed(_: Tier) -> Vec<Tools> {
    // every type of container, and every element of the plain kinds
    let mut v: Vec<Tools> = known_ct()
        .into_iter()
        .filter(dumpable)
        .enumerate()
        .map(|(i, ct)| {
            let c = CCol { ct, alt: [0u8, 1, 2, 12][i % 4], seed: i as u64, max: 3, parts: vec![2], embed: false, nulls: 0, vers: 13, member: false, store: (Algo::None, 0) };
            Tools { src: Src::Cont(CFile { n: 4, cols: vec![c], seed: 1, evers: 10 }), opt: 0, absent: 255 }
        })
        .collect();
    for p in PRIMS {
        let mut kinds = vec![K::S(p), K::A(p, 3), K::A2(p, 2, 2), K::J(p), K::MS(p), K::MJ(p), K::MVec(p)];
        if p != P::Bool {
            kinds.push(K::TVec(p));
        }
        for k in kinds {
            let c = FCol { name: "c".into(), ..FCol::simple("c", k) };
            let (cols, members) = if k.member() { (vec![], vec![c]) } else { (vec![c], vec![]) };
            let t = FTree { name: "t".into(), n: 5, cols, members, store: (Algo::None, 0), clusters: 0, far: false, evers: 10, groups: vec![], dot: false, objs: vec![], rot: 0, tvers: 0 };
            let f = FFile { trees: vec![t], seed: 1, tree_place: 2, info_store: (Algo::None, 0), big: false, far_at: 0, far_keys: false, far_infos: false };
            v.push(Tools { src: Src::Foreign(f, vec![]), opt: 0, absent: 255 });
        }
    }
    // more entries, columns or trees than a byte (or two) can count
    let col = |i: usize, ty: Ty, n: u32| Col { name: format!("c{i}"), ty, runs: vec![Run { n, sz: 2 }], pat: Pat::Rand, seed: i as u64 };
    let tys = [Ty::S(P::I32), Ty::Str, Ty::V(P::U16), Ty::A(P::F32, 3)];
    let many = vec![
        vec![TreeSpec { name: "t".into(), cols: vec![col(0, Ty::S(P::U8), 66_000), col(1, Ty::Str, 3000)] }],
        vec![TreeSpec { name: "t".into(), cols: (0..300).map(|i| col(i, tys[i % 4], 2)).collect() }],
        (0..300).map(|i| TreeSpec { name: format!("t{}", i % 290), cols: vec![col(i, tys[i % 4], i as u32 % 3)] }).collect(),
        vec![TreeSpec { name: "t".into(), cols: vec![Col { runs: vec![Run { n: 2, sz: 70_000 }], ..col(0, Ty::Str, 0) }, Col { runs: vec![Run { n: 2, sz: 3000 }], ..col(1, Ty::V(P::I64), 0) }] }],
    ];
    v.extend(many.into_iter().map(|ts| Tools { src: Src::Written(ts), opt: 0, absent: 255 }));
    v
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C18",
        assumptions: &[
            "The tools are built from their sources in /repo with the harness' own lock file.",
            "Foreign files are written by the harness' own ROOT writer; the keys are listed by its own parser.",
            "Values are compared in the debug representation of their Rust type; the order within sets and maps is not compared.",
        ],
        subs: vec![Box::new(Sub::<Tools> {
            name: "output",
            rule: "files of the library and of the independent writer with columns of every kind, containers, split objects, several trees, keys that are not trees; both tools are run and their whole output compared with the expected one (keys, overview, every entry of every column in order), and their exit status, also on absent files; non-trivial when a tree has entries in two or more columns; distinct by serialised case",
            quick: 6000,
            thorough: 60000,
            fixed,
            gen,
            run,
            shards: SHARDS,
        })],
    }]
}
