//! C10, C11: container columns and the typing of columns.
use super::common::*;
use super::foreign::*;
use super::types::*;
use crate::engine::*;
use crate::model::*;
use crate::refroot::comp::Algo;
use crate::refroot::read::RFile;
use crate::refroot::write::*;
use crate::ensure;
use super::p_write::tree_spec;
use oxyroot::{Branch, Named, ReaderTree, RootFile};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A column of a standard container, as a branch of its own or as member of a split class.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CCol {
    pub ct: CT,
    pub alt: u8,
    pub seed: u64,
    pub max: u32,
    pub parts: Vec<u32>,
    pub embed: bool,
    pub nulls: u8,
    pub vers: u16,
    pub member: bool,
    pub store: (Algo, u32),
}

impl CCol {
    pub fn values(&self, n: usize) -> Vec<Val> {
        let mut m = Mix(self.seed);
        (0..n).map(|_| self.ct.value(&mut m, self.max as u64)).collect()
    }
    fn fcol(&self) -> FCol {
        let mut f = FCol::simple("", K::TStr);
        f.parts = self.parts.clone();
        f
    }
    /// maps are stored as members in a way the format's description does not settle
    pub fn is_member(&self) -> bool {
        self.member && !matches!(self.ct, CT::Map(..) | CT::P(_))
    }
}

const CLASS: &str = "Holder";

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CFile {
    pub n: u32,
    pub cols: Vec<CCol>,
    pub seed: u64,
    pub evers: u16,
}

fn branch(c: &CCol, i: usize, n: usize, evers: u16, ids: &mut Ids) -> BranchS {
    let m = c.is_member();
    let name = format!("c{i}");
    let plain_tstring = c.ct == CT::Str && c.ct.cxx(c.alt) == "TString";
    let stype = match (&c.ct, m) {
        (CT::Str, true) if plain_tstring => 65,
        (_, true) => 300,
        _ => -1,
    };
    BranchS {
        name: name.clone(),
        title: name.clone(),
        id: ids.next(),
        elem: Some(ElemS {
            class_name: if m { CLASS.into() } else { c.ct.cxx(c.alt) },
            parent: if m { CLASS.into() } else { String::new() },
            checksum: 77,
            class_vers: 1,
            id: if m { i as i32 } else { -1 },
            btype: 0,
            stype,
            max: 0,
            count: None,
            vers: evers,
        }),
        leaves: vec![LeafS {
            class: "TLeafElement".into(),
            name: name.clone(),
            title: name.clone(),
            len: 1,
            size: 4,
            id: ids.next(),
            elem_id: if m { i as i32 } else { -1 },
            ltype: stype,
            ..Default::default()
        }],
        data: c
            .values(n)
            .iter()
            .map(|v| {
                let b = c.ct.stored(v, c.alt);
                // a string member carries a header, a TString does not
                if m && c.ct == CT::Str && !plain_tstring { with_header(9, b) } else { b }
            })
            .collect(),
        entries: n as i64,
        offsets: true,
        parts: c.fcol().partition(n),
        store: vec![(c.store.0, c.store.1 as usize)],
        embed: c.embed,
        nulls: c.nulls as usize,
        spare: 3,
        split: 0,
        vers: c.vers,
        ..Default::default()
    }
}

fn info(cols: &[(usize, &CCol)]) -> InfoS {
    InfoS {
        name: CLASS.into(),
        checksum: 77,
        vers: 1,
        elems: cols
            .iter()
            .map(|(i, c)| {
                let t = c.ct.cxx(c.alt);
                let (class, ty, stl) = match t.as_str() {
                    "string" => ("TStreamerSTLstring", 500, 365),
                    "TString" => ("TStreamerString", 65, 0),
                    x if x.starts_with("set") => ("TStreamerSTL", 500, 6),
                    _ => ("TStreamerSTL", 500, 1),
                };
                InfoElemS {
                    class: class.into(),
                    name: format!("c{i}"),
                    ty,
                    size: 24,
                    type_name: t,
                    stl,
                    ctype: if stl == 365 { 365 } else { 61 },
                    ..Default::default()
                }
            })
            .collect(),
    }
}

pub fn cont_file(f: &CFile) -> FileS {
    let mut ids = Ids::new();
    let n = f.n as usize;
    let mut branches = vec![];
    let mut children = vec![];
    let mut members = vec![];
    for (i, c) in f.cols.iter().enumerate() {
        let b = branch(c, i, n, f.evers, &mut ids);
        if c.is_member() {
            children.push(b);
            members.push((i, c));
        } else {
            branches.push(b);
        }
    }
    if !children.is_empty() {
        branches.push(BranchS {
            name: "holder".into(),
            title: "holder".into(),
            id: ids.next(),
            elem: Some(ElemS { class_name: CLASS.into(), checksum: 77, class_vers: 1, id: -2, stype: -1, vers: f.evers, ..Default::default() }),
            leaves: vec![LeafS {
                class: "TLeafElement".into(),
                name: "holder".into(),
                title: "holder".into(),
                len: 1,
                size: 4,
                id: ids.next(),
                elem_id: -2,
                ltype: -1,
                ..Default::default()
            }],
            entries: n as i64,
            split: 99,
            vers: 13,
            spare: 9,
            children,
            ..Default::default()
        });
    }
    let infos = if members.is_empty() { vec![] } else { vec![info(&members)] };
    FileS {
        name: "containers.root".into(),
        trees: vec![TreeS { name: "t".into(), entries: n as i64, branches, ..Default::default() }],
        infos,
        seed: f.seed,
        tree_place: 2,
        compress: 101,
        ..Default::default()
    }
}

pub fn cont_open(f: &CFile, env: &Env) -> Result<ReaderTree, Fail> {
    let p = env.path();
    build(&cont_file(f)).save(&p).expect("scratch file");
    let mut r = open(&p)?;
    get_tree(&mut r, "t")
}

fn col<'a>(t: &'a ReaderTree, name: &str) -> Result<&'a Branch, Fail> {
    t.branch(name).ok_or_else(|| Fail::new(format!("column {name:?} not found")))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cont {
    file: CFile,
    mode: Mode,
}

/// Development aid: the encoding against the repository's sample written by ROOT.
fn self_check() {
    if std::env::var("OXY_SELFCHECK").is_err() {
        return;
    }
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let f = RFile::open("/repo/oxyroot/tests/stl_containers/stl_containers.root").unwrap();
        let k = f.keys.iter().find(|k| k.class == "TTree").unwrap().clone();
        let t = f.tree(&k).unwrap();
        let mut n = 0;
        for b in &t.branches {
            let clean = b.class_name.replace("unsigned int", "uint32_t").replace("int", "int32_t").replace("uint32_t32_t", "uint32_t").replace("short", "int16_t").replace(' ', "");
            let Some(ct) = parse_cpp(&clean) else {
                println!("sample: skip {} {clean}", b.name);
                continue;
            };
            // the sample with both kinds of strings has std::string keys
            let alt = 0;
            if clean == "map<string,TString>" {
                continue;
            }
            for e in &b.data {
                let mut body = &e[match ct { CT::Map(..) => 12, CT::Str | CT::P(_) => 0, _ => 6 }..];
                let v = match ct.parse(&mut body, alt) { Ok(v) => v, Err(x) => { println!("sample {} {clean}: {x} in {e:02x?}", b.name); continue } };
                assert!(body.is_empty());
                let mut again = ct.stored(&v, alt);
                // the checksum of the pair class
                if let CT::Map(..) = ct {
                    again[8..12].copy_from_slice(&e[8..12]);
                }
                if again != *e {
                    println!("sample {} ({clean}): {:02x?}\n      mine {:02x?}", b.name, &e[..e.len().min(60)], &again[..again.len().min(60)]);
                }
                n += 1;
            }
        }
        println!("self-check: {n} sample entries");
    });
}

fn run_cont(c: &Cont, env: &Env) -> Res {
    self_check();
    let mut inf = Info::default();
    let n = c.file.n as usize;
    let t = cont_open(&c.file, env)?;
    for (i, x) in c.file.cols.iter().enumerate() {
        let name = format!("c{i}");
        let b = col(&t, &name)?;
        let what = format!("column {name:?} of {}", x.ct.cxx(x.alt));
        let vals = x.values(n);
        let want: Vec<String> = vals.iter().map(|v| x.ct.canon(v)).collect();
        let r = registry().get(&x.ct.rust()).unwrap_or_else(|| panic!("{} not registered", x.ct.rust()));
        let got = (r.read)(b, c.mode, n + 3).map_err(|e| Fail::new(format!("reading {what}: {e:?}")))?;
        ensure!(got.len() == want.len(), "{what}: {} entries read, {} stored", got.len(), want.len());
        for (k, (w, g)) in want.iter().zip(&got).enumerate() {
            ensure!(w == g, "{what}: entry {k} is {g:.300}, stored {w:.300}");
        }
        inf.checks += n as u64 + 1;
        inf.label(match &x.ct {
            CT::P(_) => "scalar",
            CT::Str => "string",
            CT::Vec(_) => "vector",
            CT::Set(_) => "set",
            CT::Map(..) => "map",
        });
        inf.label(match x.ct.depth() { 0 => "depth-0", 1 => "depth-1", 2 => "depth-2", _ => "depth-3+" });
        inf.label_if(x.is_member(), "member");
        inf.label_if(vals.iter().any(|v| x.ct.empties(v)), "empty-container");
        inf.label_if(x.embed, "embedded");
        inf.nontrivial |= vals.iter().any(|v| matches!(v, Val::Seq(s) if s.len() > 1) || matches!(v, Val::Map(s) if s.len() > 1));
    }
    Ok(inf)
}

/// Types the registry knows.
pub fn known_ct() -> Vec<CT> {
    let mut v: Vec<CT> = registry()
        .keys()
        .filter_map(|r| {
            if r.contains('[') || r.contains("Slice") {
                return None;
            }
            parse_rust(r)
        })
        .filter(|t| !matches!(t, CT::P(_)))
        .collect();
    v.sort_by_key(|t| (t.depth(), t.rust()));
    v
}

pub fn parse_rust(r: &str) -> Option<CT> {
    let mut s = r.replace("HashMap", "map").replace("HashSet", "set").replace("Vec", "vector").replace("String", "string");
    for p in PRIMS {
        // element names are delimited
        let mut out = String::new();
        let mut word = String::new();
        for ch in s.chars().chain(['\u{1}']) {
            if ch.is_alphanumeric() || ch == '_' {
                word.push(ch);
            } else {
                out.push_str(if word == p.rust() { p.cpp() } else { &word });
                word.clear();
                if ch != '\u{1}' {
                    out.push(ch);
                }
            }
        }
        s = out;
    }
    parse_cpp(&s)
}

fn ct() -> impl Strategy<Value = CT> {
    let all = known_ct();
    let shallow: Vec<CT> = all.iter().filter(|t| t.depth() <= 1 && !matches!(t, CT::Map(..))).cloned().collect();
    let nested: Vec<CT> = all.iter().filter(|t| t.depth() > 1 && !matches!(t, CT::Map(..))).cloned().collect();
    let maps: Vec<CT> = all.into_iter().filter(|t| matches!(t, CT::Map(..))).collect();
    prop_oneof![prop::sample::select(shallow), prop::sample::select(nested), prop::sample::select(maps)]
}

pub fn ccol() -> impl Strategy<Value = CCol> {
    (
        (ct(), any::<u8>(), any::<u64>(), prop_oneof![3 => 0u32..4, 2 => 4u32..9, 1 => 64u32..70, 1 => prop_oneof![4 => Just(260u32), 1 => Just(1000u32)]]),
        (parts(), prop::bool::weighted(0.3), 0u8..2, prop::sample::select(vec![13u16, 13, 12, 10, 9, 8]), prop::bool::weighted(0.3), prop_oneof![3 => Just((Algo::None, 0)), 1 => algo()]),
    )
        .prop_map(|((ct, alt, seed, max), (parts, embed, nulls, vers, member, store))| {
            let max = match ct.depth() {
                0 => max,
                1 if max > 300 && seed % 4 > 0 => 300,
                1 => max,
                2 => max.min(8),
                _ => max.min(4),
            };
            CCol { ct, alt: alt % 16, seed: seed % 100_000, max, parts, embed, nulls, vers, member, store }
        })
}

pub fn cfile(max_n: u32, ncols: usize) -> impl Strategy<Value = CFile> {
    (prop_oneof![1 => 0u32..3, 4 => 1u32..max_n], prop::collection::vec(ccol(), 1..=ncols), any::<u64>(), prop::sample::select(vec![10u16, 10, 9, 8, 3, 1]))
        .prop_map(|(n, cols, seed, evers)| CFile { n, cols, seed: seed % 1000, evers })
}

fn gen_cont(t: Tier) -> BoxedStrategy<Cont> {
    let n = if t == Tier::Quick { 25 } else { 80 };
    (cfile(n, 4), prop_oneof![3 => Just(Mode::Checked), 1 => Just(Mode::Unchecked), 1 => Just(Mode::Buffer)])
        .prop_map(|(file, mode)| Cont { file, mode })
        .boxed()
}
fn fixed_cont(_: Tier) -> Vec<Cont> {
    let mut v = vec![];
    for (i, ct) in known_ct().into_iter().enumerate() {
        for member in [false, true] {
            for max in [0u32, 3] {
                let c = CCol { ct: ct.clone(), alt: i as u8 % 16, seed: i as u64, max, parts: vec![4, 0, 2], embed: i % 2 == 0, nulls: 0, vers: 13, member, store: (Algo::None, 0) };
                v.push(Cont { file: CFile { n: 9, cols: vec![c], seed: 1, evers: 10 }, mode: Mode::Checked });
            }
        }
    }
    // more elements than a byte, or two, can count
    for (i, ct) in known_ct().into_iter().enumerate().filter(|x| x.1.depth() <= 1) {
        for (max, n) in [(300u32, 8u32), (70_000, 10)] {
            let c = CCol { ct: ct.clone(), alt: 0, seed: i as u64, max, parts: vec![3], embed: false, nulls: 0, vers: 13, member: false, store: (Algo::None, 0) };
            v.push(Cont { file: CFile { n, cols: vec![c], seed: 1, evers: 10 }, mode: Mode::Checked });
        }
    }
    v
}

// ---------------------------------------------------------------- C11

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Src {
    Foreign(FTree),
    Cont(CFile),
    Written(Vec<TreeSpec>),
    Sample(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Typing {
    src: Src,
}

/// C++ names under which a Rust type may be stored.
fn cpp_names(rust: &str) -> Vec<String> {
    if let Some(t) = rust.strip_prefix("Slice<").and_then(|r| r.strip_suffix('>')) {
        return cpp_names(t).into_iter().map(|x| format!("{x}[]")).collect();
    }
    if let Some((t, n)) = rust.strip_prefix('[').and_then(|r| r.strip_suffix(']')).and_then(|r| r.split_once(';')) {
        return cpp_names(t).into_iter().map(|x| format!("{x}[{n}]")).collect();
    }
    match parse_rust(rust) {
        Some(CT::Str) => vec!["string".into(), "char*".into(), "TString".into()],
        Some(t) => vec![t.cpp(0), t.cpp(12)],
        None => vec![],
    }
}

/// Every registered type against one column.
fn matrix(b: &Branch, want_cpp: Option<&str>, inf: &mut Info) -> Result<(), Fail> {
    let name = b.name().to_string();
    let cpp = guard(|| b.item_type_name()).map_err(|e| Fail::new(format!("type of column {name:?}: panic {e}")))?;
    let adv = guard(|| b.interpretation()).map_err(|e| Fail::new(format!("Rust type of column {name:?} ({cpp}): panic {e}")))?;
    // ROOT's own string class keeps its name, which the repository's tests ask for
    let adv = adv.replace("TString", "String");
    if let Some(w) = want_cpp {
        ensure!(cpp == w, "column {name:?} holds {w}, it is advertised as {cpp:?}");
        if let Some(r) = rust_of_cpp(w) {
            ensure!(adv == r, "column {name:?} of {w}: Rust type advertised as {adv:?}, expected {r:?}");
        }
    }
    let corresponding = rust_of_cpp(&cpp);
    for (rust, t) in registry() {
        inf.checks += 1;
        let r = (t.ask)(b).map_err(|e| Fail::new(format!("asking for {rust} on column {name:?} ({cpp}): panic {e}")))?;
        let ok = corresponding.as_deref() == Some(rust.as_str());
        match r {
            Ok(()) => {
                ensure!(ok, "column {name:?} of {cpp} is accepted as {rust}");
                ensure!(adv == *rust, "column {name:?} of {cpp} is accepted as {rust} but advertised as {adv}");
            }
            Err(text) => {
                ensure!(!ok, "column {name:?} of {cpp} is refused as {rust}: {text}");
                ensure!(text.contains("TypeMismatch"), "column {name:?} of {cpp} asked as {rust}: error {text:?} is no type mismatch");
                ensure!(text.contains(&cpp), "column {name:?} asked as {rust}: error {text:?} does not name {cpp}");
                ensure!(cpp_names(rust).iter().any(|n| text.contains(n.as_str())), "column {name:?} asked as {rust}: error {text:?} does not name the type asked for");
            }
        }
    }
    if let Some(r) = &corresponding {
        ensure!(!registry().contains_key(r) || adv == *r, "column {name:?} of {cpp}: advertised as {adv}, corresponding type is {r}");
        inf.label(if r.starts_with('[') { "array" } else if r.starts_with("Slice") { "counted-array" } else if r.contains('<') { "container" } else { "simple" });
    } else {
        inf.label("class");
    }
    Ok(())
}

fn run_typing(c: &Typing, env: &Env) -> Res {
    let mut inf = Info::default();
    match &c.src {
        Src::Foreign(t) => {
            let f = FFile { trees: vec![t.clone()], seed: 1, tree_place: 2, info_store: (Algo::None, 0), big: false, far_at: 0, far_keys: false, far_infos: false };
            let (p, _) = super::p_foreign::store_file(&f, env)?;
            let mut r = open(&p)?;
            let tr = get_tree(&mut r, &t.name)?;
            for x in &t.flat() {
                matrix(col(&tr, &branch_name(x))?, Some(&x.kind.cpp()), &mut inf)?;
                if matches!(x.kind, K::J(_) | K::J2(..) | K::MJ(_)) {
                    matrix(col(&tr, &counter_name(x))?, (!x.kind.member()).then_some("int32_t"), &mut inf)?;
                }
            }
            if !t.members.is_empty() || !t.groups.is_empty() {
                matrix(col(&tr, &t.obj_name())?, None, &mut inf)?;
            }
            for o in &t.objs {
                matrix(col(&tr, &o.name)?, None, &mut inf)?;
            }
            inf.label("foreign");
        }
        Src::Cont(f) => {
            let tr = cont_open(f, env)?;
            for (i, x) in f.cols.iter().enumerate() {
                matrix(col(&tr, &format!("c{i}"))?, Some(&x.ct.cpp(x.alt)), &mut inf)?;
            }
            inf.label("containers");
        }
        Src::Written(ts) => {
            let p = env.path();
            write_file(&p, ts)?;
            let mut r = open(&p)?;
            for t in ts {
                let tr = get_tree(&mut r, &t.name)?;
                for x in &t.cols {
                    matrix(col(&tr, &x.name)?, Some(&x.ty.cpp()), &mut inf)?;
                }
            }
            inf.label("written");
        }
        Src::Sample(i) => {
            let p = format!("{}/{}", super::p_bad::repo(), super::p_bad::SAMPLES[*i as usize % super::p_bad::SAMPLES.len()]);
            if std::path::Path::new(&p).exists() {
                let mut r = RootFile::open(&p).map_err(|e| Fail::new(format!("{p}: {e}")))?;
                let trees: Vec<String> = r.keys().iter().filter(|k| k.class_name() == "TTree").map(|k| k.name().to_string()).collect();
                for t in trees {
                    let tr = get_tree(&mut r, &t)?;
                    for b in tr.branches_r() {
                        matrix(b, None, &mut inf)?;
                    }
                }
                inf.label("sample");
            }
        }
    }
    inf.nontrivial = inf.checks > 0;
    Ok(inf)
}

fn gen_typing(_: Tier) -> BoxedStrategy<Typing> {
    prop_oneof![
        3 => ftree(Opt { compress: false, max_n: 4, ncols: 5 }).prop_map(Src::Foreign),
        3 => cfile(4, 4).prop_map(Src::Cont),
        2 => tree_spec(5, 300).prop_map(|t| Src::Written(vec![t])),
    ]
    .prop_map(|src| Typing { src })
    .boxed()
}
fn fixed_typing(_: Tier) -> Vec<Typing> {
    let mut v: Vec<Typing> = (0..super::p_bad::SAMPLES.len() as u8).map(|i| Typing { src: Src::Sample(i) }).collect();
    for c in fixed_cont(Tier::Quick) {
        if c.file.cols[0].max == 3 {
            v.push(Typing { src: Src::Cont(c.file) });
        }
    }
    v
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            assumptions: &[
                "Container layouts are those of the repository's ROOT-written sample (stl_containers.root): headers per entry, member-wise maps; the encoder reproduces every entry of that sample.",
                "Maps stored as members of split classes, and containers other than vector, set and map, are not generated.",
            ],
            subs: vec![Box::new(Sub::<Cont> {
                name: "containers",
                rule: "up to four columns of container types (nested up to four levels) with random values, empty at any level, split into baskets at random; non-trivial when some entry holds more than one element; distinct by serialised case",
                quick: 60000,
                thorough: 400000,
                fixed: fixed_cont,
                gen: gen_cont,
                run: run_cont,
                shards: SHARDS,
            })],
        },
        Property {
            id: "C11",
            assumptions: &["Correspondence is between a stored C++ type and one Rust type; user types without a declared C++ name (derived readers) are accepted anywhere by design and are not asked for."],
            subs: vec![Box::new(Sub::<Typing> {
                name: "matrix",
                rule: "every column of a file (written by the library, by the independent writer, or a sample of the repository) is asked for as each of the registered Rust types; non-trivial when at least one question was asked; distinct by serialised case",
                quick: 4000,
                thorough: 30000,
                fixed: fixed_typing,
                gen: gen_typing,
                run: run_typing,
                shards: SHARDS,
            })],
        },
    ]
}
