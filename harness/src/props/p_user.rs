//! C22: user information attached to a tree.
use super::common::*;
use super::foreign::*;
use crate::engine::*;
use crate::model::*;
use crate::refroot::comp::Algo;
use crate::refroot::write::{self, UserList, UserMap, UserS};
use crate::{bail, ensure};
use oxyroot::rbase::TObjString;
use oxyroot::rcont::list::ReaderList;
use oxyroot::rcont::tmap::Key;
use oxyroot::rcont::TMap;
use oxyroot::{Named, Object};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    file: FFile,
    /// user information of each tree
    user: Vec<Option<UserList>>,
    /// what else each tree carries
    #[serde(default)]
    extra: Vec<write::Extra>,
}

/// One object, taken out of its container by type.
trait Holder {
    fn string(&self) -> &TObjString;
    fn map(&self) -> &TMap;
    fn list(&self) -> &ReaderList;
}
struct At<'a>(&'a ReaderList, usize);
impl Holder for At<'_> {
    fn string(&self) -> &TObjString {
        self.0.at::<TObjString>(self.1)
    }
    fn map(&self) -> &TMap {
        self.0.at::<TMap>(self.1)
    }
    fn list(&self) -> &ReaderList {
        self.0.at::<ReaderList>(self.1)
    }
}
/// a missing key panics, and is reported as such
struct Get<'a>(&'a TMap, Key);
impl Holder for Get<'_> {
    fn string(&self) -> &TObjString {
        self.0.get::<TObjString>(&self.1).expect("key not found")
    }
    fn map(&self) -> &TMap {
        self.0.get::<TMap>(&self.1).expect("key not found")
    }
    fn list(&self) -> &ReaderList {
        self.0.get::<ReaderList>(&self.1).expect("key not found")
    }
}

fn check_list(path: &str, l: &ReaderList, w: &UserList, n: &mut u64) -> Result<(), Fail> {
    ensure!(l.len() == w.items.len(), "{path}: {} objects read, {} stored", l.len(), w.items.len());
    ensure!(l.is_empty() == w.items.is_empty(), "{path}: is_empty disagrees with {} objects", w.items.len());
    ensure!(l.name() == w.name, "{path}: name {:?} read, {:?} stored", l.name(), w.name);
    ensure!(l.class() == "TList", "{path}: class {:?}", l.class());
    *n += 4;
    for (i, (u, _)) in w.items.iter().enumerate() {
        check_any(&format!("{path}[{i}]"), &At(l, i), u, n)?;
    }
    Ok(())
}

fn check_any(path: &str, h: &dyn Holder, u: &UserS, n: &mut u64) -> Result<(), Fail> {
    match u {
        UserS::Str(s, _) => {
            let t = h.string();
            ensure!(&t.to_string() == s, "{path}: string {:?} read, {s:?} stored", t.to_string());
            ensure!(t.class() == "TObjString", "{path}: class {:?}", t.class());
            *n += 2;
        }
        UserS::Map(w) => {
            let m = h.map();
            if w.vers > 1 {
                ensure!(m.name() == w.name, "{path}: name {:?} read, {:?} stored", m.name(), w.name);
            }
            ensure!(m.class() == "TMap", "{path}: class {:?}", m.class());
            *n += 2;
            for (k, v) in &w.items {
                check_any(&format!("{path}{{{k:?}}}"), &Get(m, Key::String(k.clone())), v, n)?;
            }
            let mut other: Vec<String> = w.items.iter().flat_map(|(k, _)| [format!("{k} "), k.to_uppercase(), k.chars().skip(1).collect()]).take(30).collect();
            other.push(String::new());
            other.push(w.name.clone());
            for k in other {
                if !w.items.iter().any(|x| x.0 == k) {
                    ensure!(m.get::<TObjString>(&Key::String(k.clone())).is_none(), "{path}: something is returned for the key {k:?} that was not stored");
                    *n += 1;
                }
            }
        }
        UserS::List(w) => check_list(path, h.list(), w, n)?,
    }
    Ok(())
}

fn depth(u: &UserS) -> usize {
    match u {
        UserS::Str(..) => 0,
        UserS::Map(m) => 1 + m.items.iter().map(|x| depth(&x.1)).max().unwrap_or(0),
        UserS::List(m) => 1 + m.items.iter().map(|x| depth(&x.0)).max().unwrap_or(0),
    }
}
fn walk(u: &UserS, f: &mut dyn FnMut(&UserS)) {
    f(u);
    match u {
        UserS::Str(..) => {}
        UserS::Map(m) => m.items.iter().for_each(|x| walk(&x.1, f)),
        UserS::List(m) => m.items.iter().for_each(|x| walk(&x.0, f)),
    }
}

fn run(c: &Case, env: &Env) -> Res {
    let mut info = Info::default();
    let p = env.path();
    let mut fs = file_s(&c.file);
    for (t, u) in fs.trees.iter_mut().zip(&c.user) {
        t.user = u.clone();
        // trees had no user information before
        if t.vers == 5 && u.is_some() {
            t.vers = 6;
        }
    }
    for (t, x) in fs.trees.iter_mut().zip(&c.extra) {
        t.extra = *x;
        info.label_if(x.mask > 0, "attachments");
        info.label_if(x.mask > 0 && t.user.is_some(), "attachments-and-user-info");
    }
    write::build(&fs).save(&p).expect("scratch file");
    let mut f = open(&p)?;
    for (t, u) in c.file.trees.iter().zip(&c.user) {
        let tree = get_tree(&mut f, &t.name)?;
        match (tree.user_info(), u) {
            (None, None) => info.label("no-user-info"),
            (Some(l), None) => bail!("a list of {} objects is returned, none was stored", l.len()),
            (None, Some(u)) => bail!("no list is returned, one of {} objects was stored", u.items.len()),
            (Some(l), Some(u)) => {
                let mut n = 0;
                let r = guard(|| check_list("user_info", l, u, &mut n)).map_err(|e| Fail::new(format!("looking into the user information: panic {e}")))?;
                r?;
                info.checks += n;
                info.label_if(u.items.is_empty(), "empty-list");
                info.label_if(u.items.len() > 30, "many-objects");
                let root = UserS::List(u.clone());
                let d = depth(&root);
                info.label(format!("depth-{}", d.min(5)));
                let (mut kinds, mut long) = ([false; 6], false);
                walk(&root, &mut |u| match u {
                    UserS::Str(s, b) => {
                        kinds[0] = true;
                        kinds[3] |= b & 0x10 != 0;
                        long |= s.len() > 254;
                    }
                    UserS::Map(m) => {
                        kinds[1] = true;
                        kinds[4] |= m.vers < 3;
                        long |= m.items.iter().any(|x| x.0.len() > 254);
                    }
                    UserS::List(m) => {
                        kinds[2] |= m.items.iter().any(|x| matches!(x.0, UserS::List(_)));
                        kinds[5] |= m.items.iter().any(|x| !x.1.is_empty());
                    }
                });
                for (k, l) in kinds.iter().zip(["string", "map", "list", "referenced", "old-map", "option"]) {
                    info.label_if(*k, l);
                }
                info.label_if(long, "long-text");
                info.nontrivial |= u.items.len() > 1 || d > 1;
            }
        }
        // the rest of the tree is not disturbed by it
        info.checks += check_ftree(&tree, t, Mode::Checked)? + 1;
    }
    // taking the objects out, last one first
    let name = &c.file.trees[0].name;
    if let Some(Some(u)) = c.user.first() {
        if u.items.len() < 60 {
            let tree = get_tree(&mut f, name)?;
            let l = tree.user_info().ok_or_else(|| Fail::new("no list is returned the second time"))?;
            let mut n = 0;
            let r = guard(|| check_list("user_info, again", l, u, &mut n)).map_err(|e| Fail::new(format!("looking into the user information again: panic {e}")))?;
            r?;
            info.checks += n;
        }
    }
    if std::env::var_os("OXY_KEEP").is_none() {
        let _ = std::fs::remove_file(&p);
    }
    Ok(info)
}

fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => "[a-zA-Z0-9_ .;=!]{0,12}",
        1 => "\\PC{0,6}",
        1 => (prop::sample::select(vec![250usize, 253, 254, 255, 256, 300, 1000, 70_000]), 0u8..26).prop_map(|(n, c)| (0..n).map(|i| (b'a' + (c + i as u8 % 7) % 26) as char).collect()),
        1 => prop::sample::select(vec!["TList", "TObjString", "TMap", "TNamed", "", "\0", "a\0b", "key!", "€", "TTree"]).prop_map(String::from),
    ]
}
fn bits() -> impl Strategy<Value = u32> {
    prop::sample::select(vec![0x0300_0000u32, 0x0300_0000, 0x0200_0000, 0x0300_0010, 0x0300_0008])
}
fn option() -> impl Strategy<Value = String> {
    prop_oneof![8 => Just(String::new()), 2 => "[a-z]{1,8}", 1 => Just("o".repeat(254))]
}
fn user() -> impl Strategy<Value = UserS> {
    let leaf = prop_oneof![(text(), bits()).prop_map(|(s, b)| UserS::Str(s, b))];
    leaf.prop_recursive(3, 60, 8, |inner| {
        prop_oneof![
            (text(), 1u16..4, bits(), prop::collection::vec((text(), inner.clone()), 0..8)).prop_map(|(name, vers, bits, items)| {
                UserS::Map(UserMap { name, vers, bits, items: distinct(items) })
            }),
            list(inner, 0..8).prop_map(UserS::List),
        ]
    })
}
fn distinct(items: Vec<(String, UserS)>) -> Vec<(String, UserS)> {
    let mut v: Vec<(String, UserS)> = vec![];
    for x in items {
        if !v.iter().any(|y| y.0 == x.0) {
            v.push(x);
        }
    }
    v
}
fn list(inner: impl Strategy<Value = UserS>, n: std::ops::Range<usize>) -> impl Strategy<Value = UserList> {
    (text(), 4u16..6, bits(), prop::collection::vec((inner, option()), n), any::<bool>()).prop_map(|(name, vers, bits, mut items, long)| {
        if vers > 4 && long {
            if let Some(x) = items.iter_mut().find(|x| !x.1.is_empty()) {
                x.1 = x.1.repeat(40);
            }
        }
        UserList { name, vers, bits, items }
    })
}

fn gen(_: Tier) -> BoxedStrategy<Case> {
    let u = prop_oneof![
        1 => Just(None),
        6 => list(user(), 0..6).prop_map(Some),
        1 => list((text(), bits()).prop_map(|(s, b)| UserS::Str(s, b)), 0..80).prop_map(Some),
        1 => prop::collection::vec((text(), text()), 0..60).prop_map(|v| {
            let items = distinct(v.into_iter().map(|(k, x)| (k, UserS::Str(x, 0x0300_0000))).collect());
            Some(UserList { name: String::new(), vers: 5, bits: 0x0300_0000, items: vec![(UserS::Map(UserMap { name: "m".into(), vers: 3, bits: 0x0300_0000, items }), String::new())] })
        }),
    ];
    let extra = (prop_oneof![2 => Just(0u8), 1 => 1u8..64, 1 => (0u32..6).prop_map(|k| 1 << k)], 0u8..6).prop_map(|(mask, n)| write::Extra { mask, n });
    let store = prop_oneof![2 => Just(Algo::None), 1 => (1u8..9).prop_map(Algo::Zlib), 1 => (1u8..9).prop_map(Algo::Lz4)];
    (
        prop::collection::vec((ftree(Opt { compress: false, max_n: 40, ncols: 2 }), u, (store, extra)), 1..3),
        any::<u64>(),
        0u8..3,
        prop::bool::weighted(0.1),
    )
        .prop_map(|(ts, seed, tree_place, big)| {
            let (mut trees, mut user, mut extra) = (vec![], vec![], vec![]);
            for (i, (mut t, u, (s, x))) in ts.into_iter().enumerate() {
                t.name = format!("t{i}");
                t.store = (s, 0xff_ffff);
                if i > 0 {
                    t.plain();
                }
                trees.push(t);
                user.push(u);
                extra.push(x);
            }
            Case { file: FFile { trees, seed: seed % 10_000, tree_place, info_store: (Algo::None, 0), big, far_at: 0, far_keys: false, far_infos: false }, user, extra }
        })
        .boxed()
}

/// More objects, keys and levels than the generator makes.
fn fixed(_: Tier) -> Vec<Case> {
    let s = |i: usize| UserS::Str(format!("text {i}"), 0x0300_0000);
    let map = |n: usize| UserS::Map(UserMap { name: "m".into(), vers: 3, bits: 0x0300_0000, items: (0..n).map(|i| (format!("key {i}"), s(i))).collect() });
    let list = |items: Vec<UserS>| UserList { name: "l".into(), vers: 5, bits: 0x0300_0000, items: items.into_iter().map(|x| (x, String::new())).collect() };
    let mut deep = s(0);
    for k in 0..30 {
        deep = if k % 2 == 0 { UserS::List(list(vec![s(k), deep, s(k + 100)])) } else { UserS::Map(UserMap { name: format!("m{k}"), vers: 3, bits: 0x0300_0000, items: vec![("a".into(), s(k)), ("b".into(), deep)] }) };
    }
    let long = |n: usize| UserS::Str("long ".repeat(n / 5), 0x0300_0000);
    let lists = vec![
        list(vec![]),
        list((0..300).map(s).collect()),
        list((0..66_000).map(s).collect()),
        list((0..300).map(|i| if i % 3 == 0 { UserS::List(list(vec![s(i)])) } else if i % 3 == 1 { map(2) } else { s(i) }).collect()),
        list(vec![map(300), s(1), map(5000), s(2)]),
        list(vec![s(1), deep, s(2)]),
        list(vec![s(1), long(1 << 24), s(2), long(70_000), s(3)]),
    ];
    lists
        .into_iter()
        .map(|l| {
            let f = super::p_foreign::one_file(5, vec![FCol::simple("c", K::S(P::I32))], (Algo::None, 0));
            Case { file: f, user: vec![Some(l)], extra: vec![] }
        })
        .collect()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C22",
        assumptions: &[
            "The files are written by the harness' own ROOT writer.",
            "Objects are strings, maps with string keys and lists, nested in each other, each stored once (ROOT's references to an object stored earlier are outside the property).",
        ],
        subs: vec![Box::new(Sub::<Case> {
            name: "user-info",
            rule: "one or two trees with columns of every kind and user information: a list of strings, maps and lists nested up to four deep, of every class version the library accepts, with options and referenced objects, stored raw or compressed; every object is looked up by index or key, absent keys are looked up too; non-trivial when the list holds several objects or nested ones; distinct by serialised case",
            quick: 40000,
            thorough: 600000,
            fixed,
            gen,
            run,
            shards: SHARDS,
        })],
    }]
}
