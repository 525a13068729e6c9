//! Model of trees as other ROOT implementations write them: column kinds, contents,
//! partition into baskets, storage; conversion to the independent writer's description and
//! reading back through the library.
use crate::engine::{guard, Fail};
use crate::model::*;
use crate::refroot::comp::Algo;
use crate::refroot::read::enc_str;
use crate::refroot::write::*;
use crate::{with_num, with_prim};
use oxyroot::{Branch, Slice};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    /// plain branches: scalar, array, counted array, C string
    S(P),
    A(P, u32),
    A2(P, u32, u32),
    J(P),
    J2(P, u32),
    Str,
    /// top-level branch of a standard container
    TVec(P),
    TStr,
    /// members of a split class
    MS(P),
    MA(P, u32),
    MA2(P, u32, u32),
    MJ(P),
    MTString,
    MStr,
    MVec(P),
    MVecStr,
}

impl K {
    pub fn member(self) -> bool {
        matches!(self, K::MS(_) | K::MA(..) | K::MA2(..) | K::MJ(_) | K::MTString | K::MStr | K::MVec(_) | K::MVecStr)
    }
    pub fn variable(self) -> bool {
        !matches!(self, K::S(_) | K::A(..) | K::A2(..) | K::MS(_) | K::MA(..) | K::MA2(..))
    }
    pub fn prim(self) -> Option<P> {
        match self {
            K::S(p) | K::A(p, _) | K::A2(p, ..) | K::J(p) | K::J2(p, _) | K::TVec(p) | K::MS(p) | K::MA(p, _) | K::MA2(p, ..) | K::MJ(p) | K::MVec(p) => Some(p),
            _ => None,
        }
    }
    /// the advertised C++ type
    pub fn cpp(self) -> String {
        match self {
            K::S(p) | K::MS(p) => p.cpp().into(),
            K::A(p, n) | K::MA(p, n) => format!("{}[{n}]", p.cpp()),
            K::A2(p, a, b) | K::MA2(p, a, b) => format!("{}[{}]", p.cpp(), a * b),
            K::J(p) | K::J2(p, _) | K::MJ(p) => format!("{}[]", p.cpp()),
            K::Str => "char*".into(),
            K::TVec(p) | K::MVec(p) => format!("vector<{}>", p.cpp()),
            K::MVecStr => "vector<string>".into(),
            K::MTString => "TString".into(),
            K::TStr | K::MStr => "string".into(),
        }
    }
    pub fn short(self) -> &'static str {
        match self {
            K::S(_) => "scalar",
            K::A(..) => "array",
            K::A2(..) => "array-2d",
            K::MA2(..) => "member-array-2d",
            K::J2(..) => "jagged-2d",
            K::J(_) => "jagged",
            K::Str => "cstring",
            K::TVec(_) => "vector-branch",
            K::TStr => "string-branch",
            K::MS(_) => "member-scalar",
            K::MA(..) => "member-array",
            K::MJ(_) => "member-jagged",
            K::MTString => "member-TString",
            K::MStr => "member-string",
            K::MVec(_) => "member-vector",
            K::MVecStr => "member-vector-string",
        }
    }
}

pub fn ltype(p: P, long64: bool) -> i32 {
    match p {
        P::I8 => 1,
        P::I16 => 2,
        P::I32 => 3,
        P::I64 => if long64 { 16 } else { 4 },
        P::F32 => 5,
        P::F64 => 8,
        P::U8 => 11,
        P::U16 => 12,
        P::U32 => 13,
        P::U64 => if long64 { 17 } else { 14 },
        P::Bool => 18,
    }
}
fn cxx(p: P, long64: bool) -> &'static str {
    match p {
        P::I8 => "char",
        P::I16 => "short",
        P::I32 => "int",
        P::I64 => if long64 { "Long64_t" } else { "long" },
        P::F32 => "float",
        P::F64 => "double",
        P::U8 => "unsigned char",
        P::U16 => "unsigned short",
        P::U32 => "unsigned int",
        P::U64 => if long64 { "ULong64_t" } else { "unsigned long" },
        P::Bool => "bool",
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FCol {
    pub name: String,
    pub kind: K,
    /// elements of entry i: sizes[i % len]
    pub sizes: Vec<u32>,
    pub pat: Pat,
    pub seed: u64,
    /// entries of basket k: parts[k % len] (all of them if that never ends)
    pub parts: Vec<u32>,
    pub embed: bool,
    pub nulls: u8,
    pub spare: u8,
    pub vers: u16,
    /// offset table although entries have one size
    pub offsets: bool,
    pub long64: bool,
    pub store: Vec<(Algo, u32)>,
    pub far: bool,
    /// members: what their branch's name starts with, and their class (set by `FTree::flat`)
    #[serde(skip)]
    pub path: String,
    #[serde(skip)]
    pub owner: String,
}

/// A sub-object (or base class) of a split object.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Group {
    pub name: String,
    pub class: String,
    pub base: bool,
    pub members: Vec<FCol>,
    pub groups: Vec<Group>,
}

impl FCol {
    pub fn simple(name: &str, kind: K) -> FCol {
        FCol {
            name: name.into(),
            kind,
            sizes: vec![2, 0, 3],
            pat: Pat::Rand,
            seed: 5,
            parts: vec![],
            embed: false,
            nulls: 0,
            spare: 9,
            vers: 13,
            offsets: false,
            long64: false,
            store: vec![],
            far: false,
            path: String::new(),
            owner: String::new(),
        }
    }
    /// logical entries: element bytes, or text
    pub fn values(&self, n: usize) -> Vec<Vec<u8>> {
        let ty = match self.kind {
            K::S(p) | K::MS(p) => Ty::S(p),
            K::A(p, k) | K::MA(p, k) => Ty::A(p, k),
            K::A2(p, a, b) | K::MA2(p, a, b) => Ty::A(p, a * b),
            K::J2(p, _) | K::J(p) | K::MJ(p) | K::TVec(p) | K::MVec(p) => Ty::V(p),
            K::Str | K::TStr | K::MTString | K::MStr | K::MVecStr => Ty::Str,
        };
        let runs = (0..n).map(|i| Run { n: 1, sz: self.size_of(i) * if let K::J2(_, k) = self.kind { k } else { 1 } }).collect();
        Col { name: String::new(), ty, runs, pat: self.pat, seed: self.seed }.entries()
    }
    pub fn size_of(&self, i: usize) -> u32 {
        if self.sizes.is_empty() {
            0
        } else {
            self.sizes[i % self.sizes.len()]
        }
    }
    /// a vector of strings: the text of the entry cut into words
    fn words(v: &[u8]) -> Vec<Vec<u8>> {
        let s = std::str::from_utf8(v).unwrap();
        let mut out = vec![];
        let mut cur = String::new();
        for (i, c) in s.chars().enumerate() {
            cur.push(c);
            if i % 5 == (s.len() % 5) {
                out.push(std::mem::take(&mut cur).into_bytes());
            }
        }
        if !cur.is_empty() {
            out.push(cur.into_bytes());
        }
        out
    }
    /// what is to be read, as one byte string per entry
    pub fn want(&self, n: usize) -> Vec<Vec<u8>> {
        let v = self.values(n);
        if self.kind == K::MVecStr {
            v.iter().map(|e| flat_words(&Self::words(e))).collect()
        } else {
            v
        }
    }
    /// bytes stored in the baskets
    pub fn stored(&self, n: usize) -> Vec<Vec<u8>> {
        self.values(n)
            .into_iter()
            .map(|e| match self.kind {
                K::S(_) | K::A(..) | K::A2(..) | K::MS(_) | K::MA(..) | K::MA2(..) | K::J(_) | K::J2(..) => e,
                K::MJ(_) => {
                    let mut v = vec![1u8];
                    v.extend(e);
                    v
                }
                K::Str | K::TStr | K::MTString => {
                    let mut v = enc_str(e.len());
                    v.extend(e);
                    v
                }
                K::MStr => {
                    let mut v = enc_str(e.len());
                    v.extend(e);
                    with_header(9, v)
                }
                K::TVec(p) | K::MVec(p) => {
                    let mut v = ((e.len() / p.size()) as i32).to_be_bytes().to_vec();
                    v.extend(e);
                    with_header(9, v)
                }
                K::MVecStr => {
                    let w = Self::words(&e);
                    let mut v = (w.len() as i32).to_be_bytes().to_vec();
                    for x in w {
                        v.extend(enc_str(x.len()));
                        v.extend(x);
                    }
                    with_header(9, v)
                }
            })
            .collect()
    }
    pub fn partition(&self, n: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut left = n;
        if self.parts.iter().any(|&p| p > 0) {
            let mut k = 0;
            while left > 0 {
                // bound the number of baskets
                let p = if out.len() >= self.parts.len().max(150) { left } else { self.parts[k % self.parts.len()] as usize };
                let p = p.min(left);
                out.push(p);
                left -= p;
                k += 1;
            }
            // possibly empty ones at the end
            if let Some(0) = self.parts.get(k % self.parts.len()) {
                out.push(0);
            }
        } else if n > 0 {
            out.push(n);
        }
        out
    }
}

pub fn with_header(vers: u16, body: Vec<u8>) -> Vec<u8> {
    let mut v = ((body.len() as u32 + 2) | 0x4000_0000).to_be_bytes().to_vec();
    v.extend(vers.to_be_bytes());
    v.extend(body);
    v
}
pub fn flat_words(w: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![];
    for x in w {
        v.extend((x.len() as u32).to_be_bytes());
        v.extend(x);
    }
    v
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FTree {
    pub name: String,
    pub n: u32,
    pub cols: Vec<FCol>,
    /// members of a split object stored under one branch
    pub members: Vec<FCol>,
    pub store: (Algo, u32),
    pub clusters: u8,
    pub far: bool,
    /// version of the element branches
    pub evers: u16,
    /// sub-objects of the split object
    #[serde(default)]
    pub groups: Vec<Group>,
    /// the split object's name ends with a dot, and so do the names of its members start
    #[serde(default)]
    pub dot: bool,
    /// further split objects, each a top-level branch; a name may end with a dot
    #[serde(default)]
    pub objs: Vec<Group>,
    /// the top-level branches are rotated by so many
    #[serde(default)]
    pub rot: u8,
    /// version of the tree's record (0: 20)
    #[serde(default)]
    pub tvers: u16,
}

/// what the names of the members of a top-level object start with
pub fn top_path(name: &str) -> String {
    if name.ends_with('.') { name.into() } else { String::new() }
}

impl Group {
    pub fn path(&self, parent: &str) -> String {
        if self.base {
            parent.into()
        } else {
            format!("{parent}{}.", self.name)
        }
    }
    fn flat(&self, parent: &str, out: &mut Vec<FCol>) {
        let path = self.path(parent);
        for m in &self.members {
            out.push(FCol { path: path.clone(), owner: self.class.clone(), ..m.clone() });
        }
        for g in &self.groups {
            g.flat(&path, out);
        }
    }
    pub fn all_members<'a>(&'a mut self, out: &mut Vec<&'a mut FCol>) {
        out.extend(self.members.iter_mut());
        for g in self.groups.iter_mut() {
            g.all_members(out);
        }
    }
}

impl FTree {
    pub fn has_obj(&self) -> bool {
        !self.members.is_empty() || !self.groups.is_empty() || !self.objs.is_empty()
    }
    pub fn obj_name(&self) -> String {
        if self.dot { format!("{OBJ}.") } else { OBJ.into() }
    }
    /// every column: the plain ones and all members, in the order of listing
    pub fn flat(&self) -> Vec<FCol> {
        let path = if self.dot { format!("{OBJ}.") } else { String::new() };
        let mut v = self.cols.clone();
        for m in &self.members {
            v.push(FCol { path: path.clone(), owner: CLASS.into(), ..m.clone() });
        }
        for g in &self.groups {
            g.flat(&path, &mut v);
        }
        for o in &self.objs {
            let path = top_path(&o.name);
            for m in &o.members {
                v.push(FCol { path: path.clone(), owner: o.class.clone(), ..m.clone() });
            }
            for g in &o.groups {
                g.flat(&path, &mut v);
            }
        }
        v
    }
    pub fn all_cols(&mut self) -> Vec<&mut FCol> {
        let mut v: Vec<&mut FCol> = self.cols.iter_mut().chain(self.members.iter_mut()).collect();
        for g in self.groups.iter_mut().chain(self.objs.iter_mut()) {
            g.all_members(&mut v);
        }
        v
    }
    /// remove the split objects
    pub fn plain(&mut self) {
        self.objs.clear();
        self.members.clear();
        self.groups.clear();
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FFile {
    pub trees: Vec<FTree>,
    pub seed: u64,
    pub tree_place: u8,
    pub info_store: (Algo, u32),
    pub big: bool,
    /// position of far records, 0 for none
    pub far_at: u64,
    pub far_keys: bool,
    pub far_infos: bool,
}

fn st(s: (Algo, u32)) -> Store {
    (s.0, s.1 as usize)
}

pub const OBJ: &str = "evt";
pub const CLASS: &str = "EventData";

pub struct Ids(u32);
impl Ids {
    pub fn new() -> Ids {
        Ids(0)
    }
    pub fn next(&mut self) -> u32 {
        self.0 += 1;
        self.0
    }
}

/// Branches for one column: the column's own, preceded by its counter if it has one.
fn branches_of(c: &FCol, n: usize, pos: i32, evers: u16, ids: &mut Ids) -> Vec<BranchS> {
    let mut out: Vec<BranchS> = vec![];
    let member = c.kind.member();
    let own = c.owner.as_str();
    let elem = |class: &str, parent: &str, id: i32, stype: i32| ElemS {
        class_name: class.into(),
        parent: parent.into(),
        checksum: if member { 0x1234_5678 } else { 0 },
        class_vers: if member { 1 } else { 0 },
        id,
        btype: 0,
        stype,
        max: 0,
        count: None,
        vers: evers,
    };
    let mut count_leaf = None;
    let mut count_branch = None;
    if matches!(c.kind, K::J(_) | K::J2(..) | K::MJ(_)) {
        let nm = counter_name(c);
        let lid = ids.next();
        let bid = ids.next();
        count_leaf = Some(lid);
        count_branch = Some(bid);
        let (class, title, e) = if member {
            ("TLeafElement", nm.clone(), Some(elem(own, own, pos, 6)))
        } else {
            ("TLeafI", format!("{nm}/I"), None)
        };
        out.push(BranchS {
            title,
            id: bid,
            elem: e,
            leaves: vec![LeafS {
                class: class.into(),
                name: nm.clone(),
                title: nm.clone(),
                len: 1,
                size: 4,
                range: true,
                id: lid,
                elem_id: pos,
                ltype: 6,
                ..Default::default()
            }],
            cpp: if member { "uint32_t" } else { "int32_t" }.into(),
            data: (0..n).map(|i| (c.size_of(i) as i32).to_be_bytes().to_vec()).collect(),
            entries: n as i64,
            parts: if n > 0 { vec![n] } else { vec![] },
            vers: c.vers,
            spare: 9,
            name: nm,
            ..Default::default()
        });
    }
    let (class, uns) = match c.kind {
        K::S(p) | K::A(p, _) | K::A2(p, ..) | K::J(p) | K::J2(p, _) => p.leaf(),
        K::Str => ("TLeafC", false),
        _ => ("TLeafElement", false),
    };
    let code = match c.kind {
        K::S(p) | K::A(p, _) | K::A2(p, ..) | K::J(p) | K::J2(p, _) => match p {
            P::Bool => "/O",
            P::I8 => "/B",
            P::U8 => "/b",
            P::I16 => "/S",
            P::U16 => "/s",
            P::I32 => "/I",
            P::U32 => "/i",
            P::I64 => "/L",
            P::U64 => "/l",
            P::F32 => "/F",
            P::F64 => "/D",
        },
        K::Str => "/C",
        _ => "",
    };
    let dims = match c.kind {
        K::A(_, k) | K::MA(_, k) => format!("[{k}]"),
        K::A2(_, a, b) | K::MA2(_, a, b) => format!("[{a}][{b}]"),
        K::J2(_, k) => format!("[{}][{k}]", counter_name(c)),
        K::J(_) | K::MJ(_) => format!("[{}]", counter_name(c)),
        _ => String::new(),
    };
    let full = format!("{}{}", c.path, c.name);
    let title = format!("{full}{dims}");
    let (stype, lt, class_name, parent) = match c.kind {
        K::MS(p) => (ltype(p, c.long64), ltype(p, c.long64), own, own),
        K::MA(p, _) | K::MA2(p, ..) => (20 + ltype(p, c.long64), 20 + ltype(p, c.long64), own, own),
        K::MJ(p) => (40 + ltype(p, c.long64), 40 + ltype(p, c.long64), own, own),
        K::MTString => (65, 65, own, own),
        K::MStr => (300, 300, own, own),
        K::MVec(_) | K::MVecStr => (300, 300, own, own),
        K::TVec(_) | K::TStr => (-1, -1, "", ""),
        _ => (0, 0, "", ""),
    };
    let vec_class;
    let class_name = match c.kind {
        K::TVec(p) => {
            vec_class = format!("vector<{}>", cxx(p, false));
            vec_class.as_str()
        }
        K::TStr => "string",
        _ => class_name,
    };
    let offsets = c.kind.variable() || (c.offsets && matches!(c.kind, K::MA(..) | K::MA2(..)));
    let mut e = (class == "TLeafElement").then(|| elem(class_name, parent, if member { pos } else { -1 }, stype));
    if let (K::MJ(_), Some(e)) = (c.kind, &mut e) {
        e.count = count_branch;
    }
    // members with a fixed dimension carry it in the branch name
    let bname = if matches!(c.kind, K::MA(..) | K::MA2(..)) { title.clone() } else { full.clone() };
    let parts = c.partition(n);
    out.push(BranchS {
        name: bname,
        title: if class == "TLeafElement" { title.clone() } else { format!("{title}{code}") },
        id: ids.next(),
        elem: e,
        leaves: vec![LeafS {
            class: class.into(),
            name: full,
            title,
            len: match c.kind {
                K::A(_, k) | K::MA(_, k) | K::J2(_, k) => k as i32,
                K::A2(_, a, b) | K::MA2(_, a, b) => (a * b) as i32,
                _ => 1,
            },
            size: match (class, c.kind.prim()) {
                ("TLeafElement", _) => 4,
                (_, Some(p)) => p.size() as i32,
                _ => 1,
            },
            unsigned: uns,
            count: count_leaf,
            id: ids.next(),
            elem_id: if member { pos } else { -1 },
            ltype: lt,
            ..Default::default()
        }],
        cpp: c.kind.cpp(),
        data: c.stored(n),
        entries: n as i64,
        offsets,
        embed: c.embed,
        nulls: c.nulls as usize,
        spare: c.spare as usize,
        vers: c.vers,
        store: c.store.iter().map(|s| st(*s)).collect(),
        far: c.far,
        parts,
        ..Default::default()
    });
    out
}

pub fn counter_name(c: &FCol) -> String {
    format!("{}n_{}", c.path, c.name)
}
/// the name under which the column's branch is found
pub fn branch_name(c: &FCol) -> String {
    match c.kind {
        K::MA(_, k) => format!("{}{}[{k}]", c.path, c.name),
        K::MA2(_, a, b) => format!("{}{}[{a}][{b}]", c.path, c.name),
        _ => format!("{}{}", c.path, c.name),
    }
}

pub fn class_info(class: &str, members: &[FCol], groups: &[Group]) -> InfoS {
    let mut elems = vec![];
    for c in members {
        let base = InfoElemS { name: c.name.clone(), ..Default::default() };
        match c.kind {
            K::MS(p) => elems.push(InfoElemS {
                class: "TStreamerBasicType".into(),
                ty: ltype(p, c.long64),
                size: p.size() as i32,
                type_name: cxx(p, c.long64).into(),
                ..base
            }),
            K::MA(p, k) => elems.push(InfoElemS {
                class: "TStreamerBasicType".into(),
                ty: 20 + ltype(p, c.long64),
                size: (p.size() * k as usize) as i32,
                array_len: k as i32,
                array_dim: 1,
                type_name: cxx(p, c.long64).into(),
                ..base
            }),
            K::MA2(p, a, b) => elems.push(InfoElemS {
                class: "TStreamerBasicType".into(),
                ty: 20 + ltype(p, c.long64),
                size: (p.size() as u32 * a * b) as i32,
                array_len: (a * b) as i32,
                array_dim: 2,
                type_name: cxx(p, c.long64).into(),
                ..base
            }),
            K::MJ(p) => {
                elems.push(InfoElemS {
                    class: "TStreamerBasicType".into(),
                    name: format!("n_{}", c.name),
                    ty: 6,
                    size: 4,
                    type_name: "int".into(),
                    ..Default::default()
                });
                elems.push(InfoElemS {
                    class: "TStreamerBasicPointer".into(),
                    title: format!("[n_{}]", c.name),
                    ty: 40 + ltype(p, c.long64),
                    size: p.size() as i32,
                    type_name: format!("{}*", cxx(p, c.long64)),
                    count_name: format!("n_{}", c.name),
                    count_class: class.into(),
                    ..base
                })
            }
            K::MTString => elems.push(InfoElemS { class: "TStreamerString".into(), ty: 65, size: 24, type_name: "TString".into(), ..base }),
            K::MStr => elems.push(InfoElemS {
                class: "TStreamerSTLstring".into(),
                ty: 500,
                size: 32,
                type_name: "string".into(),
                stl: 365,
                ctype: 365,
                ..base
            }),
            K::MVec(p) => elems.push(InfoElemS {
                class: "TStreamerSTL".into(),
                ty: 500,
                size: 24,
                type_name: format!("vector<{}>", cxx(p, false)),
                stl: 1,
                ctype: ltype(p, false),
                ..base
            }),
            K::MVecStr => elems.push(InfoElemS {
                class: "TStreamerSTL".into(),
                ty: 500,
                size: 24,
                type_name: "vector<string>".into(),
                stl: 1,
                ctype: 365,
                ..base
            }),
            _ => unreachable!(),
        }
    }
    for g in groups {
        elems.push(if g.base {
            InfoElemS { class: "TStreamerBase".into(), name: g.class.clone(), type_name: "BASE".into(), ..Default::default() }
        } else {
            InfoElemS { class: "TStreamerObjectAny".into(), name: g.name.clone(), ty: 62, size: 16, type_name: g.class.clone(), ..Default::default() }
        });
    }
    InfoS { name: class.into(), checksum: 0x1234_5678, vers: 1, elems }
}

/// elements of the description taken by the members of a class
fn slots(members: &[FCol]) -> i32 {
    members.iter().map(|c| 1 + matches!(c.kind, K::MJ(_)) as i32).sum()
}

fn group_branch(g: &Group, pos: i32, parent_path: &str, parent_class: &str, n: usize, t: &FTree, ids: &mut Ids) -> BranchS {
    let name = format!("{parent_path}{}", if g.base { &g.class } else { &g.name });
    BranchS {
        name: name.clone(),
        title: name,
        id: ids.next(),
        cpp: g.class.clone(),
        elem: Some(ElemS {
            class_name: parent_class.into(),
            parent: parent_class.into(),
            checksum: 0x1234_5678,
            class_vers: 1,
            id: pos,
            btype: if g.base { 1 } else { 2 },
            stype: if g.base { 0 } else { 62 },
            max: 0,
            count: None,
            vers: t.evers,
        }),
        entries: n as i64,
        split: 98,
        vers: 13,
        spare: 9,
        children: object_children(&g.members, &g.groups, &g.path(parent_path), &g.class, n, t, ids),
        ..Default::default()
    }
}

fn object_children(members: &[FCol], groups: &[Group], path: &str, class: &str, n: usize, t: &FTree, ids: &mut Ids) -> Vec<BranchS> {
    let mut out = vec![];
    let mut pos = 0;
    for m in members {
        let m = FCol { path: path.into(), owner: class.into(), ..m.clone() };
        out.extend(branches_of(&m, n, pos, t.evers, ids));
        pos += slots(std::slice::from_ref(&m));
    }
    for g in groups {
        out.push(group_branch(g, pos, path, class, n, t, ids));
        pos += 1;
    }
    out
}

fn group_infos(groups: &[Group], out: &mut Vec<InfoS>) {
    for g in groups {
        if !out.iter().any(|i| i.name == g.class) {
            out.push(class_info(&g.class, &g.members, &g.groups));
        }
        group_infos(&g.groups, out);
    }
}

fn top_object(name: &str, class: &str, members: &[FCol], groups: &[Group], n: usize, t: &FTree, ids: &mut Ids) -> BranchS {
    let children = object_children(members, groups, &top_path(name), class, n, t, ids);
    BranchS {
        name: name.into(),
        title: name.into(),
        id: ids.next(),
        cpp: class.into(),
        elem: Some(ElemS {
            class_name: class.into(),
            parent: String::new(),
            checksum: 0x1234_5678,
            class_vers: 1,
            id: -2,
            btype: 0,
            stype: -1,
            max: 0,
            count: None,
            vers: t.evers,
        }),
        leaves: vec![LeafS {
            class: "TLeafElement".into(),
            name: name.into(),
            title: name.into(),
            len: 1,
            size: 4,
            id: ids.next(),
            elem_id: -2,
            ltype: -1,
            ..Default::default()
        }],
        entries: n as i64,
        split: 99,
        vers: t.cols.first().map(|c| c.vers).unwrap_or(13),
        spare: 9,
        children,
        ..Default::default()
    }
}

pub fn tree_s(t: &FTree, ids: &mut Ids) -> TreeS {
    let n = t.n as usize;
    let mut tops = vec![];
    for c in &t.cols {
        tops.push(branches_of(c, n, 0, t.evers, ids));
    }
    if !t.members.is_empty() || !t.groups.is_empty() {
        tops.push(vec![top_object(&t.obj_name(), CLASS, &t.members, &t.groups, n, t, ids)]);
    }
    for o in &t.objs {
        tops.push(vec![top_object(&o.name, &o.class, &o.members, &o.groups, n, t, ids)]);
    }
    let k = tops.len().max(1);
    tops.rotate_left(t.rot as usize % k);
    let branches = tops.concat();
    TreeS {
        vers: t.tvers,
        name: t.name.clone(),
        title: format!("title of {}", t.name),
        cycle: 1,
        entries: n as i64,
        branches,
        store: Some(st(t.store)),
        clusters: t.clusters as usize,
        far: t.far,
        user: None,
        extra: Default::default(),
        key: None,
    }
}

pub fn file_s(f: &FFile) -> FileS {
    let mut ids = Ids::new();
    // one description serves the object of every tree
    let mut all: Vec<FCol> = vec![];
    let mut groups: Vec<Group> = vec![];
    let mut infos = vec![];
    for t in &f.trees {
        for c in &t.members {
            if !all.iter().any(|x| x.name == c.name) {
                all.push(c.clone());
            }
        }
        for g in &t.groups {
            if !groups.iter().any(|x| x.name == g.name && x.base == g.base) {
                groups.push(g.clone());
            }
        }
        group_infos(&t.groups, &mut infos);
        group_infos(&t.objs, &mut infos);
    }
    if !all.is_empty() || !groups.is_empty() {
        infos.push(class_info(CLASS, &all, &groups));
    }
    FileS {
        name: "foreign.root".into(),
        title: "".into(),
        trees: f.trees.iter().map(|t| tree_s(t, &mut ids)).collect(),
        infos,
        info_store: Some(st(f.info_store)),
        others: vec![],
        seed: f.seed,
        tree_place: f.tree_place,
        big: f.big,
        far_at: f.far_at,
        far_keys: f.far_keys,
        far_infos: f.far_infos,
        compress: 101,
    }
}

/// Iterate a foreign column as byte strings comparable with `FCol::want`.
pub fn iter_foreign<'a>(b: &'a Branch, k: K, mode: Mode) -> Result<Box<dyn Iterator<Item = Vec<u8>> + 'a>, String> {
    macro_rules! go {
        ($t:ty, $f:expr) => {
            read_any_way::<$t>(b, mode, $f)
        };
    }
    match k {
        K::S(p) | K::MS(p) => iter_bytes(b, Ty::S(p), mode),
        K::A2(p, x, y) | K::MA2(p, x, y) => iter_bytes(b, Ty::A(p, x * y), mode),
        K::A(p, n) | K::MA(p, n) => iter_bytes(b, Ty::A(p, n), mode),
        K::Str | K::TStr | K::MTString | K::MStr => iter_bytes(b, Ty::Str, mode),
        K::TVec(p) | K::MVec(p) if p != P::Bool => with_num!(p, T => go!(Vec<T>, |x: Vec<T>| ser_all(&x))),
        K::TVec(_) | K::MVec(_) => go!(Vec<bool>, |x: Vec<bool>| ser_all(&x)),
        K::J(p) | K::J2(p, _) | K::MJ(p) => with_prim!(p, T => go!(Slice<T>, |x: Slice<T>| ser_all(x.inner()))),
        K::MVecStr => go!(Vec<String>, |x: Vec<String>| flat_words(&x.into_iter().map(String::into_bytes).collect::<Vec<_>>())),
    }
}

pub fn read_foreign(b: &Branch, k: K, mode: Mode, cap: usize) -> Result<Vec<Vec<u8>>, String> {
    guard(|| -> Result<Vec<Vec<u8>>, String> { Ok(iter_foreign(b, k, mode)?.take(cap).collect()) })?
}

/// Check every column (and its counter) of a tree read by the library.
pub fn check_ftree(tree: &oxyroot::ReaderTree, t: &FTree, mode: Mode) -> Result<u64, Fail> {
    let mut n = 0u64;
    if tree.entries() != t.n as i64 {
        return Err(Fail::new(format!("tree reports {} entries, it has {}", tree.entries(), t.n)));
    }
    for c in &t.flat() {
        let nm = branch_name(c);
        let b = tree.branch(&nm).ok_or_else(|| Fail::new(format!("column {nm:?} not found")))?;
        if b.entries() != t.n as i64 {
            return Err(Fail::new(format!("column {nm:?} reports {} entries, it has {}", b.entries(), t.n)));
        }
        let ty = guard(|| b.item_type_name()).map_err(|e| Fail::new(format!("type of column {nm:?} ({:?}): panic {e}", c.kind)))?;
        if ty != c.kind.cpp() {
            return Err(Fail::new(format!("column {nm:?} ({:?}) advertised as {ty:?}, expected {:?}", c.kind, c.kind.cpp())));
        }
        let want = c.want(t.n as usize);
        let got = read_foreign(b, c.kind, mode, want.len() + 3).map_err(|e| Fail::new(format!("reading column {nm:?} ({:?}): {e}", c.kind)))?;
        diff(&format!("column {nm:?} ({:?})", c.kind), &want, &got)?;
        n += want.len() as u64 + 2;
        if matches!(c.kind, K::J(_) | K::J2(..) | K::MJ(_)) {
            let cn = counter_name(c);
            let b = tree.branch(&cn).ok_or_else(|| Fail::new(format!("column {cn:?} not found")))?;
            // a counter member is advertised as unsigned
            let p = if c.kind.member() { P::U32 } else { P::I32 };
            let want: Vec<Vec<u8>> = (0..t.n as usize).map(|i| c.size_of(i).to_be_bytes().to_vec()).collect();
            let got = read_bytes(b, Ty::S(p), mode, want.len() + 3).map_err(|e| Fail::new(format!("reading counter {cn:?}: {e}")))?;
            diff(&format!("counter {cn:?}"), &want, &got)?;
            n += want.len() as u64;
        }
    }
    n += check_objects(tree, t)?;
    Ok(n)
}

/// Objects all of whose members have a fixed size, with the members: read as rows.
fn objects(t: &FTree) -> Vec<(String, Vec<FCol>)> {
    fn fixed(m: &[FCol], g: &[Group]) -> bool {
        m.iter().all(|c| !c.kind.variable()) && g.iter().all(|g| fixed(&g.members, &g.groups))
    }
    fn walk(g: &Group, parent: &str, out: &mut Vec<(String, Vec<FCol>)>) {
        if fixed(&g.members, &g.groups) {
            let mut m = vec![];
            g.flat(parent, &mut m);
            out.push((format!("{parent}{}", if g.base { &g.class } else { &g.name }), m));
        }
        for x in &g.groups {
            walk(x, &g.path(parent), out);
        }
    }
    let mut out = vec![];
    if (!t.members.is_empty() || !t.groups.is_empty()) && fixed(&t.members, &t.groups) {
        let only = FTree { objs: vec![], ..t.clone() };
        out.push((t.obj_name(), only.flat().into_iter().filter(|c| c.kind.member()).collect()));
    }
    for o in &t.objs {
        if fixed(&o.members, &o.groups) {
            let only = FTree { objs: vec![o.clone()], cols: vec![], members: vec![], groups: vec![], ..t.clone() };
            out.push((o.name.clone(), only.flat()));
        }
        for g in &o.groups {
            walk(g, &top_path(&o.name), &mut out);
        }
    }
    let path = if t.dot { t.obj_name() } else { String::new() };
    for g in &t.groups {
        walk(g, &path, &mut out);
    }
    out
}

/// Split objects are read as rows of their members.
pub fn check_objects(tree: &oxyroot::ReaderTree, t: &FTree) -> Result<u64, Fail> {
    let mut n = 0;
    for (name, members) in objects(t) {
        let b = tree.branch(&name).ok_or_else(|| Fail::new(format!("object {name:?} not found")))?;
        let cols: Vec<Vec<Vec<u8>>> = members.iter().map(|c| c.want(t.n as usize)).collect();
        let want: Vec<Vec<u8>> = (0..t.n as usize).map(|i| cols.iter().flat_map(|c| c[i].clone()).collect()).collect();
        let size: usize = want.first().map(|w| w.len()).unwrap_or(0);
        let got = guard(|| -> Vec<Vec<u8>> { b.get_basket(|r| (0..size).map(|_| r.read_u8().expect("member")).collect()).take(want.len() + 3).collect() })
            .map_err(|e| Fail::new(format!("reading object {name:?}: panic {e}")))?;
        diff(&format!("object {name:?} of {:?}", members.iter().map(|c| c.kind).collect::<Vec<_>>()), &want, &got)?;
        n += want.len() as u64 + 1;
    }
    Ok(n)
}

// ---------------------------------------------------------------- generators

/// two dimensions whose product is among `SMALL_N`
fn dims2() -> impl Strategy<Value = (u32, u32)> {
    prop::sample::select(vec![(1, 2), (2, 1), (1, 5), (2, 4), (4, 2), (4, 4), (8, 2), (4, 8)])
}
pub fn plain_kind() -> impl Strategy<Value = K> {
    prop_oneof![
        2 => prim().prop_map(K::S),
        2 => (prim(), prop::sample::select(SMALL_N.to_vec())).prop_map(|(p, n)| K::A(p, n)),
        1 => (prim(), dims2()).prop_map(|(p, (a, b))| K::A2(p, a, b)),
        3 => prim().prop_map(K::J),
        1 => (prim(), 1u32..4).prop_map(|(p, k)| K::J2(p, k)),
        2 => Just(K::Str),
        2 => num().prop_map(K::TVec),
        1 => Just(K::TStr),
    ]
}
pub fn member_kind() -> impl Strategy<Value = K> {
    prop_oneof![
        2 => prim().prop_map(K::MS),
        2 => (prim(), prop::sample::select(SMALL_N.to_vec())).prop_map(|(p, n)| K::MA(p, n)),
        1 => (prim(), dims2()).prop_map(|(p, (a, b))| K::MA2(p, a, b)),
        2 => prim().prop_map(K::MJ),
        1 => Just(K::MTString),
        1 => Just(K::MStr),
        2 => num().prop_map(K::MVec),
        1 => Just(K::MVecStr),
    ]
}

pub fn sizes() -> impl Strategy<Value = Vec<u32>> {
    prop_oneof![
        3 => prop::collection::vec(0u32..4, 1..7),
        2 => prop::collection::vec(prop_oneof![3 => 0u32..20, 1 => 250u32..258, 1 => 60u32..70], 1..6),
        1 => (0u32..40).prop_map(|n| vec![n]),
        1 => prop::collection::vec(0u32..2, 2..12),
        // one element per entry on average
        1 => Just(vec![0, 1, 2]),
    ]
}
pub fn parts() -> impl Strategy<Value = Vec<u32>> {
    prop_oneof![
        1 => Just(vec![]),
        3 => prop::collection::vec(0u32..6, 1..6),
        2 => prop::collection::vec(prop_oneof![1 => Just(0u32), 3 => 1u32..60], 1..5),
        1 => (1u32..3).prop_map(|p| vec![p]),
    ]
}
pub fn algo() -> impl Strategy<Value = (Algo, u32)> {
    let block = prop_oneof![4 => Just(0xff_ffffu32), 2 => 1u32..40, 2 => 40u32..3000, 1 => Just(1u32)];
    let a = prop_oneof![
        2 => Just(Algo::None),
        2 => (1u8..=9).prop_map(Algo::Zlib),
        1 => (1u8..=6).prop_map(Algo::Lzma),
        2 => (1u8..=9).prop_map(Algo::Lz4),
    ];
    // an LZMA block costs megabytes of encoder state
    (a, block).prop_map(|(a, b)| (a, if matches!(a, Algo::Lzma(_)) { b.max(1500) } else { b }))
}

pub struct Opt {
    pub compress: bool,
    pub max_n: u32,
    pub ncols: usize,
}

pub fn fcol<S: Strategy<Value = K> + 'static>(kind: S, o: &Opt) -> BoxedStrategy<FCol> {
    let compress = o.compress;
    let store = if compress { prop::collection::vec(algo(), 0..4).boxed() } else { Just(vec![]).boxed() };
    (
        (kind, sizes(), pat(), any::<u64>(), parts()),
        (prop::bool::weighted(0.3), 0u8..3, 0u8..12, prop::sample::select(vec![13u16, 13, 13, 12, 11, 10, 9, 8, 7, 6]), any::<bool>(), prop::bool::weighted(0.3), store),
    )
        .prop_map(|((kind, sizes, pat, seed, parts), (embed, nulls, spare, vers, offsets, long64, store))| FCol {
            name: String::new(),
            kind,
            sizes,
            pat,
            seed: seed % 1000,
            parts,
            embed,
            nulls,
            spare,
            vers,
            offsets,
            long64,
            store,
            far: false,
            path: String::new(),
            owner: String::new(),
        })
        .boxed()
}

/// Keep the volume of a tree within bounds.
fn fit(c: &mut FCol, n: u32) {
    let per: u64 = if c.sizes.is_empty() { 1 } else { c.sizes.iter().map(|&s| s as u64).sum::<u64>() / c.sizes.len() as u64 + 1 };
    if per * n as u64 > 40_000 {
        for s in c.sizes.iter_mut() {
            *s %= 8;
        }
    }
}

/// Sub-objects and base classes, up to three levels of them.
fn groups(o: &Opt) -> BoxedStrategy<Vec<Group>> {
    let opt = Opt { compress: o.compress, max_n: o.max_n, ncols: o.ncols };
    let leaf = (prop::bool::weighted(0.3), prop::collection::vec(fcol(member_kind(), &opt), 1..3)).prop_map(|(base, members)| Group {
        name: String::new(),
        class: String::new(),
        base,
        members,
        groups: vec![],
    });
    let g = leaf.prop_recursive(2, 5, 2, move |inner| {
        (prop::bool::weighted(0.3), prop::collection::vec(fcol(member_kind(), &Opt { compress: false, max_n: 0, ncols: 0 }), 0..2), prop::collection::vec(inner, 1..3))
            .prop_map(|(base, members, groups)| Group { name: String::new(), class: String::new(), base, members, groups })
    });
    let again = any::<u64>();
    prop_oneof![
        2 => Just(vec![]).boxed(),
        1 => (prop::collection::vec(g, 1..3), again).prop_map(|(mut v, again)| {
            // a second object of the same class
            if again % 3 == 0 && !v[0].base {
                let mut g = v[0].clone();
                g.class = "again".into();
                let mut m = vec![];
                g.all_members(&mut m);
                for c in m {
                    c.seed += 1;
                    let k = c.parts.len().max(1);
                    c.parts.rotate_left((again % 2) as usize % k);
                }
                v.push(g);
            }
            v
        }).boxed(),
    ]
    .boxed()
}
fn name_groups(v: &mut [Group], k: &mut usize, n: u32) {
    for i in 0..v.len() {
        if v[i].class == "again" {
            // names within it are those of the first one
            let mut g = v[0].clone();
            g.name = format!("s{k}");
            *k += 1;
            let (mut a, mut b) = (vec![], vec![]);
            g.all_members(&mut a);
            v[i].all_members(&mut b);
            for (x, y) in a.iter_mut().zip(b) {
                let (name, kind) = (std::mem::take(&mut x.name), x.kind);
                **x = FCol { name, kind, ..y.clone() };
                fit(x, n);
            }
            v[i] = g;
            continue;
        }
        let g = &mut v[i];
        g.name = format!("s{k}");
        g.class = format!("Class{k}");
        *k += 1;
        for c in g.members.iter_mut() {
            c.name = format!("m{k}");
            *k += 1;
            fit(c, n);
        }
        name_groups(&mut g.groups, k, n);
    }
}

pub fn ftree(o: Opt) -> BoxedStrategy<FTree> {
    let n = prop_oneof![1 => 0u32..3, 4 => 1u32..30.min(o.max_n), 3 => 1u32..o.max_n];
    let store = if o.compress { algo().boxed() } else { Just((Algo::None, 0)).boxed() };
    (
        n,
        prop::collection::vec(fcol(plain_kind(), &o), 0..=o.ncols),
        prop::collection::vec(fcol(member_kind(), &o), 0..=o.ncols),
        store,
        0u8..4,
        prop::sample::select(vec![10u16, 10, 9, 8, 4, 2, 1]),
        (groups(&o), prop::bool::weighted(0.2), groups(&o), prop_oneof![2 => Just(0u8), 1 => 0u8..8], prop_oneof![2 => Just(0u16), 1 => 16u16..20, 1 => 5u16..16]),
    )
        .prop_map(|(n, mut cols, mut members, store, clusters, evers, (mut groups, dot, mut objs, rot, tvers))| {
            for (i, c) in cols.iter_mut().enumerate() {
                c.name = format!("c{i}");
                fit(c, n);
            }
            for (i, c) in members.iter_mut().enumerate() {
                c.name = format!("m{i}");
                fit(c, n);
            }
            // an object without members of its own is not stored
            let mut k = members.len();
            name_groups(&mut groups, &mut k, n);
            name_groups(&mut objs, &mut k, n);
            objs.truncate((rot % 3) as usize);
            let mut seen = vec![];
            for o in objs.iter_mut() {
                o.base = false;
                // the members of a second object of a class are told apart by the dot
                o.name = format!("o{k}{}", if rot % 2 == 1 || seen.contains(&o.class) { "." } else { "" });
                seen.push(o.class.clone());
                k += 1;
            }
            FTree { name: "events".into(), n, cols, members, store, clusters, far: false, evers, groups, dot, objs, rot, tvers }
        })
        .boxed()
}

pub fn ffile(compress: bool, max_n: u32, ncols: usize) -> BoxedStrategy<FFile> {
    let info = if compress { algo().boxed() } else { Just((Algo::None, 0)).boxed() };
    (ftree(Opt { compress, max_n, ncols }), any::<u64>(), 0u8..3, info, prop::bool::weighted(0.2))
        .prop_map(|(t, seed, tree_place, info_store, big)| FFile {
            trees: vec![t],
            seed: seed % 10_000,
            tree_place,
            info_store,
            big,
            far_at: 0,
            far_keys: false,
            far_infos: false,
        })
        .boxed()
}
