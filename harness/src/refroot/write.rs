//! Independent ROOT file writer: produces files in the layouts other ROOT implementations
//! use (basket partitions, embedded baskets, compression per record, 64-bit positions,
//! older branch versions, nested branches, user information).
use super::comp::{compress, Algo};
use std::collections::HashMap;
use std::io::{Seek, SeekFrom, Write};
use std::path::Path;

/// How a record's payload is stored.
pub type Store = (Algo, usize);
pub const RAW: Store = (Algo::None, 0);

#[derive(Default)]
pub struct Wr {
    pub b: Vec<u8>,
    /// length of the key in front of the payload: references count from the record's start
    base: usize,
    classes: HashMap<String, u32>,
    objs: HashMap<u32, u32>,
}

impl Wr {
    pub fn new(base: usize) -> Wr {
        Wr { base, ..Default::default() }
    }
    pub fn u8(&mut self, v: u8) {
        self.b.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        self.b.extend(v.to_be_bytes())
    }
    pub fn i32(&mut self, v: i32) {
        self.b.extend(v.to_be_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.b.extend(v.to_be_bytes())
    }
    pub fn i64(&mut self, v: i64) {
        self.b.extend(v.to_be_bytes())
    }
    pub fn f64(&mut self, v: f64) {
        self.b.extend(v.to_be_bytes())
    }
    pub fn str(&mut self, s: &str) {
        self.b.extend(super::read::enc_str(s.len()));
        self.b.extend(s.as_bytes());
    }
    /// byte count + version, body, byte count patched
    pub fn ver<F: FnOnce(&mut Wr)>(&mut self, v: u16, f: F) {
        let p = self.b.len();
        self.u32(0);
        self.u16(v);
        f(self);
        self.patch(p);
    }
    fn patch(&mut self, p: usize) {
        let n = (self.b.len() - p - 4) as u32 | 0x4000_0000;
        self.b[p..p + 4].copy_from_slice(&n.to_be_bytes());
    }
    pub fn tobject(&mut self, bits: u32) {
        self.u16(1);
        self.u32(0);
        self.u32(bits);
    }
    pub fn named(&mut self, name: &str, title: &str) {
        self.ver(1, |w| {
            w.tobject(0x0300_0000);
            w.str(name);
            w.str(title);
        })
    }
    /// an object written through a pointer; `id` makes it available to `reference`
    pub fn any<F: FnOnce(&mut Wr)>(&mut self, class: &str, id: Option<u32>, f: F) {
        let p = self.b.len();
        self.u32(0);
        if let Some(id) = id {
            self.objs.insert(id, (p + self.base + 2) as u32);
        }
        match self.classes.get(class).copied() {
            Some(r) => self.u32(r | 0x8000_0000),
            None => {
                let at = self.b.len();
                self.u32(0xffff_ffff);
                self.b.extend(class.as_bytes());
                self.b.push(0);
                self.classes.insert(class.into(), (at + self.base + 2) as u32);
            }
        }
        f(self);
        self.patch(p);
    }
    pub fn null(&mut self) {
        self.u32(0)
    }
    pub fn reference(&mut self, id: u32) {
        let r = *self.objs.get(&id).expect("object already written");
        self.u32(r)
    }
    pub fn objarray<F: FnOnce(&mut Wr)>(&mut self, n: usize, f: F) {
        self.objarray_as(3, n, f)
    }
    /// the first version had no name, the second no base object
    pub fn objarray_as<F: FnOnce(&mut Wr)>(&mut self, vers: u16, n: usize, f: F) {
        self.ver(vers, |w| {
            if vers > 2 {
                w.tobject(0x0300_0000);
            }
            if vers > 1 {
                w.str("");
            }
            w.i32(n as i32);
            w.i32(0);
            f(w);
        })
    }
}

#[derive(Clone, Debug, Default)]
pub struct LeafS {
    pub class: String,
    pub name: String,
    pub title: String,
    pub len: i32,
    pub size: i32,
    pub unsigned: bool,
    pub range: bool,
    /// id of the leaf that counts this one's elements
    pub count: Option<u32>,
    pub id: u32,
    /// TLeafElement
    pub elem_id: i32,
    pub ltype: i32,
}

#[derive(Clone, Debug, Default)]
pub struct ElemS {
    pub class_name: String,
    pub parent: String,
    pub checksum: u32,
    pub class_vers: i16,
    pub id: i32,
    pub btype: i32,
    pub stype: i32,
    pub max: i32,
    /// id of the counting branch
    pub count: Option<u32>,
    /// version of the TBranchElement (1 to 10)
    pub vers: u16,
}

#[derive(Clone, Debug, Default)]
pub struct BranchS {
    pub name: String,
    pub title: String,
    pub id: u32,
    /// None: plain TBranch
    pub elem: Option<ElemS>,
    pub leaves: Vec<LeafS>,
    /// stored bytes of every entry
    pub data: Vec<Vec<u8>>,
    pub entries: i64,
    pub offsets: bool,
    /// number of entries of every basket, in order
    pub parts: Vec<usize>,
    /// storage of the baskets, cycled
    pub store: Vec<Store>,
    /// the last basket is kept in the tree's own record
    pub embed: bool,
    /// null slots before the embedded basket / instead of it
    pub nulls: usize,
    /// unused slots of the basket tables beyond those needed
    pub spare: usize,
    pub split: i32,
    /// TBranch version
    pub vers: u16,
    pub children: Vec<BranchS>,
    /// baskets located far into the file
    pub far: bool,
    /// the type a reader makes of it (not stored)
    pub cpp: String,
}

impl BranchS {
    fn on_disk(&self) -> usize {
        self.parts.len() - (self.embed && !self.parts.is_empty()) as usize
    }
}

/// An object of a tree's user information.
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub enum UserS {
    /// text, bits of its TObject
    Str(String, u32),
    Map(UserMap),
    List(UserList),
}
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub struct UserMap {
    pub name: String,
    pub vers: u16,
    pub bits: u32,
    pub items: Vec<(String, UserS)>,
}
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub struct UserList {
    pub name: String,
    pub vers: u16,
    pub bits: u32,
    /// each with the option it was added with
    pub items: Vec<(UserS, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct TreeS {
    /// version of the tree's record, 5 to 20 (0: 20)
    pub vers: u16,
    pub name: String,
    pub title: String,
    /// name of the tree's key, if not the tree's own
    pub key: Option<String>,
    pub cycle: i16,
    pub entries: i64,
    pub branches: Vec<BranchS>,
    pub user: Option<UserList>,
    pub store: Option<Store>,
    pub clusters: usize,
    pub far: bool,
    pub extra: Extra,
}

/// What else hangs on a tree.
#[derive(serde::Serialize, serde::Deserialize, Clone, Copy, Debug, Default)]
pub struct Extra {
    /// 1: aliases, 2: index values, 4: index, 8: tree index, 16: friends, 32: branch references
    pub mask: u8,
    /// size of each
    pub n: u8,
}

impl TreeS {
    fn key_name(&self) -> &str {
        self.key.as_deref().unwrap_or(&self.name)
    }
}

#[derive(Clone, Debug, Default)]
pub struct InfoElemS {
    /// TStreamerBasicType, TStreamerSTL, ...
    pub class: String,
    pub name: String,
    pub title: String,
    pub ty: i32,
    pub size: i32,
    pub array_len: i32,
    pub array_dim: i32,
    pub type_name: String,
    /// TStreamerBasicPointer
    pub count_name: String,
    pub count_class: String,
    /// TStreamerSTL
    pub stl: i32,
    pub ctype: i32,
}
#[derive(Clone, Debug, Default)]
pub struct InfoS {
    pub name: String,
    pub checksum: u32,
    pub vers: i32,
    pub elems: Vec<InfoElemS>,
}

#[derive(Clone, Debug, Default)]
pub struct FileS {
    pub name: String,
    pub title: String,
    pub trees: Vec<TreeS>,
    pub infos: Vec<InfoS>,
    pub info_store: Option<Store>,
    /// other keys: class, name, title, payload, storage
    pub others: Vec<(String, String, String, Vec<u8>, Store)>,
    /// order of the records
    pub seed: u64,
    /// trees before (0), among (1) or after (2) the baskets
    pub tree_place: u8,
    /// use wide positions everywhere
    pub big: bool,
    /// where records marked `far` go (0: nothing is far)
    pub far_at: u64,
    pub far_keys: bool,
    pub far_infos: bool,
    pub compress: i32,
}

/// The bytes of a file, with holes.
#[derive(Default)]
pub struct Image {
    pub chunks: Vec<(u64, Vec<u8>)>,
    pub end: u64,
    /// position of every record, for reports
    pub far_records: usize,
    pub records: usize,
    pub stored: usize,
}

impl Image {
    pub fn save(&self, p: &Path) -> std::io::Result<()> {
        let mut f = std::fs::File::create(p)?;
        f.set_len(self.end)?;
        for (at, b) in &self.chunks {
            f.seek(SeekFrom::Start(*at))?;
            f.write_all(b)?;
        }
        Ok(())
    }
}

const DATIME: u32 = 0x6a8f_1234;

#[allow(clippy::too_many_arguments)]
fn key_bytes(class: &str, name: &str, title: &str, cycle: i16, nbytes: i32, objlen: i32, keylen: usize, pos: u64, pdir: u64, big: bool) -> Vec<u8> {
    let mut w = Wr::new(0);
    w.i32(nbytes);
    w.u16(if big { 1004 } else { 4 });
    w.i32(objlen);
    w.u32(DATIME);
    w.u16(keylen as u16);
    w.u16(cycle as u16);
    if big {
        w.i64(pos as i64);
        w.i64(pdir as i64);
    } else {
        w.i32(pos as i32);
        w.i32(pdir as i32);
    }
    w.str(class);
    w.str(name);
    w.str(title);
    w.b
}
fn key_len(class: &str, name: &str, title: &str, big: bool) -> usize {
    key_bytes(class, name, title, 1, 0, 0, 0, 0, 0, big).len()
}

/// positions beyond this are stored in wide fields
const START_BIG: u64 = 2_000_000_000;

/// Sequential allocation in the near or far area.
struct Alloc {
    near: u64,
    far: u64,
    far0: u64,
}
impl Alloc {
    fn peek(&self, far: bool) -> u64 {
        if far && self.far0 > 0 { self.far } else { self.near }
    }
    fn take(&mut self, n: usize, far: bool) -> u64 {
        let c = if far && self.far0 > 0 { &mut self.far } else { &mut self.near };
        let p = *c;
        *c += n as u64;
        p
    }
}

fn stored(payload: &[u8], s: Store) -> Vec<u8> {
    if s.0 == Algo::None {
        return payload.to_vec();
    }
    // a record that does not shrink is stored as it is
    compress(payload, s.0, s.1).filter(|c| c.len() < payload.len()).unwrap_or_else(|| payload.to_vec())
}

struct Put {
    pos: u64,
    nbytes: i32,
}

fn leaf_body(w: &mut Wr, l: &LeafS) {
    w.ver(1, |w| {
        w.ver(2, |w| {
            w.named(&l.name, &l.title);
            w.i32(l.len);
            w.i32(l.size);
            w.i32(0);
            w.u8(l.range as u8);
            w.u8(l.unsigned as u8);
            match l.count {
                Some(id) => w.reference(id),
                None => w.null(),
            }
        });
        match l.class.as_str() {
            "TLeafElement" => {
                w.i32(l.elem_id);
                w.i32(l.ltype);
            }
            "TLeafB" | "TLeafO" => {
                w.u8(0);
                w.u8(if l.range { 100 } else { 0 });
            }
            "TLeafS" => {
                w.u16(0);
                w.u16(if l.range { 100 } else { 0 });
            }
            "TLeafI" | "TLeafC" | "TLeafF" => {
                w.i32(0);
                w.i32(if l.range && l.class == "TLeafI" { 100 } else { 0 });
            }
            "TLeafL" | "TLeafD" => {
                w.i64(0);
                w.i64(0);
            }
            c => unreachable!("leaf {c}"),
        }
    })
}

struct Baskets {
    /// per branch id: (pos, nbytes) of the on-disk baskets
    at: HashMap<u32, Vec<Put>>,
}

/// data and offset table of one basket
fn basket_payload(b: &BranchS, lo: usize, hi: usize, keylen: usize) -> (Vec<u8>, Vec<i32>) {
    let mut d = vec![];
    let mut offs = vec![];
    for e in &b.data[lo..hi] {
        offs.push((d.len() + keylen) as i32);
        d.extend_from_slice(e);
    }
    (d, offs)
}

/// version of a branch's baskets: as old as the branch
fn basket_vers(b: &BranchS) -> u16 {
    match b.vers {
        0..=7 => 1,
        8..=10 => 2,
        _ => 3,
    }
}

fn tbranch_body(w: &mut Wr, b: &BranchS, tree: &str, bk: &Baskets, big: bool) {
    let none = vec![];
    let puts = bk.at.get(&b.id).unwrap_or(&none);
    let wb = b.on_disk();
    let maxb = wb + 1 + b.spare;
    let tot: usize = b.data.iter().map(|e| e.len()).sum();
    // arrays of objects as old as the branch
    let av = match b.vers {
        0..=6 => 1,
        7 => 2,
        _ => 3,
    };
    let objs = |w: &mut Wr| {
        w.objarray_as(av, b.children.len(), |w| {
            for c in &b.children {
                branch_any(w, c, tree, bk, big);
            }
        });
        w.objarray_as(av, b.leaves.len(), |w| {
            for l in &b.leaves {
                w.any(&l.class, Some(l.id), |w| leaf_body(w, l));
            }
        });
        let emb = b.embed && !b.parts.is_empty();
        w.objarray_as(av, b.nulls + emb as usize, |w| {
            for _ in 0..b.nulls {
                w.null();
            }
            if emb {
                let n = *b.parts.last().unwrap();
                let lo = b.parts[..wb].iter().sum::<usize>();
                w.any("TBasket", None, |w| {
                    let kl = key_len("TBasket", &b.name, tree, big) + 19;
                    let (d, offs) = basket_payload(b, lo, lo + n, kl);
                    let last = kl + d.len();
                    w.b.extend(key_bytes("TBasket", &b.name, tree, wb as i16, kl as i32, 0, kl, 0, 100, big));
                    let v = basket_vers(b);
                    w.u16(v);
                    w.i32(32000);
                    w.i32(1000.max(n as i32));
                    w.i32(n as i32);
                    w.i32(last as i32);
                    w.u8(match b.offsets && n > 0 {
                        true if v == 1 => 1,
                        true => 11,
                        false => 12,
                    });
                    if b.offsets && n > 0 {
                        w.i32(n as i32);
                        for o in offs {
                            w.i32(o);
                        }
                    }
                    // the first version stored the length of the data with it
                    if v == 1 {
                        w.i32(last as i32);
                    }
                    w.b.extend(std::iter::repeat(0xa5u8).take(kl));
                    w.b.extend(d);
                })
            }
        });
    };
    let mut firsts: Vec<i64> = vec![];
    let mut at = 0i64;
    for p in &b.parts[..wb] {
        firsts.push(at);
        at += *p as i64;
    }
    firsts.push(at);
    let named = |w: &mut Wr| w.named(&b.name, &b.title);
    let attfill = |w: &mut Wr| {
        w.ver(2, |w| {
            w.u16(0);
            w.u16(1001);
        })
    };
    if b.vers >= 10 {
        w.ver(b.vers, |w| {
            named(w);
            attfill(w);
            w.i32(1);
            w.i32(32000);
            w.i32(if b.offsets { 1000 } else { 0 });
            w.i32(wb as i32);
            w.i64(b.entries);
            if b.vers >= 13 {
                w.ver(1, |w| w.u8(0));
            }
            w.i32(0);
            w.i32(maxb as i32);
            w.i32(b.split);
            w.i64(b.entries);
            if b.vers >= 11 {
                w.i64(0);
            }
            w.i64(tot as i64);
            w.i64(tot as i64);
            objs(w);
            w.u8(1);
            for k in 0..maxb {
                w.i32(puts.get(k).map(|p| p.nbytes).unwrap_or(0));
            }
            w.u8(1);
            for k in 0..maxb {
                w.i64(firsts.get(k).copied().unwrap_or(0));
            }
            w.u8(1);
            for k in 0..maxb {
                w.i64(puts.get(k).map(|p| p.pos as i64).unwrap_or(0));
            }
            w.str("");
        })
    } else {
        w.ver(b.vers, |w| {
            named(w);
            if b.vers > 7 {
                attfill(w);
            }
            w.i32(1);
            w.i32(32000);
            w.i32(if b.offsets { 1000 } else { 0 });
            w.i32(wb as i32);
            w.i32(b.entries as i32);
            w.i32(0);
            w.i32(maxb as i32);
            if b.vers > 6 {
                w.i32(b.split);
            }
            w.f64(b.entries as f64);
            w.f64(tot as f64);
            w.f64(tot as f64);
            objs(w);
            w.u8(1);
            for k in 0..maxb {
                w.i32(puts.get(k).map(|p| p.nbytes).unwrap_or(0));
            }
            w.u8(1);
            for k in 0..maxb {
                w.i32(firsts.get(k).copied().unwrap_or(0) as i32);
            }
            let wide = big || puts.iter().any(|p| p.pos > i32::MAX as u64);
            w.u8(if wide { 2 } else { 1 });
            for k in 0..maxb {
                let v = puts.get(k).map(|p| p.pos).unwrap_or(0);
                if wide {
                    w.i64(v as i64)
                } else {
                    w.i32(v as i32)
                }
            }
            w.str("");
        })
    }
}

fn branch_any(w: &mut Wr, b: &BranchS, tree: &str, bk: &Baskets, big: bool) {
    match &b.elem {
        None => w.any("TBranch", Some(b.id), |w| tbranch_body(w, b, tree, bk, big)),
        Some(e) => w.any("TBranchElement", Some(b.id), |w| {
            w.ver(e.vers, |w| {
                tbranch_body(w, b, tree, bk, big);
                w.str(&e.class_name);
                if e.vers > 1 {
                    w.str(&e.parent);
                    w.str("");
                    w.u32(e.checksum);
                }
                if e.vers >= 10 {
                    w.u16(e.class_vers as u16);
                } else {
                    w.u32(e.class_vers as u32);
                }
                w.i32(e.id);
                w.i32(e.btype);
                w.i32(e.stype);
                if e.vers == 1 {
                    return;
                }
                w.i32(e.max);
                match e.count {
                    Some(id) => w.reference(id),
                    None => w.null(),
                }
                w.null();
            })
        }),
    }
}

fn user_any(w: &mut Wr, u: &UserS) {
    match u {
        UserS::Str(s, bits) => w.any("TObjString", None, |w| objstring(w, s, *bits)),
        UserS::Map(m) => w.any("TMap", None, |w| {
            w.ver(m.vers, |w| {
                if m.vers > 2 {
                    tobject_ref(w, m.bits);
                }
                if m.vers > 1 {
                    w.str(&m.name);
                }
                w.i32(m.items.len() as i32);
                for (k, x) in &m.items {
                    w.any("TObjString", None, |w| objstring(w, k, 0x0300_0000));
                    user_any(w, x);
                }
            })
        }),
        UserS::List(l) => w.any("TList", None, |w| list(w, l)),
    }
}
/// a TObject, with the process number of a referenced one
fn tobject_ref(w: &mut Wr, bits: u32) {
    w.tobject(bits);
    if bits & 0x10 != 0 {
        w.u16(1);
    }
}
fn objstring(w: &mut Wr, s: &str, bits: u32) {
    w.ver(1, |w| {
        tobject_ref(w, bits);
        w.str(s);
    })
}
fn list(w: &mut Wr, l: &UserList) {
    w.ver(l.vers, |w| {
        tobject_ref(w, l.bits);
        w.str(&l.name);
        w.i32(l.items.len() as i32);
        for (u, option) in &l.items {
            user_any(w, u);
            if l.vers > 4 {
                w.str(option);
            } else {
                w.u8(option.len() as u8);
                w.b.extend(option.as_bytes());
            }
        }
    })
}

/// The record of a list without items.
pub fn empty_list(name: &str) -> Vec<u8> {
    let mut w = Wr::new(0);
    list(&mut w, &UserList { name: name.to_string(), vers: 5, bits: 0, items: vec![] });
    w.b
}

fn collect_leaves(b: &BranchS, out: &mut Vec<u32>) {
    out.extend(b.leaves.iter().map(|l| l.id));
    for c in &b.children {
        collect_leaves(c, out);
    }
}

fn tree_payload(t: &TreeS, keylen: usize, bk: &Baskets, big: bool) -> Vec<u8> {
    let vers = if t.vers == 0 { 20 } else { t.vers };
    let mut w = Wr::new(keylen);
    w.ver(vers, |w| {
        w.named(&t.name, &t.title);
        w.ver(2, |w| {
            w.u16(602);
            w.u16(1);
            w.u16(1);
        });
        w.ver(2, |w| {
            w.u16(0);
            w.u16(1001);
        });
        w.ver(2, |w| {
            w.u16(1);
            w.u16(1);
            w.b.extend(1.0f32.to_be_bytes());
        });
        if vers > 5 {
            w.i64(t.entries);
            w.i64(0);
            w.i64(0);
            w.i64(0);
        } else {
            w.f64(t.entries as f64);
            w.f64(0.0);
            w.f64(0.0);
            w.f64(0.0);
        }
        if vers >= 18 {
            w.i64(0);
        }
        if vers >= 16 {
            w.f64(1.0);
        }
        w.i32(0);
        w.i32(25);
        w.i32(0);
        if vers >= 17 {
            w.i32(1000);
        }
        if vers >= 19 {
            w.i32(t.clusters as i32);
        }
        if vers > 5 {
            w.i64(1_000_000_000_000);
            w.i64(1_000_000_000_000);
            w.i64(0);
            w.i64(-300_000_000);
        } else {
            w.i32(1_000_000_000);
            w.i32(0);
            w.i32(100_000_000);
        }
        if vers >= 18 {
            w.i64(-30_000_000);
        }
        if vers > 5 {
            w.i64(1_000_000);
        } else {
            w.i32(1_000_000);
        }
        if vers >= 19 {
            w.u8((t.clusters > 0) as u8);
            for k in 0..t.clusters {
                w.i64(k as i64 + 1);
            }
            w.u8((t.clusters > 0) as u8);
            for _ in 0..t.clusters {
                w.i64(1);
            }
        }
        if vers >= 20 {
            w.ver(1, |w| w.u8(0));
        }
        w.objarray(t.branches.len(), |w| {
            for b in &t.branches {
                branch_any(w, b, &t.name, bk, big);
            }
        });
        let mut ids = vec![];
        for b in &t.branches {
            collect_leaves(b, &mut ids);
        }
        w.objarray(ids.len(), |w| {
            for i in &ids {
                w.reference(*i);
            }
        });
        let x = t.extra;
        let n = x.n as usize;
        let named_list = |w: &mut Wr, class: &str| {
            w.any("TList", None, |w| {
                w.ver(5, |w| {
                    w.tobject(0x0300_4000);
                    w.str("");
                    w.i32(n as i32);
                    for k in 0..n {
                        w.any(class, None, |w| {
                            if class == "TNamed" {
                                return w.named(&format!("alias{k}"), "x + 1");
                            }
                            w.ver(2, |w| {
                                w.named(&format!("friend{k}"), "other.root");
                                w.str("events");
                                w.u8(1);
                            })
                        });
                        w.u8(0);
                    }
                })
            })
        };
        if vers > 5 {
            match x.mask & 1 {
                0 => w.null(),
                _ => named_list(w, "TNamed"),
            }
        }
        let m = if x.mask & 2 > 0 { n } else { 0 };
        w.i32(m as i32);
        (0..m).for_each(|k| w.f64(k as f64));
        let m = if x.mask & 4 > 0 { n } else { 0 };
        w.i32(m as i32);
        (0..m).for_each(|k| w.i32(k as i32));
        if vers <= 5 {
            return;
        }
        match x.mask & 8 {
            0 => w.null(),
            _ => w.any("TTreeIndex", None, |w| {
                w.ver(2, |w| {
                    w.ver(1, |w| {
                        w.named("", "");
                        w.null();
                    });
                    w.str("run");
                    w.str("event");
                    w.i64(n as i64);
                    for _ in 0..3 {
                        w.u8(1);
                        (0..n).for_each(|k| w.i64(k as i64));
                    }
                })
            }),
        }
        match x.mask & 16 {
            0 => w.null(),
            _ => named_list(w, "TFriendElement"),
        }
        match &t.user {
            None => w.null(),
            Some(l) => w.any("TList", None, |w| list(w, l)),
        }
        match x.mask & 32 {
            0 => w.null(),
            _ => w.any("TBranchRef", None, |w| {
                w.ver(1, |w| {
                    w.named("TRefTable", "");
                    w.any("TRefTable", None, |w| {
                        w.ver(3, |w| {
                            w.tobject(0x0300_0000);
                            w.i32(n as i32);
                            w.any("TObjArray", None, |w| w.objarray(0, |_| ()));
                            w.null();
                        })
                    })
                })
            }),
        }
    });
    w.b
}

fn elem_body(w: &mut Wr, e: &InfoElemS, old: bool) {
    w.ver(if old { 2 } else { 4 }, |w| {
        w.named(&e.name, &e.title);
        w.i32(e.ty);
        w.i32(e.size);
        w.i32(e.array_len);
        w.i32(e.array_dim);
        for k in 0..5 {
            w.i32(if k < e.array_dim { e.array_len } else { 0 });
        }
        w.str(&e.type_name);
    })
}

/// `old`: with elements of the second version
fn infos_payload(infos: &[InfoS], keylen: usize, old: bool) -> Vec<u8> {
    let mut w = Wr::new(keylen);
    w.ver(5, |w| {
        w.tobject(0);
        w.str("");
        w.i32(infos.len() as i32);
        for i in infos {
            w.any("TStreamerInfo", None, |w| {
                w.ver(9, |w| {
                    w.named(&i.name, "");
                    w.u32(i.checksum);
                    w.i32(i.vers);
                    w.any("TObjArray", None, |w| {
                        w.objarray(i.elems.len(), |w| {
                            for e in &i.elems {
                                let v = match e.class.as_str() {
                                    "TStreamerBase" if old => 2,
                                    "TStreamerSTL" | "TStreamerBase" => 3,
                                    _ => 2,
                                };
                                w.any(&e.class, None, |w| {
                                    w.ver(v, |w| match e.class.as_str() {
                                        "TStreamerSTLstring" => w.ver(3, |w| {
                                            elem_body(w, e, old);
                                            w.i32(e.stl);
                                            w.i32(e.ctype);
                                        }),
                                        "TStreamerSTL" => {
                                            elem_body(w, e, old);
                                            w.i32(e.stl);
                                            w.i32(e.ctype);
                                        }
                                        "TStreamerBase" => {
                                            elem_body(w, e, old);
                                            if !old {
                                                w.i32(1);
                                            }
                                        }
                                        "TStreamerBasicPointer" => {
                                            elem_body(w, e, old);
                                            w.i32(1);
                                            w.str(&e.count_name);
                                            w.str(&e.count_class);
                                        }
                                        _ => elem_body(w, e, old),
                                    })
                                });
                            }
                        })
                    });
                })
            });
            w.u8(0);
        }
    });
    w.b
}

/// Mark an unused range as free, as ROOT does.
fn free_gap(img: &mut Image, mut from: u64, to: u64) {
    while from < to {
        let n = (to - from).min(1_900_000_000);
        // a gap must be able to hold its own marker
        let n = if to - from - n > 0 && to - from - n < 8 { n - 100 } else { n };
        img.chunks.push((from, (-(n as i32)).to_be_bytes().to_vec()));
        from += n;
    }
}

pub fn build(f: &FileS) -> Image {
    let big = f.big;
    let mut img = Image::default();
    // small files of old began right after their header
    let small = !big && f.far_at == 0;
    let begin = if small && f.seed % 5 == 1 { 64u64 } else { 100 };
    // files beyond 2 GB came with version 4
    let file_vers = match f.seed % 7 {
        2 if small => 30506,
        3 if small => 22509,
        4 => 40008,
        5 => 53434,
        6 => 61206,
        _ => 62600,
    };
    // ranges left by deleted records
    let mut free: Vec<(u64, u64)> = vec![];
    let holes = if f.seed % 3 == 2 { 1 + f.seed % 4 } else { 0 };
    let mut al = Alloc { near: begin, far: f.far_at, far0: f.far_at };
    let mut mix = crate::model::Mix(f.seed ^ 0x77);

    // first record: the directory
    // the directory is wide when the key list lies far away
    let bigdir = big || (f.far_keys && f.far_at > 0);
    let fk = key_len("TFile", &f.name, &f.title, big);
    let name_len = fk + super::read::enc_str(f.name.len()).len() + f.name.len() + super::read::enc_str(f.title.len()).len() + f.title.len();
    let dir_len = name_len + 2 + 4 + 4 + 4 + 4 + if bigdir { 24 } else { 12 } + 18 + if bigdir { 0 } else { 12 };
    let dir_at = al.take(dir_len, false);
    assert_eq!(dir_at, begin);

    // baskets to place: (tree, path to branch, index of basket)
    fn walk<'a>(t: &'a str, b: &'a BranchS, out: &mut Vec<(&'a str, &'a BranchS, usize)>) {
        for k in 0..b.on_disk() {
            out.push((t, b, k));
        }
        for c in &b.children {
            walk(t, c, out);
        }
    }
    let mut todo = vec![];
    for t in &f.trees {
        for b in &t.branches {
            walk(&t.name, b, &mut todo);
        }
    }
    for i in (1..todo.len()).rev() {
        todo.swap(i, mix.below(i as u64 + 1) as usize);
    }
    let half = match f.tree_place {
        0 => 0,
        1 => todo.len() / 2,
        _ => todo.len(),
    };

    let mut bk = Baskets { at: HashMap::new() };
    // space of the trees when they come before some baskets
    let mut reserved: Vec<Option<(u64, usize, bool)>> = vec![None; f.trees.len()];
    let wide = |al: &Alloc, far: bool| big || al.peek(far) > START_BIG;
    let tree_key = |t: &TreeS, w: bool| key_len("TTree", t.key_name(), &t.title, w);
    let mut place_trees = |al: &mut Alloc, bk: &Baskets| {
        for (i, t) in f.trees.iter().enumerate() {
            let w = wide(al, t.far);
            let tkl = tree_key(t, w);
            let n = 2 * tree_payload(t, tkl, bk, big).len() + tkl + 600;
            reserved[i] = Some((al.take(n, t.far), n, w));
        }
    };
    for (i, (tname, b, k)) in todo.iter().enumerate() {
        if (free.len() as u64) < holes && (i as u64 + f.seed) % 2 == 0 {
            let n = 8 + (f.seed + 13 * i as u64) % 300;
            let at = al.take(n as usize, false);
            free_gap(&mut img, at, at + n);
            free.push((at, at + n - 1));
        }
        if i == half && f.tree_place < 2 {
            place_trees(&mut al, &bk);
        }
        let bw = wide(&al, b.far);
        let kl = key_len("TBasket", &b.name, tname, bw) + 19;
        let lo: usize = b.parts[..*k].iter().sum();
        let n = b.parts[*k];
        let (mut d, offs) = basket_payload(b, lo, lo + n, kl);
        let last = kl + d.len();
        if b.offsets {
            d.extend((n as i32 + 1).to_be_bytes());
            for o in offs {
                d.extend(o.to_be_bytes());
            }
            d.extend(0i32.to_be_bytes());
        }
        let st = b.store.get(*k % b.store.len().max(1)).copied().unwrap_or(RAW);
        let body = stored(&d, st);
        img.stored += (body.len() != d.len()) as usize;
        let nbytes = kl + body.len();
        let pos = al.take(nbytes, b.far);
        img.far_records += (b.far && f.far_at > 0) as usize;
        let mut w = Wr::new(0);
        w.b = key_bytes("TBasket", &b.name, tname, *k as i16, nbytes as i32, d.len() as i32, kl, pos, begin, bw);
        w.u16(basket_vers(b));
        w.i32(32000.max(d.len() as i32));
        // fNevBufSize: length of the offset table, or the size of one entry
        w.i32(if b.offsets { 1000.max(n as i32 + 1) } else { b.data.get(lo).map(|e| e.len()).unwrap_or(4) as i32 });
        w.i32(n as i32);
        w.i32(last as i32);
        w.u8(0);
        w.b.extend(&body);
        let v = bk.at.entry(b.id).or_default();
        while v.len() < b.on_disk() {
            v.push(Put { pos: 0, nbytes: 0 });
        }
        v[*k] = Put { pos, nbytes: nbytes as i32 };
        img.chunks.push((pos, w.b));
        img.records += 1;
    }
    if f.tree_place < 2 && half >= todo.len() {
        place_trees(&mut al, &bk);
    }

    // keys of the directory
    let mut dirkeys: Vec<Vec<u8>> = vec![];
    for (i, t) in f.trees.iter().enumerate() {
        let tw = match reserved[i] {
            Some((_, _, w)) => w,
            None => wide(&al, t.far),
        };
        let tkl = tree_key(t, tw);
        let pl = tree_payload(t, tkl, &bk, big);
        let body = stored(&pl, t.store.unwrap_or(RAW));
        img.stored += (body.len() != pl.len()) as usize;
        let nbytes = tkl + body.len();
        let pos = match reserved[i] {
            Some((p, n, _)) => {
                if nbytes > n {
                    panic!("reserved {n} bytes for a tree record of {nbytes}");
                }
                if nbytes < n {
                    free_gap(&mut img, p + nbytes as u64, p + n as u64);
                }
                p
            }
            None => al.take(nbytes, t.far),
        };
        img.far_records += (t.far && f.far_at > 0) as usize;
        let k = key_bytes("TTree", t.key_name(), &t.title, t.cycle.max(1), nbytes as i32, pl.len() as i32, tkl, pos, begin, tw);
        dirkeys.push(k.clone());
        let mut b = k;
        b.extend(body);
        img.chunks.push((pos, b));
        img.records += 1;
    }
    for (c, n, t, pl, st) in &f.others {
        let kl = key_len(c, n, t, big);
        let body = stored(pl, *st);
        let nbytes = kl + body.len();
        let pos = al.take(nbytes, false);
        let k = key_bytes(c, n, t, 1, nbytes as i32, pl.len() as i32, kl, pos, begin, big);
        let at = mix.below(dirkeys.len() as u64 + 1) as usize;
        dirkeys.insert(at, k.clone());
        let mut b = k;
        b.extend(body);
        img.chunks.push((pos, b));
        img.records += 1;
    }

    // key list
    let kw = wide(&al, f.far_keys);
    let kkl = key_len("TFile", &f.name, &f.title, kw);
    let mut pl = (dirkeys.len() as i32).to_be_bytes().to_vec();
    for k in &dirkeys {
        pl.extend(k);
    }
    let nkeys = kkl + pl.len();
    let keys_at = al.take(nkeys, f.far_keys);
    let mut b = key_bytes("TFile", &f.name, &f.title, 1, nkeys as i32, pl.len() as i32, kkl, keys_at, begin, kw);
    b.extend(pl);
    img.chunks.push((keys_at, b));

    // descriptions
    // a file without classes may have no such record at all
    let no_infos = f.infos.is_empty() && f.seed % 2 == 1;
    let iw = wide(&al, f.far_infos);
    let ikl = key_len("TList", "StreamerInfo", "Doubly linked list", iw);
    let pl = infos_payload(&f.infos, ikl, f.trees.iter().any(|t| (1..18).contains(&t.vers)));
    let body = stored(&pl, f.info_store.unwrap_or(RAW));
    img.stored += (body.len() != pl.len()) as usize;
    let ninfo = if no_infos { 0 } else { ikl + body.len() };
    let info_at = if no_infos { 0 } else { al.take(ninfo, f.far_infos) };
    let mut b = key_bytes("TList", "StreamerInfo", "Doubly linked list", 1, ninfo as i32, pl.len() as i32, ikl, info_at, begin, iw);
    b.extend(body);
    if !no_infos {
        img.chunks.push((info_at, b));
    }

    // free list, always last

    let far_used = f.far_at > 0 && al.far > f.far_at;
    let fw = wide(&al, far_used);
    let fkl = key_len("TFile", &f.name, &f.title, fw);
    let big_end = big || al.peek(far_used) + 200 > START_BIG;
    let seg = if big_end { 18 } else { 10 } + 10 * free.len();
    let nfree_bytes = fkl + seg;
    let free_at = al.take(nfree_bytes, far_used);
    let end = if far_used { al.far } else { al.near };
    let mut b = key_bytes("TFile", &f.name, &f.title, 1, nfree_bytes as i32, seg as i32, fkl, free_at, begin, fw);
    let mut w = Wr::new(0);
    for (first, last) in &free {
        w.u16(1);
        w.i32(*first as i32);
        w.i32(*last as i32);
    }
    if big_end {
        w.u16(1001);
        w.i64(end as i64);
        w.i64(((end as i64) / 1_000_000_000 + 2) * 1_000_000_000);
    } else {
        w.u16(1);
        w.i32(end as i32);
        w.i32(2_000_000_000);
    }
    b.extend(w.b);
    img.chunks.push((free_at, b));
    if far_used && al.near < f.far_at {
        free_gap(&mut img, al.near, f.far_at);
    }

    // the directory itself
    let mut w = Wr::new(0);
    w.b = key_bytes("TFile", &f.name, &f.title, 1, dir_len as i32, (dir_len - fk) as i32, fk, begin, 0, big);
    w.str(&f.name);
    w.str(&f.title);
    w.u16(if bigdir { 1005 } else { 5 });
    w.u32(DATIME);
    w.u32(DATIME);
    w.i32(nkeys as i32);
    w.i32(name_len as i32);
    if bigdir {
        w.i64(begin as i64);
        w.i64(0);
        w.i64(keys_at as i64);
    } else {
        w.i32(begin as i32);
        w.i32(0);
        w.i32(keys_at as i32);
    }
    w.u16(1);
    w.b.extend([0x11u8; 16]);
    if !bigdir {
        w.b.extend([0u8; 12]);
    }
    assert_eq!(w.b.len(), dir_len);
    img.chunks.push((begin, w.b));

    // header
    let mut w = Wr::new(0);
    w.b.extend(b"root");
    let bighead = big_end || info_at > START_BIG;
    w.i32(file_vers + if bighead { 1_000_000 } else { 0 });
    w.i32(begin as i32);
    if bighead {
        w.i64(end as i64);
        w.i64(free_at as i64);
    } else {
        w.i32(end as i32);
        w.i32(free_at as i32);
    }
    w.i32(nfree_bytes as i32);
    w.i32(1 + free.len() as i32);
    w.i32(name_len as i32);
    w.u8(if bighead { 8 } else { 4 });
    w.i32(f.compress);
    if bighead {
        w.i64(info_at as i64);
    } else {
        w.i32(info_at as i32);
    }
    w.i32(ninfo as i32);
    w.u16(1);
    w.b.extend([0x22u8; 16]);
    img.chunks.push((0, w.b));
    img.end = end;
    img
}
