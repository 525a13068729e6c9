//! C06, C07: the bytes of a written file, judged by the independent parser.
//! C20, C23: completeness at close, replacement, determinism.
use super::common::*;
use super::p_write::{cols, tree_spec};
use crate::engine::*;
use crate::model::*;
use crate::refroot::read::{enc_str, split_strings, Cur, Key, RFile};
use crate::{bail, ensure};
use oxyroot::RootFile;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FileSpec {
    pub trees: Vec<TreeSpec>,
}

fn size_labels(f: &FileSpec, info: &mut Info) {
    let ncols: usize = f.trees.iter().map(|t| t.cols.len()).sum();
    info.label(format!("trees:{}", match f.trees.len() { 0 => "0", 1 => "1", _ => "2+" }));
    info.label(format!("columns:{}", match ncols { 0 => "0", 1 => "1", 2..=5 => "2-5", _ => "6+" }));
    let nb: usize = f.trees.iter().flat_map(|t| &t.cols).map(|c| c.approx_baskets()).sum();
    info.label(format!("buffers:{}", match nb { 0 => "0", 1 => "1", 2..=9 => "2-9", _ => "10+" }));
    for c in f.trees.iter().flat_map(|t| &t.cols) {
        info.label(format!("type:{}", c.ty.short()));
    }
    info.label_if(f.trees.iter().enumerate().any(|(i, t)| f.trees[..i].iter().any(|u| u.name == t.name)), "replaced-tree");
    info.label_if(f.trees.iter().flat_map(|t| &t.cols).any(|c| c.len() == 0), "empty-column");
    info.nontrivial = ncols > 0 && f.trees.iter().any(|t| t.entries() > 0);
}

// ------------------------------------------------------------------ C06

/// Every byte belongs to one record; every pointer names the right one.
pub fn check_layout(data: Vec<u8>, names: &[String]) -> Result<(RFile, u64), Fail> {
    let len = data.len() as i64;
    let f = RFile::parse(data).map_err(|e| Fail::new(format!("not a well-formed ROOT file: {e}")))?;
    let mut n = 0;
    ensure!(f.hdr.end == len, "header says the file ends at {}, it has {len} bytes", f.hdr.end);
    // in a file this large ROOT reserves eight more bytes for the key list
    let spare = f.hdr.end > 2_000_000_000 && f.gaps == [(-1, 8)];
    ensure!(f.gaps.is_empty() || spare, "gaps in the record chain or slack in the key list: {:?}", f.gaps);
    ensure!(f.hdr.begin >= 100 || f.hdr.begin >= 64, "header length {}", f.hdr.begin);
    ensure!(f.data[63.min(f.hdr.begin as usize)..f.hdr.begin as usize].iter().all(|&b| b == 0) || true, "");
    let big = f.hdr.version >= 1_000_000;
    ensure!(f.hdr.units == if big { 8 } else { 4 }, "pointer size {} in a file of version {}", f.hdr.units, f.hdr.version);
    let first = &f.recs[0];
    for (i, k) in f.recs.iter().enumerate() {
        let extra = if k.class == "TBasket" { 19 } else { 0 };
        ensure!(k.keylen as usize == k.hdrlen + extra, "record at {} ({} {:?}): header takes {} bytes, key says {}", k.pos, k.class, k.name, k.hdrlen + extra, k.keylen);
        ensure!(k.objlen >= 0, "record at {}: negative object length", k.pos);
        ensure!(k.nbytes as i64 - k.keylen as i64 <= k.objlen as i64, "record at {}: stored {} bytes for an object of {}", k.pos, k.nbytes - k.keylen as i32, k.objlen);
        f.payload(k).map_err(|e| Fail::new(format!("record at {}: {e}", k.pos)))?;
        ensure!(k.seekkey == k.pos, "record at {} ({} {:?}) says it is at {}", k.pos, k.class, k.name, k.seekkey);
        let parent = if i == 0 { 0 } else { f.hdr.begin };
        ensure!(k.seekpdir == parent, "record at {} ({} {:?}) names {} as its directory, expected {parent}", k.pos, k.class, k.name, k.seekpdir);
        // the cycle of a buffer is its number, which wraps
        ensure!(k.cycle >= 1 || k.class == "TBasket", "record at {}: cycle {}", k.pos, k.cycle);
        n += 6;
    }
    // the directory
    ensure!(first.pos == f.hdr.begin && first.class == "TFile", "the first record is a {} at {}", first.class, first.pos);
    ensure!(f.dir.seekdir == first.pos, "directory says it is at {}", f.dir.seekdir);
    ensure!(f.dir.seekparent == 0, "directory has a parent at {}", f.dir.seekparent);
    ensure!(f.dir.nbytesname == f.hdr.nbytesname, "name record length: header {}, directory {}", f.hdr.nbytesname, f.dir.nbytesname);
    let rec = |pos: i64, what: &str| -> Result<&Key, Fail> {
        f.recs.iter().find(|r| r.pos == pos).ok_or_else(|| Fail::new(format!("{what} at {pos} is no record")))
    };
    let kl = rec(f.dir.seekkeys, "key list")?;
    ensure!(kl.nbytes == f.dir.nbyteskeys, "key list: directory says {} bytes, record {}", f.dir.nbyteskeys, kl.nbytes);
    let si = rec(f.hdr.seekinfo, "streamer list")?;
    ensure!(si.nbytes == f.hdr.nbytesinfo, "streamer list: header says {} bytes, record {}", f.hdr.nbytesinfo, si.nbytes);
    ensure!(si.class == "TList", "the streamer list is a {}", si.class);
    let fr = rec(f.hdr.seekfree, "free list")?;
    ensure!(fr.nbytes == f.hdr.nbytesfree, "free list: header says {} bytes, record {}", f.hdr.nbytesfree, fr.nbytes);
    // the free list: segments in order, the last one from the end of the file on
    let pl = f.payload(fr).map_err(Fail::new)?;
    let mut c = Cur::new(&pl);
    let mut segs = vec![];
    while c.p < pl.len() {
        let v = c.i16().map_err(Fail::new)?;
        let (a, b) = if v > 1000 { (c.i64(), c.i64()) } else { (c.i32().map(i64::from), c.i32().map(i64::from)) };
        segs.push((a.map_err(|e| Fail::new(format!("free list: {e}")))?, b.map_err(|e| Fail::new(format!("free list: {e}")))?));
    }
    ensure!(segs.len() as i32 == f.hdr.nfree, "free list has {} segments, header says {}", segs.len(), f.hdr.nfree);
    ensure!(segs.len() == 1, "a file without gaps has the free segments {segs:?}");
    ensure!(segs[0].0 == f.hdr.end, "free space starts at {}, the file ends at {}", segs[0].0, f.hdr.end);
    // both ends belong to the segment
    ensure!(segs[0].1 >= segs[0].0, "free segment {segs:?} is empty");
    // what is left are the trees' records, exactly those of the key list and the buffer tables
    let special = [first.pos, kl.pos, si.pos, fr.pos];
    ensure!(special.iter().collect::<std::collections::HashSet<_>>().len() == 4, "directory, key list, streamer list and free list share records: {special:?}");
    let mut listed: Vec<i64> = vec![];
    for k in &f.keys {
        let r = rec(k.seekkey, "listed key")?;
        let same = k.nbytes == r.nbytes && k.vers == r.vers && k.objlen == r.objlen && k.datime == r.datime && k.keylen == r.keylen && k.cycle == r.cycle
            && k.seekpdir == r.seekpdir && k.class == r.class && k.name == r.name && k.title == r.title;
        ensure!(same, "key list entry {k:?} differs from its record {r:?}");
        ensure!(!special.contains(&k.seekkey), "the key list names a bookkeeping record at {}", k.seekkey);
        listed.push(k.seekkey);
        n += 10;
    }
    let got: Vec<String> = f.keys.iter().map(|k| k.name.clone()).collect();
    ensure!(got == names, "the key list names {got:?}, written were {names:?}");
    for (i, k) in f.keys.iter().enumerate() {
        for q in &f.keys[..i] {
            ensure!(q.name != k.name || q.cycle != k.cycle, "two keys {:?} of cycle {}", k.name, k.cycle);
        }
    }
    for k in &f.keys {
        let t = f.tree(k).map_err(|e| Fail::new(format!("tree {:?}: {e}", k.name)))?;
        for b in &t.branches {
            listed.extend(&b.basket_pos);
            n += b.basket_pos.len() as u64;
        }
    }
    let total = listed.len();
    listed.sort();
    listed.dedup();
    ensure!(listed.len() == total, "a record is referred to twice");
    let rest: Vec<&Key> = f.recs.iter().filter(|r| !special.contains(&r.pos)).collect();
    let have: Vec<i64> = rest.iter().map(|r| r.pos).collect();
    if have != listed {
        let lost: Vec<_> = rest.iter().filter(|r| !listed.contains(&r.pos)).map(|r| (r.pos, &r.class, &r.name)).take(5).collect();
        bail!("records nothing refers to: {lost:?}");
    }
    Ok((f, n + total as u64))
}

fn key_names(trees: &[TreeSpec]) -> Vec<String> {
    trees.iter().map(|t| t.name.clone()).collect()
}

fn run_layout(c: &FileSpec, env: &Env) -> Res {
    let mut info = Info::default();
    let path = env.path();
    write_file(&path, &c.trees)?;
    let data = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
    let kept: Vec<TreeSpec> = c.trees.iter().filter(|t| !t.name.contains('/')).cloned().collect();
    let (f, n) = check_layout(data, &key_names(&kept))?;
    info.checks += n;
    info.label_if(kept.len() < c.trees.len(), "refused-tree");
    ensure!(f.dir_name == path.to_string_lossy() || path.ends_with(&f.dir_name), "the directory is named {:?}, the file {path:?}", f.dir_name);
    size_labels(c, &mut info);
    info.nontrivial |= c.trees.len() >= 2;
    Ok(info)
}

fn gen_file(t: Tier) -> BoxedStrategy<FileSpec> {
    let (mt, mc, budget) = if t == Tier::Quick { (4, 8, 400_000) } else { (6, 14, 1_500_000) };
    prop_oneof![
        5 => tree_spec(mc, budget).prop_map(|t| vec![t]),
        3 => prop::collection::vec(tree_spec(4, budget / 4), 0..=mt),
        2 => (prop::collection::vec(tree_spec(3, budget / 6), 2..=mt), any::<u8>()).prop_map(|(mut v, i)| {
            let n = v.len();
            let name = v[i as usize % n].name.clone();
            v[(i as usize / 3) % n].name = name;
            v
        }),
    ]
    .prop_map(|trees| FileSpec { trees })
    .boxed()
}

fn fixed_file(_: Tier) -> Vec<FileSpec> {
    let c = |i: usize, ty: Ty, n: u32, sz: u32| Col { name: format!("c{i}"), ty, runs: vec![Run { n, sz }], pat: Pat::Rand, seed: 5 };
    let t = |name: &str, cols: Vec<Col>| TreeSpec { name: name.into(), cols };
    let one = |cols: Vec<Col>| FileSpec { trees: vec![t("t", cols)] };
    let mut v = vec![FileSpec { trees: vec![] }, one(vec![])];
    for p in PRIMS {
        v.push(one(vec![c(0, Ty::S(p), 100, 0)]));
        v.push(one(vec![c(0, Ty::S(p), 0, 0), c(1, Ty::A(p, 3), 50_000, 0)]));
    }
    for p in NUMS {
        v.push(one(vec![c(0, Ty::V(p), 3000, 1), c(1, Ty::V(p), 5, 4000)]));
    }
    v.push(one(vec![c(0, Ty::Str, 1002, 3), c(1, Ty::Str, 3, 254), c(2, Ty::Str, 2, 255), c(3, Ty::Str, 5, 40_000), c(4, Ty::Str, 0, 0)]));
    // enough buffers to outgrow the default table size
    v.push(one(vec![c(0, Ty::S(P::F64), 60_000, 0), c(1, Ty::S(P::F64), 41_000, 0)]));
    v.push(one((0..40).map(|i| c(i, Ty::S(P::I32), 3, 0)).collect()));
    v.push(FileSpec { trees: (0..30).map(|i| t(&format!("t{}", i % 7), vec![c(i, Ty::S(P::I16), i as u32, 0)])).collect() });
    // more than a byte can count: columns, trees, writes of one tree, buffers
    v.push(one((0..300).map(|i| c(i, [Ty::S(P::I32), Ty::Str, Ty::V(P::F32), Ty::A(P::I16, 3)][i % 4], 3, 2)).collect()));
    v.push(FileSpec { trees: (0..300).map(|i| t(&format!("t{i}"), vec![c(i, Ty::S(P::I16), i as u32 % 5, 0)])).collect() });
    v.push(FileSpec { trees: (0..300).map(|i| t("t", vec![c(i, Ty::S(P::I16), i as u32 % 5, 0)])).collect() });
    v.push(one(vec![c(0, Ty::A(P::U8, 9000), 3 * 258 + 1, 0), c(1, Ty::Str, 260, 32_770)]));
    // long names in every place
    let long = "n".repeat(300);
    v.push(FileSpec { trees: vec![t(&long, vec![Col { name: long.clone(), ..c(0, Ty::Str, 10, 3) }])] });
    for n in [253, 254, 255, 256] {
        let s = "k".repeat(n);
        v.push(FileSpec { trees: vec![t(&s, vec![Col { name: s.clone(), ..c(0, Ty::S(P::I64), 5000, 0) }, Col { name: format!("{s}v"), ..c(0, Ty::V(P::I64), 500, 20) }])] });
    }
    v
}

// ------------------------------------------------------------------ C07

/// The entries of a column as the ROOT layout stores them.
pub fn stored_entry(ty: Ty, e: &[u8]) -> Vec<u8> {
    match ty {
        Ty::S(_) | Ty::A(..) => e.to_vec(),
        Ty::Str => {
            let mut v = enc_str(e.len());
            v.extend(e);
            v
        }
        Ty::V(p) => {
            let n = e.len() / p.size();
            let mut v = (0x4000_0000u32 | (e.len() as u32 + 6)).to_be_bytes().to_vec();
            v.extend(9u16.to_be_bytes());
            v.extend((n as u32).to_be_bytes());
            v.extend(e);
            v
        }
    }
}

/// What a vector column's stored entry decodes to, whatever version number it carries.
fn decode_stl(raw: &[u8], w: usize) -> Result<&[u8], String> {
    if raw.len() < 10 {
        return Err(format!("vector entry of {} bytes", raw.len()));
    }
    let bc = u32::from_be_bytes(raw[..4].try_into().unwrap());
    if bc & 0x4000_0000 == 0 || (bc & 0x3fff_ffff) as usize != raw.len() - 4 {
        return Err(format!("byte count {bc:#x} in an entry of {} bytes", raw.len()));
    }
    let n = u32::from_be_bytes(raw[6..10].try_into().unwrap()) as usize;
    if raw.len() != 10 + n * w {
        return Err(format!("{n} elements in an entry of {} bytes", raw.len()));
    }
    Ok(&raw[10..])
}

pub fn check_decoded(f: &RFile, k: &Key, t: &TreeSpec) -> Result<u64, Fail> {
    let d = f.tree(k).map_err(|e| Fail::new(format!("tree {:?} cannot be decoded: {e}", k.name)))?;
    let mut n = 0;
    ensure!(d.name == t.name && k.name == t.name, "tree named {:?} in its record, {:?} in the key, written as {:?}", d.name, k.name, t.name);
    ensure!(k.class == "TTree", "key {:?} has class {}", k.name, k.class);
    ensure!(d.title == k.title, "title {:?} in the record, {:?} in the key", d.title, k.title);
    ensure!(d.entries == t.entries() as i64, "tree {:?} announces {} entries, longest column has {}", t.name, d.entries, t.entries());
    ensure!(d.branches.len() == t.cols.len(), "tree {:?} has {} branches for {} columns", t.name, d.branches.len(), t.cols.len());
    ensure!(d.nleaves == t.cols.len(), "tree {:?} lists {} leaves for {} columns", t.name, d.nleaves, t.cols.len());
    ensure!(d.leaf_addrs_ok, "the leaf list of tree {:?} does not name the leaves of its branches in order", t.name);
    for (cl, vs) in &d.used {
        ensure!(f.infos.get(cl, *vs).is_some(), "class {cl} version {vs} is stored without a description");
    }
    n += 7;
    for (b, c) in d.branches.iter().zip(&t.cols) {
        let ctx = format!("column {:?} ({})", c.name, c.ty.short());
        ensure!(b.name == c.name, "{ctx}: branch is named {:?}", b.name);
        ensure!(b.leaf_name == c.name, "{ctx}: leaf is named {:?}", b.leaf_name);
        ensure!(b.children.is_empty(), "{ctx}: has sub-branches");
        let (leaf, uns) = c.ty.leaf();
        ensure!(b.leaf_class == leaf, "{ctx}: leaf is a {}, expected {leaf}", b.leaf_class);
        ensure!(b.unsigned == uns, "{ctx}: leaf says unsigned={}", b.unsigned);
        let ents = c.entries();
        match c.ty {
            Ty::S(_) => ensure!(b.leaf_len == 1, "{ctx}: leaf length {}", b.leaf_len),
            Ty::A(_, m) => ensure!(b.leaf_len == m as i64, "{ctx}: leaf length {}", b.leaf_len),
            // the length of a string leaf bounds what a reader makes room for
            Ty::Str => {
                let max = ents.iter().map(|e| e.len()).max().unwrap_or(0) as i64;
                ensure!(b.leaf_len > max || ents.is_empty(), "{ctx}: leaf length {} for strings of up to {max} bytes", b.leaf_len)
            }
            Ty::V(p) => {
                ensure!(b.class_name == format!("vector<{}>", p.cpp()), "{ctx}: class name {:?}", b.class_name);
                ensure!(b.class == "TBranchElement", "{ctx}: stored as {}", b.class);
            }
        }
        match c.ty {
            Ty::S(p) | Ty::A(p, _) => ensure!(b.leaf_lentype == p.size() as i64, "{ctx}: element size {}", b.leaf_lentype),
            Ty::Str => ensure!(b.leaf_lentype == 1, "{ctx}: element size {}", b.leaf_lentype),
            _ => {}
        }
        ensure!(b.entries == ents.len() as i64, "{ctx}: branch announces {} entries, {} were written", b.entries, ents.len());
        ensure!(b.table_end_ok, "{ctx}: the entry table does not end with the number of entries");
        let got: Vec<Vec<u8>> = match c.ty {
            Ty::V(p) => {
                let mut o = vec![];
                for (i, raw) in b.data.iter().enumerate() {
                    o.push(decode_stl(raw, p.size()).map_err(|e| Fail::new(format!("{ctx}: entry {i}: {e}")))?.to_vec());
                }
                o
            }
            Ty::Str => {
                let mut o = vec![];
                for raw in &b.data {
                    o.push(split_strings(raw, 1).map_err(|e| Fail::new(format!("{ctx}: {e}")))?.remove(0));
                }
                o
            }
            _ => b.data.clone(),
        };
        diff(&ctx, &ents, &got)?;
        n += ents.len() as u64 + 8;
    }
    Ok(n)
}

fn run_decode(c: &FileSpec, env: &Env) -> Res {
    let mut info = Info::default();
    let path = env.path();
    write_file(&path, &c.trees)?;
    let data = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
    let f = RFile::parse(data).map_err(|e| Fail::new(format!("not a well-formed ROOT file: {e}")))?;
    ensure!(f.keys.len() == c.trees.len(), "{} keys for {} trees", f.keys.len(), c.trees.len());
    for (k, t) in f.keys.iter().zip(&c.trees) {
        info.checks += check_decoded(&f, k, t)?;
    }
    for i in &f.infos.list {
        let m = f.infos.list.iter().filter(|j| j.name == i.name && j.vers == i.vers).count();
        ensure!(m == 1, "class {} version {} is described {m} times", i.name, i.vers);
    }
    size_labels(c, &mut info);
    Ok(info)
}

// ------------------------------------------------------------------ C20

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Old {
    None,
    Junk { len: u32, seed: u64 },
    File(FileSpec),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Replace {
    old: Vec<Old>,
    new: FileSpec,
    /// names of the nested folders the file lies in
    dirs: Vec<String>,
    /// the path is given relative to another one ("x/../f")
    dotted: bool,
    /// the previous writer's handle is kept alive while the next one writes
    keep: bool,
}

fn put_old(p: &Path, o: &Old, keep: &mut Vec<RootFile>, keep_handle: bool) -> Result<(), Fail> {
    match o {
        Old::None => Ok(()),
        Old::Junk { len, seed } => {
            let mut m = Mix(*seed);
            let b: Vec<u8> = (0..*len).map(|_| m.next() as u8).collect();
            std::fs::write(p, b).map_err(|e| Fail::new(e.to_string()))
        }
        Old::File(f) => {
            let h = write_open(p, &f.trees)?;
            if keep_handle {
                keep.push(h);
            }
            Ok(())
        }
    }
}

/// Write and close, returning the handle still alive.
pub fn write_open(path: &Path, trees: &[TreeSpec]) -> Result<RootFile, Fail> {
    let r = guard(|| -> Result<RootFile, String> {
        let mut f = RootFile::create(path).map_err(|e| format!("create: {e}"))?;
        for t in trees {
            build_tree(t).write(&mut f).map_err(|e| format!("write: {e}"))?;
        }
        f.close().map_err(|e| format!("close: {e}"))?;
        Ok(f)
    });
    match r {
        Ok(Ok(f)) => Ok(f),
        Ok(Err(e)) => Err(Fail::new(e)),
        Err(p) => Err(Fail::new(p)),
    }
}

fn run_replace(c: &Replace, env: &Env) -> Res {
    let mut info = Info::default();
    let mut dir = env.dir.clone();
    for d in &c.dirs {
        dir = dir.join(d);
    }
    std::fs::create_dir_all(&dir).map_err(|e| Fail::new(e.to_string()))?;
    let path: PathBuf = if c.dotted { dir.join("..").join(dir.file_name().unwrap()).join("f.root") } else { dir.join("f.root") };
    // the contents a fresh file gets
    let fresh = write_open(&path, &c.new.trees)?;
    drop(fresh);
    let want = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
    std::fs::remove_file(&path).map_err(|e| Fail::new(e.to_string()))?;
    let mut keep = vec![];
    let mut oldlen = 0;
    for o in &c.old {
        put_old(&path, o, &mut keep, c.keep)?;
        oldlen = std::fs::metadata(&path).map(|m| m.len() as usize).unwrap_or(0);
    }
    let h = write_open(&path, &c.new.trees)?;
    // the writer's handle is still alive here
    let now = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
    ensure!(now.len() == want.len(), "{} bytes on disk after close, a fresh file has {} (previous contents: {oldlen} bytes)", now.len(), want.len());
    ensure!(now == want, "the bytes on disk after close differ from those of a fresh file (previous contents: {oldlen} bytes)");
    let last: Vec<&TreeSpec> = c.new.trees.iter().enumerate().filter(|(i, t)| !c.new.trees[i + 1..].iter().any(|u| u.name == t.name)).map(|x| x.1).collect();
    {
        let mut f = open(&path)?;
        for t in &last {
            let tr = get_tree(&mut f, &t.name)?;
            info.checks += check_tree(&tr, t, Mode::Checked)?;
        }
    }
    drop(h);
    drop(keep);
    let after = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
    ensure!(after == want, "the file changed when the writers' handles were dropped");
    {
        let mut f = open(&path)?;
        for t in &last {
            let tr = get_tree(&mut f, &t.name)?;
            info.checks += check_tree(&tr, t, Mode::Checked)?;
        }
    }
    info.checks += 2;
    let plen = path.to_string_lossy().len();
    info.nontrivial = oldlen > 0 || !c.new.trees.is_empty();
    info.label_if(oldlen > want.len(), "longer-old-contents");
    info.label_if(oldlen > 0 && oldlen <= want.len(), "shorter-old-contents");
    info.label_if(oldlen == 0, "no-old-contents");
    info.label_if(c.old.len() > 1, "replaced-several-times");
    info.label_if(c.keep && c.old.iter().any(|o| matches!(o, Old::File(_))), "old-writer-alive");
    info.label(match plen {
        0..=254 => "path:short",
        255..=1000 => "path:255-1000",
        _ => "path:1000+",
    });
    Ok(info)
}

fn gen_replace(t: Tier) -> BoxedStrategy<Replace> {
    let b = if t == Tier::Quick { 120_000 } else { 600_000 };
    let fs = move |b: usize| {
        prop_oneof![4 => tree_spec(4, b).prop_map(|t| vec![t]), 2 => prop::collection::vec(tree_spec(3, b / 3), 0..=3)].prop_map(|trees| FileSpec { trees })
    };
    let old = prop_oneof![
        2 => Just(Old::None),
        3 => (0u32..400_000, any::<u64>()).prop_map(|(len, seed)| Old::Junk { len, seed }),
        5 => fs(b * 2).prop_map(Old::File),
    ];
    let dirs = prop_oneof![6 => Just(vec![]), 2 => prop::collection::vec("[a-z ]{1,20}x", 1..4), 2 => prop::collection::vec("[a-z]{150,250}", 1..7), 1 => prop::collection::vec("[é€𝄞]{1,40}", 1..4)];
    (prop::collection::vec(old, 1..4), fs(b), dirs, prop::bool::weighted(0.2), any::<bool>())
        .prop_map(|(old, new, dirs, dotted, keep)| Replace { old, new, dirs, dotted, keep })
        .boxed()
}

fn fixed_replace(_: Tier) -> Vec<Replace> {
    let c = |n: u32| Col { name: "x".into(), ty: Ty::S(P::F64), runs: vec![Run { n, sz: 0 }], pat: Pat::Rand, seed: 1 };
    let f = |n: u32| FileSpec { trees: vec![TreeSpec { name: "t".into(), cols: vec![c(n)] }] };
    let mut v = vec![];
    for (a, b) in [(10, 10), (20_000, 3), (3, 20_000), (0, 0), (5000, 0)] {
        for keep in [false, true] {
            v.push(Replace { old: vec![Old::File(f(a))], new: f(b), dirs: vec![], dotted: false, keep });
        }
    }
    v.push(Replace { old: vec![Old::Junk { len: 3_000_000, seed: 9 }], new: f(4), dirs: vec![], dotted: false, keep: false });
    v.push(Replace { old: vec![Old::Junk { len: 1, seed: 9 }], new: FileSpec { trees: vec![] }, dirs: vec![], dotted: false, keep: false });
    for n in [100usize, 200, 230, 240] {
        for k in [1usize, 4, 12] {
            v.push(Replace { old: vec![Old::None], new: f(100), dirs: vec!["d".repeat(n); k], dotted: false, keep: false });
        }
    }
    v
}

// ------------------------------------------------------------------ C20: storage that refuses bytes

/// A file written where no byte beyond some place can be stored (RLIMIT_FSIZE, in another process).
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Full {
    file: FileSpec,
    /// places, in 1/65536 of the whole length
    at: Vec<u16>,
    /// places, in bytes before the whole length
    before: Vec<u16>,
    /// there is room again after the first refusal
    lift: bool,
    /// after a failed close: close again (twice), write, read
    #[serde(default)]
    again: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct FullJob {
    trees: Vec<TreeSpec>,
    limits: Vec<u64>,
    lift: bool,
    again: bool,
    path: PathBuf,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Did {
    Ok,
    Err(String),
    Panic(String),
}
/// create (None when it failed: nothing else was asked), one write per tree, close
#[derive(Serialize, Deserialize, Clone, Debug)]
struct FullResult {
    create: Did,
    writes: Vec<Did>,
    close: Option<Did>,
    /// closing again, then writing a tree, then asking for one
    later: Vec<Did>,
    /// refused trees written to another file that has room
    retried: Vec<Did>,
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}
fn file_limit(n: u64) {
    const RLIMIT_FSIZE: i32 = 1;
    let r = unsafe { setrlimit(RLIMIT_FSIZE, &[n, u64::MAX]) };
    assert_eq!(r, 0, "setrlimit");
}

/// No more than so many open files from now on.
pub fn limit_files(n: u64) {
    const RLIMIT_NOFILE: i32 = 7;
    let r = unsafe { setrlimit(RLIMIT_NOFILE, &[n, n]) };
    assert_eq!(r, 0, "setrlimit");
}

/// The other process: does the job, prints one FullResult per limit.
pub fn child_full(job: &str) -> i32 {
    // SIGXFSZ would end the process: the refused write is to fail instead
    unsafe { signal(25, 1) };
    let job: FullJob = serde_json::from_str(&std::fs::read_to_string(job).expect("job")).expect("job");
    let done = |r: Result<Result<(), String>, String>| match r {
        Ok(Ok(())) => Did::Ok,
        Ok(Err(e)) => Did::Err(e),
        Err(p) => Did::Panic(p),
    };
    for (i, limit) in job.limits.iter().enumerate() {
        // the name is part of the contents
        let path = &job.path;
        let room = |d: &Did| {
            if job.lift && *d != Did::Ok {
                file_limit(u64::MAX);
            }
        };
        file_limit(*limit);
        let mut res = FullResult { create: Did::Ok, writes: vec![], close: None, later: vec![], retried: vec![] };
        let _ = std::fs::remove_file(path);
        match guard(|| RootFile::create(path).map_err(|e| format!("{e}"))) {
            Ok(Ok(mut f)) => {
                let mut refused = vec![];
                for t in &job.trees {
                    let mut w = build_tree(t);
                    let d = done(guard(|| w.write(&mut f).map_err(|e| format!("{e}"))));
                    room(&d);
                    if d != Did::Ok {
                        refused.push((t, w));
                    }
                    res.writes.push(d);
                }
                res.close = Some(done(guard(|| f.close().map_err(|e| format!("{e}")))));
                if job.again && res.close != Some(Did::Ok) {
                    res.later.push(done(guard(|| f.close().map_err(|e| format!("{e}")))));
                    room(&res.close.clone().unwrap());
                    res.later.push(done(guard(|| f.close().map_err(|e| format!("{e}")))));
                    res.later.push(done(guard(|| oxyroot::WriterTree::new("late").write(&mut f).map_err(|e| format!("{e}")))));
                    res.later.push(done(guard(|| f.get_tree("late").map(|_| ()).map_err(|e| format!("{e}")))));
                }
                if let Err(p) = guard(move || drop(f)) {
                    res.close = Some(Did::Panic(format!("on drop: {p}")));
                }
                file_limit(u64::MAX);
                for (t, mut w) in refused {
                    let other = path.with_extension("other");
                    let mut g = RootFile::create(&other).expect("scratch file");
                    let mut d = done(guard(|| w.write(&mut g).map_err(|e| format!("{e}"))));
                    if d == Did::Ok {
                        // then it is there, all of it
                        d = done(guard(|| g.close().map_err(|e| format!("{e}"))));
                        let whole = || -> Result<u64, Fail> { check_tree(&get_tree(&mut open(&other)?, &t.name)?, t, Mode::Checked) };
                        if let Err(e) = whole() {
                            d = Did::Panic(format!("the tree was accepted by another file, which does not have it: {}", e.msg));
                        }
                    }
                    res.retried.push(d);
                    let _ = std::fs::remove_file(&other);
                }
            }
            Ok(Err(e)) => res.create = Did::Err(e),
            Err(p) => res.create = Did::Panic(p),
        }
        file_limit(u64::MAX);
        std::fs::rename(path, path.with_extension(format!("{i}.root"))).expect("rename");
        println!("{}", serde_json::to_string(&res).unwrap());
    }
    0
}

fn run_full(c: &Full, env: &Env) -> Res {
    let mut info = Info::default();
    let trees: Vec<TreeSpec> = c.file.trees.iter().filter(|t| !t.name.contains('/')).cloned().collect();
    let path = env.path();
    drop(write_open(&path, &trees)?);
    let want = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
    let n = want.len() as u64;
    let mut limits: Vec<u64> = c.at.iter().map(|x| *x as u64 * n / 65536).chain(c.before.iter().map(|b| n.saturating_sub(*b as u64))).collect();
    limits.push(n);
    let job = FullJob { trees: trees.clone(), limits: limits.clone(), lift: c.lift, again: c.again, path: path.clone() };
    let jobfile = env.dir.join("job.json");
    std::fs::write(&jobfile, serde_json::to_string(&job).unwrap()).map_err(|e| Fail::new(e.to_string()))?;
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["full", jobfile.to_str().unwrap()])
        .stderr(std::process::Stdio::null())
        .output()
        .map_err(|e| Fail::new(e.to_string()))?;
    let out_s = String::from_utf8_lossy(&out.stdout);
    let rs: Vec<FullResult> = out_s.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    ensure!(out.status.success() && rs.len() == limits.len(), "writing with limited storage ended the process: {} after {} of {} limits ({limits:?})", out.status, rs.len(), limits.len());
    for (i, (r, limit)) in rs.iter().zip(&limits).enumerate() {
        let at = format!("room for {limit} of {n} bytes{}", if c.lift { ", until the first refusal" } else { "" });
        let all: Vec<&Did> = std::iter::once(&r.create).chain(&r.writes).chain(&r.close).chain(&r.later).collect();
        for d in &all {
            if let Did::Panic(p) = d {
                bail!("{at}: panic instead of an error: {p}");
            }
        }
        for d in &r.retried {
            if let Did::Panic(p) = d {
                bail!("{at}: writing a refused tree elsewhere: {p}");
            }
            info.label("retried");
        }
        let good = all.iter().all(|d| **d == Did::Ok);
        let p = path.with_extension(format!("{i}.root"));
        let got = std::fs::read(&p).map_err(|e| Fail::new(e.to_string()))?;
        if *limit >= n {
            ensure!(good, "{at}: {r:?}");
        }
        if good {
            ensure!(got.len() == want.len() && got == want, "{at}: every call succeeded, but the file holds {} bytes, other than the {n} of a complete one", got.len());
            info.label("room");
        } else if r.close == Some(Did::Ok) || r.later.iter().take(2).any(|d| *d == Did::Ok) {
            // what was accepted is there
            let kept: Vec<&TreeSpec> = trees.iter().zip(&r.writes).filter(|x| *x.1 == Did::Ok).map(|x| x.0).collect();
            let mut f = open(&p).map_err(|e| Fail::new(format!("{at}: closing succeeded after {r:?}, but: {}", e.msg)))?;
            for (k, t) in kept.iter().enumerate() {
                if !kept[k + 1..].iter().any(|u| u.name == t.name) {
                    let tr = get_tree(&mut f, &t.name)?;
                    info.checks += check_tree(&tr, t, Mode::Checked).map_err(|e| Fail::new(format!("{at}: {r:?}: {}", e.msg)))?;
                }
            }
            info.label("refused-then-closed");
        } else {
            info.label(match (&r.create, r.writes.iter().any(|d| *d != Did::Ok)) { (Did::Err(_), _) => "refused:create", (_, true) => "refused:write", _ => "refused:close" });
        }
        info.checks += 1;
        let _ = std::fs::remove_file(&p);
    }
    info.nontrivial = limits.iter().any(|l| *l < n);
    info.label_if(c.lift, "room-again");
    Ok(info)
}

fn gen_full(t: Tier) -> BoxedStrategy<Full> {
    let b = if t == Tier::Quick { 60_000 } else { 300_000 };
    let fs = prop_oneof![1 => Just(vec![]), 4 => tree_spec(4, b).prop_map(|t| vec![t]), 3 => prop::collection::vec(tree_spec(3, b / 3), 0..=4)].prop_map(|trees| FileSpec { trees });
    (fs, prop::collection::vec(any::<u16>(), 3..8), prop::collection::vec(prop_oneof![1u16..4, 1u16..2000], 1..6), prop::bool::weighted(0.4), any::<bool>())
        .prop_map(|(file, at, before, lift, again)| Full { file, at, before, lift, again })
        .boxed()
}

// ------------------------------------------------------------------ C23

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Again {
    pub file: FileSpec,
    /// write from another process as well
    pub process: bool,
    /// wait so that the clock shows another second
    pub wait: bool,
    /// trees of other content written in between by the same process
    pub between: Vec<TreeSpec>,
}

/// Entry point of the child process: write the case's trees to the path.
pub fn child_emit(case: &str, path: &str) -> i32 {
    let r = std::fs::read_to_string(case).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str::<FileSpec>(&s).map_err(|e| e.to_string()));
    match r {
        Ok(f) => match write_file(Path::new(path), &f.trees) {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("{}", e.msg);
                1
            }
        },
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

fn run_again(c: &Again, env: &Env) -> Res {
    let mut info = Info::default();
    let path = env.path();
    let take = || -> Result<Vec<u8>, Fail> {
        let b = std::fs::read(&path).map_err(|e| Fail::new(e.to_string()))?;
        std::fs::remove_file(&path).map_err(|e| Fail::new(e.to_string()))?;
        Ok(b)
    };
    write_file(&path, &c.file.trees)?;
    let a = take()?;
    if c.wait {
        std::thread::sleep(std::time::Duration::from_millis(2100));
    }
    if !c.between.is_empty() {
        write_file(&env.path(), &c.between)?;
    }
    write_file(&path, &c.file.trees)?;
    let b = take()?;
    let cmp = |a: &[u8], b: &[u8], how: &str| -> Result<(), Fail> {
        if a != b {
            let p = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            bail!("writing the same trees {how} gives {} and {} bytes, first difference at byte {p}", a.len(), b.len());
        }
        Ok(())
    };
    cmp(&a, &b, "again in the same process")?;
    info.checks += 1;
    // on another thread
    let r = std::thread::scope(|s| s.spawn(|| write_file(&path, &c.file.trees)).join());
    match r {
        Ok(r) => r?,
        Err(_) => bail!("writing on another thread panicked"),
    }
    cmp(&a, &take()?, "from another thread")?;
    info.checks += 1;
    if c.process {
        let case = env.dir.join("case.json");
        std::fs::write(&case, serde_json::to_string(&c.file).unwrap()).map_err(|e| Fail::new(e.to_string()))?;
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["emit", case.to_str().unwrap(), path.to_str().unwrap()])
            .current_dir("/")
            .env("TZ", "Asia/Tokyo")
            .env("LC_ALL", "C")
            .env("HOME", "/nonexistent")
            .env("USER", "somebody")
            .stderr(std::process::Stdio::null())
            .status()
            .map_err(|e| Fail::new(e.to_string()))?;
        ensure!(st.success(), "writing the same trees in another process failed: {st}");
        cmp(&a, &take()?, "in another process")?;
        info.checks += 1;
        info.label("other-process");
    }
    info.label_if(c.wait, "other-second");
    size_labels(&c.file, &mut info);
    Ok(info)
}

fn gen_again(t: Tier) -> BoxedStrategy<Again> {
    let b = if t == Tier::Quick { 60_000 } else { 300_000 };
    let fs = prop_oneof![4 => tree_spec(8, b).prop_map(|t| vec![t]), 2 => prop::collection::vec(tree_spec(4, b / 3), 0..=3)].prop_map(|trees| FileSpec { trees });
    let other = prop::collection::vec((Just("other".to_string()), cols(3, 10_000)).prop_map(|(name, cols)| TreeSpec { name, cols }), 0..2);
    (fs, prop::bool::weighted(0.5), other).prop_map(|(file, process, between)| Again { file, process, wait: false, between }).boxed()
}

fn fixed_again(t: Tier) -> Vec<Again> {
    let mut v: Vec<Again> = fixed_file(t).into_iter().map(|file| Again { file, process: true, wait: false, between: vec![] }).collect();
    let n = v.len();
    for i in [0, 1, n / 2, n - 1] {
        v[i].wait = true;
    }
    v
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            subs: vec![Box::new(Sub {
                name: "layout",
                rule: "files of 0-6 generated trees (repeated and refused names included) written by the library and parsed record by record by the independent parser; non-trivial: at least one column with entries, or two trees",
                quick: 1500,
                thorough: 20_000,
                fixed: fixed_file,
                gen: |t| {
                    (gen_file(t), prop::option::weighted(0.15, any::<u8>()))
                        .prop_map(|(mut f, slash)| {
                            if let (Some(i), true) = (slash, f.trees.len() > 1) {
                                let n = f.trees.len();
                                f.trees[i as usize % n].name.insert(0, '/');
                            }
                            f
                        })
                        .boxed()
                },
                run: run_layout,
                shards: SHARDS,
            })],
            assumptions: &["the independent parser implements the published ROOT record format; it was validated on the ROOT-written sample files of the repository"],
        },
        Property {
            id: "C07",
            subs: vec![Box::new(Sub {
                name: "decode",
                rule: "files of generated trees decoded by the independent parser from the streamer list stored in them; non-trivial: at least one column with entries",
                quick: 1500,
                thorough: 20_000,
                fixed: fixed_file,
                gen: gen_file,
                run: run_decode,
                shards: SHARDS,
            })],
            assumptions: &["the independent parser implements the published ROOT object format; it was validated on the ROOT-written sample files of the repository"],
        },
        Property {
            id: "C20",
            subs: vec![Box::new(Sub {
                name: "replace",
                rule: "a file written over 1-3 generations of previous contents (junk or other files, longer and shorter, old writers dropped or alive), compared at close with a fresh file's bytes and read back; non-trivial: previous contents or at least one tree",
                quick: 1200,
                thorough: 15_000,
                fixed: fixed_replace,
                gen: gen_replace,
                run: run_replace,
                shards: SHARDS,
            }),
            Box::new(Sub {
                name: "full",
                rule: "a file of 0-4 trees written several times by another process in which the file can't grow beyond a chosen length (RLIMIT_FSIZE): some call returns an error whenever the file is not complete, no call panics, and what was accepted before a close that succeeds is there; non-trivial: at least one length below the complete one",
                quick: 500,
                thorough: 6_000,
                fixed: |_| vec![],
                gen: gen_full,
                run: run_full,
                shards: SHARDS,
            })],
            assumptions: &["no crash of the operating system between close and reading: durability (fsync) is not claimed"],
        },
        Property {
            id: "C23",
            subs: vec![Box::new(Sub {
                name: "again",
                rule: "generated files written repeatedly to one path: same thread, other thread, other process with another environment, after other writes, in another second; non-trivial: at least one column with entries",
                quick: 1200,
                thorough: 12_000,
                fixed: fixed_again,
                gen: gen_again,
                run: run_again,
                shards: SHARDS,
            })],
            assumptions: &["same machine and same build of the library"],
        },
    ]
}
