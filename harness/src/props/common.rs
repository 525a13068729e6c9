//! Shared helpers: writing generated trees with the library and reading them back.
use crate::engine::{guard, Fail};
use crate::model::*;
use oxyroot::{ReaderTree, RootFile, WriterTree};
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct TreeSpec {
    pub name: String,
    pub cols: Vec<Col>,
}

impl TreeSpec {
    pub fn entries(&self) -> usize {
        self.cols.iter().map(|c| c.len()).max().unwrap_or(0)
    }
}

pub fn build_tree(t: &TreeSpec) -> WriterTree {
    let mut w = WriterTree::new(&t.name);
    for c in &t.cols {
        add_branch(&mut w, c);
    }
    w
}

/// Write trees to a new file and close it; those with a slash in their name must be refused.
pub fn write_file(path: &Path, trees: &[TreeSpec]) -> Result<(), Fail> {
    let r = guard(|| -> Result<(), String> {
        let mut f = RootFile::create(path).map_err(|e| format!("create: {e}"))?;
        for t in trees {
            if t.name.contains('/') {
                if build_tree(t).write(&mut f).is_ok() {
                    return Err(format!("a tree named {:?} was accepted", t.name));
                }
                continue;
            }
            build_tree(t).write(&mut f).map_err(|e| format!("write tree {:?}: {e}", t.name))?;
        }
        f.close().map_err(|e| format!("close: {e}"))
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(Fail::new(format!("writing failed: {e}"))),
        Err(p) => Err(Fail::new(format!("writing panicked: {p}"))),
    }
}

pub fn open(path: &Path) -> Result<RootFile, Fail> {
    match guard(|| RootFile::open(path)) {
        Ok(Ok(f)) => Ok(f),
        Ok(Err(e)) => Err(Fail::new(format!("open failed: {e}"))),
        Err(p) => Err(Fail::new(format!("open panicked: {p}"))),
    }
}

pub fn get_tree(f: &mut RootFile, name: &str) -> Result<ReaderTree, Fail> {
    match guard(|| f.get_tree(name)) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(Fail::new(format!("get_tree({name:?}) failed: {e}"))),
        Err(p) => Err(Fail::new(format!("get_tree({name:?}) panicked: {p}"))),
    }
}

/// Check one column of a read tree against its specification.
pub fn check_col(tree: &ReaderTree, c: &Col, mode: Mode) -> Result<u64, Fail> {
    check_col_ents(tree, &c.name, c.ty, &c.entries(), mode)
}

pub fn check_col_ents(tree: &ReaderTree, name: &str, ty: Ty, want: &[Vec<u8>], mode: Mode) -> Result<u64, Fail> {
    let b = match tree.branch(name) {
        Some(b) => b,
        None => return Err(Fail::new(format!("column {name:?} not found"))),
    };
    if b.entries() != want.len() as i64 {
        return Err(Fail::new(format!("column {name:?} reports {} entries, {} were written", b.entries(), want.len())));
    }
    let got = read_bytes(b, ty, mode, want.len() + 3).map_err(|e| Fail::new(format!("reading column {name:?} ({}): {e}", ty.short())))?;
    diff(&format!("column {name:?} ({})", ty.short()), want, &got)?;
    Ok(want.len() as u64 + 1)
}

/// Check all columns, the order, names, types and the entry count of a tree.
pub fn check_tree(tree: &ReaderTree, t: &TreeSpec, mode: Mode) -> Result<u64, Fail> {
    let mut n = 0;
    if tree.entries() != t.entries() as i64 {
        return Err(Fail::new(format!("tree {:?} reports {} entries, longest column has {}", t.name, tree.entries(), t.entries())));
    }
    let names: Vec<String> = tree.branches().map(|b| b.name().to_string()).collect();
    let want: Vec<String> = t.cols.iter().map(|c| c.name.clone()).collect();
    if names != want {
        return Err(Fail::new(format!("tree {:?} lists columns {names:?}, written {want:?}", t.name)));
    }
    for (b, c) in tree.branches().zip(&t.cols) {
        let ty = guard(|| b.item_type_name()).map_err(Fail::new)?;
        if ty != c.ty.cpp() {
            return Err(Fail::new(format!("column {:?} advertised as {ty:?}, expected {:?}", c.name, c.ty.cpp())));
        }
        n += 1;
    }
    for c in &t.cols {
        n += check_col(tree, c, mode)?;
    }
    Ok(n)
}
