//! C24: damage inside compressed records never turns into other values.
use super::foreign::*;
use super::p_foreign::store_file;
use crate::engine::*;
use crate::model::*;
use crate::refroot::comp::Algo;
use crate::refroot::read::{Key, RFile};
use crate::{bail, ensure};
use oxyroot::RootFile;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

/// What happens to one compressed record. Places are fractions (of 65536) of what they refer to.
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Hit {
    /// the two letters of a block's method
    Tag { block: u16, tag: [u8; 2] },
    /// one byte of a block's header changed
    Head { block: u16, at: u8, xor: u8 },
    /// a block's announced sizes moved by a little
    Sizes { block: u16, stored: i8, real: i8 },
    /// a byte anywhere changed
    Flip { at: u16, xor: u8 },
    /// a byte near the end of a block (where checksums of the data may be)
    End { block: u16, back: u8, xor: u8 },
    /// a byte at the start of a block's data
    Start { block: u16, at: u8, xor: u8 },
    /// a range overwritten
    Fill { from: u16, len: u16, with: u8 },
    /// the bytes from here on moved by one, the last one lost
    Shift { from: u16 },
    /// two bytes swapped
    Swap { a: u16, b: u16 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    file: FFile,
    mode: Mode,
    /// which record (of the compressed ones; the tree's and the class descriptions' are among them)
    hits: Vec<(u16, Hit)>,
}

/// Offsets of the blocks in a compressed payload.
fn blocks(b: &[u8]) -> Vec<(usize, usize)> {
    let (mut v, mut p) = (vec![], 0);
    while p + 9 <= b.len() {
        let c = b[p + 3] as usize | (b[p + 4] as usize) << 8 | (b[p + 5] as usize) << 16;
        let e = (p + 9 + c).min(b.len());
        v.push((p, e));
        p = e;
    }
    v
}
fn le3(x: usize) -> [u8; 3] {
    let b = (x as u32).to_le_bytes();
    [b[0], b[1], b[2]]
}

fn apply(h: &Hit, b: &mut [u8]) {
    if b.is_empty() {
        return;
    }
    let at = |x: u16, n: usize| x as usize * n / 65536;
    let bl = blocks(b);
    let pick = |x: u16| bl.get(at(x, bl.len())).copied().unwrap_or((0, b.len()));
    let n = b.len();
    match h {
        Hit::Tag { block, tag } => {
            let (s, e) = pick(*block);
            if e - s >= 2 {
                b[s..s + 2].copy_from_slice(tag);
            }
        }
        Hit::Head { block, at, xor } => {
            let (s, e) = pick(*block);
            let i = s + (*at as usize % 9);
            if i < e {
                b[i] ^= xor;
            }
        }
        Hit::Sizes { block, stored, real } => {
            let (s, e) = pick(*block);
            if e - s >= 9 {
                let get = |o: usize| b[s + o] as i64 | (b[s + o + 1] as i64) << 8 | (b[s + o + 2] as i64) << 16;
                let (c, u) = ((get(3) + *stored as i64).max(0), (get(6) + *real as i64).max(0));
                b[s + 3..s + 6].copy_from_slice(&le3(c as usize));
                b[s + 6..s + 9].copy_from_slice(&le3(u as usize));
            }
        }
        Hit::Flip { at: x, xor } => b[at(*x, n)] ^= xor,
        Hit::End { block, back, xor } => {
            let (s, e) = pick(*block);
            let i = e.saturating_sub(1 + *back as usize);
            if i >= s {
                b[i] ^= xor;
            }
        }
        Hit::Start { block, at, xor } => {
            let (s, e) = pick(*block);
            if s + 9 + (*at as usize) < e {
                b[s + 9 + *at as usize] ^= xor;
            }
        }
        Hit::Fill { from, len, with } => {
            let a = at(*from, n);
            let e = (a + 1 + at(*len, n)).min(n);
            b[a..e].fill(*with);
        }
        Hit::Shift { from } => {
            let a = at(*from, n);
            b.copy_within(a..n - 1, a + 1);
        }
        Hit::Swap { a, b: c } => b.swap(at(*a, n), at(*c, n)),
    }
}

fn hit_name(h: &Hit) -> &'static str {
    match h {
        Hit::Tag { .. } => "method",
        Hit::Head { .. } => "block-header",
        Hit::Sizes { .. } => "block-sizes",
        Hit::Flip { .. } => "one-byte",
        Hit::End { .. } => "end-of-block",
        Hit::Start { .. } => "start-of-block",
        Hit::Fill { .. } => "overwritten",
        Hit::Shift { .. } => "shifted",
        Hit::Swap { .. } => "swapped",
    }
}

fn run(c: &Case, env: &Env) -> Res {
    let mut info = Info::default();
    let (p, _) = store_file(&c.file, env)?;
    let clean = std::fs::read(&p).map_err(|e| e.to_string())?;
    let f = RFile::parse(clean.clone()).map_err(Fail::new)?;
    let packed: Vec<&Key> = f.recs.iter().filter(|k| k.nbytes - (k.keylen as i32) != k.objlen && k.nbytes > k.keylen as i32).collect();
    info.label(match packed.len() { 0 => "compressed-records:0", 1 => "compressed-records:1", 2..=9 => "compressed-records:2-9", _ => "compressed-records:10+" });
    if packed.is_empty() {
        return Ok(info);
    }
    let span = |k: &Key| (k.pos + k.keylen as i64) as usize..(k.pos + k.nbytes as i64) as usize;
    let mut data = clean.clone();
    for (r, h) in &c.hits {
        // the few records that are not buffers are as likely as all buffers together
        let few: Vec<&&Key> = packed.iter().filter(|k| k.class != "TBasket").collect();
        let x = *r as usize;
        let k: &Key = if x % 2 == 0 && !few.is_empty() { few[x / 2 % few.len()] } else { packed[x / 2 % packed.len()] };
        apply(h, &mut data[span(k)]);
        info.label(hit_name(h));
    }
    // (class, name) of the records that differ now; columns are found by their last name
    let hurt: BTreeSet<(String, String)> = packed.iter().filter(|k| data[span(k)] != clean[span(k)]).map(|k| (k.class.clone(), k.name.clone())).collect();
    for k in packed.iter().filter(|k| data[span(k)] != clean[span(k)]) {
        info.label(format!("record:{}", k.class));
        info.label(match &clean[span(k)][..2] { b"ZL" => "zlib", b"XZ" => "lzma", _ => "lz4" });
        info.label_if(blocks(&clean[span(k)]).len() > 1, "several-blocks");
    }
    let meta_hurt = hurt.iter().any(|k| k.0 != "TBasket");
    std::fs::write(&p, &data).map_err(|e| e.to_string())?;
    info.nontrivial = !hurt.is_empty();

    let mut file = match guard(|| RootFile::open(&p)) {
        Ok(Ok(f)) => f,
        Ok(Err(_)) if meta_hurt => {
            info.label("refused:open");
            return Ok(info);
        }
        Ok(Err(e)) => bail!("open refuses a file only buffers of which are damaged: {e}"),
        Err(e) => bail!("open panicked: {e}"),
    };
    for t in &c.file.trees {
        let tree = match guard(|| file.get_tree(&t.name)) {
            Ok(Ok(t)) => t,
            Ok(Err(_)) if meta_hurt => {
                info.label("refused:tree");
                info.checks += 1;
                continue;
            }
            Ok(Err(e)) => bail!("a tree only buffers of which are damaged is refused: {e}"),
            Err(e) => bail!("fetching the tree panicked: {e}"),
        };
        ensure!(tree.entries() == t.n as i64, "tree reports {} entries, it has {}", tree.entries(), t.n);
        for col in &t.flat() {
            let nm = branch_name(col);
            let b = match tree.branch(&nm) {
                Some(b) => b,
                None => bail!("column {nm:?} not found"),
            };
            let want = col.want(t.n as usize);
            // what was yielded before a failure counts
            let mut got = vec![];
            let r = guard(|| -> Result<(), String> {
                for x in iter_foreign(b, col.kind, c.mode)?.take(want.len() + 3) {
                    got.push(x);
                }
                Ok(())
            });
            let damaged = hurt.iter().any(|(c, n)| c == "TBasket" && (*n == nm || nm.ends_with(&format!(".{n}")) || nm.strip_suffix(']').is_some() || n.starts_with(&nm)));
            let damaged = damaged || hurt.iter().any(|(c, n)| c == "TBasket" && n == b.name());
            let failed = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => bail!("column {nm:?} is refused: {e}"),
                Err(e) => Some(e),
            };
            match failed {
                None => diff(&format!("column {nm:?} ({:?}), damaged: {damaged}", col.kind), &want, &got)?,
                Some(e) => {
                    ensure!(damaged, "reading the undamaged column {nm:?} ({:?}) panicked: {e}", col.kind);
                    ensure!(got.len() <= want.len(), "column {nm:?} yields {} entries before failing, it has {}", got.len(), want.len());
                    diff(&format!("column {nm:?} ({:?}) before it fails", col.kind), &want[..got.len()], &got)?;
                    info.label("refused:column");
                    info.label_if(!got.is_empty(), "values-before-failure");
                }
            }
            info.checks += got.len() as u64 + 1;
        }
    }
    ensure!(std::fs::read(&p).map_err(|e| e.to_string())? == data, "reading changed the file");
    Ok(info)
}

fn hit() -> impl Strategy<Value = Hit> {
    let x = || 1u8..=255;
    let tag = prop_oneof![
        Just(*b"ZL"), Just(*b"XZ"), Just(*b"L4"), Just(*b"ZS"), Just(*b"CS"), any::<[u8; 2]>(), Just([0, 0]),
    ];
    let w = || any::<u16>();
    prop_oneof![
        2 => (w(), tag).prop_map(|(block, tag)| Hit::Tag { block, tag }),
        2 => (w(), 0u8..9, x()).prop_map(|(block, at, xor)| Hit::Head { block, at, xor }),
        3 => (w(), -20i8..20, -20i8..20, 0u8..3).prop_map(|(block, s, r, k)| Hit::Sizes { block, stored: if k == 1 { 0 } else { s }, real: if k == 2 { 0 } else { r } }),
        4 => (w(), prop_oneof![x(), (0u8..8).prop_map(|b| 1 << b)]).prop_map(|(at, xor)| Hit::Flip { at, xor }),
        2 => (w(), 0u8..40, x()).prop_map(|(block, back, xor)| Hit::End { block, back, xor }),
        2 => (w(), 0u8..30, x()).prop_map(|(block, at, xor)| Hit::Start { block, at, xor }),
        2 => (w(), prop_oneof![w(), 0u16..2000], prop_oneof![Just(0u8), Just(255), any::<u8>()]).prop_map(|(from, len, with)| Hit::Fill { from, len, with }),
        1 => w().prop_map(|from| Hit::Shift { from }),
        1 => (w(), w()).prop_map(|(a, b)| Hit::Swap { a, b }),
    ]
}

fn gen(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 150 } else { 600 };
    let mode = prop_oneof![3 => Just(Mode::Checked), 1 => Just(Mode::Unchecked), 1 => Just(Mode::Buffer)];
    (ffile(true, n, 3), mode, prop::collection::vec((any::<u16>(), hit()), 1..3)).prop_map(|(file, mode, hits)| Case { file, mode, hits }).boxed()
}

/// Every byte of a small record of each method, with every kind of record.
fn fixed(_: Tier) -> Vec<Case> {
    let mut v = vec![];
    for a in [Algo::Zlib(6), Algo::Lz4(1), Algo::Lz4(6), Algo::Lzma(2)] {
        for block in [0xff_ffff, 90] {
            for rec in [0u16, 2, 1] {
                let mut c = FCol::simple("c", K::S(P::I32));
                c.pat = Pat::Ramp;
                c.store = vec![(a, block)];
                let file = super::p_foreign::one_file(60, vec![c], (a, block));
                for i in 0..64u32 {
                    let at = (i * 1024) as u16;
                    v.push(Case { file: file.clone(), mode: Mode::Checked, hits: vec![(rec, Hit::Flip { at, xor: 1 << (i % 8) })] });
                }
                for i in 0..9u8 {
                    for xor in [1, 0x10, 0xff] {
                        v.push(Case { file: file.clone(), mode: Mode::Checked, hits: vec![(rec, Hit::Head { block: 0, at: i, xor })] });
                    }
                }
                for i in 0..32u8 {
                    v.push(Case { file: file.clone(), mode: Mode::Checked, hits: vec![(rec, Hit::End { block: 65535, back: i, xor: 0x41 })] });
                }
                for (stored, real) in [(0, -1), (0, 1), (-1, 0), (1, 0), (1, 1), (-1, -1), (0, -50)] {
                    v.push(Case { file: file.clone(), mode: Mode::Checked, hits: vec![(rec, Hit::Sizes { block: 65535, stored, real })] });
                }
            }
        }
    }
    v
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C24",
        assumptions: &[
            "Files come from the independent writer (as for C08). Only bytes of compressed payloads are altered: other bytes carry no checksum.",
            "A panic of a column's iterator counts as a refusal: the iterators have no other way to fail.",
            "That an altered payload matches its checksum by chance (2^-32 at worst) is disregarded.",
        ],
        subs: vec![Box::new(Sub::<Case> {
            name: "damage",
            rule: "a random file with compressed tree, class-description and buffer records, one or two of which are altered: method, sizes, single bytes, ranges, shifts, swaps; everything yielded must be what was stored, tree and file refused without a panic, columns that are not hit read in full; non-trivial when the bytes of a compressed record changed; distinct by serialised case",
            quick: 12000,
            thorough: 90000,
            fixed,
            gen,
            run,
            shards: SHARDS,
        })],
    }]
}
