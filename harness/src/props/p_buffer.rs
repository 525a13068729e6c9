//! C12: the byte-buffer cursor model. C15: composed branch names.
use crate::engine::*;
use crate::model::{de_vec, ser_all, Mix, Be};
use crate::{bail, ensure};
use oxyroot::{BranchName, RBuffer};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    U8,
    I8,
    Bool,
    U16,
    I16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
}
const KS: [K; 11] = [K::U8, K::I8, K::Bool, K::U16, K::I16, K::I32, K::U32, K::I64, K::U64, K::F32, K::F64];
impl K {
    fn w(self) -> usize {
        match self {
            K::U8 | K::I8 | K::Bool => 1,
            K::U16 | K::I16 => 2,
            K::I32 | K::U32 | K::F32 => 4,
            _ => 8,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum O {
    VecI16,
    VecF64,
    VecVecU8,
    VecString,
    Arr3U16,
    String,
    SetI32,
    MapI16U8,
    I32,
    MapI16VecI16,
}
const OS: [O; 10] = [O::VecI16, O::VecF64, O::VecVecU8, O::VecString, O::Arr3U16, O::String, O::SetI32, O::MapI16U8, O::I32, O::MapI16VecI16];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Prim(K),
    /// through `read_object_into`
    PrimObj(K),
    U8Into(u16),
    U8s(u16),
    I16Into(u16),
    I32s(u16),
    I64s(u16),
    Str,
    CStr(u16),
    Skip(i32),
    Rewind(i32),
    /// absolute, from the start of the data
    Seek(u32),
    Obj(O),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct BufCase {
    data: Vec<u8>,
    offset: u32,
    ops: Vec<Op>,
    /// the data is the concatenated encoding of the operations: every one must succeed
    structured: bool,
}

/// What a read at position `c` must return: None = not enough bytes. `Some(value bytes, end)`.
/// Values are canonical bytes; `Loose` marks values that are not claimed (text that is not UTF-8).
struct Dec<'a> {
    d: &'a [u8],
    c: usize,
    loose: bool,
}
impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let e = self.c.checked_add(n)?;
        let s = self.d.get(self.c..e)?;
        self.c = e;
        Some(s)
    }
    fn prim(&mut self, k: K) -> Option<Vec<u8>> {
        let b = self.take(k.w())?;
        Some(if k == K::Bool { vec![(b[0] != 0) as u8] } else { b.to_vec() })
    }
    fn size(&mut self) -> Option<usize> {
        let n = i32::de(self.take(4)?);
        if n < 0 {
            return None;
        }
        Some(n as usize)
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        let n = self.take(1)?[0];
        let n = if n == 255 { u32::de(self.take(4)?) as usize } else { n as usize };
        let b = self.take(n)?;
        if std::str::from_utf8(b).is_err() {
            self.loose = true;
        }
        Some(b.to_vec())
    }
    fn many(&mut self, f: impl Fn(&mut Self) -> Option<Vec<u8>>) -> Option<Vec<Vec<u8>>> {
        let n = self.size()?;
        if n > self.d.len() {
            return None;
        }
        let mut v = vec![];
        for _ in 0..n {
            v.push(f(self)?);
        }
        Some(v)
    }
    fn obj(&mut self, o: O) -> Option<Vec<Vec<u8>>> {
        Some(match o {
            O::VecI16 => self.many(|s| s.prim(K::I16))?,
            O::VecF64 => self.many(|s| s.prim(K::F64))?,
            O::VecVecU8 => self.many(|s| Some(s.many(|s| s.prim(K::U8))?.concat()))?,
            O::VecString => self.many(|s| s.string())?,
            O::Arr3U16 => (0..3).map(|_| self.prim(K::U16)).collect::<Option<Vec<_>>>()?,
            O::String => vec![self.string()?],
            O::I32 => vec![self.prim(K::I32)?],
            O::SetI32 => {
                let mut v = self.many(|s| s.prim(K::I32))?;
                v.sort();
                v.dedup();
                v
            }
            O::MapI16U8 | O::MapI16VecI16 => {
                let n = self.size()?;
                if n > self.d.len() {
                    return None;
                }
                // all keys, then all values
                let mut keys = vec![];
                for _ in 0..n {
                    keys.push(self.prim(K::I16)?);
                }
                // the first of several streamed objects may carry a version header
                if o == O::MapI16VecI16 && n > 0 && self.d.get(self.c) == Some(&64) && self.d.len() - self.c >= 6 {
                    self.c += 6;
                }
                let mut m: Vec<(Vec<u8>, Vec<u8>)> = vec![];
                for k in keys {
                    let v = if o == O::MapI16U8 { self.prim(K::U8)? } else { self.many(|s| s.prim(K::I16))?.concat() };
                    match m.iter_mut().find(|e| e.0 == k) {
                        Some(e) => e.1 = v,
                        None => m.push((k, v)),
                    }
                }
                m.sort();
                m.into_iter().flat_map(|(a, b)| [a, b]).collect()
            }
        })
    }
}

fn lib_prim(r: &mut RBuffer, k: K, obj: bool) -> Result<Vec<u8>, String> {
    macro_rules! go {
        ($f:ident, $t:ty) => {{
            let x: $t = if obj { r.read_object_into::<$t>().map_err(|e| e.to_string())? } else { r.$f().map_err(|e| e.to_string())? };
            ser_all([&x])
        }};
    }
    Ok(match k {
        K::U8 => go!(read_u8, u8),
        K::I8 => go!(read_i8, i8),
        K::Bool => go!(read_bool, bool),
        K::U16 => go!(read_u16, u16),
        K::I16 => go!(read_i16, i16),
        K::I32 => go!(read_i32, i32),
        K::U32 => go!(read_u32, u32),
        K::I64 => go!(read_i64, i64),
        K::U64 => go!(read_u64, u64),
        K::F32 => go!(read_f32, f32),
        K::F64 => go!(read_f64, f64),
    })
}

fn lib_obj(r: &mut RBuffer, o: O) -> Result<Vec<Vec<u8>>, String> {
    macro_rules! rd {
        ($t:ty) => {
            r.read_object_into::<$t>().map_err(|e| e.to_string())?
        };
    }
    Ok(match o {
        O::VecI16 => rd!(Vec<i16>).iter().map(|x| ser_all([x])).collect(),
        O::VecF64 => rd!(Vec<f64>).iter().map(|x| ser_all([x])).collect(),
        O::VecVecU8 => rd!(Vec<Vec<u8>>),
        O::VecString => rd!(Vec<String>).into_iter().map(String::into_bytes).collect(),
        O::Arr3U16 => rd!([u16; 3]).iter().map(|x| ser_all([x])).collect(),
        O::String => vec![rd!(String).into_bytes()],
        O::I32 => vec![ser_all([&rd!(i32)])],
        O::SetI32 => {
            let mut v: Vec<Vec<u8>> = rd!(HashSet<i32>).iter().map(|x| ser_all([x])).collect();
            v.sort();
            v
        }
        O::MapI16U8 => {
            let mut v: Vec<(Vec<u8>, Vec<u8>)> = rd!(HashMap<i16, u8>).iter().map(|(k, x)| (ser_all([k]), vec![*x])).collect();
            v.sort();
            v.into_iter().flat_map(|(a, b)| [a, b]).collect()
        }
        O::MapI16VecI16 => {
            let mut v: Vec<(Vec<u8>, Vec<u8>)> = rd!(HashMap<i16, Vec<i16>>).iter().map(|(k, x)| (ser_all([k]), ser_all(x))).collect();
            v.sort();
            v.into_iter().flat_map(|(a, b)| [a, b]).collect()
        }
    })
}

fn run_buf(c: &BufCase, _env: &Env) -> Res {
    let mut info = Info::default();
    let r = guard(|| run_buf_inner(c, &mut info));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(e),
        Err(p) => bail!("panicked: {p}"),
    }
    Ok(info)
}

fn run_buf_inner(c: &BufCase, info: &mut Info) -> Result<(), Fail> {
    let mut r = RBuffer::new(&c.data, c.offset);
    let total = c.data.len();
    let mut pos: usize = 0;
    let (mut ok, mut err) = (0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("operation {i} ({op:?}) at byte {pos} of {total}");
        ensure!(r.pos() == pos as i64 + c.offset as i64, "before {what}: the buffer reports position {}, expected {}", r.pos(), pos as i64 + c.offset as i64);
        ensure!(r.len() == total as i64 - pos as i64, "before {what}: the buffer reports {} bytes left, expected {}", r.len(), total as i64 - pos as i64);
        ensure!(r.is_empty() == (pos >= total), "before {what}: is_empty() is {}", r.is_empty());
        let mut d = Dec { d: &c.data, c: pos, loose: false };
        let seekable = |p: i64| p >= 0;
        let flat = |n: usize, w: usize| -> Option<Vec<Vec<u8>>> {
            let e = pos.checked_add(n * w)?;
            Some(vec![c.data.get(pos..e)?.to_vec()])
        };
        // expected value (None: an error), observed value
        let (want, got): (Option<Vec<Vec<u8>>>, Result<Vec<Vec<u8>>, String>) = match op {
            Op::Prim(k) => (d.prim(*k).map(|v| vec![v]), lib_prim(&mut r, *k, false).map(|v| vec![v])),
            Op::PrimObj(k) => (d.prim(*k).map(|v| vec![v]), lib_prim(&mut r, *k, true).map(|v| vec![v])),
            Op::U8Into(n) => {
                let mut a = vec![0xAAu8; *n as usize];
                d.c += *n as usize;
                (flat(*n as usize, 1), r.read_array_u8_into(&mut a).map(|_| vec![a]).map_err(|e| e.to_string()))
            }
            Op::U8s(n) => {
                d.c += *n as usize;
                (flat(*n as usize, 1), r.read_array_u8(*n as usize).map(|a| vec![a.to_vec()]).map_err(|e| e.to_string()))
            }
            Op::I16Into(n) => {
                let mut a = vec![0x5555i16; *n as usize];
                d.c += *n as usize * 2;
                (flat(*n as usize, 2), r.read_array_i16_into(&mut a).map(|_| vec![ser_all(&a)]).map_err(|e| e.to_string()))
            }
            Op::I32s(n) => {
                let mut a = vec![0x5555i32; *n as usize];
                d.c += *n as usize * 4;
                (flat(*n as usize, 4), r.read_array_i32(&mut a).map(|_| vec![ser_all(&a)]).map_err(|e| e.to_string()))
            }
            Op::I64s(n) => {
                let mut a = vec![0x5555i64; *n as usize];
                d.c += *n as usize * 8;
                (flat(*n as usize, 8), r.read_array_i64(&mut a).map(|_| vec![ser_all(&a)]).map_err(|e| e.to_string()))
            }
            Op::Str => (d.string().map(|v| vec![v]), r.read_string().map(|s| vec![s.as_bytes().to_vec()]).map_err(|e| e.to_string())),
            Op::CStr(n) => {
                let n = *n as usize;
                let rest = c.data.get(pos..).unwrap_or(&[]);
                let m = n.min(rest.len());
                let want = match rest[..m].iter().position(|b| *b == 0) {
                    Some(z) => {
                        d.c += z + 1;
                        Some(&rest[..z])
                    }
                    None if rest.len() >= n => {
                        d.c += n;
                        Some(&rest[..n])
                    }
                    None => None,
                };
                d.loose = want.map_or(false, |w| std::str::from_utf8(w).is_err());
                (want.map(|w| vec![w.to_vec()]), r.read_cstring(n).map(|s| vec![s.as_bytes().to_vec()]).map_err(|e| e.to_string()))
            }
            Op::Skip(_) | Op::Rewind(_) | Op::Seek(_) => {
                let (to, got) = match op {
                    Op::Skip(s) => (pos as i64 + *s as i64, r.skip(*s as i64).map_err(|e| e.to_string())),
                    Op::Rewind(s) => (pos as i64 - *s as i64, r.rewind(*s as i64).map_err(|e| e.to_string())),
                    Op::Seek(p) => {
                        r.set_pos(*p as i64 + c.offset as i64);
                        (*p as i64, Ok(()))
                    }
                    _ => unreachable!(),
                };
                match got {
                    Ok(()) => {
                        ensure!(seekable(to), "{what}: moved before the start of the data");
                        pos = to as usize;
                        ok += 1;
                    }
                    Err(e) => {
                        // moving beyond the end may be refused, inside the data it may not
                        ensure!(to < 0 || to > total as i64, "{what}: refused ({e})");
                        ensure!(r.pos() == pos as i64 + c.offset as i64, "{what}: refused, but the position is now {}", r.pos());
                        err += 1;
                    }
                }
                info.checks += 1;
                info.label("seek");
                info.label_if(to > total as i64, "seek-beyond-end");
                info.label_if(to < 0, "seek-before-start");
                continue;
            }
            Op::Obj(o) => (d.obj(*o), lib_obj(&mut r, *o)),
        };
        info.checks += 1;
        match (want, got) {
            (Some(w), Ok(g)) => {
                if !d.loose {
                    ensure!(w == g, "{what}: read {g:02x?}, the bytes there encode {w:02x?}");
                } else {
                    info.label("text-not-utf8");
                }
                ensure!(r.pos() == d.c as i64 + c.offset as i64, "{what}: the cursor is at {} afterwards, expected {}", r.pos() - c.offset as i64, d.c);
                pos = d.c;
                ok += 1;
            }
            (Some(w), Err(e)) => {
                ensure!(pos > total || d.loose, "{what}: failed ({e}), the bytes there encode {w:02x?}");
                r.set_pos(pos as i64 + c.offset as i64);
            }
            (None, Ok(g)) => {
                // nothing is needed to read nothing
                let empty = matches!(op, Op::U8Into(0) | Op::U8s(0) | Op::I16Into(0) | Op::I32s(0) | Op::I64s(0) | Op::CStr(0));
                ensure!(empty, "{what}: read {g:02x?}, but there are not enough bytes");
                r.set_pos(pos as i64 + c.offset as i64);
            }
            (None, Err(_)) => {
                err += 1;
                ensure!(!c.structured, "{what}: the model does not decode it either");
                info.label(format!("refused:{}", format!("{op:?}").split('(').next().unwrap_or("")));
                if matches!(op, Op::Prim(_) | Op::PrimObj(_) | Op::U8s(_)) {
                    ensure!(r.pos() == pos as i64 + c.offset as i64, "{what}: refused, but the position is now {}", r.pos());
                }
                r.set_pos(pos as i64 + c.offset as i64);
            }
        }
        info.label(format!("op:{}", format!("{op:?}").split('(').next().unwrap_or("")));
        if let Op::Obj(o) = op {
            info.label(format!("object:{o:?}"));
        }
    }
    info.nontrivial = ok >= 2;
    info.label_if(err > 0, "refused");
    info.label_if(c.offset > 0, "offset");
    info.label_if(c.structured, "structured");
    Ok(())
}

fn op() -> impl Strategy<Value = Op> {
    let n = prop_oneof![6 => 0u16..6, 1 => 0u16..40, 1 => Just(300u16)];
    prop_oneof![
        6 => prop::sample::select(KS.to_vec()).prop_map(Op::Prim),
        2 => prop::sample::select(KS.to_vec()).prop_map(Op::PrimObj),
        2 => (n.clone(), 0u8..5).prop_map(|(n, k)| match k {
            0 => Op::U8Into(n),
            1 => Op::U8s(n),
            2 => Op::I16Into(n),
            3 => Op::I32s(n),
            _ => Op::I64s(n),
        }),
        2 => Just(Op::Str),
        1 => prop_oneof![3 => 0u16..20, 1 => Just(80u16), 1 => Just(400u16)].prop_map(Op::CStr),
        3 => prop::sample::select(OS.to_vec()).prop_map(Op::Obj),
        2 => prop_oneof![4 => -8i32..16, 1 => -400i32..400].prop_map(Op::Skip),
        1 => prop_oneof![4 => -4i32..12, 1 => -400i32..400].prop_map(Op::Rewind),
        1 => prop_oneof![8 => 0u32..100, 1 => 0u32..500, 1 => Just(70_000u32)].prop_map(Op::Seek),
    ]
}

fn encode(op: &Op, m: &mut Mix, out: &mut Vec<u8>) {
    fn bytes(n: usize, m: &mut Mix, out: &mut Vec<u8>) {
        for _ in 0..n {
            out.push(m.next() as u8);
        }
    }
    fn text(n: usize, m: &mut Mix, out: &mut Vec<u8>) {
        for _ in 0..n {
            out.push(b' ' + (m.next() % 90) as u8);
        }
    }
    fn string(m: &mut Mix, out: &mut Vec<u8>) {
        let n = match m.below(7) {
            0 => 0,
            3 => 64,
            1 => 250 + m.below(10) as usize,
            2 => m.below(600) as usize,
            _ => m.below(12) as usize,
        };
        if n < 255 {
            out.push(n as u8);
        } else {
            out.push(255);
            out.extend((n as u32).to_be_bytes());
        }
        text(n, m, out);
    }
    let cnt = |m: &mut Mix| m.below(5) as usize;
    match op {
        Op::Prim(k) | Op::PrimObj(k) => bytes(k.w(), m, out),
        Op::U8Into(n) | Op::U8s(n) => bytes(*n as usize, m, out),
        Op::I16Into(n) => bytes(*n as usize * 2, m, out),
        Op::I32s(n) => bytes(*n as usize * 4, m, out),
        Op::I64s(n) => bytes(*n as usize * 8, m, out),
        Op::Str => string(m, out),
        Op::CStr(n) => {
            let k = m.below(*n as u64 + 1) as usize;
            text(k, m, out);
            if k < *n as usize {
                out.push(0);
            }
        }
        Op::Skip(_) | Op::Rewind(_) | Op::Seek(_) => {}
        Op::Obj(o) => {
            let n = cnt(m);
            if !matches!(o, O::Arr3U16 | O::String | O::I32) {
                out.extend((n as i32).to_be_bytes());
            }
            match o {
                O::VecI16 => bytes(2 * n, m, out),
                O::VecF64 => bytes(8 * n, m, out),
                O::VecVecU8 => (0..n).for_each(|_| {
                    let k = cnt(m);
                    out.extend((k as i32).to_be_bytes());
                    bytes(k, m, out)
                }),
                O::VecString => (0..n).for_each(|_| string(m, out)),
                O::Arr3U16 => bytes(6, m, out),
                O::String => string(m, out),
                O::I32 => bytes(4, m, out),
                O::SetI32 => bytes(4 * n, m, out),
                O::MapI16U8 => bytes(3 * n, m, out),
                O::MapI16VecI16 => (0..2 * n).for_each(|i| {
                    if i < n {
                        return bytes(2, m, out);
                    }
                    let k = cnt(m);
                    out.extend((k as i32).to_be_bytes());
                    bytes(2 * k, m, out)
                }),
            }
        }
    }
}

fn gen_buf(t: Tier) -> BoxedStrategy<BufCase> {
    let max = if t == Tier::Quick { 30 } else { 80 };
    let byte = prop_oneof![3 => Just(0u8), 3 => 0u8..8, 2 => any::<u8>(), 1 => Just(255u8), 1 => 32u8..127, 1 => Just(64u8)];
    let offset = prop_oneof![3 => Just(0u32), 2 => 0u32..200, 1 => Just(u32::MAX), 1 => any::<u32>()];
    prop_oneof![
        2 => (prop::collection::vec(byte, 0..300), offset.clone(), prop::collection::vec(op(), 0..max)).prop_map(|(data, offset, ops)| BufCase { data, offset, ops, structured: false }),
        // the encoding of the operations, possibly cut short
        2 => (prop::collection::vec(op(), 0..max), offset, any::<u64>(), prop::option::weighted(0.4, any::<u16>())).prop_map(|(ops, offset, seed, cut)| {
            let mut m = Mix(seed);
            let mut data = vec![];
            let ops: Vec<Op> = ops.into_iter().filter(|o| !matches!(o, Op::Skip(_) | Op::Rewind(_) | Op::Seek(_))).collect();
            for o in &ops {
                encode(o, &mut m, &mut data);
            }
            let structured = cut.is_none();
            if let Some(c) = cut {
                let n = data.len();
                data.truncate(c as usize % (n + 1));
            }
            BufCase { data, offset, ops, structured }
        }),
    ]
    .boxed()
}

// ------------------------------------------------------------------ C15

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
enum NOp {
    New,
    Default,
    Name(u8, String),
    Prefix(u8, String),
    Child(u8, String),
    Abs(u8, String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Names {
    ops: Vec<NOp>,
}

#[derive(Clone, Debug, Default)]
struct M {
    parent: Option<String>,
    name: Option<String>,
    prefix: String,
}
impl M {
    fn text(&self) -> String {
        let own = format!("{}{}", self.prefix, self.name.as_deref().unwrap_or(""));
        match &self.parent {
            Some(p) => format!("{p}.{own}"),
            None => own,
        }
    }
}

fn run_names(c: &Names, _: &Env) -> Res {
    let mut info = Info::default();
    let mut lib = vec![BranchName::new()];
    let mut model = vec![M::default()];
    let mut depth = vec![0u32];
    for op in &c.ops {
        let at = |i: &u8| *i as usize % lib.len();
        let (l, m, d) = match op {
            NOp::New => (BranchName::new(), M::default(), 0),
            NOp::Default => (BranchName::default(), M::default(), 0),
            NOp::Name(i, s) => {
                let i = at(i);
                (lib[i].clone().with_name(s), M { name: Some(s.clone()), ..model[i].clone() }, depth[i])
            }
            NOp::Prefix(i, s) => {
                let i = at(i);
                (lib[i].clone().with_prefix(s), M { prefix: s.clone(), ..model[i].clone() }, depth[i])
            }
            NOp::Abs(i, s) => {
                let i = at(i);
                (lib[i].make_absolute(s), M { name: Some(s.clone()), ..M::default() }, 0)
            }
            NOp::Child(i, s) => {
                let i = at(i);
                // a name that is only a prefix names no branch: what its children are called is not claimed
                if model[i].name.is_none() && !model[i].prefix.is_empty() {
                    info.label("skipped:child-of-bare-prefix");
                    continue;
                }
                let parent = model[i].name.is_some().then(|| model[i].text());
                let d = if parent.is_some() { depth[i] + 1 } else { 0 };
                (lib[i].make_child(s), M { parent, name: Some(s.clone()), prefix: String::new() }, d)
            }
        };
        ensure!(l.final_name() == m.text(), "{op:?} of {:?}: the name is {:?}, expected {:?}", model, l.final_name(), m.text());
        info.checks += 1;
        lib.push(l);
        model.push(m);
        depth.push(d);
        info.label(format!("op:{}", format!("{op:?}").split('(').next().unwrap_or("")));
    }
    // nothing that was derived changed what it was derived from
    for (l, m) in lib.iter().zip(&model) {
        ensure!(l.final_name() == m.text(), "afterwards the name is {:?}, expected {:?}", l.final_name(), m.text());
        ensure!(l.final_name() == l.clone().final_name(), "a copy is called {:?}, the original {:?}", l.clone().final_name(), l.final_name());
        info.checks += 2;
    }
    let dm = depth.iter().max().copied().unwrap_or(0);
    info.nontrivial = dm >= 1;
    info.label(format!("depth:{}", dm.min(6)));
    Ok(info)
}

fn gen_names(t: Tier) -> BoxedStrategy<Names> {
    let max = if t == Tier::Quick { 24 } else { 60 };
    let s = || prop_oneof![4 => "[a-z]{1,4}", 1 => "[a-z.]{0,6}", 1 => Just(String::new()), 1 => "[a-zé._/ ]{1,5}"];
    // mostly the latest value, sometimes any earlier one
    let op = prop_oneof![
        1 => Just(NOp::New),
        1 => Just(NOp::Default),
        4 => (any::<u8>(), s()).prop_map(|(i, s)| NOp::Name(i, s)),
        4 => (any::<u8>(), s()).prop_map(|(i, s)| NOp::Prefix(i, s)),
        8 => (any::<u8>(), s()).prop_map(|(i, s)| NOp::Child(i, s)),
        2 => (any::<u8>(), s()).prop_map(|(i, s)| NOp::Abs(i, s)),
    ];
    (prop::collection::vec((op, prop::bool::weighted(0.6)), 0..max))
        .prop_map(|v| {
            let mut ops = vec![];
            for (k, (op, last)) in v.into_iter().enumerate() {
                let l = k as u8; // the pool has k + 1 values
                ops.push(match op {
                    NOp::Name(i, s) => NOp::Name(if last { l } else { i }, s),
                    NOp::Prefix(i, s) => NOp::Prefix(if last { l } else { i }, s),
                    NOp::Child(i, s) => NOp::Child(if last { l } else { i }, s),
                    NOp::Abs(i, s) => NOp::Abs(if last { l } else { i }, s),
                    o => o,
                });
            }
            Names { ops }
        })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    let _ = de_vec::<u8>;
    vec![
        Property {
            id: "C12",
            assumptions: &["the value returned for text that is not valid UTF-8 is not claimed, only how far the cursor moves", "set_pos is not called with positions before the start of the data (a documented precondition of the caller)"],
            subs: vec![Box::new(Sub::<BufCase> {
                name: "cursor",
                rule: "up to 30 (80) reads of every kind, skips, rewinds and seeks (also beyond both ends) on 0-300 random bytes with any base offset, or on the concatenated encodings of the reads, whole or cut short, against a cursor model. Non-trivial: at least two operations succeeded.",
                quick: 300_000,
                thorough: 1_500_000,
                fixed: |_| {
                    let data: Vec<u8> = (0..64).collect();
                    let mut v = vec![];
                    for k in KS {
                        for n in 0..=k.w() {
                            v.push(BufCase { data: data[..n].to_vec(), offset: 7, ops: vec![Op::Prim(k), Op::PrimObj(k)], structured: false });
                        }
                    }
                    for n in [-1i32, i32::MIN, i32::MAX, 1 << 20, 2, 1, 0] {
                        let mut d = n.to_be_bytes().to_vec();
                        d.extend([0, 0, 0, 1, 9]);
                        for o in OS {
                            v.push(BufCase { data: d.clone(), offset: 0, ops: vec![Op::Obj(o), Op::Prim(K::U8)], structured: false });
                        }
                    }
                    for n in [254u32, 255, 256, u32::MAX] {
                        let mut d = vec![255];
                        d.extend(n.to_be_bytes());
                        d.extend(vec![b'x'; 255]);
                        v.push(BufCase { data: d, offset: 3, ops: vec![Op::Str, Op::Prim(K::U8)], structured: false });
                    }
                    v
                },
                gen: gen_buf,
                run: run_buf,
                shards: 8,
            })],
        },
        Property {
            id: "C15",
            assumptions: &[],
            subs: vec![Box::new(Sub::<Names> {
                name: "chains",
                rule: "up to 24 (60) compositions over a growing pool of names, mostly continuing the latest one; every name is compared with the model when made and again at the end. Non-trivial: at least one child of a named parent.",
                quick: 300_000,
                thorough: 1_500_000,
                fixed: |_| vec![],
                gen: gen_names,
                run: run_names,
                shards: 8,
            })],
        },
    ]
}
