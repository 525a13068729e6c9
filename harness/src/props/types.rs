//! Registry of the Rust types a column can be read as, with a canonical text form of their
//! values, and the matching model of container types: C++ name, stored bytes, expected text.
use crate::engine::guard;
use crate::model::*;
use crate::refroot::read::enc_str;
use oxyroot::{Branch, RBuffer, Slice, Unmarshaler, UnmarshalerInto};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::OnceLock;

/// A value in comparable form; floats by their bits, sets and maps sorted.
pub trait Canon {
    fn rust() -> String;
    fn canon(&self, out: &mut String);
}
macro_rules! prims {
    ($($t:ident),*) => { $(impl Canon for $t {
        fn rust() -> String { stringify!($t).into() }
        fn canon(&self, out: &mut String) { out.push_str(&self.to_string()) }
    })* };
}
prims!(i8, u8, i16, u16, i32, u32, i64, u64, bool);
impl Canon for f32 {
    fn rust() -> String {
        "f32".into()
    }
    fn canon(&self, out: &mut String) {
        out.push_str(&format!("{:08x}", self.to_bits()))
    }
}
impl Canon for f64 {
    fn rust() -> String {
        "f64".into()
    }
    fn canon(&self, out: &mut String) {
        out.push_str(&format!("{:016x}", self.to_bits()))
    }
}
impl Canon for String {
    fn rust() -> String {
        "String".into()
    }
    fn canon(&self, out: &mut String) {
        out.push_str(&format!("{self:?}"))
    }
}
fn seq<'a, T: Canon + 'a>(v: impl Iterator<Item = &'a T>, out: &mut String) {
    out.push('[');
    for x in v {
        x.canon(out);
        out.push(',');
    }
    out.push(']');
}
fn one<T: Canon>(x: &T) -> String {
    let mut s = String::new();
    x.canon(&mut s);
    s
}
impl<T: Canon> Canon for Vec<T> {
    fn rust() -> String {
        format!("Vec<{}>", T::rust())
    }
    fn canon(&self, out: &mut String) {
        seq(self.iter(), out)
    }
}
impl<T: Canon> Canon for Slice<T> {
    fn rust() -> String {
        format!("Slice<{}>", T::rust())
    }
    fn canon(&self, out: &mut String) {
        seq(self.inner().iter(), out)
    }
}
impl<T: Canon, const N: usize> Canon for [T; N] {
    fn rust() -> String {
        format!("[{};{N}]", T::rust())
    }
    fn canon(&self, out: &mut String) {
        seq(self.iter(), out)
    }
}
impl<T: Canon> Canon for HashSet<T> {
    fn rust() -> String {
        format!("HashSet<{}>", T::rust())
    }
    fn canon(&self, out: &mut String) {
        let mut v: Vec<String> = self.iter().map(one).collect();
        v.sort();
        out.push_str(&format!("{{{}}}", v.join(",")));
    }
}
impl<K: Canon, V: Canon> Canon for HashMap<K, V> {
    fn rust() -> String {
        format!("HashMap<{},{}>", K::rust(), V::rust())
    }
    fn canon(&self, out: &mut String) {
        let mut v: Vec<String> = self.iter().map(|(k, v)| format!("{}:{}", one(k), one(v))).collect();
        v.sort();
        out.push_str(&format!("{{{}}}", v.join(",")));
    }
}

/// Why nothing could be iterated.
#[derive(Debug, Clone)]
pub enum No {
    /// error text of the refusal, display and debug
    Refused(String),
    Panic(String),
}
type ReadFn = fn(&Branch, Mode, usize) -> Result<Vec<String>, No>;
type AskFn = fn(&Branch) -> Result<Result<(), String>, String>;

pub struct RustTy {
    pub name: String,
    pub read: ReadFn,
    /// accepted or refused; a panic is the outer error
    pub ask: AskFn,
}

type Next<'a> = Box<dyn FnMut() -> Option<String> + 'a>;
fn collect<'a>(cap: usize, start: Box<dyn FnOnce() -> Result<Next<'a>, No> + 'a>) -> Result<Vec<String>, No> {
    guard(|| -> Result<Vec<String>, No> {
        let mut next = start()?;
        let mut v = vec![];
        while v.len() < cap {
            match next() {
                Some(x) => v.push(x),
                None => break,
            }
        }
        Ok(v)
    })
    .map_err(No::Panic)?
}
fn each<'a, I: Iterator + 'a>(mut it: I) -> Result<Next<'a>, No>
where
    I::Item: Canon,
{
    Ok(Box::new(move || it.next().map(|x| one(&x))))
}
fn from_buffers<'a>(b: &'a Branch, f: Box<dyn FnMut(&mut RBuffer) -> String + 'a>) -> Result<Next<'a>, No> {
    let mut it = b.get_basket(f);
    Ok(Box::new(move || it.next()))
}

fn read_as<T: UnmarshalerInto<Item = T> + Unmarshaler + Default + Canon>(b: &Branch, mode: Mode, cap: usize) -> Result<Vec<String>, No> {
    collect(
        cap,
        Box::new(move || match mode {
            Mode::Checked => each(b.as_iter::<T>().map_err(|e| No::Refused(format!("{e} {e:?}")))?),
            Mode::Unchecked => each(b.as_iter_unchecked::<T>()),
            Mode::Buffer => from_buffers(
                b,
                Box::new(|r: &mut RBuffer| {
                    let mut x = T::default();
                    x.unmarshal(r).expect("unmarshal");
                    one(&x)
                }),
            ),
        }),
    )
}
fn ask_as<T: UnmarshalerInto<Item = T>>(b: &Branch) -> Result<Result<(), String>, String> {
    guard(|| b.as_iter::<T>().map(|_| ()).map_err(|e| format!("{e} {e:?}")))
}

/// Array lengths among the registered types.
pub const ARR_N: [u32; 6] = [1, 2, 3, 5, 10, 16];

pub fn registry() -> &'static BTreeMap<String, RustTy> {
    static R: OnceLock<BTreeMap<String, RustTy>> = OnceLock::new();
    R.get_or_init(|| {
        let mut m = BTreeMap::new();
        macro_rules! add {
            ($($t:ty),* $(,)?) => { $({
                let name = <$t as Canon>::rust();
                m.insert(name.clone(), RustTy { name, read: read_as::<$t>, ask: ask_as::<$t> });
            })* };
        }
        macro_rules! prim {
            ($($t:ty),*) => { $(add!($t, Slice<$t>, Vec<$t>, Vec<Vec<$t>>, [$t; 1], [$t; 2], [$t; 3], [$t; 5], [$t; 10], [$t; 16]);)* };
        }
        prim!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, bool);
        macro_rules! sets {
            ($($t:ty),*) => { $(add!(HashSet<$t>, Vec<HashSet<$t>>);)* };
        }
        sets!(i8, u8, i16, u16, i32, u32, i64, u64, String);
        add!(String, Vec<String>, Vec<Vec<String>>);
        macro_rules! deep {
            ($($t:ty),*) => { $(add!(Vec<Vec<Vec<$t>>>, Vec<Vec<HashSet<$t>>>);)* };
        }
        deep!(i16, u64, String);
        add!(Vec<Vec<Vec<f64>>>, Vec<Vec<Vec<Vec<i32>>>>);
        macro_rules! maps {
            ($k:ty; $($v:ty),*) => { $(add!(HashMap<$k, $v>);)* };
        }
        macro_rules! keys {
            ($($k:ty),*) => { $(
                maps!($k; i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, bool, String);
                maps!($k; Vec<i16>, Vec<i32>, Vec<u8>, Vec<f64>, Vec<String>, HashSet<i16>, HashSet<String>, HashSet<u64>);
                maps!($k; Vec<Vec<i16>>, Vec<Vec<String>>, Vec<HashSet<i16>>, Vec<HashSet<String>>, Vec<Vec<Vec<i16>>>);
            )* };
        }
        keys!(i32, i16, u64, u8, String);
        m
    })
}

// ------------------------------------------------------------------ model

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum CT {
    P(P),
    Str,
    Vec(Box<CT>),
    Set(Box<CT>),
    Map(Box<CT>, Box<CT>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    /// big-endian bytes
    P(Vec<u8>),
    Str(String),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
}

impl Val {
    fn without_leading_nul(&mut self) {
        match self {
            Val::P(_) => {}
            Val::Str(s) => {
                if s.starts_with('\0') {
                    s.replace_range(..1, "z");
                }
            }
            Val::Seq(v) => v.iter_mut().for_each(Val::without_leading_nul),
            Val::Map(v) => {
                for (a, b) in v {
                    a.without_leading_nul();
                    b.without_leading_nul();
                }
            }
        }
    }
}

pub fn prim_rust(p: P) -> &'static str {
    p.rust()
}

/// strings are of ROOT's own class
pub fn tstring(alt: u8) -> bool {
    alt & 12 == 12
}

/// C++ spelling; `alt` chooses between equivalent spellings
pub fn cxx(p: P, alt: u8) -> &'static str {
    let v: &[&str] = match p {
        P::I8 => &["char", "int8_t"],
        P::I16 => &["short", "int16_t"],
        P::I32 => &["int", "int32_t"],
        P::I64 => &["long", "Long64_t", "int64_t"],
        P::F32 => &["float"],
        P::F64 => &["double"],
        P::U8 => &["unsigned char", "uint8_t"],
        P::U16 => &["unsigned short", "uint16_t"],
        P::U32 => &["unsigned int", "uint32_t"],
        P::U64 => &["unsigned long", "ULong64_t", "uint64_t"],
        P::Bool => &["bool"],
    };
    v[alt as usize % v.len()]
}

impl CT {
    pub fn rust(&self) -> String {
        match self {
            CT::P(p) => p.rust().into(),
            CT::Str => "String".into(),
            CT::Vec(t) => format!("Vec<{}>", t.rust()),
            CT::Set(t) => format!("HashSet<{}>", t.rust()),
            CT::Map(k, v) => format!("HashMap<{},{}>", k.rust(), v.rust()),
        }
    }
    /// the class name as ROOT stores it
    pub fn cxx(&self, alt: u8) -> String {
        let close = |s: String| if s.ends_with('>') { format!("{s} >") } else { format!("{s}>") };
        match self {
            CT::P(p) => cxx(*p, alt).into(),
            CT::Str => if tstring(alt) { "TString" } else { "string" }.into(),
            CT::Vec(t) => close(format!("vector<{}", t.cxx(alt))),
            CT::Set(t) => close(format!("set<{}", t.cxx(alt))),
            CT::Map(k, v) => close(format!("map<{},{}", k.cxx(alt), v.cxx(alt))),
        }
    }
    /// the name the library advertises: fixed-width names, no spaces
    pub fn cpp(&self, alt: u8) -> String {
        match self {
            CT::P(p) => p.cpp().into(),
            CT::Str => self.cxx(alt),
            CT::Vec(t) => format!("vector<{}>", t.cpp(alt)),
            CT::Set(t) => format!("set<{}>", t.cpp(alt)),
            CT::Map(k, v) => format!("map<{},{}>", k.cpp(alt), v.cpp(alt)),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            CT::P(_) | CT::Str => 0,
            CT::Vec(t) | CT::Set(t) => 1 + t.depth(),
            CT::Map(k, v) => 1 + k.depth().max(v.depth()),
        }
    }
    fn body(&self, v: &Val, alt: u8, out: &mut Vec<u8>) {
        match (self, v) {
            (CT::P(_), Val::P(b)) => out.extend(b),
            (CT::Str, Val::Str(s)) => {
                out.extend(enc_str(s.len()));
                out.extend(s.as_bytes());
            }
            (CT::Vec(t), Val::Seq(v)) | (CT::Set(t), Val::Seq(v)) => {
                out.extend((v.len() as i32).to_be_bytes());
                for x in v {
                    t.body(x, alt, out);
                }
            }
            (CT::Map(k, t), Val::Map(v)) => {
                out.extend((v.len() as i32).to_be_bytes());
                for (ty, xs) in [(k, v.iter().map(|x| &x.0).collect::<Vec<_>>()), (t, v.iter().map(|x| &x.1).collect())] {
                    let mut b = vec![];
                    for x in &xs {
                        ty.body(x, alt, &mut b);
                    }
                    if matches!(**ty, CT::P(_)) || (**ty == CT::Str && tstring(alt)) || xs.is_empty() {
                        out.extend(b);
                    } else {
                        out.extend(super::foreign::with_header(9, b));
                    }
                }
            }
            _ => unreachable!("{self:?} {v:?}"),
        }
    }
    /// bytes of one entry of a branch of this type
    pub fn stored(&self, v: &Val, alt: u8) -> Vec<u8> {
        let mut b = vec![];
        match self {
            CT::P(_) | CT::Str => {
                self.body(v, alt, &mut b);
                b
            }
            CT::Vec(_) | CT::Set(_) => {
                self.body(v, alt, &mut b);
                super::foreign::with_header(9, b)
            }
            CT::Map(..) => {
                b.extend([0x00, 0x00, 0x3b, 0x7c, 0x11, 0x9d]);
                self.body(v, alt, &mut b);
                super::foreign::with_header(0x4009, b)
            }
        }
    }
    /// inverse of `body`, used to validate the encoding on the repository's samples
    pub fn parse(&self, b: &mut &[u8], alt: u8) -> Result<Val, String> {
        let take = |b: &mut &[u8], n: usize| -> Result<Vec<u8>, String> {
            if b.len() < n {
                return Err(format!("{n} bytes wanted, {} left", b.len()));
            }
            let (x, y) = b.split_at(n);
            *b = y;
            Ok(x.to_vec())
        };
        let count = |b: &mut &[u8]| -> Result<usize, String> { Ok(u32::from_be_bytes(take(b, 4)?.try_into().unwrap()) as usize) };
        Ok(match self {
            CT::P(p) => Val::P(take(b, p.size())?),
            CT::Str => {
                let mut n = take(b, 1)?[0] as usize;
                if n == 255 {
                    n = count(b)?;
                }
                Val::Str(String::from_utf8(take(b, n)?).map_err(|e| e.to_string())?)
            }
            CT::Vec(t) | CT::Set(t) => {
                let n = count(b)?;
                Val::Seq((0..n).map(|_| t.parse(b, alt)).collect::<Result<_, _>>()?)
            }
            CT::Map(k, t) => {
                let n = count(b)?;
                let mut parts = vec![];
                for ty in [k, t] {
                    if !matches!(**ty, CT::P(_)) && !(**ty == CT::Str && tstring(alt)) && n > 0 {
                        take(b, 6)?;
                    }
                    parts.push((0..n).map(|_| ty.parse(b, alt)).collect::<Result<Vec<_>, _>>()?);
                }
                let v = parts.pop().unwrap();
                Val::Map(parts.pop().unwrap().into_iter().zip(v).collect())
            }
        })
    }
    pub fn canon(&self, v: &Val) -> String {
        let mut s = String::new();
        self.canon_to(v, &mut s);
        s
    }
    fn canon_to(&self, v: &Val, out: &mut String) {
        match (self, v) {
            (CT::P(p), Val::P(b)) => crate::with_prim!(*p, T => <T as Be>::de(b).canon(out)),
            (CT::Str, Val::Str(s)) => s.canon(out),
            (CT::Vec(t), Val::Seq(v)) => {
                out.push('[');
                for x in v {
                    t.canon_to(x, out);
                    out.push(',');
                }
                out.push(']');
            }
            (CT::Set(t), Val::Seq(v)) => {
                let mut s: Vec<String> = v.iter().map(|x| t.canon(x)).collect();
                s.sort();
                out.push_str(&format!("{{{}}}", s.join(",")));
            }
            (CT::Map(k, t), Val::Map(v)) => {
                let mut s: Vec<String> = v.iter().map(|(a, b)| format!("{}:{}", k.canon(a), t.canon(b))).collect();
                s.sort();
                out.push_str(&format!("{{{}}}", s.join(",")));
            }
            _ => unreachable!("{self:?} {v:?}"),
        }
    }
    /// A value with at most `max` elements per level.
    pub fn value(&self, mix: &mut Mix, max: u64) -> Val {
        match self {
            CT::P(p) => {
                let r = mix.next();
                let n = p.size();
                if *p == P::Bool {
                    return Val::P(vec![(r & 1) as u8]);
                }
                let b = r.to_be_bytes();
                Val::P(match mix.below(6) {
                    0 => vec![0; n],
                    1 => vec![0xff; n],
                    2 => {
                        let mut v = vec![0; n];
                        v[n - 1] = r as u8;
                        v
                    }
                    // looks like a byte count
                    3 => {
                        let mut v = b[..n].to_vec();
                        v[0] = 0x40;
                        v
                    }
                    _ => b[..n].to_vec(),
                })
            }
            CT::Str => {
                let n = match mix.below(12) {
                    0 | 1 => 0,
                    2 => 64,
                    3 => 63 + mix.below(3),
                    4 => 253 + mix.below(4),
                    _ => mix.below(10),
                };
                let mut s = String::new();
                if n == 64 && mix.below(2) == 0 {
                    // with its length in front, looks like a byte count of what follows
                    s.push_str("\0\0");
                    s.push(mix.below(62) as u8 as char);
                }
                while (s.len() as u64) < n {
                    let c = match mix.below(12) {
                        0 => '@',
                        1 if s.len() > 4 => '\u{0}',
                        2 if s.len() as u64 + 2 <= n => 'é',
                        _ => (b' ' + mix.below(94) as u8) as char,
                    };
                    s.push(c);
                }
                Val::Str(s)
            }
            CT::Vec(t) => {
                let n = self.count(mix, max);
                Val::Seq((0..n).map(|_| t.value(mix, max)).collect())
            }
            CT::Set(t) => {
                let n = self.count(mix, max);
                let mut v: Vec<Val> = (0..n).map(|_| t.value(mix, max)).collect();
                v.sort();
                v.dedup();
                Val::Seq(v)
            }
            CT::Map(k, t) => {
                let n = self.count(mix, max);
                // whether the first key and value have a header is told from their bytes alone
                let mut value = |t: &CT| {
                    let mut v = t.value(mix, max);
                    v.without_leading_nul();
                    v
                };
                let mut ks: Vec<Val> = (0..n).map(|_| value(k)).collect();
                ks.sort();
                ks.dedup();
                Val::Map(ks.into_iter().map(|x| (x, value(t))).collect())
            }
        }
    }
    fn count(&self, mix: &mut Mix, max: u64) -> u64 {
        match mix.below(6) {
            0 => 0,
            1 => 1,
            2 => max,
            // sizes whose stored form contains the header marker
            3 if self.depth() == 1 && max > 5 && mix.below(8) == 0 => 64,
            _ => mix.below(max + 1),
        }
    }
    pub fn empties(&self, v: &Val) -> bool {
        match (self, v) {
            (CT::Vec(t), Val::Seq(x)) | (CT::Set(t), Val::Seq(x)) => x.is_empty() || x.iter().any(|y| t.empties(y)),
            (CT::Map(_, t), Val::Map(x)) => x.is_empty() || x.iter().any(|y| t.empties(&y.1)),
            (CT::Str, Val::Str(s)) => s.is_empty(),
            _ => false,
        }
    }
}

/// Parse an advertised C++ name.
pub fn parse_cpp(s: &str) -> Option<CT> {
    fn p(s: &mut &str) -> Option<CT> {
        let end = s.find(['<', '>', ',']).unwrap_or(s.len());
        let (head, rest) = s.split_at(end);
        *s = rest;
        let eat = |s: &mut &str, c: char| -> Option<()> {
            *s = s.strip_prefix(c)?;
            Some(())
        };
        match head {
            "vector" | "set" | "map" => {
                eat(s, '<')?;
                let a = Box::new(p(s)?);
                let r = match head {
                    "vector" => CT::Vec(a),
                    "set" => CT::Set(a),
                    _ => {
                        eat(s, ',')?;
                        CT::Map(a, Box::new(p(s)?))
                    }
                };
                eat(s, '>')?;
                Some(r)
            }
            "string" | "TString" | "char*" => Some(CT::Str),
            h => PRIMS.iter().find(|p| p.cpp() == h).map(|p| CT::P(*p)),
        }
    }
    let mut r = s;
    let t = p(&mut r)?;
    r.is_empty().then_some(t)
}

/// Rust type corresponding to an advertised C++ name, arrays included.
pub fn rust_of_cpp(s: &str) -> Option<String> {
    if let Some((head, tail)) = s.split_once('[') {
        let p = PRIMS.iter().find(|p| p.cpp() == head)?;
        let n = tail.strip_suffix(']')?;
        return Some(if n.is_empty() { format!("Slice<{}>", p.rust()) } else { format!("[{};{n}]", p.rust()) });
    }
    Some(parse_cpp(s)?.rust())
}

/// Read a column of any known type; None for types that are not known.
pub fn read_any(b: &Branch, mode: Mode, cap: usize) -> Option<Result<Vec<String>, No>> {
    let cpp = match guard(|| b.item_type_name()) {
        Ok(c) => c,
        Err(e) => return Some(Err(No::Panic(e))),
    };
    let r = registry().get(&rust_of_cpp(&cpp)?)?;
    Some((r.read)(b, mode, cap))
}
