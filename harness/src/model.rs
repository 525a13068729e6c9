//! Column model: compact descriptors that expand to exact entry bytes, typed writing and reading.
use crate::engine::guard;
use oxyroot::{Branch, RBuffer, WriterTree};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum P {
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
}
pub const PRIMS: [P; 11] = [P::Bool, P::I8, P::U8, P::I16, P::U16, P::I32, P::U32, P::I64, P::U64, P::F32, P::F64];
pub const NUMS: [P; 10] = [P::I8, P::U8, P::I16, P::U16, P::I32, P::U32, P::I64, P::U64, P::F32, P::F64];

impl P {
    pub fn size(self) -> usize {
        match self {
            P::Bool | P::I8 | P::U8 => 1,
            P::I16 | P::U16 => 2,
            P::I32 | P::U32 | P::F32 => 4,
            P::I64 | P::U64 | P::F64 => 8,
        }
    }
    /// C++ type name as advertised by the library
    pub fn cpp(self) -> &'static str {
        match self {
            P::Bool => "bool",
            P::I8 => "int8_t",
            P::U8 => "uint8_t",
            P::I16 => "int16_t",
            P::U16 => "uint16_t",
            P::I32 => "int32_t",
            P::U32 => "uint32_t",
            P::I64 => "int64_t",
            P::U64 => "uint64_t",
            P::F32 => "float",
            P::F64 => "double",
        }
    }
    pub fn rust(self) -> &'static str {
        match self {
            P::Bool => "bool",
            P::I8 => "i8",
            P::U8 => "u8",
            P::I16 => "i16",
            P::U16 => "u16",
            P::I32 => "i32",
            P::U32 => "u32",
            P::I64 => "i64",
            P::U64 => "u64",
            P::F32 => "f32",
            P::F64 => "f64",
        }
    }
    /// ROOT leaf class and signedness
    pub fn leaf(self) -> (&'static str, bool) {
        match self {
            P::Bool => ("TLeafO", false),
            P::I8 => ("TLeafB", false),
            P::U8 => ("TLeafB", true),
            P::I16 => ("TLeafS", false),
            P::U16 => ("TLeafS", true),
            P::I32 => ("TLeafI", false),
            P::U32 => ("TLeafI", true),
            P::I64 => ("TLeafL", false),
            P::U64 => ("TLeafL", true),
            P::F32 => ("TLeafF", false),
            P::F64 => ("TLeafD", false),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    S(P),
    A(P, u32),
    Str,
    V(P),
}

/// Array lengths that can be read through `as_iter::<[T; N]>`
pub const SMALL_N: [u32; 8] = [1, 2, 3, 5, 8, 16, 17, 32];
/// Larger ones, read through `get_basket`
pub const BIG_N: [u32; 4] = [33, 100, 1000, 9000];

impl Ty {
    /// bytes of one entry for fixed-size types
    pub fn fixed(self) -> Option<usize> {
        match self {
            Ty::S(p) => Some(p.size()),
            Ty::A(p, n) => Some(p.size() * n as usize),
            _ => None,
        }
    }
    /// bytes of one entry in a basket given its number of elements
    pub fn stored(self, elems: usize) -> usize {
        match self {
            Ty::S(p) => p.size(),
            Ty::A(p, n) => p.size() * n as usize,
            Ty::Str => elems + if elems < 255 { 1 } else { 5 },
            Ty::V(p) => 10 + elems * p.size(),
        }
    }
    pub fn cpp(self) -> String {
        match self {
            Ty::S(p) => p.cpp().into(),
            Ty::A(p, n) => format!("{}[{}]", p.cpp(), n),
            Ty::Str => "char*".into(),
            Ty::V(p) => format!("vector<{}>", p.cpp()),
        }
    }
    pub fn rust(self) -> String {
        match self {
            Ty::S(p) => p.rust().into(),
            Ty::A(p, n) => format!("[{};{}]", p.rust(), n),
            Ty::Str => "String".into(),
            Ty::V(p) => format!("Vec<{}>", p.rust()),
        }
    }
    pub fn leaf(self) -> (&'static str, bool) {
        match self {
            Ty::S(p) | Ty::A(p, _) => p.leaf(),
            Ty::Str => ("TLeafC", false),
            Ty::V(_) => ("TLeafElement", false),
        }
    }
    pub fn short(self) -> String {
        match self {
            Ty::S(p) => p.rust().into(),
            Ty::A(p, _) => format!("{}[]", p.rust()),
            Ty::Str => "string".into(),
            Ty::V(p) => format!("vec<{}>", p.rust()),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pat {
    Zero,
    Ff,
    Ramp,
    Rand,
    Special,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Run {
    /// number of entries
    pub n: u32,
    /// elements per entry (bytes for strings; ignored for fixed-size types)
    pub sz: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    pub runs: Vec<Run>,
    pub pat: Pat,
    pub seed: u64,
}

/// splitmix64, the only expander of seeds carried by cases
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
}

fn special(p: P, i: u64) -> Vec<u8> {
    match p {
        P::Bool => vec![(i & 1) as u8],
        P::I8 | P::U8 => vec![[0u8, 1, 127, 128, 255, 254][(i % 6) as usize]],
        P::I16 | P::U16 => [0u16, 1, 0x7fff, 0x8000, 0xffff, 0x00ff, 0xff00][(i % 7) as usize].to_be_bytes().to_vec(),
        P::I32 | P::U32 => {
            [0u32, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x40000000, 0x00ff00ff][(i % 7) as usize].to_be_bytes().to_vec()
        }
        P::I64 | P::U64 => [0u64, 1, 0x7fffffffffffffff, 0x8000000000000000, u64::MAX, 0xffffffff, 0x100000000][(i % 7) as usize]
            .to_be_bytes()
            .to_vec(),
        P::F32 => [
            0u32, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc12345, 0xffc00001, 0x00000001, 0x7f7fffff, 0x3f800000, 0x00800000,
            0x7f800001,
        ][(i % 12) as usize]
            .to_be_bytes()
            .to_vec(),
        P::F64 => [
            0u64,
            1 << 63,
            0x7ff0000000000000,
            0xfff0000000000000,
            0x7ff8000000000000,
            0x7ff8deadbeef0001,
            0xfff8000000000001,
            1,
            0x7fefffffffffffff,
            0x3ff0000000000000,
            0x0010000000000000,
            0x7ff0000000000001,
        ][(i % 12) as usize]
            .to_be_bytes()
            .to_vec(),
    }
}

fn elem(p: P, pat: Pat, k: u64, m: &mut Mix, out: &mut Vec<u8>) {
    let w = p.size();
    let v: u64 = match pat {
        Pat::Zero => 0,
        Pat::Ff => u64::MAX,
        Pat::Ramp => match p {
            P::F32 => (k as f32).to_bits() as u64,
            P::F64 => (k as f64).to_bits(),
            _ => k,
        },
        Pat::Rand => m.next(),
        Pat::Special => {
            let i = m.next();
            out.extend(special(p, i));
            return;
        }
    };
    if p == P::Bool {
        out.push((v & 1) as u8);
    } else {
        out.extend_from_slice(&v.to_be_bytes()[8 - w..]);
    }
}

fn text(sz: usize, pat: Pat, k: u64, m: &mut Mix) -> Vec<u8> {
    let mut s: Vec<u8> = Vec::with_capacity(sz);
    const SP: [char; 16] = [
        '\0', '\n', '\u{7f}', 'é', 'ß', '\u{7ff}', '€', '\u{fffd}', '\u{feff}', '\u{ffff}', '𝄞', '\u{10ffff}', 'a', ' ', '"', '\u{202e}',
    ];
    while s.len() < sz {
        let c = match pat {
            Pat::Zero => '\0',
            Pat::Ff => '\u{10ffff}',
            Pat::Ramp => char::from(b'a' + ((k as usize + s.len()) % 26) as u8),
            Pat::Rand => char::from_u32(m.below(0x11_0000) as u32).unwrap_or('x'),
            Pat::Special => SP[m.below(16) as usize],
        };
        if s.len() + c.len_utf8() > sz {
            s.push(b'~');
        } else {
            let mut b = [0; 4];
            s.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        }
    }
    s
}

impl Col {
    pub fn len(&self) -> usize {
        self.runs.iter().map(|r| r.n as usize).sum()
    }
    /// The exact entries of the column: big-endian element bytes, or the text bytes.
    pub fn entries(&self) -> Vec<Vec<u8>> {
        let mut m = Mix(self.seed);
        let mut out = Vec::with_capacity(self.len());
        let mut k = 0u64;
        for r in &self.runs {
            for _ in 0..r.n {
                let e = match self.ty {
                    Ty::S(p) => {
                        let mut v = Vec::with_capacity(p.size());
                        elem(p, self.pat, k, &mut m, &mut v);
                        v
                    }
                    Ty::A(p, n) => {
                        let mut v = Vec::with_capacity(p.size() * n as usize);
                        for j in 0..n as u64 {
                            elem(p, self.pat, k + j, &mut m, &mut v);
                        }
                        v
                    }
                    Ty::V(p) => {
                        let mut v = Vec::with_capacity(p.size() * r.sz as usize);
                        for j in 0..r.sz as u64 {
                            elem(p, self.pat, k + j, &mut m, &mut v);
                        }
                        v
                    }
                    Ty::Str => text(r.sz as usize, self.pat, k, &mut m),
                };
                out.push(e);
                k += 1;
            }
        }
        out
    }
    /// Number of buffers the column fills at the library's default buffer size (used only to
    /// classify cases).
    pub fn approx_baskets(&self) -> usize {
        let mut used = 0usize;
        let mut b = 1;
        for r in &self.runs {
            let s = self.ty.stored(r.sz as usize);
            for _ in 0..r.n {
                used += s;
                if used + s >= 32768 {
                    b += 1;
                    used = 0;
                }
            }
        }
        b
    }
    pub fn stored_bytes(&self) -> usize {
        self.runs.iter().map(|r| r.n as usize * self.ty.stored(r.sz as usize)).sum()
    }
}

/// Conversion between Rust values and their big-endian bytes.
pub trait Be: Sized {
    const W: usize;
    fn de(b: &[u8]) -> Self;
    fn ser(&self, out: &mut Vec<u8>);
}
macro_rules! be {
    ($($t:ty),*) => { $(impl Be for $t {
        const W: usize = std::mem::size_of::<$t>();
        fn de(b: &[u8]) -> Self { <$t>::from_be_bytes(b.try_into().unwrap()) }
        fn ser(&self, out: &mut Vec<u8>) { out.extend_from_slice(&self.to_be_bytes()) }
    })* };
}
be!(i8, u8, i16, u16, i32, u32, i64, u64, f32, f64);
impl Be for bool {
    const W: usize = 1;
    fn de(b: &[u8]) -> Self {
        b[0] != 0
    }
    fn ser(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
}
pub fn de_vec<T: Be>(b: &[u8]) -> Vec<T> {
    b.chunks(T::W).map(T::de).collect()
}
pub fn ser_all<'a, T: Be + 'a>(v: impl IntoIterator<Item = &'a T>) -> Vec<u8> {
    let mut o = Vec::new();
    for x in v {
        x.ser(&mut o);
    }
    o
}

/// Call `$body` with `$t` bound to the Rust type of primitive `$p`.
#[macro_export]
macro_rules! with_prim {
    ($p:expr, $t:ident => $body:expr) => {
        match $p {
            $crate::model::P::Bool => { type $t = bool; $body }
            $crate::model::P::I8 => { type $t = i8; $body }
            $crate::model::P::U8 => { type $t = u8; $body }
            $crate::model::P::I16 => { type $t = i16; $body }
            $crate::model::P::U16 => { type $t = u16; $body }
            $crate::model::P::I32 => { type $t = i32; $body }
            $crate::model::P::U32 => { type $t = u32; $body }
            $crate::model::P::I64 => { type $t = i64; $body }
            $crate::model::P::U64 => { type $t = u64; $body }
            $crate::model::P::F32 => { type $t = f32; $body }
            $crate::model::P::F64 => { type $t = f64; $body }
        }
    };
}
/// As `with_prim`, numbers only (element types of written vectors).
#[macro_export]
macro_rules! with_num {
    ($p:expr, $t:ident => $body:expr) => {
        match $p {
            $crate::model::P::Bool => unreachable!(),
            $crate::model::P::I8 => { type $t = i8; $body }
            $crate::model::P::U8 => { type $t = u8; $body }
            $crate::model::P::I16 => { type $t = i16; $body }
            $crate::model::P::U16 => { type $t = u16; $body }
            $crate::model::P::I32 => { type $t = i32; $body }
            $crate::model::P::U32 => { type $t = u32; $body }
            $crate::model::P::I64 => { type $t = i64; $body }
            $crate::model::P::U64 => { type $t = u64; $body }
            $crate::model::P::F32 => { type $t = f32; $body }
            $crate::model::P::F64 => { type $t = f64; $body }
        }
    };
}
#[macro_export]
macro_rules! with_small_n {
    ($n:expr, $c:ident => $body:expr) => {
        match $n {
            1 => { const $c: usize = 1; $body }
            2 => { const $c: usize = 2; $body }
            3 => { const $c: usize = 3; $body }
            5 => { const $c: usize = 5; $body }
            8 => { const $c: usize = 8; $body }
            16 => { const $c: usize = 16; $body }
            17 => { const $c: usize = 17; $body }
            32 => { const $c: usize = 32; $body }
            n => unreachable!("array length {n}"),
        }
    };
}

fn arr<T: Be + Copy, const N: usize>(b: &[u8]) -> [T; N] {
    std::array::from_fn(|i| T::de(&b[i * T::W..(i + 1) * T::W]))
}

/// Element types of the arrays with more than 32 elements
pub const BIG_P: [P; 4] = [P::U8, P::I16, P::F64, P::Bool];

/// Add a column to a tree under construction. `hook(k)` runs each time item k is pulled
/// (and with `k == len` when the end is reported).
pub fn add_branch_with(tree: &mut WriterTree, name: &str, ty: Ty, ents: Vec<Vec<u8>>, hook: Box<dyn FnMut(usize)>) {
    struct It {
        v: std::vec::IntoIter<Vec<u8>>,
        k: usize,
        hook: Box<dyn FnMut(usize)>,
    }
    impl Iterator for It {
        type Item = Vec<u8>;
        fn next(&mut self) -> Option<Vec<u8>> {
            (self.hook)(self.k);
            let r = self.v.next();
            if r.is_some() {
                self.k += 1;
            }
            r
        }
    }
    let it = It { v: ents.into_iter(), k: 0, hook };
    match ty {
        Ty::S(p) => with_prim!(p, T => tree.new_branch(name, it.map(|b| T::de(&b)))),
        Ty::Str => tree.new_branch(name, it.map(|b| String::from_utf8(b).expect("utf8"))),
        Ty::V(p) => with_num!(p, T => tree.new_branch(name, it.map(|b| de_vec::<T>(&b)))),
        Ty::A(p, n) if n <= 32 => with_prim!(p, T => with_small_n!(n, N => tree.new_branch(name, it.map(|b| arr::<T, N>(&b))))),
        Ty::A(p, n) => {
            macro_rules! big {
                ($($pp:ident $t:ty),*) => { match (p, n) {
                    $((P::$pp, 33) => tree.new_branch(name, it.map(|b| arr::<$t, 33>(&b))),
                    (P::$pp, 100) => tree.new_branch(name, it.map(|b| arr::<$t, 100>(&b))),
                    (P::$pp, 1000) => tree.new_branch(name, it.map(|b| arr::<$t, 1000>(&b))),
                    (P::$pp, 9000) => tree.new_branch(name, it.map(|b| arr::<$t, 9000>(&b))),)*
                    _ => unreachable!("array {p:?} {n}"),
                } };
            }
            big!(U8 u8, I16 i16, F64 f64, Bool bool)
        }
    }
}
pub fn add_branch(tree: &mut WriterTree, col: &Col) {
    add_branch_with(tree, &col.name, col.ty, col.entries(), Box::new(|_| {}))
}

/// An array read element by element through the public `Unmarshaler` trait.
fn read_n<T: Be + oxyroot::Unmarshaler + Default>(r: &mut RBuffer, n: usize) -> Result<Vec<u8>, String> {
    let mut o = Vec::with_capacity(n * T::W);
    for _ in 0..n {
        let mut x = T::default();
        x.unmarshal(r).map_err(|e| format!("{e:?}"))?;
        x.ser(&mut o);
    }
    Ok(o)
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Checked,
    Unchecked,
    Buffer,
}

pub type Bytes<'a> = Box<dyn Iterator<Item = Vec<u8>> + 'a>;

/// An iterator of which only `next` is ever compiled (there are some hundred item types).
pub fn pull<'a, I: Iterator + 'a>(mut it: I, f: fn(I::Item) -> Vec<u8>) -> Bytes<'a> {
    struct Pull<'a>(Box<dyn FnMut() -> Option<Vec<u8>> + 'a>);
    impl Iterator for Pull<'_> {
        type Item = Vec<u8>;
        fn next(&mut self) -> Option<Vec<u8>> {
            (self.0)()
        }
    }
    Box::new(Pull(Box::new(move || it.next().map(f))))
}
/// Entries read through `get_basket`.
pub fn baskets<'a>(b: &'a Branch, f: Box<dyn FnMut(&mut RBuffer) -> Vec<u8> + 'a>) -> Bytes<'a> {
    Box::new(b.get_basket(f))
}
/// One of the three ways to read the entries of a branch, as bytes.
pub fn read_any_way<'a, T>(b: &'a Branch, mode: Mode, f: fn(T) -> Vec<u8>) -> Result<Bytes<'a>, String>
where
    T: oxyroot::UnmarshalerInto<Item = T> + oxyroot::Unmarshaler + Default + 'a,
{
    match mode {
        Mode::Checked => match b.as_iter::<T>() {
            Ok(it) => Ok(pull(it, f)),
            Err(e) => Err(format!("as_iter refused: {e}")),
        },
        Mode::Unchecked => Ok(pull(b.as_iter_unchecked::<T>(), f)),
        Mode::Buffer => Ok(baskets(
            b,
            Box::new(move |r| {
                let mut x = T::default();
                x.unmarshal(r).expect("unmarshal");
                f(x)
            }),
        )),
    }
}

/// Boxed iterator over the entries of a branch as bytes (at most `cap` items are ever pulled).
pub fn iter_bytes<'a>(b: &'a Branch, ty: Ty, mode: Mode) -> Result<Bytes<'a>, String> {
    macro_rules! go {
        ($t:ty, $f:expr) => {
            read_any_way::<$t>(b, mode, $f)
        };
    }
    match ty {
        Ty::S(p) => with_prim!(p, T => go!(T, |x: T| ser_all([&x]))),
        Ty::Str => go!(String, |x: String| x.into_bytes()),
        Ty::V(p) => with_num!(p, T => go!(Vec<T>, |x: Vec<T>| ser_all(&x))),
        Ty::A(p, n) if n <= 32 => with_prim!(p, T => with_small_n!(n, N => go!([T; N], |x: [T; N]| ser_all(&x)))),
        Ty::A(p, n) => with_prim!(p, T => Ok(baskets(b, Box::new(move |r| read_n::<T>(r, n as usize).expect("unmarshal"))))),
    }
}

/// Read at most `cap` entries as bytes; panics of the library become errors.
pub fn read_bytes(b: &Branch, ty: Ty, mode: Mode, cap: usize) -> Result<Vec<Vec<u8>>, String> {
    guard(|| -> Result<Vec<Vec<u8>>, String> { Ok(iter_bytes(b, ty, mode)?.take(cap).collect()) })?
}

/// Compare entries, describing the first difference.
pub fn diff(what: &str, want: &[Vec<u8>], got: &[Vec<u8>]) -> Result<(), String> {
    for (i, (w, g)) in want.iter().zip(got.iter()).enumerate() {
        if w != g {
            let p = w.iter().zip(g.iter()).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
            let s = p.saturating_sub(4);
            return Err(format!(
                "{what}: entry {i} differs: wrote {} bytes, read {} bytes, first difference at byte {p}: wrote {:02x?}, read {:02x?}",
                w.len(),
                g.len(),
                &w[s.min(w.len())..w.len().min(p + 12)],
                &g[s.min(g.len())..g.len().min(p + 12)]
            ));
        }
    }
    if want.len() != got.len() {
        return Err(format!("{what}: {} entries expected, {} read", want.len(), got.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- generators

pub fn prim() -> impl Strategy<Value = P> {
    prop::sample::select(PRIMS.to_vec())
}
pub fn num() -> impl Strategy<Value = P> {
    prop::sample::select(NUMS.to_vec())
}
pub fn pat() -> impl Strategy<Value = Pat> {
    prop_oneof![3 => Just(Pat::Ramp), 4 => Just(Pat::Rand), 3 => Just(Pat::Special), 1 => Just(Pat::Zero), 1 => Just(Pat::Ff)]
}
pub fn fixed_ty() -> impl Strategy<Value = Ty> {
    prop_oneof![
        5 => prim().prop_map(Ty::S),
        4 => (prim(), prop::sample::select(SMALL_N.to_vec())).prop_map(|(p, n)| Ty::A(p, n)),
        1 => (prop::sample::select(BIG_P.to_vec()), prop::sample::select(BIG_N.to_vec())).prop_map(|(p, n)| Ty::A(p, n)),
    ]
}
pub fn var_ty() -> impl Strategy<Value = Ty> {
    prop_oneof![1 => Just(Ty::Str), 1 => num().prop_map(Ty::V)]
}
pub fn any_ty() -> impl Strategy<Value = Ty> {
    prop_oneof![3 => fixed_ty(), 2 => var_ty()]
}

/// Entry counts of a fixed-size column, `budget` bounding the stored bytes.
fn fixed_runs(ty: Ty, budget: usize) -> BoxedStrategy<Vec<Run>> {
    let s = ty.fixed().unwrap();
    // number of entries that makes the writer flush: the first k with (k+1)*s >= 32768
    let per = ((32768 + s - 1) / s).saturating_sub(1).max(1);
    let maxn = (budget / s).max(2).min(60_000);
    let maxm = (budget / 32768).max(1);
    prop_oneof![
        4 => 0usize..=20.min(maxn),
        3 => 0usize..=400.min(maxn),
        4 => (1usize..=maxm, -3i64..=3).prop_map(move |(m, d)| ((m * per) as i64 + d).max(0) as usize),
        1 => 0usize..=maxn,
        1 => prop::sample::select(vec![999usize, 1000, 1001, 255, 256]).prop_map(move |n| n.min(maxn)),
    ]
    .prop_map(move |n| vec![Run { n: n.min(maxn + 4) as u32, sz: 0 }])
    .boxed()
}

/// Sizes of the entries of a variable-size column.
fn var_runs(ty: Ty, budget: usize) -> BoxedStrategy<Vec<Run>> {
    let w = match ty {
        Ty::V(p) => p.size(),
        _ => 1,
    };
    let lim = budget;
    let size = prop_oneof![
        3 => 0u32..=3,
        3 => 0u32..=20,
        3 => 250u32..=260,
        2 => 0u32..=1200,
        2 => (0u32..=30).prop_map(move |d| (32768 / w as u32).saturating_sub(15) + d),
        1 => (0u32..=30).prop_map(move |d| (16384 / w as u32).saturating_sub(15) + d),
        1 => (lim as u32 / w as u32 / 2)..=(lim as u32 / w as u32),
    ];
    let count = prop_oneof![6 => 1u32..=4, 3 => 1u32..=40, 2 => 900u32..=1100, 1 => 1u32..=4000, 1 => 1990u32..=2010];
    prop::collection::vec((count, size), 0..=6)
        .prop_map(move |v| {
            let mut left = budget;
            let mut out = vec![];
            for (n, sz) in v {
                let s = ty.stored(sz as usize);
                let n = (n as usize).min((left / s).max(if out.is_empty() { 1 } else { 0 }));
                if n == 0 {
                    continue;
                }
                left = left.saturating_sub(n * s);
                out.push(Run { n: n as u32, sz });
            }
            out
        })
        .boxed()
}

pub fn runs_for(ty: Ty, budget: usize) -> BoxedStrategy<Vec<Run>> {
    if ty.fixed().is_some() {
        fixed_runs(ty, budget)
    } else {
        var_runs(ty, budget)
    }
}

pub fn col_of<S>(ty: S, budget: usize) -> BoxedStrategy<Col>
where
    S: Strategy<Value = Ty> + 'static,
{
    ty.prop_flat_map(move |ty| (runs_for(ty, budget), pat(), any::<u64>()).prop_map(move |(runs, pat, seed)| Col { name: "c".into(), ty, runs, pat, seed: seed % 1000 }))
        .boxed()
}

/// Column names: mostly plain identifiers, also unusual ones.
pub fn name() -> impl Strategy<Value = String> {
    prop_oneof![
        6 => "[a-zA-Z_][a-zA-Z0-9_]{0,12}",
        1 => "[a-zA-Z_][a-zA-Z0-9_. ]{0,20}",
        1 => "[a-z]{240,270}",
        1 => "[a-zé€𝄞]{1,8}",
    ]
}
