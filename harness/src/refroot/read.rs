//! Independent strict ROOT file parser: record chain, directory, streamer infos,
//! streamer-info driven object decoding, TTree contents.
use super::comp;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type R<T> = Result<T, String>;

#[derive(Clone)]
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.p + n > self.b.len() {
            return Err(format!("need {n} bytes at {}, only {} in buffer", self.p, self.b.len()));
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn i16(&mut self) -> R<i16> {
        Ok(self.u16()? as i16)
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn i32(&mut self) -> R<i32> {
        Ok(self.u32()? as i32)
    }
    pub fn i64(&mut self) -> R<i64> {
        Ok(i64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn f64(&mut self) -> R<f64> {
        Ok(f64::from_bits(self.i64()? as u64))
    }
    pub fn str(&mut self) -> R<String> {
        let n = self.u8()? as usize;
        let n = if n == 255 { self.u32()? as usize } else { n };
        Ok(String::from_utf8_lossy(self.take(n)?).into_owned())
    }
    pub fn cstr(&mut self) -> R<String> {
        let mut v = Vec::new();
        loop {
            let c = self.u8()?;
            if c == 0 {
                break;
            }
            v.push(c);
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Key {
    pub pos: i64,
    pub nbytes: i32,
    pub vers: i16,
    pub objlen: i32,
    pub datime: u32,
    pub keylen: i16,
    pub cycle: i16,
    pub seekkey: i64,
    pub seekpdir: i64,
    pub class: String,
    pub name: String,
    pub title: String,
    /// bytes of the header proper (without what TBasket adds)
    pub hdrlen: usize,
}

pub fn read_key(c: &mut Cur, pos: i64) -> R<Key> {
    let beg = c.p;
    let nbytes = c.i32()?;
    let vers = c.i16()?;
    let objlen = c.i32()?;
    let datime = c.u32()?;
    let keylen = c.i16()?;
    let cycle = c.i16()?;
    let (seekkey, seekpdir) = if vers > 1000 {
        (c.i64()?, c.i64()?)
    } else {
        (c.i32()? as i64, c.i32()? as i64)
    };
    Ok(Key {
        pos,
        nbytes,
        vers,
        objlen,
        datime,
        keylen,
        cycle,
        seekkey,
        seekpdir,
        class: c.str()?,
        name: c.str()?,
        title: c.str()?,
        hdrlen: c.p - beg,
    })
}

#[derive(Debug, Clone)]
pub struct Header {
    pub version: i32,
    pub begin: i64,
    pub end: i64,
    pub seekfree: i64,
    pub nbytesfree: i32,
    pub nfree: i32,
    pub nbytesname: i32,
    pub units: u8,
    pub compress: i32,
    pub seekinfo: i64,
    pub nbytesinfo: i32,
}

#[derive(Debug, Clone)]
pub struct Dir {
    pub vers: i16,
    pub datimec: u32,
    pub datimem: u32,
    pub nbyteskeys: i32,
    pub nbytesname: i32,
    pub seekdir: i64,
    pub seekparent: i64,
    pub seekkeys: i64,
}

pub struct RFile {
    pub data: Vec<u8>,
    pub hdr: Header,
    /// all records in file order
    pub recs: Vec<Key>,
    /// free gaps (pos, len)
    pub gaps: Vec<(i64, i64)>,
    pub dir: Dir,
    pub dir_name: String,
    /// keys in the root directory key list
    pub keys: Vec<Key>,
    pub infos: Infos,
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub class: String, // TStreamerBase ...
    pub name: String,
    pub title: String,
    pub ty: i32,
    pub size: i32,
    pub array_len: i32,
    pub type_name: String,
    pub count_name: String,
    pub stl_type: i32,
    pub ctype: i32,
    pub base_vers: i32,
}
#[derive(Clone, Debug)]
pub struct Info {
    pub name: String,
    pub checksum: u32,
    pub vers: i32,
    pub elems: Vec<Elem>,
}
#[derive(Default, Clone, Debug)]
pub struct Infos {
    pub list: Vec<Rc<Info>>,
}
impl Infos {
    pub fn get(&self, class: &str, vers: i16) -> Option<Rc<Info>> {
        self.list
            .iter()
            .find(|i| i.name == class && i.vers == vers as i32)
            .cloned()
    }
    pub fn any(&self, class: &str) -> Option<Rc<Info>> {
        self.list.iter().find(|i| i.name == class).cloned()
    }
}

#[derive(Clone, Debug)]
pub enum V {
    I(i64),
    F(f64),
    S(String),
    Arr(Vec<V>),
    Bytes(Vec<u8>),
    Obj(Rc<Obj>),
    Null,
}
impl V {
    pub fn i(&self) -> i64 {
        match self {
            V::I(i) => *i,
            V::F(f) => *f as i64,
            _ => panic!("not an integer: {self:?}"),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            V::S(s) => s,
            _ => panic!("not a string: {self:?}"),
        }
    }
    pub fn arr(&self) -> &[V] {
        match self {
            V::Arr(s) => s,
            _ => panic!("not an array: {self:?}"),
        }
    }
    pub fn obj(&self) -> Option<Rc<Obj>> {
        match self {
            V::Obj(o) => Some(o.clone()),
            _ => None,
        }
    }
}
#[derive(Debug)]
pub struct Obj {
    pub class: String,
    pub vers: i16,
    pub fields: BTreeMap<String, V>,
    pub items: Vec<V>,
    /// key of the object in reference space (0 for objects not reached by pointer)
    pub addr: u32,
}
impl Obj {
    pub fn get(&self, n: &str) -> &V {
        self.fields
            .get(n)
            .unwrap_or_else(|| panic!("no member {n} in {}", self.class))
    }
    pub fn try_get(&self, n: &str) -> R<&V> {
        self.fields
            .get(n)
            .ok_or_else(|| format!("class {} lacks member {n}", self.class))
    }
    pub fn int(&self, n: &str) -> R<i64> {
        match self.try_get(n)? {
            V::I(i) => Ok(*i),
            V::F(f) => Ok(*f as i64),
            o => Err(format!("{}::{n} is not a number: {o:?}", self.class)),
        }
    }
    pub fn string(&self, n: &str) -> R<String> {
        match self.try_get(n)? {
            V::S(s) => Ok(s.clone()),
            o => Err(format!("{}::{n} is not a string: {o:?}", self.class)),
        }
    }
    pub fn objarr(&self, n: &str) -> R<Vec<Option<Rc<Obj>>>> {
        match self.try_get(n)? {
            V::Obj(o) => Ok(o.items.iter().map(|v| v.obj()).collect()),
            o => Err(format!("{}::{n} is not a collection: {o:?}", self.class)),
        }
    }
}

const BYTE_COUNT: u32 = 0x4000_0000;
const CLASS_MASK: u32 = 0x8000_0000;
const NEW_CLASS: u32 = 0xffff_ffff;

enum Ref {
    Class(String),
    Obj(V),
    Pending,
}

pub struct Dec<'a> {
    pub c: Cur<'a>,
    /// added to buffer position to form reference keys
    base: u32,
    refs: HashMap<u32, Ref>,
    infos: Infos,
    /// classes met whose description was needed
    pub used: Vec<(String, i16)>,
    last_count: HashMap<String, i64>,
}

struct Hdr {
    vers: i16,
    end: Option<usize>,
}

impl<'a> Dec<'a> {
    pub fn new(buf: &'a [u8], base: u32, infos: Infos) -> Self {
        Dec {
            c: Cur::new(buf),
            base,
            refs: HashMap::new(),
            infos,
            used: vec![],
            last_count: HashMap::new(),
        }
    }

    fn header(&mut self) -> R<Hdr> {
        let n = self.c.u32()?;
        if n & BYTE_COUNT != 0 && n != NEW_CLASS {
            let len = (n & !BYTE_COUNT) as usize;
            let end = self.c.p + len;
            if end > self.c.b.len() {
                return Err(format!("byte count at {} runs past the buffer", self.c.p - 4));
            }
            Ok(Hdr { vers: self.c.i16()?, end: Some(end) })
        } else {
            self.c.p -= 4;
            Ok(Hdr { vers: self.c.i16()?, end: None })
        }
    }
    fn check(&self, class: &str, h: &Hdr) -> R<()> {
        if let Some(e) = h.end {
            if e != self.c.p {
                return Err(format!(
                    "object of class {class} ends at {} but its byte count says {e}",
                    self.c.p
                ));
            }
        }
        Ok(())
    }

    fn tobject(&mut self, f: &mut BTreeMap<String, V>) -> R<()> {
        let v = self.c.u16()?;
        if v & 0x4000 != 0 {
            // with byte count
            self.c.p += 4;
        }
        f.insert("fUniqueID".into(), V::I(self.c.u32()? as i64));
        let bits = self.c.u32()?;
        f.insert("fBits".into(), V::I(bits as i64));
        if bits & (1 << 4) != 0 {
            self.c.u16()?;
        }
        Ok(())
    }

    /// object stored in place
    pub fn object(&mut self, class: &str, addr: u32) -> R<V> {
        let mut fields = BTreeMap::new();
        let mut items = vec![];
        let vers = self.object_into(class, &mut fields, &mut items)?;
        Ok(V::Obj(Rc::new(Obj { class: class.to_string(), vers, fields, items, addr })))
    }

    fn object_into(
        &mut self,
        class: &str,
        f: &mut BTreeMap<String, V>,
        items: &mut Vec<V>,
    ) -> R<i16> {
        match class {
            "TObject" => {
                self.tobject(f)?;
                return Ok(1);
            }
            "TString" => {
                let s = self.c.str()?;
                f.insert("str".into(), V::S(s));
                return Ok(2);
            }
            "TArrayD" | "TArrayI" => {
                let n = self.c.i32()?;
                for _ in 0..n {
                    let v = if class == "TArrayD" { V::F(self.c.f64()?) } else { V::I(self.c.i32()? as i64) };
                    items.push(v);
                }
                return Ok(1);
            }
            "TBasket" => {
                // embedded basket: key header + own fields + buffers
                let pos = self.c.p;
                let k = read_key(&mut self.c, pos as i64)?;
                let v = self.c.i16()?;
                f.insert("keylen".into(), V::I(k.keylen as i64));
                f.insert("fBufferSize".into(), V::I(self.c.i32()? as i64));
                f.insert("fNevBufSize".into(), V::I(self.c.i32()? as i64));
                let nev = self.c.i32()?;
                f.insert("fNevBuf".into(), V::I(nev as i64));
                let last = self.c.i32()?;
                f.insert("fLast".into(), V::I(last as i64));
                let flag = self.c.u8()?;
                f.insert("flag".into(), V::I(flag as i64));
                let gen = flag >= 80;
                let fl = if gen { flag - 80 } else { flag };
                if !gen && fl != 0 && fl % 10 != 2 && nev > 0 {
                    let n = self.c.i32()?;
                    let mut o = vec![];
                    for _ in 0..n {
                        o.push(V::I(self.c.i32()? as i64));
                    }
                    f.insert("offsets".into(), V::Arr(o));
                    if 20 < fl && fl < 40 {
                        let n = self.c.i32()?;
                        self.c.take(4 * n as usize)?;
                    }
                }
                if fl == 1 || fl > 10 {
                    let b = self.c.take(last as usize)?.to_vec();
                    f.insert("buffer".into(), V::Bytes(b));
                }
                return Ok(v);
            }
            _ => {}
        }
        let h = self.header()?;
        match class {
            "TNamed" => {
                self.tobject(f)?;
                f.insert("fName".into(), V::S(self.c.str()?));
                f.insert("fTitle".into(), V::S(self.c.str()?));
            }
            "TObjString" => {
                self.tobject(f)?;
                f.insert("fString".into(), V::S(self.c.str()?));
            }
            "TList" | "THashList" => {
                if h.vers <= 3 {
                    return Err(format!("unsupported TList version {}", h.vers));
                }
                self.tobject(f)?;
                f.insert("fName".into(), V::S(self.c.str()?));
                let n = self.c.i32()?;
                for _ in 0..n {
                    items.push(self.pointer()?);
                    let mut o = self.c.u8()? as usize;
                    if o == 255 && h.vers > 4 {
                        o = self.c.i32()? as usize;
                    }
                    self.c.take(o)?;
                }
            }
            "TMap" => {
                if h.vers > 2 {
                    self.tobject(f)?;
                }
                if h.vers > 1 {
                    f.insert("fName".into(), V::S(self.c.str()?));
                }
                let n = self.c.i32()?;
                for _ in 0..2 * n {
                    items.push(self.pointer()?);
                }
            }
            "TObjArray" | "TRefArray" => {
                if h.vers <= 2 {
                    return Err(format!("unsupported TObjArray version {}", h.vers));
                }
                self.tobject(f)?;
                f.insert("fName".into(), V::S(self.c.str()?));
                let n = self.c.i32()?;
                f.insert("fLowerBound".into(), V::I(self.c.i32()? as i64));
                for _ in 0..n {
                    items.push(self.pointer()?);
                }
            }
            "TStreamerInfo" => {
                let mut it = vec![];
                self.object_into("TNamed", f, &mut it)?;
                f.insert("fCheckSum".into(), V::I(self.c.u32()? as i64));
                f.insert("fClassVersion".into(), V::I(self.c.i32()? as i64));
                let p = self.pointer()?;
                f.insert("fElements".into(), p);
            }
            "TStreamerElement" => {
                let mut it = vec![];
                self.object_into("TNamed", f, &mut it)?;
                f.insert("fType".into(), V::I(self.c.i32()? as i64));
                f.insert("fSize".into(), V::I(self.c.i32()? as i64));
                f.insert("fArrayLength".into(), V::I(self.c.i32()? as i64));
                f.insert("fArrayDim".into(), V::I(self.c.i32()? as i64));
                let nmax = if h.vers == 1 { self.c.i32()? } else { 5 };
                for _ in 0..nmax {
                    self.c.i32()?;
                }
                f.insert("fTypeName".into(), V::S(self.c.str()?));
                if h.vers == 3 {
                    self.c.take(24)?;
                }
            }
            "TStreamerBase" => {
                let mut it = vec![];
                self.object_into("TStreamerElement", f, &mut it)?;
                if h.vers > 2 {
                    f.insert("fBaseVersion".into(), V::I(self.c.i32()? as i64));
                }
            }
            "TStreamerBasicType" | "TStreamerObject" | "TStreamerObjectPointer"
            | "TStreamerObjectAny" | "TStreamerObjectAnyPointer" | "TStreamerString"
            | "TStreamerArtificial" => {
                let mut it = vec![];
                self.object_into("TStreamerElement", f, &mut it)?;
            }
            "TStreamerBasicPointer" | "TStreamerLoop" => {
                let mut it = vec![];
                self.object_into("TStreamerElement", f, &mut it)?;
                f.insert("fCountVersion".into(), V::I(self.c.i32()? as i64));
                f.insert("fCountName".into(), V::S(self.c.str()?));
                f.insert("fCountClass".into(), V::S(self.c.str()?));
            }
            "TStreamerSTL" => {
                let mut it = vec![];
                self.object_into("TStreamerElement", f, &mut it)?;
                f.insert("fSTLtype".into(), V::I(self.c.i32()? as i64));
                f.insert("fCtype".into(), V::I(self.c.i32()? as i64));
            }
            "TStreamerSTLstring" => {
                let mut it = vec![];
                self.object_into("TStreamerSTL", f, &mut it)?;
            }
            _ => {
                let mut v = h.vers;
                let info = if v == 0 {
                    let ck = self.c.u32()?;
                    self.infos
                        .list
                        .iter()
                        .find(|i| i.name == class && i.checksum == ck)
                        .cloned()
                } else {
                    self.infos.get(class, v)
                };
                let info = info.ok_or_else(|| {
                    format!("no class description in the file for {class} version {v}")
                })?;
                if v == 0 {
                    v = info.vers as i16;
                }
                self.used.push((class.to_string(), v));
                self.members(&info, f, items)?;
            }
        }
        self.check(class, &h)?;
        Ok(h.vers)
    }

    fn basic(&mut self, t: i32) -> R<V> {
        Ok(match t {
            1 => V::I(self.c.u8()? as i8 as i64),
            2 => V::I(self.c.i16()? as i64),
            3 | 6 => V::I(self.c.i32()? as i64),
            4 | 16 => V::I(self.c.i64()?),
            5 => V::F(f32::from_bits(self.c.u32()?) as f64),
            8 => V::F(self.c.f64()?),
            9 => V::F(f32::from_bits(self.c.u32()?) as f64),
            11 => V::I(self.c.u8()? as i64),
            12 => V::I(self.c.u16()? as i64),
            13 | 15 => V::I(self.c.u32()? as i64),
            14 | 17 => V::I(self.c.i64()?),
            18 => {
                let b = self.c.u8()?;
                if b > 1 {
                    return Err(format!("boolean byte {b}"));
                }
                V::I(b as i64)
            }
            _ => return Err(format!("unsupported basic type {t}")),
        })
    }

    fn members(&mut self, info: &Info, f: &mut BTreeMap<String, V>, items: &mut Vec<V>) -> R<()> {
        for e in &info.elems {
            let n = e.name.clone();
            match e.ty {
                0 => {
                    let mut ff = BTreeMap::new();
                    let v = self.object_into(&n, &mut ff, items)?;
                    if e.base_vers != 0 && self.infos.any(&n).is_some() && v as i32 != e.base_vers {
                        return Err(format!(
                            "{} says base {n} has version {} but version {v} is stored",
                            info.name, e.base_vers
                        ));
                    }
                    f.extend(ff);
                }
                66 => {
                    self.tobject(f)?;
                }
                67 => {
                    let mut it = vec![];
                    self.object_into("TNamed", f, &mut it)?;
                }
                1..=19 if e.ty != 7 => {
                    let v = self.basic(e.ty)?;
                    if let V::I(i) = v {
                        self.last_count.insert(n.clone(), i);
                    }
                    f.insert(n, v);
                }
                7 => {
                    let n4 = self.c.i32()?;
                    let b = self.c.take(n4.max(0) as usize)?.to_vec();
                    f.insert(n, V::Bytes(b));
                }
                21..=39 => {
                    let mut v = vec![];
                    for _ in 0..e.array_len {
                        v.push(self.basic(e.ty - 20)?);
                    }
                    f.insert(n, V::Arr(v));
                }
                41..=59 => {
                    let marker = self.c.u8()?;
                    let cnt = match f.get(&e.count_name) {
                        Some(V::I(i)) => *i,
                        _ => *self
                            .last_count
                            .get(&e.count_name)
                            .ok_or_else(|| format!("no counter {} for {n}", e.count_name))?,
                    };
                    let mut v = vec![];
                    if marker != 0 {
                        for _ in 0..cnt {
                            v.push(self.basic(e.ty - 40)?);
                        }
                    } else if cnt != 0 {
                        return Err(format!("array {n} has no data marker but a count of {cnt}"));
                    }
                    f.insert(n, V::Arr(v));
                }
                61 | 62 | 63 | 68 => {
                    let cl = e.type_name.trim_end_matches('*').trim().to_string();
                    let v = self.object(&cl, 0)?;
                    f.insert(n, v);
                }
                64 | 69 => {
                    let v = self.pointer()?;
                    f.insert(n, v);
                }
                65 => {
                    let s = self.c.str()?;
                    f.insert(n, V::S(s));
                }
                365 => {
                    let h = self.header()?;
                    let s = self.c.str()?;
                    self.check("string", &h)?;
                    f.insert(n, V::S(s));
                }
                t => return Err(format!("unsupported member type {t} ({}::{n})", info.name)),
            }
        }
        Ok(())
    }

    pub fn pointer(&mut self) -> R<V> {
        let beg = self.c.p as u32 + self.base;
        let n = self.c.u32()?;
        let (tag, start, end) = if n & BYTE_COUNT == 0 || n == NEW_CLASS {
            (n, 0, None)
        } else {
            let start = self.c.p as u32 + self.base;
            let end = self.c.p + (n & !BYTE_COUNT) as usize;
            if end > self.c.b.len() {
                return Err(format!("object at {} runs past the buffer", self.c.p));
            }
            (self.c.u32()?, start, Some(end))
        };
        if tag & CLASS_MASK == 0 {
            if tag == 0 {
                return Ok(V::Null);
            }
            return match self.refs.get(&tag) {
                Some(Ref::Obj(v)) => Ok(v.clone()),
                Some(Ref::Pending) => Ok(V::Null),
                _ => Err(format!("object reference to {tag}, where no object was stored")),
            };
        }
        if end.is_none() {
            return Err("object without byte count".into());
        }
        let class = if tag == NEW_CLASS {
            let n = self.c.cstr()?;
            self.refs.insert(start + 2, Ref::Class(n.clone()));
            n
        } else {
            match self.refs.get(&(tag & !CLASS_MASK)) {
                Some(Ref::Class(c)) => c.clone(),
                _ => {
                    return Err(format!(
                        "class reference to {}, where no class was named",
                        tag & !CLASS_MASK
                    ))
                }
            }
        };
        self.refs.insert(beg + 2, Ref::Pending);
        let v = self.object(&class, beg + 2)?;
        if Some(self.c.p) != end {
            return Err(format!(
                "object of class {class} ends at {} but its byte count says {}",
                self.c.p,
                end.unwrap()
            ));
        }
        self.refs.insert(beg + 2, Ref::Obj(v.clone()));
        Ok(v)
    }
}

pub fn read_infos(buf: &[u8], base: u32) -> R<Infos> {
    let mut d = Dec::new(buf, base, Infos::default());
    let l = d.object("TList", 0)?;
    if d.c.p != buf.len() {
        return Err(format!(
            "streamer list record holds {} bytes but its list ends at {}",
            buf.len(),
            d.c.p
        ));
    }
    let mut infos = Infos::default();
    for it in &l.obj().unwrap().items {
        let o = it.obj().ok_or("null in streamer list")?;
        if o.class != "TStreamerInfo" {
            continue; // schema evolution rules list
        }
        let mut elems = vec![];
        for e in o.objarr("fElements")? {
            let e = e.ok_or("null streamer element")?;
            elems.push(Elem {
                class: e.class.clone(),
                name: e.string("fName")?,
                title: e.string("fTitle")?,
                ty: e.int("fType")? as i32,
                size: e.int("fSize")? as i32,
                array_len: e.int("fArrayLength")? as i32,
                type_name: e.string("fTypeName")?,
                count_name: e.string("fCountName").unwrap_or_default(),
                stl_type: e.int("fSTLtype").unwrap_or(-1) as i32,
                ctype: e.int("fCtype").unwrap_or(-1) as i32,
                base_vers: e.int("fBaseVersion").unwrap_or(0) as i32,
            });
        }
        infos.list.push(Rc::new(Info {
            name: o.string("fName")?,
            checksum: o.int("fCheckSum")? as u32,
            vers: o.int("fClassVersion")? as i32,
            elems,
        }));
    }
    Ok(infos)
}

impl RFile {
    pub fn open(path: &str) -> R<RFile> {
        RFile::parse(std::fs::read(path).map_err(|e| e.to_string())?)
    }

    pub fn payload(&self, k: &Key) -> R<Vec<u8>> {
        let s = (k.pos + k.keylen as i64) as usize;
        let e = (k.pos + k.nbytes as i64) as usize;
        let raw = self.data.get(s..e).ok_or("record payload out of file")?;
        if raw.len() == k.objlen as usize {
            Ok(raw.to_vec())
        } else {
            comp::decompress(raw, k.objlen as usize)
        }
    }

    pub fn parse(data: Vec<u8>) -> R<RFile> {
        let mut c = Cur::new(&data);
        if c.take(4)? != b"root" {
            return Err("no magic".into());
        }
        let version = c.i32()?;
        let begin = c.i32()? as i64;
        let big = version >= 1_000_000;
        let end = if big { c.i64()? } else { c.i32()? as i64 };
        let seekfree = if big { c.i64()? } else { c.i32()? as i64 };
        let nbytesfree = c.i32()?;
        let nfree = c.i32()?;
        let nbytesname = c.i32()?;
        let units = c.u8()?;
        let compress = c.i32()?;
        let seekinfo = if big { c.i64()? } else { c.i32()? as i64 };
        let nbytesinfo = c.i32()?;
        let hdr = Header {
            version,
            begin,
            end,
            seekfree,
            nbytesfree,
            nfree,
            nbytesname,
            units,
            compress,
            seekinfo,
            nbytesinfo,
        };
        if end as usize > data.len() {
            return Err(format!("header says the file ends at {end}, it has {} bytes", data.len()));
        }
        let mut recs = vec![];
        let mut gaps = vec![];
        let mut pos = begin;
        while pos < end {
            let mut c = Cur { b: &data, p: pos as usize };
            let n = c.i32()?;
            if n < 0 {
                gaps.push((pos, -(n as i64)));
                pos += -(n as i64);
                continue;
            }
            if n == 0 {
                return Err(format!("record of zero size at {pos}"));
            }
            c.p -= 4;
            let k = read_key(&mut c, pos)?;
            if k.nbytes < k.keylen as i32 || pos + k.nbytes as i64 > end {
                return Err(format!("record at {pos} has impossible size {}", k.nbytes));
            }
            pos += k.nbytes as i64;
            recs.push(k);
        }
        if pos != end {
            return Err(format!("records end at {pos}, header says {end}"));
        }
        let first = recs.first().ok_or("no records")?.clone();
        let mut f = RFile {
            data,
            hdr,
            recs,
            gaps,
            dir: Dir {
                vers: 0,
                datimec: 0,
                datimem: 0,
                nbyteskeys: 0,
                nbytesname: 0,
                seekdir: 0,
                seekparent: 0,
                seekkeys: 0,
            },
            dir_name: String::new(),
            keys: vec![],
            infos: Infos::default(),
        };
        // directory
        let mut c = Cur { b: &f.data, p: first.pos as usize + first.keylen as usize };
        f.dir_name = c.str()?;
        let _title = c.str()?;
        if c.p as i64 != first.pos + f.hdr.nbytesname as i64 {
            return Err(format!(
                "directory starts at {} but header says name takes {}",
                c.p, f.hdr.nbytesname
            ));
        }
        let vers = c.i16()?;
        let (dc, dm) = (c.u32()?, c.u32()?);
        let (nk, nn) = (c.i32()?, c.i32()?);
        let bigd = vers > 1000;
        let mut s = || -> R<i64> { Ok(if bigd { c.i64()? } else { c.i32()? as i64 }) };
        let (sd, sp, sk) = (s()?, s()?, s()?);
        f.dir = Dir {
            vers,
            datimec: dc,
            datimem: dm,
            nbyteskeys: nk,
            nbytesname: nn,
            seekdir: sd,
            seekparent: sp,
            seekkeys: sk,
        };
        // key list
        let kl = f
            .recs
            .iter()
            .find(|r| r.pos == f.dir.seekkeys)
            .ok_or("directory points at no record for its key list")?
            .clone();
        let pl = f.payload(&kl)?;
        let mut c = Cur::new(&pl);
        let n = c.i32()?;
        for _ in 0..n {
            let k = read_key(&mut c, 0)?;
            f.keys.push(k);
        }
        // real ROOT key lists may have slack, the caller checks that it is all used
        if c.p != pl.len() {
            f.gaps.push((-1, (pl.len() - c.p) as i64));
        }
        for k in f.keys.iter_mut() {
            k.pos = k.seekkey;
        }
        // streamer infos
        if f.hdr.seekinfo != 0 {
            let si = f
                .recs
                .iter()
                .find(|r| r.pos == f.hdr.seekinfo)
                .ok_or("header points at no record for the streamer list")?
                .clone();
            let pl = f.payload(&si)?;
            f.infos = read_infos(&pl, si.keylen as u32)?;
        }
        Ok(f)
    }

    pub fn object(&self, k: &Key) -> R<(Rc<Obj>, Vec<(String, i16)>)> {
        let pl = self.payload(k)?;
        let mut d = Dec::new(&pl, k.keylen as u32, self.infos.clone());
        let v = d.object(&k.class, 0)?;
        if d.c.p != pl.len() {
            return Err(format!(
                "object {} of class {} ends at {} in a record of {} bytes",
                k.name,
                k.class,
                d.c.p,
                pl.len()
            ));
        }
        Ok((v.obj().unwrap(), d.used))
    }
}

/// what a branch says about itself, and its entries as raw big-endian bytes
#[derive(Debug, Clone)]
pub struct BranchData {
    pub name: String,
    pub title: String,
    pub class: String,
    pub class_name: String,
    pub entries: i64,
    pub leaf_class: String,
    pub leaf_name: String,
    pub leaf_title: String,
    pub leaf_len: i64,
    pub leaf_lentype: i64,
    pub unsigned: bool,
    pub leaf_type: i64,
    pub data: Vec<Vec<u8>>,
    pub nbaskets: usize,
    pub basket_pos: Vec<i64>,
    pub tot_bytes: i64,
    pub zip_bytes: i64,
    /// the entry of the table after the last buffer is the number of entries
    pub table_end_ok: bool,
    pub children: Vec<BranchData>,
}

pub struct TreeData {
    pub name: String,
    pub title: String,
    pub entries: i64,
    pub branches: Vec<BranchData>,
    pub tot_bytes: i64,
    pub zip_bytes: i64,
    pub nleaves: usize,
    pub leaf_addrs_ok: bool,
    pub used: Vec<(String, i16)>,
}

fn leaf_size(class: &str) -> Option<usize> {
    Some(match class {
        "TLeafB" | "TLeafO" => 1,
        "TLeafS" => 2,
        "TLeafI" | "TLeafF" => 4,
        "TLeafL" | "TLeafD" => 8,
        _ => return None,
    })
}

pub fn split_strings(buf: &[u8], n: usize) -> R<Vec<Vec<u8>>> {
    let mut c = Cur::new(buf);
    let mut out = vec![];
    for _ in 0..n {
        let l = c.u8()? as usize;
        let l = if l == 255 { c.u32()? as usize } else { l };
        out.push(c.take(l)?.to_vec());
    }
    if c.p != buf.len() {
        return Err("bytes left after the last string of a buffer".into());
    }
    Ok(out)
}

impl RFile {
    pub fn tree(&self, k: &Key) -> R<TreeData> {
        let (t, used) = self.object(k)?;
        let name = t.string("fName")?;
        let mut branches = vec![];
        let mut leaves = vec![];
        for b in t.objarr("fBranches")? {
            let b = b.ok_or("null branch")?;
            branches.push(self.branch(&b, &name, &mut leaves)?);
        }
        let tl = t.objarr("fLeaves")?;
        let tl: Vec<u32> = tl.iter().map(|l| l.as_ref().map(|l| l.addr).unwrap_or(0)).collect();
        Ok(TreeData {
            title: t.string("fTitle")?,
            entries: t.int("fEntries")?,
            tot_bytes: t.int("fTotBytes")?,
            zip_bytes: t.int("fZipBytes")?,
            nleaves: tl.len(),
            leaf_addrs_ok: tl == leaves && !tl.contains(&0),
            name,
            branches,
            used,
        })
    }

    fn branch(&self, b: &Obj, tree: &str, leaves_out: &mut Vec<u32>) -> R<BranchData> {
        let name = b.string("fName")?;
        let ctx = |e: String| format!("branch {name:?}: {e}");
        let leaves = b.objarr("fLeaves")?;
        for l in &leaves {
            leaves_out.push(l.as_ref().map(|l| l.addr).unwrap_or(0));
        }
        let mut children = vec![];
        for c in b.objarr("fBranches")? {
            children.push(self.branch(&*c.ok_or("null branch")?, tree, leaves_out)?);
        }
        let mut bd = BranchData {
            title: b.string("fTitle")?,
            class: b.class.clone(),
            class_name: b.string("fClassName").unwrap_or_default(),
            entries: b.int("fEntries")?,
            leaf_class: String::new(),
            leaf_name: String::new(),
            leaf_title: String::new(),
            leaf_len: 0,
            leaf_lentype: 0,
            unsigned: false,
            leaf_type: 0,
            data: vec![],
            nbaskets: 0,
            basket_pos: vec![],
            tot_bytes: b.int("fTotBytes")?,
            zip_bytes: b.int("fZipBytes")?,
            table_end_ok: true,
            children,
            name: name.clone(),
        };
        if leaves.len() != 1 {
            return Ok(bd);
        }
        let l = leaves[0].clone().ok_or("null leaf")?;
        bd.leaf_class = l.class.clone();
        bd.leaf_name = l.string("fName")?;
        bd.leaf_title = l.string("fTitle")?;
        bd.leaf_len = l.int("fLen")?;
        bd.leaf_lentype = l.int("fLenType")?;
        bd.unsigned = l.int("fIsUnsigned")? != 0;
        bd.leaf_type = l.int("fType").unwrap_or(0);
        let var_count = !matches!(l.try_get("fLeafCount")?, V::Null);

        let nb = b.int("fWriteBasket")? as usize;
        let maxb = b.int("fMaxBaskets")? as usize;
        if maxb <= nb {
            return Err(ctx(format!("table size {maxb} does not exceed the basket count {nb}")));
        }
        let bytes = b.try_get("fBasketBytes")?.arr().to_vec();
        let entry = b.try_get("fBasketEntry")?.arr().to_vec();
        let seek = b.try_get("fBasketSeek")?.arr().to_vec();
        if bytes.len() != maxb || entry.len() != maxb || seek.len() != maxb {
            return Err(ctx("basket tables shorter than announced".into()));
        }
        let mut at: i64 = 0;
        let mut tot: i64 = 0;
        for i in 0..nb {
            if seek[i].i() == 0 {
                continue;
            }
            let pos = seek[i].i();
            let mut c = Cur { b: &self.data, p: pos as usize };
            let k = read_key(&mut c, pos).map_err(&ctx)?;
            if k.class != "TBasket" || k.name != name || k.title != tree {
                return Err(ctx(format!("basket {i} at {pos} is {k:?}")));
            }
            if k.nbytes as i64 != bytes[i].i() {
                return Err(ctx(format!("basket {i}: table says {} bytes, record {}", bytes[i].i(), k.nbytes)));
            }
            if entry[i].i() != at {
                return Err(ctx(format!("basket {i} starts at entry {at}, table says {}", entry[i].i())));
            }
            let _v = c.i16()?;
            let bufsize = c.i32()?;
            let nevsize = c.i32()?;
            let nev = c.i32()?;
            let last = c.i32()?;
            let flag = c.u8()?;
            if c.p as i64 != pos + k.keylen as i64 {
                return Err(ctx(format!("basket {i}: header is {} long, key says {}", c.p as i64 - pos, k.keylen)));
            }
            if flag != 0 {
                return Err(ctx(format!("basket {i}: unexpected flag {flag} on disk")));
            }
            let _ = (bufsize, nevsize);
            let pl = self.payload(&k).map_err(&ctx)?;
            let border = last as i64 - k.keylen as i64;
            if border < 0 || border as usize > pl.len() {
                return Err(ctx(format!("basket {i}: data end {border} outside its {} bytes", pl.len())));
            }
            let data = &pl[..border as usize];
            let mut offs: Option<Vec<usize>> = None;
            if pl.len() > border as usize {
                let mut c = Cur { b: &pl, p: border as usize };
                let n = c.i32()? as usize;
                if n != nev as usize + 1 || pl.len() != border as usize + 4 + 4 * n {
                    return Err(ctx(format!(
                        "basket {i}: offset table of {n} for {nev} entries in {} bytes",
                        pl.len() - border as usize
                    )));
                }
                let mut o = vec![];
                for j in 0..nev {
                    let v = c.i32()? as i64 - k.keylen as i64;
                    let prev = o.last().copied().unwrap_or(0) as i64;
                    if v < prev || v > border || (j == 0 && v != 0) {
                        return Err(ctx(format!("basket {i}: offset {j} is {v}")));
                    }
                    o.push(v as usize);
                }
                o.push(border as usize);
                offs = Some(o);
            }
            if nev > nevsize && offs.is_some() {
                return Err(ctx(format!("basket {i}: {nev} entries exceed table size {nevsize}")));
            }
            let mut ents: Vec<Vec<u8>> = vec![];
            if let Some(o) = &offs {
                for w in o.windows(2) {
                    ents.push(data[w[0]..w[1]].to_vec());
                }
                if nev == 0 && !data.is_empty() {
                    return Err(ctx(format!("basket {i}: data without entries")));
                }
            } else if let Some(sz) = leaf_size(&bd.leaf_class) {
                let w = sz * bd.leaf_len as usize;
                if data.len() != w * nev as usize {
                    return Err(ctx(format!(
                        "basket {i}: {} bytes for {nev} entries of {w} bytes",
                        data.len()
                    )));
                }
                if w > 0 {
                    ents = data.chunks(w).map(|c| c.to_vec()).collect();
                } else {
                    ents = vec![vec![]; nev as usize];
                }
            } else if bd.leaf_class == "TLeafC" {
                ents = split_strings(data, nev as usize)
                    .map_err(&ctx)?
                    .into_iter()
                    .map(|s| {
                        let mut v = enc_str(s.len());
                        v.extend(s);
                        v
                    })
                    .collect();
            } else if nev > 0 {
                // split object: fixed-size member
                if data.len() % nev as usize != 0 {
                    return Err(ctx(format!("basket {i}: {} bytes for {nev} entries", data.len())));
                }
                ents = data.chunks((data.len() / nev as usize).max(1)).map(|c| c.to_vec()).collect();
            }
            if ents.len() != nev as usize {
                return Err(ctx(format!("basket {i}: {} entries, {nev} announced", ents.len())));
            }
            if bd.leaf_class == "TLeafC" {
                for e in &ents {
                    split_strings(e, 1).map_err(&ctx)?;
                }
            }
            if !var_count && offs.is_none() && bd.leaf_class == "TLeafElement" && bd.class_name.starts_with("vector") {
                return Err(ctx("variable-size entries without offset table".into()));
            }
            at += nev as i64;
            tot += k.objlen as i64 + k.keylen as i64;
            bd.basket_pos.push(pos);
            bd.data.extend(ents);
        }
        bd.nbaskets = bd.basket_pos.len();
        // embedded baskets
        for o in b.objarr("fBaskets")?.into_iter().flatten() {
            let nev = o.int("fNevBuf")? as usize;
            let kl = o.int("keylen")? as usize;
            if let Some(V::Bytes(buf)) = o.fields.get("buffer") {
                if let Some(V::Arr(off)) = o.fields.get("offsets") {
                    let mut os: Vec<usize> = off.iter().take(nev).map(|v| v.i() as usize).collect();
                    os.push(buf.len());
                    for w in os.windows(2) {
                        bd.data.push(buf[w[0]..w[1]].to_vec());
                    }
                } else if nev > 0 {
                    let d = &buf[kl..];
                    if bd.leaf_class == "TLeafC" {
                        for s in split_strings(d, nev).map_err(&ctx)? {
                            let mut v = enc_str(s.len());
                            v.extend(s);
                            bd.data.push(v);
                        }
                    } else {
                        for c in d.chunks((d.len() / nev).max(1)) {
                            bd.data.push(c.to_vec());
                        }
                    }
                }
            }
            at += nev as i64;
        }
        bd.table_end_ok = entry[nb].i() == at;
        if at != bd.entries && !(at == 0 && !bd.children.is_empty()) {
            return Err(ctx(format!("buffers hold {at} entries, branch announces {}", bd.entries)));
        }
        let _ = tot;
        Ok(bd)
    }
}

pub fn enc_str(n: usize) -> Vec<u8> {
    if n < 255 {
        vec![n as u8]
    } else {
        let mut v = vec![255];
        v.extend((n as u32).to_be_bytes());
        v
    }
}
